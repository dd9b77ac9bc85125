"""Runs all cases of one property: compile from /repo, execute symbolically, decide, write evidence."""
import argparse, importlib, json, multiprocessing as mpx, os, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['-I' + os.path.join(VERIF, 'harness'), '-I' + REPO + '/include', '-I' + REPO + '/3rd-party/Tick', '-I/usr/include/eigen3']
BASE = ['-std=c++17', '-w', '-DNDEBUG', '-ffp-contract=off']
IRFLAGS = ['-O1', '-DEIGEN_DONT_VECTORIZE', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-S', '-emit-llvm']
NATFLAGS = ['-O1', '-DEIGEN_DONT_VECTORIZE', '-shared', '-fPIC']


class Tu:
    def __init__(self, name, cases, head, mode='num'):
        self.name, self.cases, self.head, self.mode = name, cases, head, mode

    def source(self):
        return self.head + '\n'.join(c.source() for c in self.cases)


def sh(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, 'timeout'
    return p.returncode, out


def compile_ir(src, dst, mode):
    flags = list(IRFLAGS)
    if mode == 'mem':
        flags += ['-Xclang', '-disable-llvm-passes']
    return sh(['clang++'] + BASE + flags + INC + [src, '-o', dst], 400)


def work(args):
    """Process one TU in its own process."""
    tu, bdir, seed, q, opts = args
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    t0 = time.time()
    out = {'tu': tu.name, 'results': [], 'compile_errors': [], 'stats': {}}
    try:
        run_tu(tu, bdir, seed, out, opts)
    except Exception:
        out['error'] = traceback.format_exc()[-3000:]
    out['wall'] = time.time() - t0
    q.put(out)


def first_error(log):
    for l in log.splitlines():
        if ' error: ' in l or 'fatal error' in l:
            return l[:400]
    return log[-400:]


def run_tu(tu, bdir, seed, out, opts):
    from . import ir, execu, alg, decide, native
    src = os.path.join(bdir, tu.name + '.cpp')
    ll = os.path.join(bdir, tu.name + '.ll')
    so = os.path.join(bdir, tu.name + '.so')
    open(src, 'w').write(tu.source())
    nat = subprocess.Popen(['g++'] + BASE + NATFLAGS + INC + [src, '-o', so], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    t = time.time()
    rc, log = compile_ir(src, ll, tu.mode)
    cases = tu.cases
    if rc != 0:
        # find the harnesses that no longer compile
        nat.wait()
        if len(cases) == 1:
            out['compile_errors'].append((cases[0].name, first_error(log), rc))
            return
        good = []
        for i, c in enumerate(cases):
            one = Tu('%s_%d' % (tu.name, i), [c], tu.head, tu.mode)
            run_tu(one, bdir, seed, out, opts)
        return
    out['stats']['compile_s'] = out['stats'].get('compile_s', 0) + time.time() - t
    t = time.time()
    mod = ir.Module(open(ll).read())
    m = execu.Machine(mod)
    m.leaks = tu.mode == 'mem'
    out['stats']['parse_s'] = out['stats'].get('parse_s', 0) + time.time() - t
    nrc = nat.wait()
    nv = native.Native(so) if nrc == 0 else None
    for c in cases:
        d = (opts.get('decider') or decide.Decider)(m, nv, seed, budget=opts.get('budget', 120))
        try:
            r = d.run(c)
        except execu.Unsupported as ex:
            r = decide.Result(c.name)
            r.undischarged.append(('*', '*', 'not encodable: %s' % ex))
        except Exception:
            r = decide.Result(c.name)
            r.undischarged.append(('*', '*', 'engine error: ' + traceback.format_exc()[-700:]))
        out['results'].append(r)
    if nv:
        nv.stop()
    s = out['stats']
    s['instructions'] = s.get('instructions', 0) + m.total_steps
    s['blocks'] = s.get('blocks', 0) + m.total_blocks
    s.setdefault('functions', set()).update(m.fns_run)
    s['native_runs'] = s.get('native_runs', 0) + (nv.runs if nv else 0)
    st = alg.STATS
    s.update(queries=st.queries, solver_s=st.time, unsat=st.unsat, sat=st.sat, unknown=st.unknown)


def demangle(names):
    names = sorted(n.lstrip('@').strip('"') for n in names)
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')


def chunk(cases, n, name, head, mode='num'):
    groups = {}
    for c in cases:
        groups.setdefault(c.group, []).append(c)
    tus = []
    for g, cs in groups.items():
        for i in range(0, len(cs), n):
            tus.append(Tu('%s_%d' % (name, len(tus)), cs[i:i + n], head, mode))
    return tus


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def is_known(known, prop, v):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['case'] == v['case'] and \
                ('label' not in k or v['label'].startswith(k['label'])) and ('kind' not in k or k['kind'] == v['kind']):
            return k
    return None


def run(mod, tier, seed, only=None, verbose=False, jobs=8):
    t0 = time.time()
    prop = mod.PROPERTY
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if any(o in c.name for o in only)]
    bdir = tempfile.mkdtemp(prefix='wgv_%s_' % prop)
    try:
        return run_in(mod, tier, seed, cases, bdir, t0, verbose, jobs)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def run_in(mod, tier, seed, cases, bdir, t0, verbose, jobs):
    prop = mod.PROPERTY
    from . import case as casemod
    head = getattr(mod, 'FIRST', '') + casemod.HEAD + getattr(mod, 'PRE', '')
    per = getattr(mod, 'PER_TU', 6)
    per = max(1, min(per, -(-len(cases) // jobs)))
    tus = chunk(cases, per, prop.lower(), head, getattr(mod, 'MODE', 'num'))
    opts = {'budget': getattr(mod, 'BUDGET', 100 if tier == 'quick' else 400)}
    if hasattr(mod, 'DECIDER'):
        opts['decider'] = mod.DECIDER
    limit = t0 + (700 if tier == 'quick' else 3300)
    ctxm = mpx.get_context('fork')
    q = ctxm.Queue()
    pend = list(tus)
    live = {}
    done = []
    known = load_known()

    def arrived(o):
        nonlocal limit
        done.append(o)
        if o['compile_errors'] or any(not is_known(known, prop, v) for r in o['results'] for v in r.violations):
            limit = min(limit, time.time() + 20)     # the verdict is settled
    while pend or live:
        while pend and len(live) < jobs:
            tu = pend.pop(0)
            p = ctxm.Process(target=work, args=((tu, bdir, seed, q, opts),))
            p.start()
            live[tu.name] = (p, tu)
        try:
            o = q.get(timeout=1)
            arrived(o)
            p, tu = live.pop(o['tu'])
            p.join(5)
            if verbose:
                show(o)
            continue
        except Exception:
            pass
        for nm, (p, tu) in list(live.items()):
            if not p.is_alive():
                try:
                    while True:
                        o = q.get(timeout=.5)
                        arrived(o)
                        live.pop(o['tu'], None)
                except Exception:
                    pass
                if nm in live:
                    live.pop(nm)
                    done.append({'tu': nm, 'results': [], 'compile_errors': [], 'stats': {}, 'error': 'worker died (exit %s)' % p.exitcode,
                                 'names': [c.name for c in tu.cases]})
        if time.time() > limit:
            for nm, (p, tu) in live.items():
                p.kill()
                done.append({'tu': nm, 'results': [], 'compile_errors': [], 'stats': {}, 'error': 'time limit', 'names': [c.name for c in tu.cases]})
            for tu in pend:
                done.append({'tu': tu.name, 'results': [], 'compile_errors': [], 'stats': {}, 'error': 'time limit', 'names': [c.name for c in tu.cases]})
            break
    return finish(mod, tier, seed, cases, done, t0, verbose)


def show(o):
    if o.get('error'):
        print('  TU', o['tu'], 'ERROR', o['error'])
    for e in o['compile_errors']:
        print('  COMPILE', e)
    for r in o['results']:
        print('  %-34s paths %d(-%d) proved %d approx %d valid %d undis %d viol %d  %.1fs' % (
            r.name, r.paths, r.infeasible, r.proved, r.approx, r.validated, len(r.undischarged), len(r.violations), r.time))
        for u in r.undischarged[:8]:
            print('       undischarged', u)
        for v in r.violations[:4]:
            print('       VIOL', v['path'], v['kind'], v['label'], v['detail'] if v['detail'] else '', v['inputs_dec'][:8])
        for n in r.val_mismatch[:4]:
            print('       mismatch', n)
        for n in r.notes[:4]:
            print('       note', n)
    print('   ', {k: (round(v, 2) if isinstance(v, float) else (len(v) if isinstance(v, set) else v)) for k, v in o['stats'].items()}, 'wall %.1f' % o.get('wall', 0), flush=True)


def finish(mod, tier, seed, cases, done, t0, verbose):
    prop = mod.PROPERTY
    known = load_known()
    bycase = {c.name: c for c in cases}
    violations, knownhits = [], {}
    T = dict(paths=0, infeasible=0, proved=0, approx=0, validated=0, instructions=0, blocks=0, queries=0, solver_s=0., unsat=0, sat=0,
             unknown=0, native_runs=0, compile_s=0.)
    fns = set()
    undis, errors, mism, samples = [], [], [], []
    percase = {}
    for o in done:
        for k in T:
            T[k] += o['stats'].get(k, 0)
        fns |= o['stats'].get('functions', set())
        if o.get('error'):
            errors.append({'tu': o['tu'], 'error': o['error'], 'cases': o.get('names', [])})
        for nm, log, rc in o['compile_errors']:
            v = {'case': nm, 'path': '-', 'kind': 'does not compile', 'label': 'harness', 'inputs': [], 'inputs_dec': [], 'native': None, 'detail': log}
            if rc == 124:
                errors.append({'tu': o['tu'], 'error': 'compiler timeout', 'cases': [nm]})
            else:
                violations.append(v)
        for r in o['results']:
            for k in ('paths', 'infeasible', 'proved', 'approx', 'validated'):
                T[k] += getattr(r, k)
            for u in r.undischarged:
                undis.append({'case': r.name, 'path': u[0], 'what': u[1], 'why': u[2]})
            for x in r.val_mismatch:
                mism.append({'case': r.name, 'path': x[0], 'output': x[1], 'encoded': str(x[2]), 'native': str(x[3])})
            violations += r.violations
            samples += r.samples
            percase[r.name] = {'paths': r.paths, 'proved': r.proved, 'bounded_error': r.approx, 'validated': r.validated,
                               'undischarged': len(r.undischarged), 's': round(r.time, 2)}
    fresh = []
    for v in violations:
        k = is_known(known, prop, v)
        if k:
            knownhits[k['id']] = k
        else:
            fresh.append(v)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    lines = []
    seen = set()
    for v in fresh:
        key = v['case']
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%s.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in v['case'])))
        c = bycase.get(v['case'])
        from . import case as casemod
        head = getattr(mod, 'FIRST', '') + casemod.HEAD + getattr(mod, 'PRE', '')
        json.dump({'property': prop, 'case': v['case'], 'source': head + c.source() if c else '', 'function': c.cname() if c else '',
                   'n_out': c.n_out if c else 0, 'violations': [w for w in fresh if w['case'] == v['case']][:10]}, open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'states': T['paths'] + T['infeasible'], 'transitions': T['blocks'], 'traces_validated_against_impl': T['validated'],
            'samples': samples[:12] or [{'case': c.name} for c in cases[:5]], 'native_runs': T['native_runs'],
            'paths_feasible': T['paths'], 'paths_infeasible': T['infeasible'], 'ir_instructions': T['instructions'],
            'cases': len(cases), 'obligations_proved': T['proved'], 'obligations_bounded_error': T['approx'],
            'obligations_undischarged': len(undis), 'solver_queries': T['queries'], 'solver_seconds': round(T['solver_s'], 2),
            'solver_verdicts': {'unsat': T['unsat'], 'sat': T['sat'], 'unknown': T['unknown']},
            'functions_encoded_count': len(fns),
            'functions_encoded': [f[:160] for f in demangle(fns) if 'wave::' in f][:120],
            'bounds': getattr(mod, 'BOUNDS', ''), 'outside_bounds': getattr(mod, 'OUTSIDE', ''),
            'per_case': percase, 'undischarged': undis[:200], 'engine_errors': errors, 'encoding_mismatches': mism[:50],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    ev['coverage']['violation_details'] = [{k: v[k] for k in ('case', 'path', 'kind', 'label', 'inputs_dec', 'detail')} for v in fresh[:40]]
    ev = json.loads(json.dumps(ev, default=str))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for k in knownhits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for l in lines:
        print(l)
    print('%s %s: %d cases, %d paths, %d proved, %d bounded, %d undischarged, %d errors, %d mismatches, %d queries (%.1fs solver), wall %.1fs' % (
        prop, tier, len(cases), T['paths'], T['proved'], T['approx'], len(undis), len(errors), len(mism), T['queries'], T['solver_s'], wall))
    if errors:
        for e in errors[:5]:
            print('  engine error:', str(e)[:600])
    return 1 if lines else 0


COMMON = [
    'floating point values are read as exact reals; branch conditions are those of the code, comparisons never see NaN',
    'literals within one ulp of a rational with denominator below 2000 are read as that rational',
    'IR produced by clang 18 -O1 from the current tree without vectorisation; libm functions are the mathematical functions',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(a.property.lower())
    sys.exit(run(mod, a.tier, seed, a.only, a.v, a.j))
