"""Decides one case: symbolic execution of the harness, one solver query per obligation and path."""
import random, time
from fractions import Fraction
import mpmath as mp
import z3
from . import dag, execu, alg, poly
from .alg import Ctx, mpeval, Unresolved, NeedDen, TooBig, R as Q
from .execu import UNDEF

FLAVOURS = ['default'] * 8 + ['big', 'edge', 'small', 'small', 'zero'] + ['small-%d' % k for k in (2, 3, 4, 5, 6, 7, 8, 9, 12, 18)]
VTOL = 1e-6


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.proved = 0
        self.approx = 0
        self.undischarged = []     # (path, label, reason)
        self.violations = []       # dict
        self.validated = 0
        self.val_mismatch = []
        self.samples = []
        self.notes = []
        self.truncated = False
        self.time = 0
        self.pathinfo = []


def conds_hold(conds, env):
    memo = {}
    for c, k in conds:
        try:
            v = mpeval([c], env, memo)[0]
        except Exception:
            return False
        if bool(v) != k:
            return False
    return True


def fl(x):
    try:
        return float(x)
    except Exception:
        return float('nan')


def seed_env(env):
    """Round the sample to doubles where inputs are read directly."""
    return env


class Decider:
    def __init__(self, machine, native, seed=1, timeout_ms=20000, budget=300):
        self.machine, self.native, self.seed = machine, native, seed
        self.timeout = timeout_ms
        self.budget = budget

    # ----------------------------------------------------------------
    def run(self, case):
        t0 = time.time()
        res = Result(case.name)
        self.case, self.res = case, res
        self.deadline = t0 + (case.timeout or self.budget)
        spec, ins, env = case.build()
        self.spec, self.ins, self.env = spec, ins, env
        rng = random.Random(self.seed * 7919 + 17)
        pool = []
        for f in FLAVOURS:
            if f != 'default' and not spec.small and f != 'zero':
                continue
            pool.append(self.draw(rng, f))
        self.pool = [e for e in pool if e]
        m = self.machine
        paths, trunc = execu.explore(m, case.cname(), case.n_in, case.n_out, ins, self.feasible, case.max_paths)
        if trunc:
            res.truncated = True
            res.undischarged.append(('*', 'paths', 'more than %d paths' % case.max_paths))
        if getattr(case, 'custom', None):
            case.custom(self, paths)
        else:
            # paths with known inputs first, so that the budget goes to them
            self.deadline += min(time.time() - t0, self.budget)
            order = sorted(range(len(paths)), key=lambda i: not any(conds_hold(paths[i].conds, e) for e in self.pool))
            for i in order:
                self.path(i, paths[i], rng)
        res.time = time.time() - t0
        return res

    def draw(self, rng, flavour):
        w = [(c, True) for c in self.spec.where]
        for _ in range(20 if flavour != 'zero' else 1):
            e = self.spec.sample(rng, flavour)
            if not w or conds_hold(w, e):
                return e
        return None

    # feasibility of a branch at exploration time: a sample, or the solver fails to refute it
    def feasible(self, path, c):
        if getattr(self.case, 'nofeas', False):
            return (True, False)
        out = []
        for k in (True, False):
            pc = list(path) + [(c, k)]
            if any(conds_hold(pc, e) for e in self.pool):
                out.append(k)
            elif not self.refuted(pc):
                out.append(k)
            else:
                self.res.infeasible += 1
        return tuple(out)

    def refuted(self, pc):
        """The solver shows that no input satisfies the conditions."""
        dens = self.__dict__.setdefault('dens', {}).setdefault(self.case.name, {})
        for attempt in range(4):
            try:
                ctx = self.new_ctx(self.pool[:6], dens)
                fs = [self.cond_z(ctx, c, k) for c, k in pc]
                break
            except NeedDen as nd:
                dens[nd.a.id] = nd.den
            except (Unresolved, TooBig):
                return False
        else:
            return False
        return self.contradictory(ctx, fs, 3000)

    def contradictory(self, ctx, fs, timeout, lemmas=(), local=False):
        """No values satisfy fs and the recorded facts: first over independent monomials, then over the reals
        (local: only the facts about the unknowns of fs)."""
        ineq = ctx.ineq
        if local:
            # unknowns of the goal, and those their defining equations mention
            used = {t.get_id() for f in fs for t in alg.zvars(f)}
            defs = [(ctx.z(a), ctx.z(b)) for a, b in ctx.gz.values()]
            grow = True
            while grow:
                grow = False
                for a, b in defs:
                    va, vb = {t.get_id() for t in alg.zvars(a)}, {t.get_id() for t in alg.zvars(b)}
                    if va & used and not (va | vb) <= used:
                        used |= va | vb
                        grow = True
            ineq = [x for x in ineq if {t.get_id() for t in alg.zvars(x)} <= used]
        lin = alg.Linear()
        s = z3.Solver()
        for x in fs + ineq:
            try:
                s.add(lin.formula(x))
            except (Unresolved, TooBig):
                pass
        for n in lemmas:
            try:
                z = ctx.zr(ctx.rewrite(n))
                if z[2]:
                    s.add(lin(z[0] * z[0]) >= 0)
            except (Unresolved, TooBig):
                pass
        for x in lin.squares():
            s.add(x)
        if alg.check(s, 2000) == z3.unsat:
            return True
        s = z3.Solver()
        for x in ctx.rule_facts() + ineq + fs:
            s.add(x)
        return alg.check(s, timeout) == z3.unsat

    def new_ctx(self, samples, dens=None):
        ctx = Ctx(samples, self.timeout)
        if dens:
            ctx.trigden.update(dens)
        self.spec.setup(ctx)
        for c in self.spec.where:
            ctx.assume(self.cond_z(ctx, c, True))
        ctx.hints = list(dict.fromkeys(self.case.hints))
        return ctx

    def cond_z(self, ctx, c, k):
        o = c.op
        if o == 'not':
            return z3.Not(self.cond_z(ctx, c.args[0], None)) if k is None else self.cond_z(ctx, c.args[0], not k)
        if o in ('lt', 'eq'):
            x, y = c.args
            if o == 'lt' and x.op == 'fabs':
                f = z3.And(*[self.rel(ctx, ctx.rewrite(v), ctx.rewrite(y), o, k and True or None) for v in (x.args[0], alg.neg(x.args[0]))])
                return z3.Not(f) if k is False else f
            if o == 'lt' and y.op == 'fabs':
                f = z3.Or(*[self.rel(ctx, ctx.rewrite(x), ctx.rewrite(v), o, False if k is False else None) for v in (y.args[0], alg.neg(y.args[0]))])
                return z3.Not(f) if k is False else f
            a, b = ctx.rewrite(x), ctx.rewrite(y)
            f = self.rel(ctx, a, b, o, k)
            return z3.Not(f) if k is False else f
        if o == 'and':
            f = z3.And(self.cond_z(ctx, c.args[0], k or None), self.cond_z(ctx, c.args[1], k or None))
            return z3.Not(f) if k is False else f
        if o in ('true', 'false'):
            return z3.BoolVal((o == 'true') == (k is not False))
        raise Unresolved('condition ' + o)

    def rel(self, ctx, a, b, o, k=None):
        d = alg.sub(a, b)
        r = ctx.conv(d)
        if k is not None and not r.den:
            if o == 'lt':
                ctx.pfacts.append((poly.pscale(r.num, -1), '>') if k else (r.num, '>='))
            elif k:
                ctx.pfacts.append((r.num, '='))
        n, den = ctx.zpoly(r.num), ctx.zpoly({(): 1})
        if r.den:
            dp = {(): 1}
            for f, e in r.den.items():
                dp = poly.pmul(dp, poly.ppow(ctx.fpoly(f), e))
            n = n * ctx.zpoly(dp)
        return n < 0 if o == 'lt' else n == 0

    # ----------------------------------------------------------------
    def path_samples(self, p, rng):
        ok = [e for e in self.pool if conds_hold(p.conds, e)]
        if len(ok) < 3 and p.conds:
            for t in range(240):
                e = self.draw(rng, FLAVOURS[t % len(FLAVOURS)])
                if e and conds_hold(p.conds, e):
                    ok.append(e)
                    if len(ok) >= 4:
                        break
        if not ok and p.conds and not self.refuted(p.conds):
            where = [(c, True) for c in self.spec.where]
            for e in self.model_samples(p):
                if conds_hold(list(p.conds) + where, e):
                    ok.append(e)
        return ok

    def model_samples(self, p):
        """Inputs on a path no sample takes: first from a solver model of its conditions, then by local search."""
        out = []
        try:
            e = self.solver_point(p)
            if e:
                out.append(e)
        except (Unresolved, TooBig, NeedDen):
            pass
        if not any(conds_hold(p.conds, e) for e in out):
            e = self.search(p)
            if e:
                out.append(e)
        if out:
            # some neighbours, so that several points of the path are seen
            rng = random.Random(self.seed + 5)
            out += [self.nudge(rng, out[-1], 10.0 ** -rng.uniform(2, 5)) for _ in range(8)]
        return out

    def solver_point(self, p):
        ctx = self.new_ctx(self.pool[:4])
        fs = [self.cond_z(ctx, c, k) for c, k in p.conds]
        s = z3.Solver()
        for x in ctx.rule_facts() + ctx.ineq + fs:
            s.add(x)
        if alg.check(s, 4000) != z3.sat:
            return None
        m = s.model()

        def val(n):
            if n.id not in ctx.aidx:
                return None
            v = m.eval(ctx.z(n), model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            return mp.mpf(v.numerator_as_long()) / v.denominator_as_long()
        e = dict(self.pool[0])
        ang = {v.id: (v, lo, hi) for v, lo, hi in self.spec.ranges}
        for v, lo, hi in self.spec.ranges:
            den = ctx.trigden.get(v.id, 1)
            w = alg.mul(Q(Fraction(1, den)), v)
            a, b = val(alg.fnode('cos', w)), val(alg.fnode('sin', w))
            if a is not None and b is not None:
                x = mp.atan2(b, a)
                l, h = mp.pi * lo.numerator / lo.denominator / den, mp.pi * hi.numerator / hi.denominator / den
                while x < l:
                    x += 2 * mp.pi
                while x > h:
                    x -= 2 * mp.pi
                e[v.args[0]] = x * den
            elif val(v) is not None:
                e[v.args[0]] = val(v)
        for nm in list(e):
            n = dag.var(nm)
            if n.id not in ang and val(n) is not None:
                e[nm] = val(n)
        return self.project(e)

    def project(self, e):
        for u in self.spec.units:
            ns = [v.args[0] for v in u]
            r = mp.sqrt(sum(e[n] * e[n] for n in ns))
            if r > 0:
                for n in ns:
                    e[n] = e[n] / r
        for v, lo, hi in self.spec.ranges:
            n = v.args[0]
            e[n] = min(max(e[n], mp.pi * lo.numerator / lo.denominator), mp.pi * hi.numerator / hi.denominator)
        return e

    def nudge(self, rng, e, size):
        f = {k: v + mp.mpf(rng.gauss(0, 1)) * size for k, v in e.items()}
        for v in self.spec.small:
            n = v.args[0]
            if rng.random() < .5:
                f[n] = e[n] * mp.mpf(10) ** mp.mpf(rng.uniform(-2, .3) * min(1, size * 3))
        return self.project(f)

    def search(self, p):
        return self.search_conds(p.conds)

    def search_conds(self, conds, start=(), secs=6):
        rng = random.Random(self.seed + 11)

        def score(e):
            memo = {}
            for i, (c, k) in enumerate(conds):
                try:
                    if bool(mpeval([c], e, memo)[0]) == k:
                        continue
                    a, b = (mpeval(list(c.args), e, memo) if c.op in ('lt', 'eq') else (0, 1))
                    return (i, -abs(a - b) / (abs(a) + abs(b) + mp.mpf(10) ** -30))
                except Exception:
                    return (-1, 0)
            return (len(conds), 0)
        t1 = min(time.time() + secs, max(self.deadline, time.time() + .3))
        fls = sorted(set(FLAVOURS)) + ['edge'] * 3
        best, bs = None, (-2, 0)
        for e in start:
            v = score(e)
            if v > bs:
                best, bs = e, v
        for i in range(60):
            e = {}
            for s in self.spec.samplers:
                e.update(s(rng, rng.choice(fls)))
            v = score(e)
            if v > bs:
                best, bs = e, v
            if bs[0] == len(conds) or time.time() > t1:
                break
        size = 1.0
        while best and bs[0] < len(conds) and time.time() < t1:
            size = 10.0 ** -rng.uniform(0, 6)
            e = self.nudge(rng, best, size)
            if rng.random() < .1:
                e.update(rng.choice(self.spec.samplers)(rng, rng.choice(fls)))
            v = score(e)
            if v > bs:
                best, bs = e, v
        return best if best and bs[0] == len(conds) else None

    def inputs(self, e):
        memo = {}
        return [fl(mpeval([n], e, memo)[0]) for n in self.ins]

    def path(self, i, p, rng):
        res, case = self.res, self.case
        tag = 'path%d' % i
        samples = self.path_samples(p, rng)
        res.paths += 1
        info = {'end': p.end, 'branches': len(p.conds), 'samples': len(samples)}
        res.pathinfo.append(info)
        if not samples:
            if self.refuted(p.conds):
                res.paths -= 1
                res.infeasible += 1
                info['end'] = 'infeasible'
                return
            eqonly = any(c.op == 'eq' and k for c, k in p.conds)
            info['unreached'] = True
            if not eqonly:
                res.undischarged.append((tag, 'reachability', 'no input found and not refuted'))
                return
            # a measure-zero path: prove what can be proved symbolically
            res.undischarged.append((tag, 'measure-zero path', 'reached only on an exact tie; ' + str([dag.show(c, 3) for c, k in p.conds if c.op == 'eq' and k])[:200]))
            return
        if p.end != 'ret':
            n = 0
            for e in samples[:2]:
                r = self.native.run(case.cname(), self.inputs(e), case.n_out) if self.native else 'skip'
                if isinstance(r, str) or any(v != v for v in r) or p.end in ('memerror',):
                    self.violation(tag, p.end, p.info, e, r, None)
                    return
            res.undischarged.append((tag, 'termination', 'path ends with %s %s' % (p.end, p.info)))
            return
        for k, o in enumerate(p.outs):
            if not isinstance(o, dag.Node):
                e = samples[0]
                self.violation(tag, 'uninitialised', 'output %d is indeterminate' % k, e, None, None)
                return
        self.validate(tag, p, samples)
        gen = [e for e in samples if not any(v == 0 for v in e.values())]
        dens = {}
        for attempt in range(6):
            try:
                self.prove_path(tag, p, gen or samples, dens, samples)
                return
            except NeedDen as nd:
                dens[nd.a.id] = nd.den
        res.undischarged.append((tag, '*', 'angle refinement did not settle'))

    def validate(self, tag, p, samples):
        """Translator validation: the encoded path evaluated in doubles against the compiled code."""
        res, case = self.res, self.case
        if not self.native:
            return
        for e in samples[:3]:
            ins = self.inputs(e)
            denv = {k: fl(v) for k, v in e.items()}
            # evaluate the encoded outputs with inputs replaced by their rounded values
            r = self.native.run(case.cname(), ins, case.n_out)
            if isinstance(r, str):
                self.violation(tag, r, 'native run', e, r, None)
                return
            if any(v != v or abs(v) == float('inf') for v in r):
                self.violation(tag, 'not finite', 'native result is not finite', e, r, None)
                return
            try:
                v = [fl(x) for x in mpeval(p.outs, e)]
            except Exception as ex:
                res.notes.append('validation: %s' % ex)
                continue
            bad = [k for k in range(len(v)) if not abs(v[k] - r[k]) <= (case.ntol or 1e-7) * (1 + abs(v[k]))]
            if bad:
                res.val_mismatch.append((tag, bad[0], v[bad[0]], r[bad[0]]))
                for label, a, b in self.native_obls(r, e):
                    if abs(a - b) > 10 * (case.tol or VTOL) * (1 + abs(b)):
                        self.violation(tag, 'wrong', label, e, r, {'got': fl(a), 'expected': fl(b), 'model': 'compiled code departs from the encoded path'})
                        return
            else:
                res.validated += 1
                if len(res.samples) < 1:
                    res.samples.append({'case': case.name, 'path': tag, 'branches': len(p.conds), 'inputs': ins[:24], 'outputs': list(r)[:24]})

    # ----------------------------------------------------------------
    def settle_signs(self, ctx):
        """Where the path conditions decide the sign under an absolute value, later rewriting uses it."""
        known = []
        for n in list(ctx.atoms):
            if n.op != 'fabs':
                continue
            x = n.args[0]
            vals = [v for v in ctx.nums(x) if not mp.isnan(v)]
            sg = 1 if all(v > 0 for v in vals) else -1 if all(v < 0 for v in vals) else 0
            if not sg or not vals:
                continue
            y = x if sg > 0 else alg.neg(x)
            if not ctx.prove_nonneg(y):
                try:
                    z, d, const = ctx.zr(y)
                except (Unresolved, TooBig):
                    continue
                s = z3.Solver()
                for f in ctx.rule_facts() + ctx.ineq + [z < 0]:
                    s.add(f)
                if not const or alg.check(s, 1500) != z3.unsat:
                    continue
            known.append((n, y))
        for n, y in known:
            ctx.assume_nonneg(y)
            ctx.assume(ctx.z(n) == ctx.zr(y)[0])
        if known:
            ctx.retired |= {n.id for n, y in known}
            ctx.rw.clear()
            ctx.zmemo.clear()

    # ----------------------------------------------------------------
    def prove_path(self, tag, p, samples, dens, allsamples):
        res, case = self.res, self.case
        ctx = self.new_ctx(samples[:5], dens)
        npath = 0
        for c, k in p.conds:
            try:
                ctx.assume(self.cond_z(ctx, c, k))
                npath += 1
            except (Unresolved, TooBig):
                res.notes.append('%s: path condition not encoded: %s' % (tag, dag.show(c, 3)[:120]))
        self.ctx = ctx
        self.settle_signs(ctx)
        outs, bad = [], {}
        for k, o in enumerate(p.outs):
            try:
                outs.append(ctx.rewrite(o))
            except (Unresolved, TooBig) as ex:
                bad[k] = str(ex)
                outs.append(o)
        code_defs = list(ctx.defs)
        obls = case.obligations(p.outs, self.env)
        failed = []
        done = []
        cands = self.candidates(obls, allsamples)
        for ob in sorted(obls, key=lambda o: o.label not in cands):
            if any(v['label'] == ob.label for v in res.violations):
                continue
            if ob.lhs is ob.rhs:
                done.append(ob)
                continue
            if ob.label in cands:
                cx = self.refute(ob, cands[ob.label])
                if cx is not None:
                    self.violation(tag, 'wrong', ob.label, cx[0], cx[1], cx[2])
                    continue
            if time.time() > self.deadline:
                res.undischarged.append((tag, ob.label, 'case time budget'))
                continue
            if ob.rhs is None:
                if ob.label not in cands and self.decision(ctx, ob):
                    done.append(ob)
                    continue
                cx = self.counter_decision(p, ob, allsamples)
                if cx is not None:
                    self.violation(tag, 'wrong', ob.label, cx[0], cx[1], cx[2])
                else:
                    res.undischarged.append((tag, ob.label, 'decision not proved'))
                continue
            try:
                a, b = ctx.rewrite(ob.lhs), ctx.rewrite(ob.rhs)
                if ob.label not in cands and ctx.prove_eq(a, b, ob.label):
                    done.append(ob)
                    continue
                why = 'not proved'
            except (Unresolved, TooBig) as ex:
                why = '%s %s' % (type(ex).__name__, ex)
            failed.append((ob, why))
        for ob, why in failed:
            if time.time() < self.deadline and self.approx(ctx, ob, tag):
                res.approx += 1
                continue
            res.undischarged.append((tag, ob.label, why))
        res.proved += len(done)
        seen = set()
        for kind, node, ok in code_defs:
            if (kind, node.id) in seen:
                continue
            seen.add((kind, node.id))
            if time.time() > self.deadline:
                res.undischarged.append((tag, 'definedness', 'case time budget'))
                break
            if ok or self.defined(ctx, p, dens, samples, kind, node):
                res.proved += 1
                continue
            cx = self.counter_defined(p, kind, node, allsamples)
            if cx is not None:
                self.violation(tag, 'wrong', 'definedness %s' % kind, cx[0], cx[1], cx[2])
            else:
                res.undischarged.append((tag, 'definedness %s' % kind, dag.show(node, 4)[:160]))

    def counter_defined(self, p, kind, node, samples):
        """A replayed point of the path outside the domain of a function the code applies, or None."""
        if kind == 'nonneg':
            bad = [dag.lt(node, dag.ZERO)]
        elif kind == 'unit':
            bad = [dag.lt(dag.ONE, node), dag.lt(node, Q(Fraction(-1)))]
        else:
            return None
        for c in bad:
            if time.time() > self.deadline or not self.native:
                break
            e = self.search_conds([(c, True)] + list(p.conds) + [(c, True) for c in self.spec.where], samples[:6], 2)
            if e is None:
                continue
            r = self.native.run(self.case.cname(), self.inputs(e), self.case.n_out)
            if isinstance(r, str) or any(v != v or abs(v) == float('inf') for v in r):
                return e, r, {'native': 'not finite', 'model': 'argument out of the domain'}
        return None

    def defined(self, ctx, p, dens, samples, kind, node):
        try:
            if kind in ('nonneg', 'unit'):
                # without what was recorded about the function's result
                ctx = self.new_ctx(samples[:5], dens)
                for c, k in p.conds:
                    if any(n.op in ('sqrt', 'acos') for n in dag.topo([c])):
                        continue
                    try:
                        ctx.assume(self.cond_z(ctx, c, k))
                    except (Unresolved, TooBig):
                        pass
                return ctx.within(kind, ctx.rewrite(node))
            if kind == 'nonzero':
                q = ctx.conv(node).num
                if ctx.prove_pos_linear(ctx.red(poly.pmul(q, q))):
                    return True
                n = ctx.poly_node(ctx.conv(node).num)
                return any(ctx.prove_pos(x) for x in (n, alg.neg(n), node, alg.neg(node)))
        except (Unresolved, TooBig, NeedDen):
            pass
        return False

    # ----------------------------------------------------------------
    def candidates(self, obls, samples):
        """label -> points of the path where the encoded obligation fails numerically, worst first."""
        cand = {}
        for e in samples[:6]:
            memo = {}
            for ob in obls:
                try:
                    a, b = ob.pair(e, memo)
                except Exception:
                    continue
                if mp.isnan(b):
                    continue
                if mp.isnan(a) or abs(a - b) > 1e-9 * (1 + abs(b)):
                    cand.setdefault(ob.label, []).append((-mp.inf if mp.isnan(a) else -abs(a - b) / (1 + abs(b)), e))
        for l in cand.values():
            l.sort(key=lambda t: t[0])
        return cand

    def refute(self, ob, cand):
        """A replayed counterexample (env, native outputs, detail) or None."""
        case = self.case
        if not self.native:
            return None
        for _, e in cand[:6]:
            r = self.native.run(case.cname(), self.inputs(e), case.n_out)
            if isinstance(r, str):
                return e, r, {'native': r, 'model': self.model_query(ob, e)}
            if any(v != v or abs(v) == float('inf') for v in r):
                return e, r, {'native': 'not finite', 'model': self.model_query(ob, e)}
            for label, a, b in self.native_obls(r, e, ob.label):
                if abs(a - b) > (case.tol or VTOL) * (1 + abs(b)):
                    return e, r, {'got': fl(a), 'expected': fl(b), 'model': self.model_query(ob, e)}
        return None

    def native_obls(self, r, e, only=None):
        """(label, got, expected) of the obligations over natively computed outputs."""
        case = self.case
        ratlit = alg.ratlit
        out = []
        try:
            alg.ratlit = Fraction
            for o in case.obligations([dag.const(v) for v in r], self.env):
                if only is not None and o.label != only:
                    continue
                a, b = o.pair(e, {})
                if not (mp.isnan(a) or mp.isnan(b)):
                    out.append((o.label, a, b))
        finally:
            alg.ratlit = ratlit
        return out

    def decision(self, ctx, ob):
        """On this path the flag is constant: the opposite demand is unsatisfiable with the path's conditions."""
        v = alg.c_of(ob.lhs)
        if v not in (0, 1):
            return False
        try:
            sets = [[c] for c in ob.no] if v else [ob.yes]
            for cs in sets:
                if not cs:
                    continue
                fs = [self.cond_z(ctx, c, None) for c in cs]
                # first by groups of conditions over the same unknowns, each with the facts about those only
                groups = {}
                for f in fs:
                    groups.setdefault(frozenset(str(t) for t in alg.zvars(f)), []).append(f)
                if any(self.contradictory(ctx, g, 2000, ob.lemmas, local=True) for g in groups.values()):
                    continue
                if not self.contradictory(ctx, fs, 5000, ob.lemmas):
                    return False
        except (Unresolved, TooBig, NeedDen):
            return False
        return True

    def counter_decision(self, p, ob, samples):
        """A replayed point of the path where the opposite decision is demanded, or None."""
        v = alg.c_of(ob.lhs)
        if v not in (0, 1):
            return None
        for cs in ([[c] for c in ob.no] if v else [ob.yes])[:16]:
            if not cs or time.time() > self.deadline:
                continue
            e = self.search_conds(list(p.conds) + [(c, True) for c in cs], samples[:6], 2)
            if e is not None:
                cx = self.refute(ob, [(0, e)])
                if cx is not None:
                    return cx
        return None

    def model_query(self, ob, env):
        """Ask the solver for a point where the obligation fails; the sample serves as the candidate model."""
        try:
            ctx = self.ctx
            a, b = ctx.rewrite(ob.lhs), ctx.rewrite(ob.rhs)
            r = ctx.radd(ctx.conv(a), ctx.conv(b), -1)
            s = z3.Solver()
            for x in ctx.ineq:
                s.add(x)
            for v, (la, ra) in ctx.gz.items():
                s.add(ctx.z(la) == ctx.z(ra))
            s.add(ctx.zpoly(r.num) != 0)
            res = alg.check(s, 3000)
            if res == z3.sat:
                m = s.model()
                return {str(d): str(m[d])[:40] for d in m.decls()[:20]}
            return str(res)
        except Exception as ex:
            return 'no model (%s)' % type(ex).__name__

    # ----------------------------------------------------------------
    def approx(self, ctx, ob, tag):
        """Small-angle path: |lhs - rhs| <= tol by bounding monomials (linear query)."""
        tol = self.case.btol or Fraction(1, 10 ** 7)
        if not self.spec.small:
            return False
        try:
            a, b = ctx.rewrite(ob.lhs), ctx.rewrite(ob.rhs)
            r = ctx.radd(ctx.conv(a), ctx.conv(b), -1)
            bounds = {}
            taylor = {}
            extra = {}
            nxt = [len(ctx.atoms)]
            for v in self.spec.small:
                X = self.upper(ctx, v)
                if X is None:
                    return False
                bounds[ctx.atom(v)] = (Fraction(0), X)
                den = ctx.trigden.get(v.id, 1)
                s, c = alg.fnode('sin', alg.mul(Q(Fraction(1, den)), v)), alg.fnode('cos', alg.mul(Q(Fraction(1, den)), v))
                if s.id not in ctx.aidx and c.id not in ctx.aidx:
                    continue
                iS, iC = nxt[0], nxt[0] + 1
                nxt[0] += 2
                bounds[iS], bounds[iC] = (Fraction(0), Fraction(1, 120)), (Fraction(0), Fraction(1, 24))
                h = Fraction(1, den)
                x = ctx.atom(v)
                # Taylor's theorem: sin y = y - y^3/6 + y^5 S, cos y = 1 - y^2/2 + y^4 C
                taylor[ctx.atom(s)] = {(x,): h, (x,) * 3: -h ** 3 / 6, tuple(sorted((x,) * 5 + (iS,))): h ** 5}
                taylor[ctx.atom(c)] = {(): 1, (x,) * 2: -h ** 2 / 2, tuple(sorted((x,) * 4 + (iC,))): h ** 4}
            num = subst(r.num, taylor)
            den = {(): 1}
            for f, e in r.den.items():
                den = poly.pmul(den, poly.ppow(subst(ctx.fpoly(f), taylor), e))
            if not num:
                return True
            cn, cd = poly.content(num), poly.content(den)
            common = []
            l = list(cn)
            for v in cd:
                if v in l:
                    l.remove(v)
                    common.append(v)
            if common:
                g = tuple(common)
                num = {poly.mdiv(m, g): c for m, c in num.items()}
                den = {poly.mdiv(m, g): c for m, c in den.items()}
        except (Unresolved, TooBig, NeedDen):
            return False
        B = {}
        for u in self.spec.units:
            for n in u:
                B[ctx.atom(n)] = (Fraction(-1), Fraction(1))

        mm = {}

        def mono(m):
            r = mm.get(m)
            if r is None:
                if not m:
                    r = (Fraction(1), Fraction(1))
                else:
                    lo, hi = mono(m[:-1])
                    bl, bh = bounds.get(m[-1]) or B.get(m[-1]) or (Fraction(-1), Fraction(1))
                    c = [lo * bl, lo * bh, hi * bl, hi * bh]
                    r = outward(min(c), max(c))
                mm[m] = r
            return r
        s = z3.Solver()
        nz = [0]

        def lin(p):
            # one unknown per term, boxed by the (outward rounded) range of the term; the ranges of the
            # many small terms are added up
            boxes, const = [], Fraction(0)
            for m, c in p.items():
                if not m:
                    const += c
                    continue
                lo, hi = mono(m)
                boxes.append(tuple(sorted((lo * c, hi * c))))
            boxes.sort(key=lambda b: -(b[1] - b[0]))
            rest = boxes[24:]
            boxes = boxes[:24]
            if rest:
                boxes.append((sum(b[0] for b in rest), sum(b[1] for b in rest)))
            t = [z3.RealVal(const)]
            for lo, hi in boxes:
                lo, hi = outward(lo, hi)
                z = z3.Real('t%d' % nz[0])
                nz[0] += 1
                s.add(z >= z3.RealVal(lo), z <= z3.RealVal(hi))
                t.append(z)
            return z3.Sum(t)
        N, Dn = lin(num), lin(den)
        k0 = den.get((), 0)
        if k0 < 0:
            N, Dn = -N, -Dn
        s.add(z3.Or(Dn <= 0, N > z3.RealVal(tol) * Dn, N < -z3.RealVal(tol) * Dn))
        return alg.check(s, self.timeout) == z3.unsat

    def upper(self, ctx, v):
        """Upper bound of an angle variable under the path condition, by the solver."""
        memo = ctx.__dict__.setdefault('umemo', {})
        if v.id in memo:
            return memo[v.id]
        ctx.atom(v)
        zv = ctx.z(v)
        best = None
        for X in [Fraction(m, 10 ** k) for k in range(1, 14) for m in (5, 2, 1)]:
            facts = [f for f in ctx.ineq if {t.get_id() for t in alg.zvars(f)} <= {zv.get_id()}]
            s = z3.Solver()
            for f in facts:
                s.add(f)
            s.add(zv > z3.RealVal(X))
            if alg.check(s, 2000) != z3.unsat:
                break
            best = X
        memo[v.id] = best
        return best

    # ----------------------------------------------------------------
    def violation(self, tag, kind, label, e, native, detail):
        if len(self.res.violations) > 40:
            return
        self.deadline = min(self.deadline, time.time() + 8)
        self.res.violations.append({
            'case': self.case.name, 'path': tag, 'kind': kind, 'label': label,
            'inputs': [float(x).hex() for x in self.inputs(e)],
            'inputs_dec': [float(x) for x in self.inputs(e)],
            'native': native if isinstance(native, str) or native is None else [float(x) for x in native],
            'detail': detail})


def outward(lo, hi):
    """A slightly larger interval with short decimal end points."""
    return rnd(lo, -1), rnd(hi, 1)


def rnd(x, up):
    if x == 0:
        return Fraction(0)
    y = abs(x)
    k = len(str(y.numerator)) - len(str(y.denominator)) - 5
    sc = Fraction(10) ** k
    q = x / sc
    i = q.numerator // q.denominator
    if up > 0 and i * q.denominator != q.numerator:
        i += 1
    return i * sc


def subst(p, rules):
    if not rules:
        return p
    out = {}
    cache = {}
    for m, c in p.items():
        rest = tuple(v for v in m if v not in rules)
        t = {rest: c}
        for v in rules:
            k = m.count(v)
            if k:
                q = cache.get((v, k))
                if q is None:
                    q = cache[(v, k)] = poly.ppow(rules[v], k)
                t = poly.pmul(t, q)
        out = poly.padd(out, t)
    return out
