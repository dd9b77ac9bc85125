"""Runs harness functions compiled from the same source, natively, in a subprocess."""
import json, os, select, struct, subprocess, sys

WORKER = r'''
import ctypes, json, sys, os
lib = ctypes.CDLL(sys.argv[1])
D = ctypes.c_double
out = os.fdopen(os.dup(1), 'w', buffering=1)
for line in sys.stdin:
    q = json.loads(line)
    f = getattr(lib, q['f'])
    f.restype = None
    i = (D * max(1, len(q['i'])))(*[float.fromhex(x) for x in q['i']])
    o = (D * max(1, q['n']))(*([float.fromhex('0x1.23456789abcdep+500')] * max(1, q['n'])))
    f(i, o)
    out.write(json.dumps([float(x).hex() for x in o[:q['n']]]) + '\n')
'''


class Native:
    def __init__(self, so, env=None):
        self.so = so
        self.p = None
        self.env = env
        self.runs = 0

    def start(self):
        e = dict(os.environ)
        if self.env:
            e.update(self.env)
        self.p = subprocess.Popen([sys.executable, '-c', WORKER, self.so], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=e)

    def run(self, fname, inputs, n_out, timeout=20):
        """List of floats, or a string: 'crash' / 'timeout'."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.runs += 1
        try:
            self.p.stdin.write(json.dumps({'f': fname, 'i': [float(x).hex() for x in inputs], 'n': n_out}) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return 'crash'
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.stop()
            return 'timeout'
        line = self.p.stdout.readline()
        if not line:
            self.stop()
            return 'crash'
        return [float.fromhex(x) for x in json.loads(line)]

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None
