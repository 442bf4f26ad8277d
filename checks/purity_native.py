#!/usr/bin/env python3-vt
"""purity_native.py lib spec.json: observes the purity of one function of the real build.
spec: replay, argsym, ty (f d l), cols, generic, args: [[hex bits...]], orders: [n...], seconds
Every group of calls runs in a forked child, so that each starts from the library's initial state."""
import json
import os
import pickle
import random
import sys
import threading
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import numpy as np
from common import Native

T = {'f': np.float32, 'd': np.float64, 'l': np.longdouble}
NB = {'f': 4, 'd': 8, 'l': 10}


def child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(fn()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else None


def main():
    spec = json.load(open(sys.argv[2]))
    nat = Native(sys.argv[1])
    ty, cols = spec['ty'], spec['cols']
    nb = NB[ty]
    rng = random.Random(spec.get('seed', 1))

    if spec['int']:
        import ctypes
        args = [int(b) for b in spec['args']]
        f = getattr(nat.L, spec['replay'])
        f.restype = None

        def one(k):
            a, o = np.array([args[k]], dtype=np.int64), np.zeros(1)
            P = lambda v: v.ctypes.data_as(ctypes.c_void_p)
            f(P(a), P(o), ctypes.c_long(1))
            return o.tobytes()
        show = lambda k: str(args[k])
    else:
        def num(h):
            n = np.dtype(T[ty]).itemsize
            return np.frombuffer(int(h, 16).to_bytes(n, 'little'), dtype=T[ty])[0]
        args = [(np.array([[num(h) for h in a['v']]], dtype=T[ty]), a.get('n')) for a in spec['args']]

        def bits(o):
            return b''.join(v.tobytes()[:nb] for v in o.ravel())

        def one(k):
            return bits(nat.call(spec['replay'], ty, args[k][0], args[k][1] if spec['generic'] else None))
        show = lambda k: '%s%s' % ('n=%d ' % args[k][1] if spec['generic'] else '', [repr(v) for v in args[k][0].ravel()])
    N = len(args)

    def out(d):
        json.dump(d, sys.stdout)
        sys.exit(0)

    def dec(b):
        if b is None:
            return None
        n = np.dtype(T[ty]).itemsize
        return [repr(np.frombuffer(b[i:i + nb].ljust(n, b'\0'), dtype=T[ty])[0]) for i in range(0, len(b), nb)]
    # argument objects
    if spec.get('argsym'):
        for k in range(N):
            r = child(lambda: bits(nat.call(spec['argsym'], ty, args[k][0], args[k][1] if spec['generic'] else None)))
            if r is not None and r != bits(args[k][0]):
                out({'kind': 'argument object is modified', 'call': show(k), 'argument_after_the_call': dec(r), 'index': [k]})
            if r is None:
                out({'kind': 'call crashes (writes to a read-only object)', 'call': show(k), 'index': [k]})
    fresh = [child(lambda: one(k)) for k in range(N)]
    again = [child(lambda: one(k)) for k in range(N)]
    for k in range(N):
        if fresh[k] is None:
            out({'kind': 'call crashes', 'call': show(k), 'index': [k]})
        if fresh[k] != again[k]:
            out({'kind': 'two fresh processes give different results', 'call': show(k), 'first': dec(fresh[k]), 'second': dec(again[k]), 'index': [k]})
    # histories
    def history(order):
        res = []
        for p, k in enumerate(order):
            if one(k) != fresh[k]:
                return p
        return None
    orders = [list(range(N)) * 2, list(range(N))[::-1] * 2, [k for k in range(N) for _ in (0, 1)]]
    for _ in range(40):
        o = list(range(N)) * 4
        rng.shuffle(o)
        orders.append(o)
    for o in orders:
        p = child(lambda: ('ok', history(o)))
        if p is None:
            out({'kind': 'a history of calls crashes', 'history': [show(k) for k in o[:20]], 'index': o})
        p = p[1]
        if p is not None:
            # shorten: the last call and the shortest suffix of calls before it that still shows the difference
            best = o[:p + 1]
            for n in (1, 2, 3, 5, 10, 30, 100):
                q = o[max(0, p - n):p + 1]
                c = child(lambda: ('ok', history(q)))
                if c and c[1] is not None:
                    best = q[:c[1] + 1]
                    break
            got = child(lambda: [one(k) for k in best][-1])
            out({'kind': 'result depends on earlier calls', 'history': [show(k) for k in best[-12:]], 'last_call_fresh': dec(fresh[best[-1]]), 'last_call_after_history': dec(got), 'index': best})

    # leftovers on the stack
    for pat in (0x00, 0xff, 0x3f, 0x41):
        for k in range(N):
            def painted():
                nat.L.paint_stack(pat)
                return one(k)
            r = child(painted)
            if r is not None and r != fresh[k]:
                out({'kind': 'result depends on stale stack contents', 'call': show(k), 'fresh': dec(fresh[k]), 'with_stack_pattern_%02x' % pat: dec(r), 'index': [k], 'pattern': pat})

    # static objects: the library's own writable segments (from its program headers), after everything has been called once
    def segs():
        import struct
        path = os.path.realpath(sys.argv[1])
        h = open(path, 'rb').read(64)
        off, num = struct.unpack_from('<Q', h, 32)[0], struct.unpack_from('<H', h, 56)[0]
        base = min(int(l.split('-')[0], 16) for l in open('/proc/self/maps') if l.rstrip().endswith(path))
        out = []
        with open(path, 'rb') as f:
            f.seek(off)
            ph = f.read(56 * num)
        for k in range(num):
            typ, flags, _, va, _, _, memsz, _ = struct.unpack_from('<IIQQQQQQ', ph, 56 * k)
            if typ == 1 and flags & 2:
                out.append((base + va, base + va + memsz))
        return out

    def seg():
        import ctypes
        o = list(range(N)) * 2
        for k in o:
            one(k)
        s = segs()
        rd = lambda: [ctypes.string_at(a, b - a) for a, b in s]
        before = rd()
        rng.shuffle(o)
        for k in o:
            one(k)
            after = rd()
            if after != before:
                return k, sum(x != y for p, q in zip(before, after) for x, y in zip(p, q))
        return None
    r = child(lambda: ('ok', seg()))
    if r and r[1]:
        out({'kind': 'call writes a static object of the library', 'call': show(r[1][0]), 'bytes_changed': r[1][1], 'index': [r[1][0]]})

    # concurrent calls
    def threads():
        bad = []
        end = time.time() + spec.get('seconds', 4)

        def run(s):
            g = random.Random(s)
            while time.time() < end and not bad:
                # one batch call per step: ctypes releases the interpreter lock around it
                ks = [g.randrange(N) for _ in range(1)] * 1
                k = ks[0]
                if spec['int']:
                    if one(k) != fresh[k]:
                        bad.append(k)
                    continue
                M = 2000
                idx = [g.randrange(N) for _ in range(M)]
                a = np.concatenate([args[i][0] for i in idx])
                n = np.array([args[i][1] for i in idx], dtype=np.int64) if spec['generic'] else None
                o = nat.call(spec['replay'], ty, a, n)
                for i, row in zip(idx, o):
                    if bits(row) != fresh[i]:
                        bad.append((i, bits(row)))
                        break
        ts = [threading.Thread(target=run, args=(s,)) for s in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return bad[:1]
    r = child(lambda: ('ok', threads()))
    if r is None:
        out({'kind': 'concurrent calls crash', 'index': list(range(N))})
    if r[1]:
        k, got = r[1][0] if isinstance(r[1][0], tuple) else (r[1][0], None)
        out({'kind': 'result depends on concurrent calls', 'call': show(k), 'alone': dec(fresh[k]), 'concurrent': dec(got), 'index': [k]})
    out({'kind': None, 'calls': N, 'histories': len(orders)})


if __name__ == '__main__':
    main()
