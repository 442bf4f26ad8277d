"""Shared plumbing of the checks."""
import ctypes
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import build      # noqa: E402
import ser        # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LANGS = ('cpp', 'c', 'fortran')


class Ctx:
    """scratch directory with everything regenerated from the current tree"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.violations = []
        self.samples = []
        self.cov = {}
        self.notes = []
        self.assumptions = []
        self._mods, self._lib, self._eng, self._tir = {}, None, None, {}

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def wall(self):
        return time.time() - self.t0

    def log(self, *a):
        print('[%6.1fs]' % self.wall(), *a, flush=True)

    def module(self, lang, ub=False, extra=()):
        k = (lang, ub, extra)
        if k not in self._mods:
            self._mods[k] = build.module(lang, self.work, ub, extra=extra)
        return self._mods[k]

    def lib(self):
        if self._lib is None:
            self._lib = build.replay_lib(self.work)
        return self._lib

    def engine(self):
        if self._eng is None:
            self._eng = build.engine(self.work)
        return self._eng

    def tir(self, lang):
        if lang not in self._tir:
            p = os.path.join(self.work, lang + '.tir')
            with open(p, 'w') as f:
                f.write(ser.serialise(self.module(lang)))
            self._tir[lang] = p
        return self._tir[lang]

    def prepare(self, langs):
        """build library, engine and symbolic modules side by side"""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(self.lib), ex.submit(self.engine)] + [ex.submit(self.tir, l) for l in langs]
            for f in fs:
                f.result()

    def violation(self, desc):
        """desc: json-able description of a concrete, confirmed failing input"""
        desc = dict(desc, property=self.pid)
        txt = json.dumps(desc, indent=1, sort_keys=True, default=str)
        h = hashlib.sha256(txt.encode()).hexdigest()[:12]
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.pid, h))
        with open(p, 'w') as f:
            f.write(txt + '\n')
        self.violations.append((desc, p))

    def evidence(self, level, coverage):
        e = {'property': self.pid, 'tier': self.tier, 'seed': SEED, 'level': level, 'coverage': coverage,
             'assumptions': self.assumptions, 'wall_s': round(self.wall(), 2), 'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(e, f, indent=1, default=str)
            f.write('\n')

    def finish(self):
        """KNOWN-FINDING / VIOLATION lines and the exit status"""
        known = load_known(self.pid)
        new = []
        for d, p in self.violations:
            k = next((k for k in known if matches(k, d)), None)
            if k is None:
                new.append((d, p))
        for k in known:
            if k.get('still', True):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for d, p in new[:5]:
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('   ' + json.dumps({k: d[k] for k in d if k not in ('property',)}, default=str)[:600])
        sys.stdout.flush()
        return 1 if new else 0


def load_known(pid):
    """open findings of known-findings.txt: lines 'open: property=<id> id=<...> what...' (none at present)"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('property') == pid and k.get('status') == 'open':
                    out.append(k)
    return out


def matches(k, d):
    return all(d.get(a) == b for a, b in k.get('match', {}).items())


def demangle_map(names):
    ns = list(names)
    return dict(zip(ns, build.demangle(ns)))


# ------------------------------------------------------------- native calls
SZ = {'f': 4, 'd': 8, 'l': 16}


class Native:
    """calls into the real library through the batch wrappers, in numpy arrays"""

    def __init__(self, path):
        import numpy as np
        self.np = np
        self.L = ctypes.CDLL(path)
        self.T = {'f': np.float32, 'd': np.float64, 'l': np.longdouble}

    def call(self, sym, ty, cols, k=None):
        """cols: array (N, 1 or 2) -> array of the same shape"""
        np = self.np
        a = np.ascontiguousarray(cols, dtype=self.T[ty])
        o = np.zeros_like(a)
        P = lambda v: v.ctypes.data_as(ctypes.c_void_p)
        f = getattr(self.L, sym)
        f.restype = None
        if k is None:
            f(P(a), P(o), ctypes.c_long(len(a)))
        else:
            kk = np.ascontiguousarray(np.broadcast_to(np.asarray(k, dtype=np.int64), (len(a),)))
            f(P(kk), P(a), P(o), ctypes.c_long(len(a)))
        return o


def rng():
    return random.Random(SEED)
