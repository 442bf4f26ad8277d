#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: builds seeded/<id>/ from edit descriptions, confirming each in a scratch copy of the repository.
SPEC.py defines SEEDS = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new)], lang='cpp'|'c'|'fortran', demo=source, timeout=s)}"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
SH = {'cpp': 'g++ -std=c++14 -O1 -I"$PWD/src/cpp" "$d/demo.cpp" _build/src/cpp/libpolylogarithm_cpp.a -pthread -o "$t/demo"',
      'c': 'gcc -O1 -I"$PWD/src/c" "$d/demo.c" _build/src/c/libpolylogarithm_c.a -pthread -lm -o "$t/demo"',
      'fortran': 'gcc -O1 "$d/demo.c" _build/src/fortran/libpolylogarithm_fortran.a -pthread -lgfortran -lm -o "$t/demo"'}


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build(r):
    a = sh(['cmake', '-S', r, '-B', r + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-Wno-dev'],
           env=dict(os.environ, CC='gcc', CXX='g++', FC='gfortran'))
    b = sh(['ninja', '-C', r + '/_build', '-j8'])
    return a.returncode == 0 and b.returncode == 0, a.stdout[-500:] + b.stdout[-1500:]


def tests(r):
    t = sh(['ctest', '--test-dir', r + '/_build', '-j8', '--timeout', '270'])
    return t.returncode == 0, t.stdout[-1500:]


def demo(d, r, timeout):
    try:
        p = sh(['timeout', str(timeout), 'bash', os.path.join(d, 'demo.sh')], cwd=r)
        return p.returncode, p.stdout[-300:]
    except Exception as e:
        return -1, str(e)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:] or list(seeds)
    for i in want:
        s = seeds[i]
        d = os.path.join(V, 'seeded', i)
        tmp = tempfile.mkdtemp(prefix='seed_')
        r = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        ok, msg = build(r)
        assert ok, msg
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ext = 'cpp' if s['lang'] == 'cpp' else 'c'
        open(os.path.join(d, 'demo.' + ext), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nset -e\nd="$(cd "$(dirname "$0")" && pwd)"\nt=$(mktemp -d)\ntrap \'rm -rf -- "$t"\' EXIT\n'
            + SH[s['lang']] + '\ntimeout 60 "$t/demo"\n')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        st = []
        rc, out = demo(d, r, 200)
        if rc != 0:
            st.append('demo fails on clean: %s %s' % (rc, out))
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) < 1:
                st.append('edit text not found in ' + f + ': ' + old[:60])
                continue
            k = s.get('nth', {}).get(f, 0)
            at = -1
            for _ in range(k + 1):
                at = t.index(old, at + 1)
            t = t[:at] + new + t[at + len(old):]
            open(p, 'w').write(t)
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
        ok, msg = build(r)
        if not ok:
            st.append('does not build: ' + msg)
        else:
            ok, msg = tests(r)
            if not ok:
                st.append('tests fail: ' + '\n'.join(l for l in msg.splitlines() if 'Failed' in l or 'failed' in l))
            rc, out = demo(d, r, 200)
            if rc == 0:
                st.append('demo passes with the patch')
            else:
                print('   demo with patch: rc', rc, out.strip()[:200])
        shutil.rmtree(tmp)
        print(i, 'OK' if not st else 'BAD: ' + ' | '.join(st), flush=True)
        if st:
            os.makedirs('/tmp/badseeds', exist_ok=True)
            shutil.rmtree('/tmp/badseeds/' + i, ignore_errors=True)
            shutil.move(d, '/tmp/badseeds/' + i)


main()
