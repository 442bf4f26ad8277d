"""Calls of the real build in a child process, one input at a time: sanitizer reports, crashes and endless loops."""
import os
import subprocess
import tempfile
import time


def run_inputs(exe, sym, ty, cols, rows, hasn=False, seconds=60, percall=None):
    """rows: list of (order or None, [bits...]) or ints for ty 'i'. Returns (index of the failing input or None, what, calls, invalid flags)"""
    with tempfile.NamedTemporaryFile('w', suffix='.txt') as f:
        f.write('%s %s %d %d\n' % (sym, ty, cols, int(hasn)))
        for r in rows:
            if ty == 'i':
                f.write('%d\n' % r)
            else:
                f.write((('%d ' % r[0]) if hasn else '') + ' '.join('%x' % b for b in r[1]) + '\n')
        f.flush()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=78')
        p = subprocess.Popen([exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        os.set_blocking(p.stdout.fileno(), False)
        buf, start, last, nlast, killed = b'', time.time(), time.time(), 0, None
        while True:
            d = p.stdout.read()
            if d:
                buf += d
                last = time.time()
            if p.poll() is not None:
                d = p.stdout.read()
                buf += d or b''
                break
            now = time.time()
            if percall and now - last > percall:
                killed = 'no answer after %.1f s' % (now - last)
            elif now - start > seconds:
                killed = 'time'
            if killed:
                p.kill()
                p.wait()
                buf += p.stdout.read() or b''
                break
            time.sleep(0.02)
        err = p.stderr.read().decode(errors='replace')
    lines = buf.decode(errors='replace').split('\n')
    started = [int(l.split()[1]) for l in lines if l.startswith('> ') and l[2:].strip().isdigit()]
    done = {int(l.split()[1]): int(l.split()[2]) for l in lines if l.startswith('< ') and len(l.split()) == 3}
    if killed == 'time':
        return None, 'time budget', len(done), done
    if killed:
        return (started[-1] if started else None), killed, len(done), done
    if p.returncode != 0:
        k = next((s for s in reversed(started) if s not in done), None)
        msg = [l for l in err.split('\n') if 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'Fortran runtime error' in l or 'SUMMARY' in l]
        return k, ('; '.join(m.strip()[:200] for m in msg[:3]) or 'exit status %d %s' % (p.returncode, err[-200:])), len(done), done
    return None, None, len(done), done
