#!/usr/bin/env python3
"""Self-test of the verification-condition generator, run as setup: a handful
of small functions with known verdicts (true contracts must be proved, false
ones refuted), so that a broken toolchain is noticed before any check."""
import os, subprocess, sys, tempfile, json, shutil
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
sys.path.insert(0, H)
import build


def main():
    d = tempfile.mkdtemp(prefix='verif_self_')
    try:
        bc = os.path.join(d, 's.bc')
        ll = os.path.join(d, 's.ll')
        build.run(['clang++-18'] + build.IRFLAGS + build.INC + ['-emit-llvm', '-c', R + '/harness/selftest.cc', '-o', bc])
        build.run(['opt-18', '-S', '-passes=' + build.PASSES, bc, '-o', ll])
        bad = 0
        names = [l.split('(')[1].split(')')[0] for l in open(R + '/harness/selftest.cc') if l.startswith('HARNESS(')]
        for n in names:
            out = os.path.join(d, n + '.json')
            mode = 'fork' if '_fork' in n else 'merge'
            subprocess.run([PY, H + '/worker.py', ll, n, json.dumps(dict(mode=mode, ob=20, total=60)), out], timeout=200)
            r = json.load(open(out))
            st = [o['status'] for o in r['obligations']]
            want = 'refuted' if n.startswith('bad_') else 'proved'
            ok = r['error'] is None and ((want == 'proved' and all(s == 'proved' for s in st)) or
                                         (want == 'refuted' and 'refuted' in st))
            if any(c[1] != 'sat' for c in r['covers']):
                ok = False
            print('%-28s %-8s %s' % (n, want, 'ok' if ok else 'WRONG %s %s' % (r['error'], st)))
            bad += not ok
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
