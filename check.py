#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current sources
   check.py --replay <file>                      re-run a recorded failing input"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, ROOT)
import build  # noqa: E402
import props  # noqa: E402

PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0',
            UBSAN_OPTIONS='print_stacktrace=1')


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.P = props.PROPS[pid]
        self.t0 = time.time()
        self.limit = 780 if tier == 'quick' else 3600
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.violations = []
        self.known = []
        self.undecided = []
        self.native_stats = []
        self.nrep = 0
        self.repdir = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(self.repdir, exist_ok=True)
        self.findings = []
        fn = os.path.join(ROOT, 'known_findings.json')
        if os.path.exists(fn):
            self.findings = [f for f in json.load(open(fn))['findings'] if f['property'] == pid and f.get('status') == 'known']

    def left(self):
        return self.limit - (time.time() - self.t0)

    # ------------------------------------------------------------ replay files
    def write_replay(self, unit, harness, what, lines, extra=''):
        self.nrep += 1
        p = os.path.join(self.repdir, '%s-%s-%d.txt' % (self.pid, harness, self.nrep))
        with open(p, 'w') as f:
            f.write('# property %s unit %s harness %s\n' % (self.pid, unit, harness))
            f.write('# obligation: %s\n' % what)
            for ln in extra.split('\n'):
                if ln:
                    f.write('# %s\n' % ln)
            for ln in lines:
                f.write(ln + '\n')
        return p

    def violation(self, key, what, path, found=True):
        for f in self.findings:
            if f['key'] in key:
                ln = 'KNOWN-FINDING: property=%s %s' % (self.pid, f['what'])
                if ln not in self.known:
                    self.known.append(ln)
                    log(ln)
                return
        if key in [v[0] for v in self.violations]:
            return
        self.violations.append((key, what, path, found))
        log('FAILED %s: %s' % (key, what))

    # ------------------------------------------------------------ native runs
    def native(self, exe, harness, args, timeout):
        try:
            p = subprocess.run([exe, harness] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=timeout, env=NENV, cwd=self.scratch)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return 'timeout', ''

    def native_random(self, unit, exe, harness, iters, ms):
        d = os.path.join(self.scratch, 'dump_%s_%s.txt' % (unit, harness))
        if os.path.exists(d):
            os.unlink(d)
        rc, out = self.native(exe, harness, ['random', str(SEED), str(iters), str(ms), d], ms / 1000.0 + 90)
        st = dict(harness=harness, rc=rc)
        for ln in out.split('\n'):
            if ln.startswith('NATIVE OK'):
                for kv in ln.split()[2:]:
                    k, v = kv.split('=')
                    st[k] = int(v)
        self.native_stats.append(st)
        if rc in (42, 43) or (isinstance(rc, int) and rc != 0 and os.path.exists(d)):
            lines = open(d).read().split('\n') if os.path.exists(d) else []
            # confirm by replaying
            tmp = os.path.join(self.scratch, 'c_%s.txt' % harness)
            open(tmp, 'w').write('\n'.join(lines))
            rc2, out2 = self.native(exe, harness, ['replay', tmp], 90)
            if rc2 in (0, 44):
                return None
            what = next((x for x in out.split('\n') if x.startswith('NATIVE FAIL')), '') or tail(out, 12)
            return what, lines, out2
        return None

    # ------------------------------------------------------------ main
    def run(self):
        B = build.Build(self.scratch)
        B.start_lib()
        B.start_native_lib()
        units = self.P['units']
        ex = ThreadPoolExecutor(8)
        nat = {}
        nbuild = {}
        for u in units:
            nbuild[u['name']] = ex.submit(self.try_native, B, u)
        irs = {}
        iex = ThreadPoolExecutor(4)
        for u in units:
            if u.get('prove', True):
                irs[u['name']] = iex.submit(self.try_ir, B, u)
        # proofs
        tasks = []
        for u in units:
            for h in u['harness']:
                h = dict(u.get('opts', {}), **(h if isinstance(h, dict) else dict(name=h)))
                h['unit'] = u['name']
                tasks.append(h)
        results = {}
        pex = ThreadPoolExecutor(8)
        fut = []
        for h in sorted(tasks, key=lambda h: -h.get('weight', 1)):
            if not h.get('prove', True) or (self.tier == 'quick' and h.get('thorough_only')):
                continue
            if h['unit'] in irs:
                fut.append((h, pex.submit(self.prove, irs[h['unit']], h)))
        # native contract execution of every harness (supplement, bounded)
        nex = ThreadPoolExecutor(3)
        nfut = []
        for h in tasks:
            if h.get('native', True):
                nfut.append((h, nex.submit(self.native_task, nbuild, h, self.nms(h))))
        for drv in self.P.get('drivers', []):
            nfut.append((dict(name=drv['name'], unit=drv['name'], driver=True), nex.submit(self.driver, B, drv)))
        for h, f in fut:
            results[(h['unit'], h['name'])] = (h, f.result())
        # judge proofs
        obls = proved = folded = 0
        solver_s = 0.0
        backends = {}
        funcs = set()
        replaced = set()
        cutl = set()
        refuted = []
        hres = []
        for key, (h, r) in sorted(results.items()):
            name = h['name']
            hr = dict(harness=name, error=r.get('error'), obligations=len(r['obligations']), folded=r['folded'],
                      wall_s=r.get('wall_s'), covers=r.get('covers'), unproved=[])
            if h.get('bounded'):
                hr['bounded'] = h['bounded']
            funcs |= set(r.get('functions', []))
            replaced |= set(r.get('replaced', []))
            cutl |= set(r.get('cut_loops', []))
            n_ok = 0
            for o in r['obligations']:
                solver_s += o['time']
                if o['status'] == 'proved':
                    n_ok += 1
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
                else:
                    hr['unproved'].append('%s %s at %s: %s' % (o['kind'], o['name'], o['loc'], o['status']))
                if o['status'] == 'refuted':
                    refuted.append((h, o))
            hr['discharged'] = n_ok
            hres.append(hr)
            if r.get('error'):
                self.undecided.append('%s: %s' % (name, r['error']))
            elif not r['obligations'] and not r['folded']:
                self.undecided.append('%s: no obligations generated' % name)
            for nm, ok in r.get('covers', []):
                if ok != 'sat':
                    self.undecided.append('%s: cover %s is %s' % (name, nm, ok))
            if not r.get('covers') and not r.get('error'):
                self.undecided.append('%s: no cover reached' % name)
            for o in r['obligations']:
                if o['status'] == 'unknown':
                    self.undecided.append('%s: %s %s at %s unknown' % (name, o['kind'], o['name'], o['loc']))
            if not h.get('bounded'):
                obls += len(r['obligations'])
                folded += r['folded']
                proved += n_ok
        # refuted obligations: replay the counterexample on the real code
        done = set()
        for h, o in refuted:
            k = (h['unit'], h['name'])
            if len([1 for x in done if x[:2] == k]) > 6 or k + (o['name'],) in done:
                continue
            done.add(k + (o['name'],))
            self.confirm(nbuild, h, o)
        # native results
        for h, f in nfut:
            try:
                r = f.result()
            except Exception as e:  # noqa
                self.undecided.append('native %s: %s' % (h['name'], str(e)[-300:]))
                continue
            if r is None:
                continue
            what, lines, out = r
            if h.get('driver'):
                self.violation('%s/%s' % (h['name'], what.split('\n')[0]), what, lines)
            else:
                p = self.write_replay(h['unit'], h['name'], what, lines, 'native contract execution\n' + tail(out, 30))
                self.violation('%s/%s' % (h['name'], what.split('\n')[0]), what, p)
        # a second, longer native search where the proof is open
        for u in sorted(set(x.split(':')[0] for x in self.undecided)):
            h = next((t for t in tasks if t['name'] == u), None)
            if h is None or self.violations or self.left() < 60 or not h.get('native', True):
                continue
            r = self.native_task(nbuild, h, 8000, seed_shift=77)
            if r is not None:
                what, lines, out = r
                p = self.write_replay(h['unit'], h['name'], what, lines, tail(out, 30))
                self.violation('%s/%s' % (h['name'], what.split('\n')[0]), what, p)
        for x in self.undecided:
            log('UNDECIDED ' + x)
        for k, what, path, found in self.violations:
            pass
        self.evidence(hres, obls, proved, folded, solver_s, backends, funcs, replaced, cutl)
        for k, what, path, found in self.violations[:8]:
            log('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if found else ' no-failing-input-found'))
        log('%s: %d/%d obligations discharged (+%d by constant folding), %d undecided, %d violations, %.0f s' % (
            self.pid, proved, obls, folded, len(self.undecided), len(self.violations), time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0

    def nms(self, h):
        ms = h.get('native_ms', 2500)
        return ms * (6 if self.tier == 'thorough' else 1)

    def try_native(self, B, u):
        return B.native(u['tu'], u['name'])

    def try_ir(self, B, u):
        return B.ir(u['tu'], u['name'])

    def native_task(self, nbuild, h, ms, seed_shift=0):
        global SEED
        exe = nbuild[h['unit']].result()
        return self.native_random(h['unit'], exe, h['name'], h.get('native_iters', 10 ** 7), ms)

    def prove(self, irf, h):
        empty = dict(obligations=[], covers=[], folded=0)
        try:
            ll = irf.result()
        except Exception as e:  # the contracts no longer fit the code
            return dict(empty, error='does not build against the current sources: ' + str(e)[-400:])
        out = os.path.join(self.scratch, 'r_%s_%s.json' % (h['unit'], h['name']))
        opts = {k: h[k] for k in ('mode', 'replace', 'unroll', 'prune', 'exec', 'safety', 'feas_ms', 'ob', 'total', 'jobs',
                                  'mem', 'no_replace', 'steps', 'cases', 'procs') if k in h}
        if self.tier == 'thorough':
            opts['cases'] = h.get('thorough_cases', opts.get('cases'))
            opts['ob'] = opts.get('ob', 60) * 4
            opts['total'] = opts.get('total', 400) * 4
            opts['exec'] = opts.get('exec', 200) * 3
        cap = min(self.left() - 60, h.get('cap', opts.get('exec', 200) + opts.get('total', 400) + 60))
        p = subprocess.Popen([PY, os.path.join(ROOT, 'engine', 'worker.py'), ll, h['name'], json.dumps(opts), out],
                             start_new_session=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            so, _ = p.communicate(timeout=max(5, cap))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return dict(empty, error='time limit')
        if not os.path.exists(out):
            return dict(empty, error='worker died: ' + so[-300:])
        return json.load(open(out))

    def confirm(self, nbuild, h, o):
        what = '%s %s at %s (in %s)' % (o['kind'], o['name'], o['loc'], o['fn'])
        verdict = 'solver: negated obligation satisfiable (%s)' % o['backend']
        p = self.write_replay(h['unit'], h['name'], what, o['cex'], verdict)
        key = '%s/%s %s' % (h['name'], o['kind'], o['name'])
        try:
            exe = nbuild[h['unit']].result()
        except Exception as e:
            self.violation(key, what + ' [native build failed: %s]' % str(e)[-200:], p, False)
            return
        rc, out = self.native(exe, h['name'], ['replay', p], 90)
        if rc in (42, 43) or (isinstance(rc, int) and rc not in (0, 44)):
            with open(p, 'a') as f:
                f.write('# replayed on the real code: exit %s\n' % rc + ''.join('# %s\n' % x for x in tail(out, 30).split('\n')))
            self.violation(key, what + ' -> ' + (first(out, 'NATIVE FAIL') or 'crash'), p)
            return
        r = self.native_random(h['unit'], exe, h['name'], 10 ** 8, 15000)
        if r is not None:
            w, lines, out = r
            p = self.write_replay(h['unit'], h['name'], what + '; ' + w, lines, tail(out, 30))
            self.violation(key, what + ' -> ' + w, p)
            return
        self.violation(key, what, p, False)

    def driver(self, B, drv):
        """bounded system-level contract execution; prints DRIVER FAIL and writes a replay file on failure"""
        exe = B.native(drv['tu'], drv['name'], drv.get('link', ()))
        ms = drv.get('ms', 20000) * (8 if self.tier == 'thorough' else 1)
        ms = int(min(ms, max(5, self.left() - 120) * 1000))
        d = os.path.join(self.repdir, '%s-%s.bin' % (self.pid, drv['name']))
        if os.path.exists(d):
            os.unlink(d)
        rc, out = self.native(exe, drv['entry'], ['random', str(SEED), str(10 ** 9), str(ms), d], ms / 1000.0 + 120)
        st = dict(harness=drv['name'], rc=rc, bounded=drv.get('bounded', ''))
        for ln in out.split('\n'):
            if ln.startswith('NATIVE OK'):
                for kv in ln.split()[2:]:
                    k, v = kv.split('=')
                    st[k] = int(v)
        self.native_stats.append(st)
        if rc in (42, 43) or (isinstance(rc, int) and rc != 0):
            rc2, out2 = self.native(exe, drv['entry'], ['replay', d], 120)
            if rc2 in (0, 44):
                self.undecided.append('driver %s: failure did not repeat' % drv['name'])
                return None
            with open(d, 'a') as f:
                f.write('# property %s unit %s harness %s\n' % (self.pid, drv['name'], drv['entry']))
                f.write(''.join('# %s\n' % x for x in tail(out2, 40).split('\n')))
            return first(out, 'NATIVE FAIL') or 'crash ' + tail(out, 10), d, out2
        return None

    def evidence(self, hres, obls, proved, folded, solver_s, backends, funcs, replaced, cutl):
        real = sorted(f for f in funcs if f.startswith(('_ZN7brunsli', '_ZNK7brunsli', 'Encode', 'Decode', 'Brunsli')) or '_ZN7brunsli' == f[:11])
        dem = demangle(real)
        nev = sum(s.get('satisfied', 0) for s in self.native_stats)
        cov = dict(
            obligations=obls, discharged=proved, constant_folded=folded,
            checker_cmd='python3 check.py %s --tier %s' % (self.pid, self.tier),
            back_ends=backends, solver_seconds=round(solver_s, 1),
            functions_under_contract=dem, callee_contracts_used=demangle(sorted(replaced)),
            loops_cut_by_invariant=sorted(cutl),
            harnesses=hres, undecided=self.undecided,
            bounded_native_executions=nev,
            native=self.native_stats,
            evaluations=nev, distinct_nontrivial=nev,
            rule='native runs of the same contracts on sampled inputs that satisfy the precondition (supplement, not counted as proof)',
            samples=[dict(harness=h['harness'], obligations=h['obligations']) for h in hres[:4]],
            trusted_base=TRUST,
            explanation=self.P.get('explanation', ''),
        )
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.P['level'], coverage=cov,
                  assumptions=self.P.get('assumptions', []) + TRUST, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


TRUST = [
    'clang-18 translates the C++ of /repo to LLVM IR faithfully (-std=c++11 -DNDEBUG, no exceptions, no RTTI)',
    'the verification-condition generator engine/symex.py and engine/irparse.py (self-tested, not verified)',
    'z3 / cvc5 answers of unsat',
    'floating point values are opaque (any value), memory allocation succeeds, use after free is not checked symbolically',
    'compiler-generated code may differ from clang (the shipped build uses gcc)',
]


def tail(s, n):
    return '\n'.join(s.strip().split('\n')[-n:])


def first(s, pre):
    return next((x for x in s.split('\n') if x.startswith(pre)), '')


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return [x[:160] for x in p.stdout.strip().split('\n')]
    except OSError:
        return names


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        txt = open(a[1], errors='replace').read()
        import re
        m = re.search(r'# property (\S+) unit (\S+) harness (\S+)', txt)
        pid, unit, har = m.groups()
        sc = tempfile.mkdtemp(prefix='verif_replay_')
        B = build.Build(sc)
        B.start_native_lib()
        P = props.PROPS[pid]
        u = next((u for u in P['units'] if u['name'] == unit), None) or next(d for d in P['drivers'] if d['name'] == unit)
        exe = B.native(u['tu'], unit, u.get('link', ()))
        p = subprocess.run([exe, har, 'replay', a[1]], env=NENV)
        shutil.rmtree(sc)
        return 1 if p.returncode else 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    c = Check(a[0], tier)
    try:
        return c.run()
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
