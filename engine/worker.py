"""worker.py module.ll harness opts.json out.json: generate and discharge the obligations of one harness"""
import faulthandler
import json
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irparse
import symex
import discharge
import z3


def run_cases(ll, harness, o, out, t0):
    """every combination of the listed cases, each in its own process"""
    import itertools
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    listed = o['cases'].pop('_list', None)
    names = sorted(o['cases'])
    rng = [range(v[0], v[1] + 1) if isinstance(v, list) and len(v) == 2 else v['in'] for v in (o['cases'][n] for n in names)]
    combos = [dict(zip(names, c)) for c in itertools.product(*rng)]
    if listed:
        combos = [dict(c, **d) for c in combos for d in listed]

    def one(i):
        oc = dict(o, case=combos[i], jobs=o.get('jobs', 2))
        f = '%s.%d' % (out, i)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), ll, harness, json.dumps(oc), f],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(f):
            return dict(error='worker died: ' + p.stdout[-200:], obligations=[], covers=[], folded=0, functions=[], replaced=[],
                        cut_loops=[], externs=[], feasibility_queries=0, paths=0, exec_s=0, solve_s=0)
        with open(f) as h:
            r = json.load(h)
        os.unlink(f)
        if r['error']:
            r['error'] = '%s: %s' % (combos[i], r['error'])
        return r
    tot = None
    cov = {}
    with ThreadPoolExecutor(o.get('procs', 4)) as ex:
        for r in ex.map(one, range(len(combos))):
            for nm, c in r['covers']:
                if cov.get(nm) != 'sat':
                    cov[nm] = c
            if tot is None:
                tot = r
                continue
            tot['error'] = tot['error'] or r['error']
            for k in ('obligations',):
                tot[k] += r[k]
            for k in ('folded', 'feasibility_queries', 'paths', 'exec_s', 'solve_s'):
                tot[k] = round(tot.get(k, 0) + r.get(k, 0), 2)
            for k in ('functions', 'replaced', 'cut_loops', 'externs'):
                tot[k] = sorted(set(map(str, tot.get(k, []))) | set(map(str, r.get(k, []))))
    tot['covers'] = [[a, b] for a, b in cov.items()]
    tot['wall_s'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(tot, f)


def main():
    ll, harness, opts, out = sys.argv[1:5]
    o = json.loads(opts)
    resource.setrlimit(resource.RLIMIT_AS, (o.get('mem', 10) << 30, o.get('mem', 10) << 30))
    t0 = time.time()
    if o.get('cases') and not o.get('case'):
        return run_cases(ll, harness, o, out, t0)
    r = dict(harness=harness, error=None, obligations=[], covers=[], folded=0)
    try:
        mod = irparse.Module(open(ll).read())
        eng = symex.Engine(mod, mode=o.get('mode', 'merge'), replace=o.get('replace'), unroll=o.get('unroll', 2000),
                           prune=o.get('prune', 'loops'), budget=o.get('exec', 200),
                           check_safety=o.get('safety', True), solver_ms=o.get('feas_ms', 3000), max_steps=o.get('steps', 3000000))
        eng.case = o.get('case') or {}
        if o.get('no_replace'):
            eng.no_replace = tuple(o['no_replace'])
        try:
            for k in (o.get('replace') or {}):
                if k not in mod.funcs and k not in mod.decls:
                    raise symex.Unsupported('no function to put under contract: ' + k)
            eng.run_harness('h_' + harness)
        except (symex.Unsupported, symex.Budget, irparse.ParseError, z3.Z3Exception, RecursionError, MemoryError) as e:
            r['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
            r['where'] = eng.callstack_at_error if hasattr(eng, 'callstack_at_error') else ''
            if o.get('trace'):
                traceback.print_exc()
        except Exception as e:
            r['error'] = 'internal %s: %s' % (type(e).__name__, str(e)[:300])
            r['where'] = traceback.format_exc()[-600:]
        r['exec_s'] = round(time.time() - t0, 2)
        r['folded'] = eng.trivial
        r['functions'] = sorted(eng.used_funcs)
        r['replaced'] = sorted(eng.replaced_used)
        r['cut_loops'] = sorted(set(eng.cut_loops))
        r['externs'] = sorted(eng.externs)
        r['feasibility_queries'] = eng.nfeas
        r['paths'] = getattr(eng, 'npaths', 1)
        # user obligations first: they carry the property
        obls = eng.obls
        t1 = time.time()
        r['obligations'] = discharge.discharge_all(eng, obls, o.get('ob', 60), o.get('total', 400), o.get('jobs', 4))
        groups = {}
        for nm, pc in eng.covers:
            groups.setdefault(nm, []).append(pc)
        cov = []
        for nm, pcs in groups.items():
            ok = 'unsat'
            for pc in pcs[:40]:
                res, _ = discharge.ask(pc, 10000) if pc else (z3.sat, None)
                if res == z3.sat:
                    ok = 'sat'
                    break
                if res == z3.unknown:
                    ok = 'unknown'
            cov.append([nm, ok])
        r['covers'] = cov
        r['solve_s'] = round(time.time() - t1, 2)
    except MemoryError:
        r['error'] = 'MemoryError'
    r['wall_s'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(r, f)


if __name__ == '__main__':
    faulthandler.register(__import__('signal').SIGUSR1)
    import threading
    threading.stack_size(512 << 20)
    sys.setrecursionlimit(100000)
    t = threading.Thread(target=main)
    t.start()
    t.join()
