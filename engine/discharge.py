"""Discharges proof obligations with a portfolio: z3 (several strategies, in
process) and, for the hard ones, the cvc5 and z3 4.8 binaries."""
import os
import subprocess
import tempfile
import time
import json
import math
import select
import signal
import z3
import lia

HARD_OPS = (z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I,
            z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I)


def walk(ts):
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())


def features(ts):
    hard = []
    arrays = quant = False
    n = 0
    for x in walk(ts):
        n += 1
        if z3.is_quantifier(x):
            quant = True
            continue
        if z3.is_array(x):
            arrays = True
        if z3.is_app(x):
            k = x.decl().kind()
            if k in HARD_OPS:
                if k == z3.Z3_OP_BMUL and any(z3.is_bv_value(c) for c in x.children()):
                    continue
                hard.append(x)
    return hard, arrays, quant, n


OPN = {z3.Z3_OP_BMUL: 'mul', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BSDIV: 'sdiv',
       z3.Z3_OP_BSREM: 'srem', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM_I: 'urem', z3.Z3_OP_BSDIV_I: 'sdiv',
       z3.Z3_OP_BSREM_I: 'srem'}


def uf(op, w):
    s = z3.BitVecSort(w)
    return z3.Function('%s_%d' % (op, w), s, s, s)


def abstract(ts, hard):
    """multiplications and divisions become uninterpreted functions with their defining equations"""
    # innermost first, so that nested operations are replaced as well
    sub = []
    hard = sorted(hard, key=lambda h: len(list(walk([h]))))
    axioms = []
    for h in hard:
        args = h.children()
        if sub:
            args = [z3.substitute(a, sub) for a in args]
        op = OPN[h.decl().kind()]
        w = h.size()
        if op == 'mul':
            t = args[0]
            for a in args[1:]:
                n = uf('mul', w)(t, a)
                axioms.append(n == uf('mul', w)(a, t))
                t = n
        else:
            t = uf(op, w)(*args)
            if op in ('udiv', 'urem'):
                x, f = args
                q, r = uf('udiv', w)(x, f), uf('urem', w)(x, f)
                p = uf('mul', w)(q, f)
                axioms.append(z3.Implies(f != 0, z3.And(x == p + r, z3.ULT(r, f), z3.ULE(p, x), z3.ULE(q, x))))
                axioms.append(p == uf('mul', w)(f, q))
        sub.append((h, t))
    # outermost matches are replaced by terms whose arguments are already abstract
    sub.reverse()
    return [z3.substitute(t, sub) for t in ts] + axioms


LEQ = {z3.Z3_OP_ULEQ: (0, 1, 'u', False), z3.Z3_OP_UGEQ: (1, 0, 'u', False), z3.Z3_OP_ULT: (0, 1, 'u', True),
       z3.Z3_OP_UGT: (1, 0, 'u', True), z3.Z3_OP_SLEQ: (0, 1, 's', False), z3.Z3_OP_SGEQ: (1, 0, 's', False),
       z3.Z3_OP_SLT: (0, 1, 's', True), z3.Z3_OP_SGT: (1, 0, 's', True)}


def equalities(pc):
    """x <= y and y <= x give x == y (bit-blasting finds this hard below a multiplication)"""
    seen = {}
    out = []
    lt, le = {}, {}
    for t in pc:
        neg = False
        if z3.is_not(t):
            t = t.arg(0)
            neg = True
        if not z3.is_app(t):
            continue
        e = LEQ.get(t.decl().kind())
        if e is None:
            continue
        a, b, sg, strict = t.arg(e[0]), t.arg(e[1]), e[2], e[3]
        if neg:
            a, b, strict = b, a, not strict
        if strict:
            lt.setdefault(b.get_id(), []).append(a)
            continue
        le.setdefault(a.get_id(), []).append((a, b))
        k = (a.get_id(), b.get_id(), sg)
        r = (b.get_id(), a.get_id(), sg)
        if r in seen:
            out.append(a == b)
        seen[k] = t
    # a < b and b <= a + 1 give b == a + 1
    for i, xs in lt.items():
        for b, c in le.get(i, ()):
            for a in xs:
                d = z3.simplify(c - a)
                if z3.is_bv_value(d) and d.as_long() == 1:
                    out.append(b == c)
    return out


_syms = {}


def symbols(t):
    i = t.get_id()
    r = _syms.get(i)
    if r is None:
        s = set()
        todo = [t]
        seen = set()
        while todo:
            x = todo.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            k = _syms.get(j)
            if k is not None:
                s |= k[0]
            elif z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args():
                    todo.extend(x.children())
                elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s.add(x.decl().name())
        r = _syms[i] = (frozenset(s), t)
    return r[0]


def cone(pc, goal, hops):
    if hops is None:
        return list(pc)
    s = set(symbols(goal))
    keep = set()
    for _ in range(hops):
        add = set()
        for i, t in enumerate(pc):
            if i in keep:
                continue
            ts = symbols(t)
            if ts & s:
                keep.add(i)
                add |= ts
        if not add - s:
            break
        s |= add
    return [pc[i] for i in sorted(keep)]


def ask(ts, ms, strategy='default'):
    if strategy == 'bv':
        s = z3.SolverFor('QF_BV')
    elif strategy == 'bb':
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver()
    elif strategy == 'abv':
        s = z3.SolverFor('QF_AUFBV')
    else:
        s = z3.Solver()
    s.set('timeout', int(ms))
    s.add(ts)
    r = s.check()
    return r, s


def external(ts, secs, want_z3=True):
    """cvc5 and z3 4.8 on the SMT-LIB text in parallel; 'unsat'/'sat'/'unknown', backend"""
    s = z3.Solver()
    s.add(ts)
    text = s.to_smt2()
    if '(lambda' in text.lower() or 'as-array' in text:
        return 'unknown', None
    d = tempfile.mkdtemp(prefix='vext')
    try:
        fn = os.path.join(d, 'q.smt2')
        with open(fn, 'w') as f:
            f.write('(set-logic ALL)\n' + text)
        ps = []
        cmds = [('cvc5', ['cvc5', '--tlimit=%d' % int(secs * 1000), fn]),
                ('cvc5(int)', ['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % int(secs * 1000), fn])]
        if want_z3:
            cmds.append(('z3-4.8', ['z3', '-T:%d' % int(secs), fn]))
        for nm, c in cmds:
            try:
                ps.append((nm, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except OSError:
                pass
        end = time.time() + secs + 2
        res = ('unknown', None)
        live = list(ps)
        while live and time.time() < end and res[1] is None:
            for nm, p in list(live):
                if p.poll() is not None:
                    live.remove((nm, p))
                    o = p.stdout.read().split()
                    if 'unsat' in o[:1]:
                        res = ('unsat', nm)
                    elif 'sat' in o[:1]:
                        res = ('sat', nm)
            time.sleep(0.02)
        for nm, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        return res
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)


_simp = {}


def simp(t):
    i = t.get_id()
    r = _simp.get(i)
    if r is None:
        r = _simp[i] = (z3.simplify(t), t)
    return r[0]


BOOL = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_ITE)
_lite = {}


def lite(t):
    """simplifies the terms below the comparisons but keeps the comparisons themselves"""
    i = t.get_id()
    r = _lite.get(i)
    if r is None:
        if not z3.is_app(t) or z3.is_quantifier(t) or t.num_args() == 0:
            u = t
        elif z3.is_bool(t) and t.decl().kind() in BOOL:
            ch = [lite(c) for c in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_NOT:
                u = z3.BoolVal(False) if z3.is_true(ch[0]) else z3.BoolVal(True) if z3.is_false(ch[0]) else \
                    ch[0].arg(0) if z3.is_not(ch[0]) else z3.Not(ch[0])
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                zero, one_ = (z3.is_false, z3.is_true) if k == z3.Z3_OP_AND else (z3.is_true, z3.is_false)
                ch = [c for c in ch if not one_(c)]
                if any(zero(c) for c in ch):
                    u = z3.BoolVal(k == z3.Z3_OP_OR)
                elif not ch:
                    u = z3.BoolVal(k == z3.Z3_OP_AND)
                else:
                    u = ch[0] if len(ch) == 1 else z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
            else:
                u = t.decl()(*ch)
        elif z3.is_bool(t) and all(z3.is_bv(c) for c in t.children()):
            ch = [simp(c) for c in t.children()]
            u = t.decl()(*ch)
            if all(z3.is_bv_value(c) for c in ch) or (len(ch) == 2 and ch[0].eq(ch[1])):
                u = simp(u)
        else:
            u = simp(t)
        r = _lite[i] = (u, t)
    return r[0]


def flat(ts):
    for t in ts:
        if z3.is_and(t):
            yield from flat(t.children())
        elif z3.is_not(t) and z3.is_or(t.arg(0)):
            yield from flat([lite(z3.Not(x)) for x in t.arg(0).children()])
        else:
            yield t


def definition(e):
    """x == t with x a constant not in t"""
    if not z3.is_eq(e):
        return None
    a, b = e.arg(0), e.arg(1)
    for x, t in ((a, b), (b, a)):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_array(x) and \
                x.decl().name() not in symbols(t):
            return x, t
    return None


def normalise(pc, goal, rounds=40):
    """simplify, derive equalities from orderings, eliminate defined variables"""
    pc = [x for x in flat([lite(t) for t in pc]) if not z3.is_true(x)]
    goal = lite(goal)
    for _ in range(rounds):
        sub = []
        used = set()
        inrhs = set()
        rest = []
        for t in [lite(e) for e in equalities(pc)] + pc:
            d = definition(t)
            if d is not None and len(sub) < 200:
                x, u = d
                nm = x.decl().name()
                su = symbols(u)
                if nm not in used and nm not in inrhs and not (su & used):
                    used.add(nm)
                    inrhs |= su
                    sub.append((x, u))
                    continue
            rest.append(t)
        if not sub:
            break
        names = frozenset(used)
        out = []
        seen = set()
        for t in rest:
            if symbols(t) & names:
                t = lite(z3.substitute(t, sub))
            for y in flat([t]):
                if not z3.is_true(y) and y.get_id() not in seen:
                    seen.add(y.get_id())
                    out.append(y)
        pc = out
        if symbols(goal) & names:
            goal = lite(z3.substitute(goal, sub))
    return pc, goal


def addends(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BADD:
        for c in t.children():
            yield from addends(c)
    else:
        yield t


def unscale(goal):
    """g*s + d <= K follows from s <= (K-d)/g (no wrap: K is small)"""
    if not z3.is_app(goal) or goal.decl().kind() != z3.Z3_OP_ULEQ or not z3.is_bv_value(goal.arg(1)):
        return None
    k = goal.arg(1).as_long()
    w = goal.arg(1).size()
    d = 0
    parts = []
    for t in addends(goal.arg(0)):
        if z3.is_bv_value(t):
            d += t.as_long()
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and \
                any(z3.is_bv_value(x) for x in t.children()):
            x, y = t.children()
            if z3.is_bv_value(y):
                x, y = y, x
            parts.append((x.as_long(), y))
        else:
            parts.append((1, t))
    g = 0
    for c, _ in parts:
        g = math.gcd(g, c)
    if g < 2 or d > k or k >> (w - 1):
        return None
    s = None
    for c, t in parts:
        u = t if c == g else z3.BitVecVal(c // g, w) * t
        s = u if s is None else s + u
    return z3.ULE(s, (k - d) // g)


def small(t, limit=40):
    """at most limit nodes"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > limit:
            return False
        todo.extend(x.children())
    return True


class Sub:
    def __init__(self, pc, goal):
        self.pc = pc
        self.goal = goal


def discharge(ob, budget, depth=0):
    """returns (status, backend, model or None); status proved / refuted / unknown"""
    t0 = time.time()
    if not ob.pc and z3.is_false(ob.goal):
        return 'refuted', 'trivial', None
    if depth == 0:
        orig = ob
        gs = symbols(ob.goal)
        c = [t for t in ob.pc if symbols(t) <= gs]
        if len(c) + 10 < len(ob.pc):
            # most obligations need only the facts about their own symbols, or one step further
            r, _ = ask(c + [z3.Not(ob.goal)], 300)
            if r == z3.unsat:
                return 'proved', 'z3(cone)', None
            c1 = cone(ob.pc, ob.goal, 1)
            if len(c1) + 10 < len(ob.pc):
                r, _ = ask(c1 + [z3.Not(ob.goal)], 300)
                if r == z3.unsat:
                    return 'proved', 'z3(cone)', None
            c2 = [t for t in ob.pc if small(t)]
            if small(ob.goal, 400) and 0 < len(c2) < len(ob.pc):
                r, _ = ask(c2 + [z3.Not(ob.goal)], 1000)
                if r == z3.unsat:
                    return 'proved', 'z3(cone)', None
        g2 = unscale(ob.goal)
        if g2 is not None:
            st, be, m = discharge(Sub(ob.pc, g2), budget * 0.5)
            if st == 'proved':
                return st, be, m
        full = ob.pc + [z3.Not(ob.goal)]
        hard, arrays, quant, n = features(full)
        if hard and n < 4000:
            r, _ = ask(abstract(full, hard), min(3000, budget * 200))
            if r == z3.unsat:
                return 'proved', 'z3(uninterpreted arithmetic)', None
        ob = Sub(*normalise(ob.pc, ob.goal))
        if z3.is_true(ob.goal) or any(z3.is_false(t) for t in ob.pc):
            return 'proved', 'simplifier', None
        st, be, m = discharge(ob, budget, 1)
        if m is not None:
            # eliminated variables: their values come from the original formula
            fix = [v() == m[v] for v in m.decls() if v.arity() == 0 and not z3.is_array(v())]
            r, s = ask(orig.pc + [z3.Not(orig.goal)] + fix, 20000)
            if r != z3.sat:
                r, s = ask(orig.pc + [z3.Not(orig.goal)], 20000)
            m = s.model() if r == z3.sat else m
        return st, be, m
    neg = z3.Not(ob.goal)
    gs = symbols(ob.goal)
    c = [t for t in ob.pc if symbols(t) <= gs]
    if len(c) < len(ob.pc):
        r, _ = ask(c + [neg], 700)
        if r == z3.unsat:
            return 'proved', 'z3(cone)', None
    # 1. integer arithmetic, small cones
    c = cone(ob.pc, ob.goal, 1)
    if lia.proves(c, ob.goal, 2000):
        return 'proved', 'z3(integers)', None
    for hops in (1, 2):
        c = cone(ob.pc, ob.goal, hops)
        if len(c) == len(ob.pc):
            break
        r, _ = ask(c + [neg], 1500)
        if r == z3.unsat:
            return 'proved', 'z3(cone)', None
    full = ob.pc + [neg]
    hard, arrays, quant, n = features(full)
    if hard:
        a = abstract(full, hard)
        r, _ = ask(a, min(8000, budget * 300))
        if r == z3.unsat:
            return 'proved', 'z3(uninterpreted arithmetic)', None
    if len(c) < len(ob.pc) and lia.proves(ob.pc, ob.goal, 3000):
        return 'proved', 'z3(integers)', None
    r, s = ask(full, min(6000, budget * 400))
    if r == z3.unsat:
        return 'proved', 'z3', None
    if r == z3.sat:
        return 'refuted', 'z3', s.model()
    # case split on a disjunction left by a control-flow join
    if depth < 4:
        cands = [t for t in ob.pc if z3.is_or(t) and 2 <= t.num_args() <= 4]
        if cands:
            t = max(cands, key=lambda t: sum(1 for x in t.children() if z3.is_and(x)))
            rest = [x for x in ob.pc if not x.eq(t)]
            okall = True
            be = 'z3'
            for x in t.children():
                o2 = Sub(rest + (list(x.children()) if z3.is_and(x) else [x]), ob.goal)
                st, b2, m = discharge(o2, (budget - (time.time() - t0)) * 0.45, depth=depth + 1)
                if st == 'refuted':
                    return st, b2, m
                if st != 'proved':
                    okall = False
                    break
            if okall:
                return 'proved', 'z3(case split)', None
    strategies = []
    if not quant and not arrays:
        strategies += ['bv', 'bb']
    for st in strategies:
        left = budget - (time.time() - t0)
        if left <= 1:
            break
        r, s = ask(full, left * 1000 * 0.3, st)
        if r == z3.unsat:
            return 'proved', 'z3(%s)' % st, None
        if r == z3.sat:
            return 'refuted', 'z3(%s)' % st, s.model()
    left = budget - (time.time() - t0)
    if left > 2:
        c = cone(ob.pc, ob.goal, 2) + [neg]
        r, be = external(full, left * 0.5)
        if r == 'unsat':
            return 'proved', be, None
        left = budget - (time.time() - t0)
        if left > 1:
            z, s = ask(full, left * 1000)
            if z == z3.unsat:
                return 'proved', 'z3', None
            if z == z3.sat:
                return 'refuted', 'z3', s.model()
        if r == 'sat':
            return 'refuted', be, None
    return 'unknown', None, None


def model_lines(eng, model):
    """counterexample as replay-file lines"""
    out = ['in %s 0 0 %d' % c for c in sorted(eng.case.items())]
    if model is None:
        return out
    for (nm, idx, occ), (t, bits) in sorted(eng.inputs.items(), key=str):
        v = model.eval(t, model_completion=False)
        if z3.is_bv_value(v):
            out.append('in %s %d %d %d' % (nm, idx, occ, v.as_long()))
    for nm, (a, es, cnt) in eng.arrays.items():
        try:
            c = cnt if isinstance(cnt, int) else model.eval(cnt, model_completion=True).as_long()
        except Exception:
            c = 0
        for i in range(min(c, 4096)):
            v = model.eval(z3.Select(a, z3.BitVecVal(i, 64)), model_completion=True)
            if z3.is_bv_value(v) and v.as_long():
                out.append('arr %s %d %d' % (nm, i, v.as_long()))
    return out


def discharge_all(eng, obls, budget, total, jobs=1):
    """obligations -> list of dicts; every obligation in its own forked, killable process"""
    end = time.time() + total
    res = [None] * len(obls)
    for o in obls:  # the children share the table
        symbols(o.goal)
        for t in o.pc:
            symbols(t)
    # a chunk of consecutive obligations per child; what a killed child did not answer is retried alone
    queue = []
    n = len(obls)
    step = max(1, min(16 if n > 500 else 8, n // max(1, jobs * 2)))
    for i in range(0, n, step):
        queue.append(list(range(i, min(n, i + step))))
    live = {}
    tries = {}
    while queue or live:
        while queue and len(live) < jobs and time.time() < end - 0.5:
            ids = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, 'w') as f:
                        for i in ids:
                            f.write(json.dumps([i, one(eng, obls[i], budget, end)]) + '\n')
                            f.flush()
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [pid, ids, time.time(), b'']
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 0.25)
        for r in rd:
            x = live[r]
            d = os.read(r, 65536)
            if d:
                x[3] += d
                while b'\n' in x[3]:
                    ln, x[3] = x[3].split(b'\n', 1)
                    i, y = json.loads(ln)
                    res[i] = y
                    x[2] = time.time()
                continue
            os.close(r)
            os.waitpid(x[0], 0)
            del live[r]
            left = [i for i in x[1] if res[i] is None]
            if left:  # died (memory): the first one is unknown, the others go on
                res[left[0]] = dict(status='unknown', backend='died', time=0.0, cex=[], **ident(obls[left[0]]))
                if left[1:]:
                    queue.append(left[1:])
        now = time.time()
        for r, x in list(live.items()):
            if now - x[2] > budget * 1.5 + 5 or now > end + 10:
                os.kill(x[0], signal.SIGKILL)
                x[2] = now + 1e6
    for i, x in enumerate(res):
        if x is None:
            res[i] = dict(status='unknown', backend=None, time=0.0, cex=[], **ident(obls[i]))
    return res


def ident(o):
    loc = o.loc
    return dict(kind=o.kind, name=o.name, user=o.user, fn=o.fn,
                loc='%s:%s' % (loc[0], loc[1]) if loc else '?')


def one(eng, o, budget, end):
    t = time.time()
    left = end - t
    if left < 1:
        return dict(status='unknown', backend=None, time=0.0, cex=[], **ident(o))
    try:
        st, be, m = discharge(o, min(budget, left))
        cex = model_lines(eng, m) if m is not None else []
    except z3.Z3Exception as e:
        st, be, cex = 'unknown', 'error ' + str(e)[:80], []
    return dict(status=st, backend=be, time=round(time.time() - t, 3), cex=cex, **ident(o))
