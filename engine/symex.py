"""Verification-condition generator over LLVM IR.

Executes a harness function symbolically, inlining every callee that has no
replacing contract, and collects proof obligations.  Two exploration modes:

  merge  join points are merged with if-then-else (one state per block visit)
  fork   paths are enumerated, infeasible ones pruned with the solver

Loops without an invariant are unrolled until the solver (or constant
folding) shows that the back edge is infeasible: complete when it ends.
Loops with BRUNSLI_LOOP_INVARIANT are cut: the invariant is an obligation on
entry and on every back edge, the loop frame is computed and havocked, and
the code after the loop knows only the invariant.
"""
import time
import z3
import struct
from irparse import Module, INT, PTR, T

sys_setrec = __import__('sys').setrecursionlimit
sys_setrec(20000)


_syms = {}


def symbols(t):
    """names of the free symbols of a term"""
    i = t.get_id()
    r = _syms.get(i)
    if r is None:
        todo = [t]
        seen = set()
        out = set()
        while todo:
            x = todo.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            k = _syms.get(j)
            if k is not None:
                out |= k[0]
                continue
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                else:
                    todo.extend(x.children())
        r = _syms[i] = (frozenset(out), t)
    return r[0]


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


BVV = z3.BitVecVal
M64 = (1 << 64) - 1


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def isint(x):
    return type(x) is int


def tobv(v, w):
    if isint(v):
        return BVV(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, BVV(1, w), BVV(0, w))
    return v


def tobool(v):
    if isint(v):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef):
        return v
    return v != 0


def norm(v):
    """constant-fold a z3 term into an int when it is a numeral"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def simp(v):
    if isint(v):
        return v
    return norm(z3.simplify(v))


class Ptr:
    """alts: tuple of (guard or None, oid, const offset, ((coef, term64), ...))"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def add(self, c, ts):
        return Ptr(tuple((g, o, (oc + c) & M64, addts(ots, ts)) for g, o, oc, ots in self.alts))

    def __repr__(self):
        return 'Ptr%r' % (self.alts,)


def exact_quotient(A, d, w):
    """A / d when A is a sum of small multiples of d (no wrap-around), else None"""
    A = z3.simplify(A)
    terms = A.children() if z3.is_app_of(A, z3.Z3_OP_BADD) else [A]
    if len(terms) > 8:
        return None
    tot = 0
    out = []
    for t in terms:
        if z3.is_bv_value(t):
            c, x = t.as_long(), None
        elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            c, x = t.arg(0).as_long(), t.arg(1)
        elif z3.is_app_of(t, z3.Z3_OP_CONCAT) and z3.is_bv_value(t.arg(t.num_args() - 1)):
            z = t.arg(t.num_args() - 1)
            if z.as_long():
                return None
            k = z.size()
            c, x = 1 << k, z3.LShR(t, k)
            if z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and (1 << k) % d == 0:
                tot += 1 << (w - t.arg(0).size())
                out.append(x * BVV((1 << k) // d, w))
                continue
            return None
        else:
            return None
        if c % d:
            return None
        if x is None:
            tot += c
            out.append(BVV(c // d, w))
            continue
        if not (z3.is_app_of(x, z3.Z3_OP_CONCAT) and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0):
            return None
        tot += c << (w - x.arg(0).size())
        out.append(x if c == d else x * BVV(c // d, w))
    if tot >= 1 << (w - 1):
        return None
    r = out[0]
    for x in out[1:]:
        r = r + x
    return r


def mkptr(oid, c=0, ts=()):
    return Ptr(((None, oid, c, ts),))


NULL = mkptr(0)


class PtrInt:
    """ptrtoint result kept symbolic so that pointer differences fold"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


def addts(a, b):
    if not b:
        return a
    if not a:
        return b
    d = {}
    for k, t in a + b:
        i = t.get_id()
        if i in d:
            d[i] = ((d[i][0] + k) & M64, t)
        else:
            d[i] = (k, t)
    return tuple(sorted(((k, t) for k, t in d.values() if k), key=lambda x: x[1].get_id()))


def scalets(a, k):
    return tuple(((c * k) & M64, t) for c, t in a if (c * k) & M64)


def offterm(c, ts):
    """offset as int or BV64"""
    if not ts:
        return c & M64
    r = None
    for k, t in ts:
        x = t if k == 1 else t * BVV(k, 64)
        r = x if r is None else r + x
    if c:
        r = r + BVV(c, 64)
    return r


class Obj:
    __slots__ = ('id', 'size', 'name', 'data', 'relocs', 'regions', 'kind', 'const', 'ty', 'stride', 'fn', 'tag')

    def __init__(self, id, size, name, kind):
        self.id = id
        self.size = size
        self.name = name
        self.kind = kind
        self.data = None
        self.relocs = None
        self.regions = ()
        self.const = False
        self.ty = None
        self.stride = None
        self.fn = None
        self.tag = None


class OState:
    __slots__ = ('cells', 'cols', 'dyn', 'freed')

    def __init__(self):
        self.cells = {}
        self.cols = {}
        self.dyn = None      # (stride) once a dynamic object went to column mode
        self.freed = False

    def copy(self):
        s = OState()
        s.cells = dict(self.cells)
        s.cols = dict(self.cols)
        s.dyn = self.dyn
        s.freed = self.freed
        return s


class State:
    __slots__ = ('mem', 'pc', 'owned', 'soft', 'dead', 'occ', 'model', 'marks')

    def __init__(self):
        self.mem = {}
        self.pc = {}
        self.owned = set()
        self.soft = False
        self.dead = False
        self.occ = {}
        self.model = None
        self.marks = frozenset()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = dict(self.pc)
        s.owned = set()
        self.owned = set()
        s.soft = self.soft
        s.occ = dict(self.occ)
        s.model = self.model
        s.marks = self.marks
        return s

    def assume(self, c):
        """returns False when trivially infeasible"""
        if isint(c):
            if not c:
                self.dead = True
            return bool(c)
        if z3.is_and(c):
            ok = True
            for x in c.children():
                ok = self.assume(norm(x)) and ok
            return ok
        i = c.get_id()
        if i in self.pc:
            return True
        n = z3.Not(c) if not z3.is_not(c) else c.arg(0)
        if n.get_id() in self.pc:
            self.dead = True
            return False
        self.pc[i] = c
        return True

    def pcs(self):
        return list(self.pc.values())


class Oblig:
    __slots__ = ('kind', 'name', 'pc', 'goal', 'loc', 'fn', 'status', 'model', 'user', 'time', 'backend')

    def __init__(self, kind, name, pc, goal, loc, fn, user):
        self.kind = kind
        self.name = name
        self.pc = pc
        self.goal = goal
        self.loc = loc
        self.fn = fn
        self.user = user
        self.status = None
        self.model = None
        self.time = 0.0
        self.backend = None


class CFG:
    """loop-contiguous order, natural loops, invariant cut points"""

    def __init__(self, f):
        f.parse()
        self.f = f
        blocks = f.blocks
        entry = f.entry
        # reachable + rpo
        seen = set()
        post = []
        stack = [(entry, iter(blocks[entry].succ))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(blocks[s].succ)))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [p for p in blocks[b].preds if p in idx] for b in rpo}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in blocks[b].succ:
                if idx[s] <= idx[b]:
                    if not dom(s, b):
                        raise Unsupported('irreducible loop in ' + f.name)
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        # parent header of each block
        hs = sorted(self.loops, key=lambda h: len(self.loops[h]))
        self.inner = {}
        for b in rpo:
            self.inner[b] = [h for h in hs if b in self.loops[h]]
        order = []

        def flat(nodes, header):
            # nodes: set of blocks in this region; topological order with child loops collapsed
            rep = {}
            childs = {}
            for b in nodes:
                chain = [h for h in self.inner[b]]
                # outermost loop strictly inside the region
                c = None
                for h in chain:
                    if h == header:
                        break
                    if h in nodes:
                        c = h
                rep[b] = c if c is not None else b
                if c is not None:
                    childs.setdefault(c, set()).add(b)
            succ = {}
            indeg = {}
            for b in nodes:
                succ.setdefault(rep[b], set())
                indeg.setdefault(rep[b], 0)
            for b in nodes:
                for s in blocks[b].succ:
                    if s in nodes and s != header and rep[s] != rep[b]:
                        if rep[s] not in succ[rep[b]]:
                            succ[rep[b]].add(rep[s])
                            indeg[rep[s]] += 1
            ready = sorted([n for n in indeg if indeg[n] == 0], key=lambda n: idx[n])
            while ready:
                n = ready.pop(0)
                if n in childs:
                    flat(childs[n], n)
                else:
                    order.append(n)
                for s in succ[n]:
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        ready.append(s)
                ready.sort(key=lambda n: idx[n])
        flat(set(rpo), None)
        self.order = {b: i for i, b in enumerate(order)}
        assert len(order) == len(rpo), f.name
        self.cut = {}
        for b in rpo:
            for i, ins in enumerate(blocks[b].ins):
                if ins.op == 'call' and ins.x[1] == 'v_invariant' and self.inner[b]:
                    self.cut[self.inner[b][0]] = True


class Engine:
    def __init__(self, mod, mode='merge', replace=None, unroll=2000, prune='loops', budget=600.0, check_safety=True,
                 solver_ms=3000, max_steps=3000000):
        self.m = mod
        self.mode = mode
        self.replace = replace or {}
        self.unroll = unroll
        self.prune = prune
        self.check_safety = check_safety
        self.deadline = time.time() + budget
        self.objs = {}
        self.nobj = 0
        self.obls = []
        self.trivial = 0
        self.covers = []
        self.case = {}
        self.inputs = {}       # (name, idx, occ) -> (term, bits)
        self.arrays = {}       # name -> (col array, elem bytes, count term)
        self.cfgs = {}
        self.globs = {}
        self.fnobj = {}
        self.nfresh = 0
        self.nsw = {}
        self.keep = []
        self.muxc = {}
        self.quiet = 0
        self.wlog = None
        self.cutmode = []
        self.externs = set()
        self.used_funcs = {}
        self.replaced_used = set()
        self.bounded_loops = []
        self.cut_loops = []
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_ms)
        self.nfeas = 0
        self.cur = None
        self.bases = {}
        self.lemmas = 0
        self.assumptions = []
        self.callstack = []

    # ---------------------------------------------------------------- utils
    def fresh(self, w, name='u'):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)

    def freshbool(self, name='b'):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))

    def new_obj(self, st, size, name, kind, stride=None, ty=None):
        self.nobj += 1
        o = Obj(self.nobj, size, name, kind)
        o.stride = stride
        o.ty = ty
        self.objs[o.id] = o
        if ty is not None:
            o.regions = tuple(self.big_regions(ty))
        s = OState()
        if stride is not None:
            s.dyn = stride
        st.mem[o.id] = s
        st.owned.add(o.id)
        return o

    def big_regions(self, ty, base=0):
        """arrays with many elements become column regions"""
        r = self.m.resolve(ty)
        if r.k == 'arr':
            es = self.m.size(r.b)
            if r.a * es > 512 and r.a > 1:
                e = self.m.resolve(r.b)
                # flatten arrays of arrays of scalars
                s = es
                while e.k == 'arr':
                    s = self.m.size(e.b)
                    e = self.m.resolve(e.b)
                yield (base, base + r.a * es, s)
                return
            if r.a <= 64:
                for i in range(r.a):
                    yield from self.big_regions(r.b, base + i * es)
        elif r.k == 'struct':
            offs, _ = self.m.layout(r)
            for f, o in zip(r.a, offs):
                yield from self.big_regions(f, base + o)

    def addr_base(self, oid):
        if oid == 0:
            return BVV(0, 64)
        b = self.bases.get(oid)
        if b is None:
            b = self.bases[oid] = z3.Concat(z3.BitVec('base!%d' % oid, 60), BVV(0, 4))
        return b

    def loc(self, ins):
        if ins is None:
            return None
        return self.m.line(ins.dbg)

    def oblige(self, st, kind, goal, name, ins=None, user=False):
        goal = norm(goal) if not isint(goal) else goal
        if isint(goal) and goal:
            if not self.quiet:
                self.trivial += 1
            return
        if self.quiet:
            return
        if not user and not self.check_safety:
            return
        if not isint(goal):
            g = simp(goal)
            if isint(g) and g:
                self.trivial += 1
                return
            if goal.get_id() in st.pc:
                self.trivial += 1
                return
        else:
            goal = z3.BoolVal(False)
        self.obls.append(Oblig(kind, name, st.pcs(), goal, self.loc(ins), self.callstack[-1] if self.callstack else '',
                               user))

    def feasible(self, st, cond):
        """solver check: pc && cond satisfiable? unknown counts as feasible"""
        self.nfeas += 1
        s = self.solver
        if self.mode != 'fork':
            # first with the constraints about the same symbols only
            syms = symbols(cond)
            if len(syms) <= 48:
                near = [t for t in st.pc.values() if symbols(t) and symbols(t) <= syms]
                q = z3.Solver()
                q.set('timeout', 2000)
                q.add(near)
                q.add(cond)
                r = q.check()
                if r == z3.unsat:
                    return False
            if self.prune == 'near':
                return True
        s.push()
        for t in st.pc.values():
            s.add(t)
        s.add(cond)
        r = s.check()
        if r == z3.sat:
            try:
                st.model = s.model()
            except z3.Z3Exception:
                st.model = None
        s.pop()
        return r != z3.unsat

    # ---------------------------------------------------------------- constants
    def const(self, ty, v):
        k = v[0]
        if k == 'int':
            r = self.m.resolve(ty)
            return v[1] & mask(r.a)
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.globptr(v[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'fp':
            return ('fp', v[1])
        if k == 'cgep':
            bt, ops = v[1], v[2]
            p = self.const(ops[0][0], ops[0][1])
            return self.gep(p, bt, [(t, self.const(t, o)) for t, o in ops[1:]])
        if k == 'ccast':
            x = self.const(v[2], v[3])
            return self.cast(v[1], v[2], v[4], x, None, None)
        if k == 'cbin':
            r = self.m.resolve(v[2])
            return self.binop(v[1], r.a, self.const(v[2], v[3]), self.const(v[2], v[4]))
        if k == 'agg':
            return tuple(self.const(t, x) for t, x in v[1])
        raise Unsupported('const ' + k)

    def undef(self, ty):
        r = self.m.resolve(ty)
        if r.k == 'int':
            return self.freshbool('undef') if r.a == 1 else self.fresh(r.a, 'undef')
        if r.k == 'ptr':
            return NULL
        if r.k in ('float', 'double', 'x86_fp80'):
            return ('fp', None)
        if r.k == 'struct':
            return tuple(self.undef(f) for f in r.a)
        if r.k == 'arr':
            return tuple(self.undef(r.b) for _ in range(r.a))
        raise Unsupported('undef')

    def zero(self, ty):
        r = self.m.resolve(ty)
        if r.k == 'int':
            return 0
        if r.k == 'ptr':
            return NULL
        if r.k in ('float', 'double'):
            return ('fp', 0.0)
        if r.k == 'struct':
            return tuple(self.zero(f) for f in r.a)
        if r.k == 'arr':
            return tuple(self.zero(r.b) for _ in range(r.a))
        raise Unsupported('zero')

    def globptr(self, name):
        p = self.globs.get(name)
        if p is not None:
            return p
        if name in self.m.funcs or name in self.m.decls:
            self.nobj += 1
            o = Obj(self.nobj, 1, name, 'func')
            o.fn = name
            self.objs[o.id] = o
            self.root.mem[o.id] = OState()
        else:
            g = self.m.glob(name)
            if g is None:
                raise Unsupported('global ' + name)
            if g.init is not None and g.init[0] == 'alias':
                return self.globptr(g.init[1])
            self.nobj += 1
            o = Obj(self.nobj, self.m.size(g.ty), name, 'global')
            o.ty = g.ty
            o.const = g.const
            self.objs[o.id] = o
            if g.init is not None:
                data = bytearray(o.size)
                rel = {}
                self.globs[name] = mkptr(o.id)
                self.flatten(g.ty, g.init, 0, data, rel)
                o.data = bytes(data)
                o.relocs = rel
            if not g.const:
                o.regions = tuple(self.big_regions(g.ty))
        p = self.globs[name] = mkptr(o.id)
        return p

    def flatten(self, ty, v, off, data, rel):
        r = self.m.resolve(ty)
        if v[0] in ('zero', 'undef', 'null'):
            return
        if v[0] == 'str':
            data[off:off + len(v[1])] = v[1]
            return
        if r.k == 'int' and v[0] == 'int':
            n = self.m.size(r)
            data[off:off + n] = (v[1] & mask(8 * n)).to_bytes(n, 'little')
            return
        if r.k == 'arr':
            es = self.m.size(r.b)
            for i, (t, x) in enumerate(v[1]):
                self.flatten(t, x, off + i * es, data, rel)
            return
        if r.k == 'struct':
            offs, _ = self.m.layout(r)
            for o, (t, x) in zip(offs, v[1]):
                self.flatten(t, x, off + o, data, rel)
            return
        if r.k == 'ptr':
            rel[off] = ('lazy', ty, v)
            return
        if r.k == 'double':
            x = v[1]
            if isinstance(x, str):
                if x.startswith('0x'):
                    data[off:off + 8] = int(x, 16).to_bytes(8, 'little')
                else:
                    data[off:off + 8] = struct.pack('<d', float(x))
            else:
                data[off:off + 8] = struct.pack('<d', x)
            return
        if r.k == 'float':
            x = v[1]
            if isinstance(x, str) and x.startswith('0x'):
                d = struct.unpack('<d', int(x, 16).to_bytes(8, 'little'))[0]
            else:
                d = float(x)
            data[off:off + 4] = struct.pack('<f', d)
            return
        raise Unsupported('flatten %r %r' % (r, v[0]))

    def val(self, env, ty, v):
        if v[0] == 'loc':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined ssa %' + v[1])
        if v[0] == 'int':
            return v[1] & mask(ty.a)
        return self.const(ty, v)

    # ---------------------------------------------------------------- arithmetic
    def num(self, v, w=64):
        if isinstance(v, PtrInt):
            return self.ptr2int(v.p)
        return v

    def ptr2int(self, p):
        r = None
        for g, o, c, ts in reversed(p.alts):
            if o == 0:
                x = offterm(c, ts)
                x = tobv(x, 64)
            else:
                x = self.addr_base(o) + tobv(offterm(c, ts), 64)
            r = x if r is None else z3.If(g, x, r)
        return norm(z3.simplify(r)) if len(p.alts) == 1 and p.alts[0][1] == 0 else r

    def binop(self, op, w, a, b, st=None, ins=None, flags=()):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                d = self.ptrdiff(a.p, b.p)
                if d is not None:
                    return d
            if op in ('add', 'sub') and isinstance(a, PtrInt) and not isinstance(b, PtrInt):
                c, ts = self.decomp(b)
                if op == 'sub':
                    c, ts = -c & M64, scalets(ts, M64)
                return PtrInt(a.p.add(c, ts))
            if op == 'add' and isinstance(b, PtrInt):
                c, ts = self.decomp(a)
                return PtrInt(b.p.add(c, ts))
            a, b = self.num(a), self.num(b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return ('fp', None)
        if w == 1:
            return self.boolop(op, a, b)
        mk = mask(w)
        ia, ib = isint(a), isint(b)
        if ia and ib:
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b if b < w else 0
            elif op == 'lshr':
                r = a >> b if b < w else 0
            elif op == 'ashr':
                r = sgn(a, w) >> min(b, w - 1)
            elif op == 'udiv':
                r = a // b if b else mk
            elif op == 'urem':
                r = a % b if b else a
            elif op == 'sdiv':
                x, y = sgn(a, w), sgn(b, w)
                r = (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else mk
            elif op == 'srem':
                x, y = sgn(a, w), sgn(b, w)
                r = (abs(x) % abs(y)) * (-1 if x < 0 else 1) if y else a
            if 'nsw' in flags and st is not None and op in ('add', 'sub', 'mul'):
                x, y = sgn(a, w), sgn(b, w)
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                self.oblige(st, 'overflow', int(-(1 << (w - 1)) <= z < (1 << (w - 1))), 'signed-%s-overflow' % op, ins)
            if st is not None and op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.oblige(st, 'div', int(b != 0), 'division-by-zero', ins)
            if st is not None and op in ('shl', 'lshr', 'ashr'):
                self.oblige(st, 'shift', int(b < w), 'shift-amount', ins)
            return r & mk
        if op in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sub') and ib and b == 0:
            return a
        if op in ('add', 'or', 'xor') and ia and a == 0:
            return b
        if op in ('and', 'mul') and (ia and a == 0 or ib and b == 0):
            return 0
        if op == 'mul' and ib and b == 1:
            return a
        if op == 'mul' and ia and a == 1:
            return b
        if op == 'and' and ib and b == mk:
            return a
        if op == 'and' and ia and a == mk:
            return b
        if op in ('udiv', 'sdiv') and ib and b == 1:
            return a
        A, B = tobv(a, w), tobv(b, w)
        if st is not None:
            if 'nsw' in flags and op in ('add', 'sub', 'mul') and self.check_safety and not self.quiet:
                if op == 'add':
                    g = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                elif op == 'sub':
                    g = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                else:
                    g = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                self.oblige(st, 'overflow', g, 'signed-%s-overflow' % op, ins)
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.oblige(st, 'div', B != 0 if not ib else int(b != 0), 'division-by-zero', ins)
            if op in ('shl', 'lshr', 'ashr'):
                self.oblige(st, 'shift', int(b < w) if ib else z3.ULT(B, w), 'shift-amount', ins)
        if ib and w > 8 and (op in ('udiv', 'sdiv') and 1 < b < 1 << 31 or op in ('lshr', 'ashr') and b < 31):
            r = exact_quotient(A, b if op in ('udiv', 'sdiv') else 1 << b, w)
            if r is not None:
                return r
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op == 'udiv':
            if ib and b & (b - 1) == 0 and b:
                r = z3.LShR(A, b.bit_length() - 1)
            else:
                r = z3.UDiv(A, B)
        elif op == 'urem':
            if ib and b & (b - 1) == 0 and b:
                r = A & (b - 1)
            else:
                r = z3.URem(A, B)
        elif op == 'sdiv':
            if 'exact' in flags and ib and b & (b - 1) == 0 and b:
                r = A >> (b.bit_length() - 1)
            else:
                r = A / B
        elif op == 'srem':
            r = z3.SRem(A, B)
        else:
            raise Unsupported('binop ' + op)
        if 'nsw' in flags and op in ('add', 'sub', 'mul', 'shl'):
            self.nsw[r.get_id()] = (op, a, b, w)
            self.keep.append(r)
        return r

    def boolop(self, op, a, b):
        ia, ib = isint(a), isint(b)
        if op in ('xor', 'add', 'sub'):
            if ia and ib:
                return a ^ b
            if ib:
                return self.bnot(a) if b else a
            if ia:
                return self.bnot(b) if a else b
            return z3.Xor(a, b)
        if op in ('and', 'mul'):
            if ia:
                return b if a else 0
            if ib:
                return a if b else 0
            return z3.And(a, b)
        if op == 'or':
            if ia:
                return 1 if a else b
            if ib:
                return 1 if b else a
            return z3.Or(a, b)
        raise Unsupported('bool ' + op)

    def bnot(self, a):
        if isint(a):
            return 1 - a
        if z3.is_not(a):
            return a.arg(0)
        return z3.Not(a)

    def decomp(self, v):
        """BV64 value -> (const, ((coef, term)...))"""
        if isint(v):
            return v & M64, ()
        if isinstance(v, PtrInt):
            v = self.num(v)
        k = v.decl().kind()
        if k == z3.Z3_OP_BNUM:
            return v.as_long(), ()
        if k == z3.Z3_OP_BADD:
            c, ts = 0, ()
            for x in v.children():
                c2, t2 = self.decomp(x)
                c, ts = (c + c2) & M64, addts(ts, t2)
            return c, ts
        if k == z3.Z3_OP_BSUB:
            c, ts = self.decomp(v.arg(0))
            for x in v.children()[1:]:
                c2, t2 = self.decomp(x)
                c, ts = (c - c2) & M64, addts(ts, scalets(t2, M64))
            return c, ts
        if k == z3.Z3_OP_BMUL and v.num_args() == 2:
            for i in (0, 1):
                n = norm(v.arg(i))
                if isint(n):
                    c, ts = self.decomp(v.arg(1 - i))
                    return (c * n) & M64, scalets(ts, n)
        if k == z3.Z3_OP_BSHL:
            n = norm(v.arg(1))
            if isint(n) and n < 64:
                c, ts = self.decomp(v.arg(0))
                return (c << n) & M64, scalets(ts, 1 << n)
        if k == z3.Z3_OP_SIGN_EXT:
            x = v.arg(0)
            e = self.nsw.get(x.get_id())
            if e is not None and e[3] == x.size():
                op, a, b, w = e
                if op in ('add', 'sub'):
                    c1, t1 = self.decomp(self.sext(a, w, 64))
                    c2, t2 = self.decomp(self.sext(b, w, 64))
                    if op == 'sub':
                        c2, t2 = -c2 & M64, scalets(t2, M64)
                    return (c1 + c2) & M64, addts(t1, t2)
                if op == 'mul' and isint(b):
                    c1, t1 = self.decomp(self.sext(a, w, 64))
                    s = sgn(b, w)
                    return (c1 * s) & M64, scalets(t1, s & M64)
        return 0, ((1, v),)

    def sext(self, a, w, w2):
        if isint(a):
            return sgn(a, w) & mask(w2)
        if isinstance(a, z3.BoolRef):
            return z3.If(a, BVV(mask(w2), w2), BVV(0, w2))
        return z3.SignExt(w2 - w, a)

    def zext(self, a, w, w2):
        if isint(a):
            return a
        if isinstance(a, z3.BoolRef):
            return z3.If(a, BVV(1, w2), BVV(0, w2))
        return z3.ZeroExt(w2 - w, a)

    def trunc(self, a, w, w2):
        if isinstance(a, PtrInt):
            a = self.num(a)
        if isint(a):
            return a & mask(w2)
        if w2 == 1:
            if z3.is_app_of(a, z3.Z3_OP_ITE):
                x, y = norm(a.arg(1)), norm(a.arg(2))
                if isint(x) and isint(y) and x & 1 and not y & 1:
                    return a.arg(0)
            return norm(z3.simplify(z3.Extract(0, 0, a) == 1))
        k = a.decl().kind()
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            x = a.arg(0)
            if x.size() == w2:
                return x
            if x.size() > w2:
                return z3.Extract(w2 - 1, 0, x)
        return z3.Extract(w2 - 1, 0, a)

    def cast(self, op, t1, t2, a, st, ins):
        r1, r2 = self.m.resolve(t1), self.m.resolve(t2)
        if op == 'zext':
            return self.zext(self.num(a), r1.a, r2.a)
        if op == 'sext':
            return self.sext(self.num(a), r1.a, r2.a)
        if op == 'trunc':
            return self.trunc(a, r1.a, r2.a)
        if op == 'ptrtoint':
            if r2.a != 64:
                return self.trunc(self.ptr2int(a), 64, r2.a)
            return PtrInt(a)
        if op == 'inttoptr':
            if isinstance(a, PtrInt):
                return a.p
            if isint(a) and a == 0:
                return NULL
            return mkptr(0, *self.decomp(a))
        if op == 'bitcast':
            if r1.k == r2.k and r1.k in ('int', 'ptr'):
                return a
            if isinstance(a, tuple) and a[0] == 'fp':
                if r2.k == 'int':
                    return self.fresh(r2.a, 'fpbits')
                return a
            return ('fp', None)
        if op in ('fptoui', 'fptosi'):
            return self.fresh(r2.a, 'fp2int')
        if op in ('uitofp', 'sitofp', 'fptrunc', 'fpext'):
            return ('fp', None)
        raise Unsupported('cast ' + op)

    def ptrdiff(self, p, q):
        """p - q as int/BV64 if same objects"""
        if len(p.alts) == 1 and len(q.alts) == 1:
            _, o1, c1, t1 = p.alts[0]
            _, o2, c2, t2 = q.alts[0]
            if o1 == o2:
                return offterm((c1 - c2) & M64, addts(t1, scalets(t2, M64)))
            return None
        r = None
        for g1, o1, c1, t1 in reversed(p.alts):
            for g2, o2, c2, t2 in reversed(q.alts):
                if o1 == o2:
                    x = tobv(offterm((c1 - c2) & M64, addts(t1, scalets(t2, M64))), 64)
                else:
                    x = (self.addr_base(o1) + tobv(offterm(c1, t1), 64)) - (self.addr_base(o2) + tobv(offterm(c2, t2), 64))
                gs = [g for g in (g1, g2) if g is not None]
                r = x if r is None else z3.If(z3.And(gs) if gs else z3.BoolVal(True), x, r)
        return norm(z3.simplify(r))

    def icmp(self, pred, ty, a, b):
        r = self.m.resolve(ty)
        if r.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(pred, a, b)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.pcmp(pred, a.p, b.p)
            if isinstance(a, PtrInt) and isint(b) and b == 0:
                return self.pcmp(pred, a.p, NULL)
            a, b = self.num(a), self.num(b)
        w = r.a
        if w == 1:
            if pred == 'eq':
                return self.bnot(self.boolop('xor', a, b))
            if pred == 'ne':
                return self.boolop('xor', a, b)
            a, b = tobv(a, 1), tobv(b, 1)
        if isint(a) and isint(b):
            if pred in ('eq', 'ne', 'ugt', 'uge', 'ult', 'ule'):
                x, y = a, b
            else:
                x, y = sgn(a, w), sgn(b, w)
            p = pred.lstrip('us') if pred not in ('eq', 'ne') else pred
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p])
        A, B = tobv(a, w), tobv(b, w)
        # boolean ite folding: (ite c 1 0) ==/!= 0/1
        if pred in ('eq', 'ne') and isint(b) and z3.is_app_of(A, z3.Z3_OP_ITE):
            x, y = norm(A.arg(1)), norm(A.arg(2))
            if isint(x) and isint(y) and x != y:
                c = None
                if b == x:
                    c = A.arg(0)
                elif b == y:
                    c = self.bnot(A.arg(0))
                else:
                    return 0 if pred == 'eq' else 1
                return c if pred == 'eq' else self.bnot(c)
        if pred in ('eq', 'ne') and isint(b) and A.decl().kind() == z3.Z3_OP_ZERO_EXT:
            x = A.arg(0)
            if b >> x.size():
                return 0 if pred == 'eq' else 1
            A, B = x, BVV(b, x.size())
        if A.eq(B):
            return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if pred == 'eq':
            c = A == B
        elif pred == 'ne':
            c = z3.Not(A == B)
        elif pred == 'ugt':
            c = z3.UGT(A, B)
        elif pred == 'uge':
            c = z3.UGE(A, B)
        elif pred == 'ult':
            c = z3.ULT(A, B)
        elif pred == 'ule':
            c = z3.ULE(A, B)
        elif pred == 'sgt':
            c = A > B
        elif pred == 'sge':
            c = A >= B
        elif pred == 'slt':
            c = A < B
        elif pred == 'sle':
            c = A <= B
        return c

    def pcmp(self, pred, p, q):
        res = None
        for g1, o1, c1, t1 in reversed(p.alts):
            for g2, o2, c2, t2 in reversed(q.alts):
                if o1 == o2:
                    # compare offsets (as signed: one-before pointers may be negative)
                    dc = (c1 - c2) & M64
                    ts = addts(t1, scalets(t2, M64))
                    if not ts:
                        d = sgn(dc, 64)
                        x = {'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0,
                             'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0}[pred]
                        x = z3.BoolVal(x)
                    else:
                        A, B = tobv(offterm(c1, t1), 64), tobv(offterm(c2, t2), 64)
                        if pred in ('eq', 'ne'):
                            d = tobv(offterm(dc, ts), 64)
                            x = d == 0
                            if pred == 'ne':
                                x = z3.Not(x)
                        else:
                            x = {'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B}[pred[1:]]
                elif pred == 'eq':
                    x = z3.BoolVal(False)
                elif pred == 'ne':
                    x = z3.BoolVal(True)
                else:
                    A = self.addr_base(o1) + tobv(offterm(c1, t1), 64)
                    B = self.addr_base(o2) + tobv(offterm(c2, t2), 64)
                    x = {'lt': z3.ULT(A, B), 'le': z3.ULE(A, B), 'gt': z3.UGT(A, B), 'ge': z3.UGE(A, B)}[pred[1:]]
                gs = [g for g in (g1, g2) if g is not None]
                res = x if res is None else z3.If(z3.And(gs) if len(gs) != 1 else gs[0], x, res) if gs else x
        return norm(z3.simplify(res)) if len(p.alts) * len(q.alts) > 1 else norm(res)

    def gep(self, p, bt, idx):
        c, ts = 0, ()
        t0, i0 = idx[0]
        sz = self.m.size(bt)
        c1, t1 = self.decomp64(t0, i0)
        c, ts = c1 * sz, scalets(t1, sz)
        cur = bt
        for t, i in idx[1:]:
            r = self.m.resolve(cur)
            if r.k == 'struct':
                if not isint(i):
                    raise Unsupported('gep struct idx')
                c += self.m.layout(r)[0][i]
                cur = r.a[i]
            elif r.k in ('arr', 'vec'):
                es = self.m.size(r.b)
                c1, t1 = self.decomp64(t, i)
                c += c1 * es
                ts = addts(ts, scalets(t1, es))
                cur = r.b
            else:
                raise Unsupported('gep ' + r.k)
        return p.add(c & M64, ts)

    def decomp64(self, t, i):
        w = self.m.resolve(t).a
        if w != 64:
            i = self.sext(i, w, 64)
        return self.decomp(i)

    # ---------------------------------------------------------------- select / merge of values
    def ite(self, c, a, b):
        if a is b:
            return a
        if isint(c):
            return a if c else b
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return PtrInt(self.ite(c, a.p, b.p))
            a, b = self.num(a), self.num(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.iteptr(c, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # pointer vs integer bits (e.g. null written as 0)
            if isint(a) and a == 0:
                return self.iteptr(c, NULL, b)
            if isint(b) and b == 0:
                return self.iteptr(c, a, NULL)
            raise Unsupported('ite ptr/int')
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and a and a[0] == 'fp' or isinstance(b, tuple) and b and b[0] == 'fp':
                return ('fp', None)
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isint(a) and isint(b) and a == b:
            return a
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if isinstance(a, z3.BitVecRef):
                a = a != 0
            if isinstance(b, z3.BitVecRef):
                b = b != 0
            if isint(a) and isint(b):
                return c if a else self.bnot(c)
            if isint(a):
                return z3.Or(c, b) if a else z3.And(self.bnot(c), b)
            if isint(b):
                return z3.Or(self.bnot(c), a) if b else z3.And(c, a)
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if isint(a) and isint(b):
            return ('ii', c, a, b)  # width unknown here: resolved by caller
        if isint(a):
            a = BVV(a, b.size())
        elif isint(b):
            b = BVV(b, a.size())
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def itew(self, c, a, b, w):
        """ite with known width (bits); w==1 is boolean"""
        r = self.ite(c, a, b)
        if type(r) is tuple and r and type(r[0]) is str and r[0] == 'ii':
            if w == 1:
                return c if a else self.bnot(c)
            return z3.If(c, BVV(a, w), BVV(b, w))
        return r

    def itety(self, c, a, b, ty):
        r = self.m.resolve(ty)
        if r.k == 'int':
            return self.itew(c, a, b, r.a)
        if r.k == 'struct':
            return tuple(self.itety(c, x, y, t) for x, y, t in zip(a, b, r.a))
        if r.k == 'arr':
            return tuple(self.itety(c, x, y, r.b) for x, y in zip(a, b))
        return self.ite(c, a, b)

    def iteptr(self, c, a, b):
        out = []
        nc = self.bnot(c)
        byobj = {}
        for src, g0 in ((a, c), (b, nc)):
            for g, o, oc, ts in src.alts:
                gg = g0 if g is None else z3.And(g0, g)
                byobj.setdefault(o, []).append((gg, oc, ts))
        for o, lst in byobj.items():
            if len(lst) == 1:
                gg, oc, ts = lst[0]
                out.append((gg, o, oc, ts))
                continue
            g = z3.Or([x[0] for x in lst])
            oc, ts = lst[-1][1], lst[-1][2]
            same = all(x[1] == oc and len(x[2]) == len(ts) and all(
                k1 == k2 and t1.eq(t2) for (k1, t1), (k2, t2) in zip(x[2], ts)) for x in lst)
            if not same:
                # keep a common linear part
                allsame_ts = all(len(x[2]) == len(ts) and all(
                    k1 == k2 and t1.eq(t2) for (k1, t1), (k2, t2) in zip(x[2], ts)) for x in lst)
                if allsame_ts:
                    # constants differ by multiples of a stride: represent as base + stride*ite
                    base = min(x[1] if x[1] < (1 << 63) else x[1] - (1 << 64) for x in lst)
                    import math
                    gcd = 0
                    for x in lst:
                        gcd = math.gcd(gcd, (x[1] - base) & M64)
                    t = BVV(((lst[-1][1] - base) & M64) // gcd, 64)
                    for gg, xc, _ in reversed(lst[:-1]):
                        t = z3.If(gg, BVV(((xc - base) & M64) // gcd, 64), t)
                    oc, ts = base & M64, addts(ts, ((gcd, t),))
                else:
                    import math
                    gcd = 0
                    for x in lst:
                        for k, _ in x[2]:
                            gcd = math.gcd(gcd, k if k < (1 << 63) else (1 << 64) - k)
                    base = lst[0][1]
                    for x in lst:
                        d = sgn((x[1] - base) & M64, 64)
                        gcd = math.gcd(gcd, abs(d))
                    t = None
                    for gg, xc, xts in reversed(lst):
                        d = sgn((xc - base) & M64, 64) // gcd
                        x = tobv(offterm(d & M64, tuple(((sgn(k, 64) // gcd) & M64, q) for k, q in xts)), 64)
                        t = x if t is None else z3.If(gg, x, t)
                    oc = base
                    c1, t1 = 0, ((1, t),)
                    ts = scalets(t1, gcd)
            if len(byobj) == 1:
                out.append((None, o, oc, ts))
            else:
                out.append((g, o, oc, ts))
        if len(out) == 1:
            g, o, oc, ts = out[0]
            return Ptr(((None, o, oc, ts),))
        return Ptr(tuple(out))

    # ---------------------------------------------------------------- memory
    def ost(self, st, oid):
        s = st.mem.get(oid)
        if s is None:
            s = self.root.mem.get(oid)
            if s is None:
                s = OState()
            st.mem[oid] = s
        return s

    def ostw(self, st, oid):
        s = self.ost(st, oid)
        if oid not in st.owned:
            s = s.copy()
            st.mem[oid] = s
            st.owned.add(oid)
        return s

    def region(self, o, s, c):
        """column region containing constant offset c: (start, end, stride) or None"""
        for r in o.regions:
            if r[0] <= c < r[1]:
                return r
        if s.dyn:
            return (0, None, s.dyn)
        return None

    def initbits(self, o, off, n, want):
        """initial contents of n bytes at constant offset"""
        if o.data is not None:
            if o.relocs and off in o.relocs and n == 8:
                r = o.relocs[off]
                if r[0] == 'lazy':
                    return self.const(r[1], r[2])
            return int.from_bytes(o.data[off:off + n], 'little')
        if want is not None and want.k == 'ptr':
            return NULL
        return self.fresh(8 * n, 'm_' + o.name[:12].replace('!', '_'))

    def rdcell(self, o, s, st, off, n, want):
        c = s.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # overlapping?
        ov = [(k, v) for k, v in s.cells.items() if k < off + n and k + v[0] > off] if s.cells else []
        if not ov:
            v = self.initbits(o, off, n, want)
            if o.data is None:
                # remember so that re-reads agree (also in the shared state)
                s.cells[off] = (n, v)
            return v
        # assemble bytes
        bs = []
        for i in range(n):
            b = off + i
            hit = None
            for k, (cn, cv) in ov:
                if k <= b < k + cn:
                    hit = (k, cn, cv)
                    break
            if hit is None:
                v = self.initbits(o, b, 1, None)
                if o.data is None:
                    s.cells[b] = (1, v)
                bs.append(v)
                continue
            k, cn, cv = hit
            if isinstance(cv, Ptr):
                cv = self.ptr2int(cv)
            elif isinstance(cv, PtrInt):
                cv = self.num(cv)
            elif isinstance(cv, tuple):
                cv = self.fresh(8 * cn, 'fpbits')
            if isint(cv):
                bs.append((cv >> (8 * (b - k))) & 255)
            elif cn == 1:
                bs.append(cv)
            else:
                bs.append(norm(z3.simplify(z3.Extract(8 * (b - k) + 7, 8 * (b - k), cv))))
        if all(isint(x) for x in bs):
            return int.from_bytes(bytes(bs), 'little')
        if n == 1:
            return bs[0]
        return norm(z3.simplify(z3.Concat(*[tobv(x, 8) for x in reversed(bs)])))

    def wrcell(self, o, s, st, off, n, v):
        c = s.cells.get(off)
        if c is None or c[0] != n:
            ov = [(k, x) for k, x in s.cells.items() if k < off + n and k + x[0] > off]
            for k, (cn, cv) in ov:
                if k >= off and k + cn <= off + n:
                    del s.cells[k]
                    continue
                # split into bytes
                del s.cells[k]
                if isinstance(cv, Ptr):
                    cv = self.ptr2int(cv)
                elif isinstance(cv, PtrInt):
                    cv = self.num(cv)
                elif isinstance(cv, tuple):
                    cv = self.fresh(8 * cn, 'fpbits')
                for i in range(cn):
                    if off <= k + i < off + n:
                        continue
                    if isint(cv):
                        s.cells[k + i] = (1, (cv >> (8 * i)) & 255)
                    else:
                        s.cells[k + i] = (1, z3.Extract(8 * i + 7, 8 * i, cv) if cn > 1 else cv)
        s.cells[off] = (n, v)
        if self.wlog is not None:
            self.wlog.add((o.id, 'cell', off, n))

    def colinit(self, o, key):
        rs, stride, f, n = key
        if o.data is not None:
            a = z3.K(z3.BitVecSort(64), BVV(0, 8 * n))
            cnt = ((o.size if rs == 0 else min(o.size, rs + 10 ** 9)) - rs) // stride
            for i in range(cnt):
                v = int.from_bytes(o.data[rs + i * stride + f: rs + i * stride + f + n], 'little')
                if v:
                    a = z3.Store(a, BVV(i, 64), BVV(v, 8 * n))
            return a
        self.nfresh += 1
        nm = 'A!%s!%d.%d.%d' % (o.name, o.id, f, self.nfresh)
        return z3.Array(nm, z3.BitVecSort(64), z3.BitVecSort(8 * n))

    def getcol(self, o, s, key):
        """array for column key; splits / joins with overlapping columns"""
        a = s.cols.get(key)
        if a is not None:
            return a
        rs, stride, f, n = key
        ov = [k for k in s.cols if k[0] == rs and k[1] == stride and k[2] < f + n and k[2] + k[3] > f]
        if not ov:
            a = self.colinit(o, key)
            s.cols[key] = a
            return a
        i = z3.BitVec('ci', 64)
        # covering column: extract
        for k in ov:
            if k[2] <= f and k[2] + k[3] >= f + n:
                lo = 8 * (f - k[2])
                return z3.Lambda([i], z3.Extract(lo + 8 * n - 1, lo, z3.Select(s.cols[k], i)))
        # join of smaller ones
        parts = []
        b = f
        while b < f + n:
            k = next((k for k in ov if k[2] == b and k[2] + k[3] <= f + n), None)
            if k is None:
                if any(k[2] <= b < k[2] + k[3] for k in ov):
                    raise Unsupported('column overlap')
                k = (rs, stride, b, 1)
                s.cols[k] = self.colinit(o, k)
            parts.append(z3.Select(s.cols[k], i))
            b += k[3]
        return z3.Lambda([i], z3.Concat(*reversed(parts)))

    def setcol(self, o, s, key, arr):
        rs, stride, f, n = key
        if key not in s.cols:
            ov = [k for k in s.cols if k[0] == rs and k[1] == stride and k[2] < f + n and k[2] + k[3] > f]
            i = z3.BitVec('ci', 64)
            for k in ov:
                a = s.cols.pop(k)
                for b in range(k[2], k[2] + k[3]):
                    if not (f <= b < f + n):
                        lo = 8 * (b - k[2])
                        s.cols[(rs, stride, b, 1)] = a if k[3] == 1 else z3.Lambda(
                            [i], z3.Extract(lo + 7, lo, z3.Select(a, i)))
        s.cols[key] = arr
        if self.wlog is not None:
            self.wlog.add((o.id, 'col', key))

    def todyn(self, o, s, stride):
        """move a dynamic object's constant-offset cells into columns"""
        cells = s.cells
        s.cells = {}
        s.dyn = stride
        for off in sorted(cells):
            n, v = cells[off]
            if isinstance(v, (Ptr, tuple)):
                raise Unsupported('pointer in column object ' + o.name)
            f = off % stride
            if f + n > stride:
                if n % stride == 0 and f == 0:
                    for i in range(n // stride):
                        key = (0, stride, 0, stride)
                        a = self.getcol(o, s, key)
                        x = (v >> (8 * stride * i)) & mask(8 * stride) if isint(v) else z3.Extract(
                            8 * stride * (i + 1) - 1, 8 * stride * i, v)
                        self.setcol(o, s, key, z3.Store(a, BVV(off // stride + i, 64), tobv(x, 8 * stride)))
                    continue
                raise Unsupported('cell straddles stride')
            key = (0, stride, f, n)
            a = self.getcol(o, s, key)
            self.setcol(o, s, key, z3.Store(a, BVV(off // stride, 64), tobv(v, 8 * n)))

    def colindex(self, reg, c, ts):
        """index term and field for offset c+ts in region; None if not aligned to the stride"""
        rs, re_, stride = reg
        for k, t in ts:
            ks = sgn(k, 64)
            if ks % stride:
                return None
        d = sgn((c - rs) & M64, 64)
        f = d % stride
        idx = d // stride
        ix = tuple(((sgn(k, 64) // stride) & M64, t) for k, t in ts)
        return tobv(offterm(idx & M64, ix), 64), f

    def inb(self, o, c, ts, n):
        """in-bounds condition for access of n bytes"""
        sz = o.size
        if not ts:
            cc = sgn(c, 64)
            if isint(sz):
                return int(0 <= cc and cc + n <= sz)
            if cc < 0:
                return 0
            return z3.ULE(BVV(cc + n, 64), sz)
        off = offterm(c, ts)
        if isint(sz):
            if sz < n:
                return 0
            return z3.ULE(off, BVV(sz - n, 64))
        return z3.And(z3.ULE(BVV(n, 64), sz), z3.ULE(off, sz - BVV(n, 64)))

    def stride_of(self, ts, n):
        import math
        g = 0
        for k, _ in ts:
            g = math.gcd(g, abs(sgn(k, 64)))
        return g

    def candidates(self, o, s, c, ts, n):
        """cells mode: element offsets a symbolic access can reach: (start, count, stride, indexterm)"""
        import math
        g = self.stride_of(ts, n)
        size = o.size
        cs = sgn(c, 64)
        # typed: restrict to the enclosing array if the constant part points into one
        lo, hi = 0, size
        if o.ty is not None:
            a = self.enclosing(o.ty, 0, cs if cs >= 0 else 0, g)
            if a is not None:
                lo, hi = a
        first = cs % g
        start = lo + ((first - lo) % g)
        cnt = 0 if start + n > hi else (hi - n - start) // g + 1
        idx = tuple(((sgn(k, 64) // g) & M64, t) for k, t in ts)
        it = offterm(((cs - start) // g) & M64, idx)
        return start, cnt, g, it, (lo, hi)

    def enclosing(self, ty, base, c, g):
        r = self.m.resolve(ty)
        if r.k == 'arr':
            es = self.m.size(r.b)
            if es and g % es == 0 and es <= g:
                e = self.m.resolve(r.b)
                if e.k == 'arr' and g < es:
                    pass
                return (base, base + r.a * es)
            i = (c - base) // es if es else 0
            return self.enclosing(r.b, base + i * es, c, g) if 0 <= i < r.a else None
        if r.k == 'struct':
            offs, _ = self.m.layout(r)
            for f, o in zip(r.a, offs):
                if base + o <= c < base + o + self.m.size(f):
                    return self.enclosing(f, base + o, c, g)
        return None

    def mux(self, vals, it, w):
        """select vals[it] (BV64 index); out of range -> last"""
        n = len(vals)
        if n == 1:
            return vals[0]
        bits = max(1, (n - 1).bit_length())
        low = norm(z3.simplify(z3.Extract(bits - 1, 0, it)))
        if isint(low):
            return vals[min(low, n - 1)]

        def rec(lo, hi, b):
            if lo >= n:
                return vals[n - 1]
            if b < 0:
                return vals[lo]
            mid = lo + (1 << b)
            x = rec(lo, mid, b - 1)
            if mid >= n:
                return x
            y = rec(mid, hi, b - 1)
            if x is y or (isint(x) and isint(y) and x == y):
                return x
            return self.itew(z3.Extract(b, b, low) == 1, y, x, w)
        return rec(0, 1 << bits, bits - 1)

    def load_alt(self, st, o, c, ts, n, want, ins):
        s = self.ost(st, o.id)
        if o.kind == 'func':
            raise Unsupported('load from function')
        if not ts:
            if isint(o.size) and not (0 <= sgn(c, 64) and c + n <= o.size):
                return self.undef(want)
            reg = self.region(o, s, c)
            if reg is None and not isint(o.size) and not s.cells and not s.dyn and o.data is None:
                pass
            if reg is None or (o.data is not None and o.const):
                return self.rdcell(o, s, st, c, n, want)
            ix, f = self.colindex(reg, c, ())
            return self.rdcol(o, s, reg, ix, f, n, want)
        if o.data is not None and o.const:
            start, cnt, g, it, (lo, hi) = self.candidates(o, s, c, ts, n)
            if cnt <= 0:
                return self.undef(want)
            key = (o.id, start, cnt, g, n, it.get_id())
            v = self.muxc.get(key)
            if v is None:
                vals = [self.initbits(o, start + g * i, n, want) for i in range(cnt)]
                v = self.mux(vals, it, 8 * n)
                self.muxc[key] = v
                self.keep.append(it)
            if lo or hi != o.size:
                self.oblige(st, 'bounds', z3.ULT(it, BVV(cnt, 64)), 'array-index', ins)
            return v
        reg = self.region(o, s, c if c < (1 << 62) else 0)
        if reg is None and isint(o.size) and o.size <= 4096:
            start, cnt, g, it, (lo, hi) = self.candidates(o, s, c, ts, n)
            if cnt <= 0:
                return self.undef(want)
            if cnt > 600:
                raise Unsupported('mux too wide %d' % cnt)
            vals = [self.rdcell(o, s, st, start + g * i, n, want) for i in range(cnt)]
            if any(isinstance(v, Ptr) for v in vals):
                r = None
                for i, v in reversed(list(enumerate(vals))):
                    if not isinstance(v, Ptr):
                        v = NULL
                    r = v if r is None else self.ite(it == BVV(i, 64), v, r)
                v = r
            else:
                v = self.mux(vals, it, 8 * n)
            if lo or hi != o.size:
                self.oblige(st, 'bounds', z3.ULT(it, BVV(cnt, 64)), 'array-index', ins)
            return v
        if reg is None:
            g = self.stride_of(ts, n)
            s = self.ostw(st, o.id)
            self.todyn(o, s, max(g, n) if g % n == 0 or g > n else n)
            reg = self.region(o, s, 0)
        x = self.colindex(reg, c, ts)
        if x is None:
            return self.rdunaligned(o, s, reg, c, ts, n)
        ix, f = x
        return self.rdcol(o, s, reg, ix, f, n, want)

    def rdcol(self, o, s, reg, ix, f, n, want):
        if want is not None and want.k == 'ptr':
            raise Unsupported('pointer load from column ' + o.name)
        rs, _, stride = reg
        if f + n <= stride:
            a = self.getcol(o, s, (rs, stride, f, n))
            return norm(z3.simplify(z3.Select(a, ix))) if isint(norm(ix)) else z3.Select(a, ix)
        # spans several elements of smaller stride
        parts = []
        b = f
        while n > 0:
            k = min(stride - b, n)
            a = self.getcol(o, s, (rs, stride, b, k))
            parts.append(z3.Select(a, z3.simplify(ix)))
            n -= k
            b = 0
            ix = ix + 1
        return norm(z3.simplify(z3.Concat(*reversed(parts))))

    def rdunaligned(self, o, s, reg, c, ts, n):
        rs, _, stride = reg
        off = tobv(offterm((c - rs) & M64, ts), 64)
        if stride & (stride - 1):
            raise Unsupported('unaligned column access')
        sh = stride.bit_length() - 1
        parts = []
        a = self.getcol(o, s, (rs, stride, 0, stride))
        for i in range(n):
            bo = off + i
            w = z3.Select(a, z3.LShR(bo, sh))
            b = z3.Extract(7, 0, z3.LShR(w, z3.Extract(8 * stride - 1, 0, z3.Concat(BVV(0, 64), (bo & (stride - 1)) << 3)))) if stride > 1 else w
            parts.append(b)
        return z3.Concat(*reversed(parts)) if n > 1 else parts[0]

    def load(self, st, p, ty, ins):
        r = self.m.resolve(ty)
        if r.k in ('struct', 'arr'):
            out = []
            if r.k == 'struct':
                offs, _ = self.m.layout(r)
                fs = list(zip(r.a, offs))
            else:
                es = self.m.size(r.b)
                fs = [(r.b, i * es) for i in range(r.a)]
            return tuple(self.load(st, p.add(o, ()), f, ins) for f, o in fs)
        n = self.m.size(r)
        self.bounds(st, p, n, ins, 'read')
        res = None
        for g, oid, c, ts in reversed(p.alts):
            if oid == 0:
                if res is None:
                    res = self.undef(r) if len(p.alts) == 1 else None
                continue
            v = self.load_alt(st, self.objs[oid], c, ts, n, r, ins)
            v = self.conv(v, r, n)
            res = v if res is None or g is None else self.itety(g, v, res, r)
        if res is None:
            res = self.undef(r)
        return res

    def conv(self, v, r, n):
        """raw memory value -> value of type r"""
        if r.k == 'int':
            if isinstance(v, Ptr):
                return PtrInt(v)
            if isinstance(v, PtrInt):
                return v
            if isinstance(v, tuple):
                return self.fresh(r.a, 'fpbits') if r.a > 1 else self.freshbool()
            if r.a != 8 * n:
                return self.trunc(v, 8 * n, r.a)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, BVV(1, 8 * n), BVV(0, 8 * n))
            return v
        if r.k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, PtrInt):
                return v.p
            if isint(v):
                if v == 0:
                    return NULL
                return mkptr(0, v)
            return mkptr(0, 0, ((1, v),))
        if r.k in ('float', 'double', 'x86_fp80'):
            if isinstance(v, tuple):
                return v
            return ('fp', None)
        raise Unsupported('conv')

    def bounds(self, st, p, n, ins, what):
        if self.quiet:
            return
        goals = []
        for g, oid, c, ts in p.alts:
            if oid == 0:
                x = 0
            else:
                x = self.inb(self.objs[oid], c, ts, n)
            if isint(x) and x:
                continue
            x = tobool(x)
            goals.append(x if g is None else z3.Implies(g, x))
        if not goals:
            self.trivial += 1
            return
        g = z3.And(goals) if len(goals) > 1 else goals[0]
        self.oblige(st, 'memory', g, 'in-bounds-' + what, ins)

    def store(self, st, p, ty, v, ins):
        r = self.m.resolve(ty)
        if r.k in ('struct', 'arr'):
            if r.k == 'struct':
                offs, _ = self.m.layout(r)
                fs = list(zip(r.a, offs))
            else:
                es = self.m.size(r.b)
                fs = [(r.b, i * es) for i in range(r.a)]
            for (f, o), x in zip(fs, v):
                self.store(st, p.add(o, ()), f, x, ins)
            return
        n = self.m.size(r)
        if r.k == 'int' and r.a != 8 * n:
            v = self.zext(v, r.a, 8 * n)
        self.bounds(st, p, n, ins, 'write')
        multi = len(p.alts) > 1
        for g, oid, c, ts in p.alts:
            if oid == 0:
                continue
            self.store_alt(st, self.objs[oid], c, ts, n, v, r, ins, g if multi else None)

    def raw(self, v, n):
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        if isinstance(v, PtrInt):
            return self.num(v)
        if isinstance(v, tuple):
            return self.fresh(8 * n, 'fpbits')
        return tobv(v, 8 * n)

    def store_alt(self, st, o, c, ts, n, v, r, ins, g):
        if o.const:
            self.oblige(st, 'memory', 0 if g is None else z3.Not(g), 'write-to-constant', ins)
            return
        s = self.ostw(st, o.id)
        if isinstance(v, PtrInt):
            v = v.p if True else v
        if not ts:
            if isint(o.size) and not (0 <= sgn(c, 64) and c + n <= o.size):
                return
            reg = self.region(o, s, c)
            if reg is None:
                if g is not None:
                    old = self.conv(self.rdcell(o, s, st, c, n, r), r if r.k != 'int' else INT(8 * n), n)
                    if isinstance(v, Ptr) and isinstance(old, PtrInt):
                        old = old.p
                    v = self.itew(g, v, old, 8 * n)
                self.wrcell(o, s, st, c, n, v)
                return
            ix, f = self.colindex(reg, c, ())
            self.wrcol(o, s, reg, ix, f, n, v, g)
            return
        reg = self.region(o, s, c if c < (1 << 62) else 0)
        if reg is None and isint(o.size) and o.size <= 4096:
            start, cnt, gg, it, (lo, hi) = self.candidates(o, s, c, ts, n)
            if cnt > 600:
                raise Unsupported('wide symbolic store %d' % cnt)
            if lo or hi != o.size:
                self.oblige(st, 'bounds', z3.ULT(it, BVV(max(cnt, 0), 64)), 'array-index', ins)
            rr = r if r.k != 'int' else INT(8 * n)
            for i in range(cnt):
                off = start + gg * i
                old = self.conv(self.rdcell(o, s, st, off, n, r), rr, n)
                cond = it == BVV(i, 64)
                if g is not None:
                    cond = z3.And(g, cond)
                if isinstance(v, Ptr) and isinstance(old, PtrInt):
                    old = old.p
                self.wrcell(o, s, st, off, n, self.itew(cond, v, old, 8 * n))
            return
        if reg is None:
            gg = self.stride_of(ts, n)
            self.todyn(o, s, max(gg, n) if gg % n == 0 or gg > n else n)
            reg = self.region(o, s, 0)
        x = self.colindex(reg, c, ts)
        if x is None:
            raise Unsupported('unaligned column store')
        ix, f = x
        self.wrcol(o, s, reg, ix, f, n, v, g)

    def wrcol(self, o, s, reg, ix, f, n, v, g):
        rs, _, stride = reg
        if isinstance(v, Ptr):
            raise Unsupported('pointer store to column ' + o.name)
        v = self.raw(v, n)
        pos = 0
        total = n
        while n > 0:
            k = min(stride - f, n)
            part = v if k == total else z3.Extract(8 * (pos + k) - 1, 8 * pos, v)
            key = (rs, stride, f, k)
            a = self.getcol(o, s, key)
            new = z3.Store(a, ix, part)
            self.setcol(o, s, key, new if g is None else z3.If(g, new, a))
            n -= k
            pos += k
            f = 0
            ix = ix + 1

    # memcpy & co -------------------------------------------------------
    def single(self, p, what):
        if len(p.alts) != 1:
            raise Unsupported(what + ' through merged pointer')
        return p.alts[0]

    def split_alts(self, p):
        return p.alts

    def memcpy(self, st, dst, src, n, ins):
        if isint(n) and n == 0:
            return
        if not isint(n):
            n2 = simp(n)
            if isint(n2):
                return self.memcpy(st, dst, src, n2, ins)
        if len(dst.alts) > 1 or len(src.alts) > 1:
            if not isint(n) or n > 256:
                return self.memcpy_guarded(st, dst, src, n, ins)
        if not isint(n):
            return self.memcpy_sym(st, dst, src, n, ins)
        self.bounds(st, dst, n, ins, 'write')
        self.bounds(st, src, n, ins, 'read')
        # piecewise copy using the source's cell structure
        q = self.quiet
        self.quiet += 1
        try:
            pieces = self.pieces(st, src, dst, n)
            vals = []
            for off, k in pieces:
                vals.append(self.rawload(st, src.add(off, ()), k, ins))
            for (off, k), v in zip(pieces, vals):
                self.rawstore(st, dst.add(off, ()), k, v, ins)
        finally:
            self.quiet = q

    def rawload(self, st, p, k, ins):
        res = None
        for g, oid, c, ts in reversed(p.alts):
            if oid == 0:
                continue
            v = self.load_alt(st, self.objs[oid], c, ts, k, INT(8 * k), ins)
            if res is None or g is None:
                res = v
            else:
                res = self.itew(g, v, res, 8 * k)
        if res is None:
            res = self.fresh(8 * k)
        return res

    def rawstore(self, st, p, k, v, ins):
        multi = len(p.alts) > 1
        for g, oid, c, ts in p.alts:
            if oid == 0:
                continue
            self.store_alt(st, self.objs[oid], c, ts, k, v, INT(8 * k) if not isinstance(v, Ptr) else PTR, ins,
                           g if multi else None)

    def pieces(self, st, src, dst, n):
        """split [0,n) into accesses that suit both sides"""
        def natural(p):
            if len(p.alts) != 1:
                return None
            _, oid, c, ts = p.alts[0]
            o = self.objs.get(oid)
            if o is None:
                return None
            s = self.ost(st, oid)
            if ts:
                g = self.stride_of(ts, 1)
                reg = self.region(o, s, c if c < (1 << 62) else 0)
                if reg is not None:
                    return ('stride', reg[2])
                return ('stride', g)
            reg = self.region(o, s, c)
            if reg is not None:
                return ('stride', reg[2])
            cs = sgn(c, 64)
            return ('cells', {k - cs: v[0] for k, v in s.cells.items() if cs <= k < cs + n})
        a, b = natural(src), natural(dst)
        out = []
        off = 0
        cells = {}
        strides = [x[1] for x in (a, b) if x is not None and x[0] == 'stride']
        if a is not None and a[0] == 'cells':
            cells = a[1]
        if not strides and not cells and b is not None and b[0] == 'cells':
            cells = b[1]
        while off < n:
            k = cells.get(off)
            if k is None:
                k = 8
                if strides:
                    k = min(strides)
                    if k > 8:
                        k = next(x for x in (8, 4, 2, 1) if k % x == 0)
                nxt = [x for x in cells if off < x < off + k]
                while off + k > n or any(x < off + k for x in nxt) or (strides and off % k and k > 1):
                    k //= 2 if k > 1 and k & (k - 1) == 0 else 1
                    if k & (k - 1):
                        k = 1
                    if k <= 1:
                        k = 1
                        break
            else:
                if off + k > n:
                    k = 1
            out.append((off, k))
            off += k
        return out

    def memcpy_guarded(self, st, dst, src, n, ins):
        n = tobv(n, 64)
        both = []
        for gd, od, cd, td in dst.alts:
            for gs, os_, cs, ts in src.alts:
                gl = [g for g in (gd, gs) if g is not None]
                g = z3.And(gl) if len(gl) > 1 else gl[0] if gl else z3.BoolVal(True)
                g = z3.simplify(z3.And(g, n != 0))
                if z3.is_false(g) or not self.feasible(st, g):
                    continue
                both.append((g, Ptr(((None, od, cd, td),)), Ptr(((None, os_, cs, ts),))))
        # the alternatives exclude each other
        for g, d, s in both:
            self.memcpy_sym(st, d, s, n if len(both) == 1 else z3.If(g, n, BVV(0, 64)), ins)

    def memcpy_sym(self, st, dst, src, n, ins):
        """symbolic length"""
        _, do, dc, dts = self.single(dst, 'memcpy')
        _, so, sc, sts = self.single(src, 'memcpy')
        if do == 0 or so == 0:
            # null pointers are fine only for n == 0
            self.oblige(st, 'memory', n == 0, 'memcpy-null', ins)
            return
        od, os_ = self.objs[do], self.objs[so]
        for o, c, ts, w in ((od, dc, dts, 'write'), (os_, sc, sts, 'read')):
            off = tobv(offterm(c, ts), 64)
            sz = tobv(o.size, 64)
            self.oblige(st, 'memory', z3.Or(n == 0, z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off))), 'in-bounds-' + w, ins)
        s2 = self.ostw(st, do)
        s1 = self.ost(st, so) if so == do else self.ostw(st, so)
        small = isint(od.size) and od.size <= 600 and self.region(od, s2, 0) is None
        if small:
            # element-wise conditional copy
            doff = tobv(offterm(dc, dts), 64)
            delta = self.ptrdiff_off(sc, sts, dc, dts)
            el = self.elemsize(od, s2, os_, s1)
            new = {}
            dsgn = None
            for k in range(0, od.size - el + 1, el):
                kk = BVV(k, 64)
                cond = simp(z3.And(z3.ULE(doff, kk), z3.ULT(kk - doff, n)))
                if isint(cond) and not cond:
                    continue
                srcp = mkptr(so).add((k + sgn(sc - dc & M64, 64)) & M64, addts(sts, scalets(dts, M64)))
                if not isint(delta) is False and isint(delta):
                    so_k = sgn((k + delta) & M64, 64)
                    if so_k < 0 or (isint(os_.size) and so_k + el > os_.size):
                        continue
                v = self.rawload_q(st, srcp, el, ins)
                old = self.rdcell(od, s2, st, k, el, None)
                new[k] = self.itew(cond, v, old, 8 * el)
            for k, v in new.items():
                self.wrcell(od, s2, st, k, el, v)
            return
        # column to column
        reg2 = self.region(od, s2, dc if dc < (1 << 62) else 0)
        reg1 = self.region(os_, s1, sc if sc < (1 << 62) else 0)
        if reg2 is None and reg1 is None:
            if s1.dyn is None and not any(isinstance(v[1], (Ptr, tuple)) for v in list(s1.cells.values()) + list(s2.cells.values())):
                self.todyn(os_, s1, self.elemsize(od, s2, os_, s1))
                reg1 = self.region(os_, s1, 0)
            else:
                raise Unsupported('symbolic memcpy between untyped objects')
        if reg2 is None:
            self.todyn(od, s2, reg1[2])
            reg2 = self.region(od, s2, 0)
        if reg1 is None:
            if isint(os_.size) and os_.size <= 4096 or os_.data is not None:
                s1 = self.ostw(st, so)
                self.todyn(os_, s1, reg2[2])
                reg1 = self.region(os_, s1, 0)
            else:
                s1 = self.ostw(st, so)
                self.todyn(os_, s1, reg2[2])
                reg1 = self.region(os_, s1, 0)
        if reg1[2] != reg2[2]:
            raise Unsupported('memcpy stride mismatch')
        stride = reg1[2]
        x2, x1 = self.colindex(reg2, dc, dts), self.colindex(reg1, sc, sts)
        if x1 is None or x2 is None or x1[1] or x2[1]:
            raise Unsupported('memcpy unaligned column')
        cnt = n if stride == 1 else z3.UDiv(n, BVV(stride, 64)) if stride & (stride - 1) else z3.LShR(n, stride.bit_length() - 1)
        i = z3.BitVec('ci', 64)
        keys = set((k[2], k[3]) for k in s1.cols if k[0] == reg1[0]) | set((k[2], k[3]) for k in s2.cols if k[0] == reg2[0])
        if not keys:
            keys = {(0, stride)}
        for f, w in sorted(keys):
            A = self.getcol(os_, s1, (reg1[0], stride, f, w))
            B = self.getcol(od, s2, (reg2[0], stride, f, w))
            new = z3.Lambda([i], z3.If(z3.And(z3.ULE(x2[0], i), z3.ULT(i - x2[0], cnt)),
                                       z3.Select(A, i - x2[0] + x1[0]), z3.Select(B, i)))
            self.setcol(od, s2, (reg2[0], stride, f, w), new)

    def ptrdiff_off(self, sc, sts, dc, dts):
        return offterm((sc - dc) & M64, addts(sts, scalets(dts, M64)))

    def rawload_q(self, st, p, k, ins):
        self.quiet += 1
        try:
            return self.rawload(st, p, k, ins)
        finally:
            self.quiet -= 1

    def elemsize(self, od, s2, os_, s1):
        sizes = [v[0] for v in s2.cells.values()] + [v[0] for v in s1.cells.values()]
        if s1.dyn:
            sizes.append(s1.dyn)
        for r in os_.regions:
            sizes.append(r[2])
        return min(sizes) if sizes else 1

    def memset(self, st, dst, v, n, ins):
        if not isint(n):
            n = simp(n)
        if isint(n) and n == 0:
            return
        if not isint(n):
            return self.memset_sym(st, dst, v, n, ins)
        self.bounds(st, dst, n, ins, 'write')
        q = self.quiet
        self.quiet += 1
        try:
            if len(dst.alts) == 1 and not dst.alts[0][3]:
                _, oid, c, _ = dst.alts[0]
                if oid == 0:
                    return
                o = self.objs[oid]
                s = self.ostw(st, oid)
                reg = self.region(o, s, c)
                if n > 64 and reg is None and isint(v) and (isint(o.size) and n == o.size and c == 0):
                    pass
                off = 0
                while off < n:
                    reg = self.region(o, s, c + off)
                    if reg is not None and reg[1] is not None and c + off == reg[0] and c + n >= reg[1]:
                        for k in [k for k in s.cols if k[0] == reg[0]]:
                            del s.cols[k]
                        stride = reg[2]
                        vv = 0
                        for _ in range(stride):
                            vv = (vv << 8) | v if isint(v) else None
                        if vv is None:
                            raise Unsupported('memset symbolic value')
                        self.setcol(o, s, (reg[0], stride, 0, stride), z3.K(z3.BitVecSort(64), BVV(vv, 8 * stride)))
                        off += reg[1] - reg[0]
                        continue
                    if reg is not None and reg[1] is None and c == 0 and off == 0 and isint(o.size) and n == o.size:
                        raise_ = None
                    # natural piece
                    ck = s.cells.get(c + off)
                    k = ck[0] if ck is not None and off + ck[0] <= n else None
                    if k is None:
                        k = 8 if (c + off) % 8 == 0 else 4 if (c + off) % 4 == 0 else 2 if (c + off) % 2 == 0 else 1
                        if o.ty is not None:
                            k = min(k, self.scalar_at(o.ty, c + off) or k)
                        if reg is not None:
                            k = min(k, reg[2] - (c + off - reg[0]) % reg[2])
                            k = next(x for x in (8, 4, 2, 1) if x <= k)
                        while off + k > n:
                            k //= 2
                    vv = int.from_bytes(bytes([v]) * k, 'little') if isint(v) else z3.Concat(*([v] * k)) if k > 1 else v
                    self.rawstore(st, mkptr(oid, c + off), k, vv, ins)
                    off += k
                return
            for off in range(0, n):
                self.rawstore(st, dst.add(off, ()), 1, v, ins)
        finally:
            self.quiet = q

    def scalar_at(self, ty, off):
        r = self.m.resolve(ty)
        if r.k == 'struct':
            offs, _ = self.m.layout(r)
            for f, o in zip(r.a, offs):
                if o <= off < o + self.m.size(f):
                    return self.scalar_at(f, off - o)
            return None
        if r.k == 'arr':
            es = self.m.size(r.b)
            return self.scalar_at(r.b, off % es) if es else None
        n = self.m.size(r)
        return n if off == 0 else None

    def memset_sym(self, st, dst, v, n, ins):
        _, oid, c, ts = self.single(dst, 'memset')
        if oid == 0:
            self.oblige(st, 'memory', n == 0, 'memset-null', ins)
            return
        o = self.objs[oid]
        off = tobv(offterm(c, ts), 64)
        sz = tobv(o.size, 64)
        self.oblige(st, 'memory', z3.Or(n == 0, z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off))), 'in-bounds-write', ins)
        s = self.ostw(st, oid)
        reg = self.region(o, s, c if c < (1 << 62) else 0)
        if reg is None:
            if isint(o.size) and o.size <= 600:
                for k in range(o.size):
                    cond = simp(z3.And(z3.ULE(off, BVV(k, 64)), z3.ULT(BVV(k, 64) - off, n)))
                    if isint(cond) and not cond:
                        continue
                    old = self.rdcell(o, s, st, k, 1, None)
                    self.wrcell(o, s, st, k, 1, self.itew(cond, v, old, 8))
                return
            self.todyn(o, s, 1)
            reg = self.region(o, s, 0)
        stride = reg[2]
        x = self.colindex(reg, c, ts)
        if x is None or x[1] or not isint(v):
            raise Unsupported('memset unaligned')
        cnt = n if stride == 1 else z3.UDiv(n, BVV(stride, 64))
        i = z3.BitVec('ci', 64)
        keys = set((k[2], k[3]) for k in s.cols if k[0] == reg[0]) or {(0, stride)}
        for f, w in sorted(keys):
            B = self.getcol(o, s, (reg[0], stride, f, w))
            vv = int.from_bytes(bytes([v]) * w, 'little')
            new = z3.Lambda([i], z3.If(z3.And(z3.ULE(x[0], i), z3.ULT(i - x[0], cnt)), BVV(vv, 8 * w), z3.Select(B, i)))
            self.setcol(o, s, (reg[0], stride, f, w), new)

    def memcmp(self, st, a, b, n, ins):
        if not isint(n):
            n = simp(n)
        if not isint(n):
            raise Unsupported('symbolic memcmp')
        if n:
            self.bounds(st, a, n, ins, 'read')
            self.bounds(st, b, n, ins, 'read')
        res = 0
        q = self.quiet
        self.quiet += 1
        try:
            k = 1
            for i in reversed(range(n)):
                x = self.rawload(st, a.add(i, ()), 1, ins)
                y = self.rawload(st, b.add(i, ()), 1, ins)
                if isint(x) and isint(y):
                    if x != y:
                        res = 1 if x > y else M64 & 0xffffffff
                    continue
                X, Y = tobv(x, 8), tobv(y, 8)
                res = self.itew(X == Y, res, z3.If(z3.UGT(X, Y), BVV(1, 32), BVV(0xffffffff, 32)), 32)
        finally:
            self.quiet = q
        return res

    # ---------------------------------------------------------------- merging of states
    def merge_pc(self, a, b):
        common = {}
        ra, rb = [], []
        for i, t in a.pc.items():
            if i in b.pc:
                common[i] = t
            else:
                ra.append(t)
        for i, t in b.pc.items():
            if i not in a.pc:
                rb.append(t)
        return common, ra, rb

    def merge2(self, a, b, wa, wb):
        """merge states a and b; wa/wb: lists of (value, type) to merge alongside. Returns state, values"""
        common, ra, rb = self.merge_pc(a, b)

        def conj(l):
            return l[0] if len(l) == 1 else z3.And(l) if l else z3.BoolVal(True)
        # choose selector
        if a.soft != b.soft:
            use_a = not a.soft
        else:
            use_a = len(ra) <= len(rb)
        if not ra and not rb:
            sel = self.freshbool('nd')
        elif use_a and ra:
            sel = conj(ra)
        elif rb:
            sel = self.bnot(conj(rb))
        else:
            sel = conj(ra)
        m = State()
        m.soft = a.soft or b.soft
        m.marks = a.marks | b.marks
        m.pc = common
        compl = False
        if len(ra) == 1 and len(rb) == 1:
            x, y = ra[0], rb[0]
            if (z3.is_not(x) and x.arg(0).eq(y)) or (z3.is_not(y) and y.arg(0).eq(x)):
                compl = True
        if ra and rb and not compl:
            # exclusive case split keeps the selector meaningful
            c = z3.Or(conj(ra), conj(rb))
            m.pc[c.get_id()] = c
        elif not compl and (ra or rb) and (not ra or not rb):
            pass
        m.occ = {k: max(a.occ.get(k, 0), b.occ.get(k, 0)) for k in set(a.occ) | set(b.occ)} if a.occ != b.occ else a.occ
        ids = a.mem.keys() | b.mem.keys()
        mem = m.mem
        for oid in ids:
            sa, sb = a.mem.get(oid), b.mem.get(oid)
            if sa is sb or sb is None:
                mem[oid] = sa
                continue
            if sa is None:
                mem[oid] = sb
                continue
            mem[oid] = self.merge_obj(oid, sa, sb, sel, a, b)
        out = [self.itety(sel, x, y, t) for (x, t), (y, _) in zip(wa, wb)]
        return m, out

    def merge_obj(self, oid, sa, sb, sel, a, b):
        o = self.objs[oid]
        s = OState()
        if sa.dyn != sb.dyn:
            if sa.dyn and not sb.dyn:
                sb = sb.copy()
                self.todyn(o, sb, sa.dyn)
            elif sb.dyn and not sa.dyn:
                sa = sa.copy()
                self.todyn(o, sa, sb.dyn)
            else:
                raise Unsupported('merge of different strides')
        s.dyn = sa.dyn
        ca, cb = sa.cells, sb.cells
        if ca is cb:
            s.cells = ca
        else:
            keys = set(ca) | set(cb)
            done = set()
            for k in keys:
                va, vb = ca.get(k), cb.get(k)
                if va is not None and vb is not None and va[0] == vb[0]:
                    if va[1] is vb[1]:
                        s.cells[k] = va
                    else:
                        s.cells[k] = (va[0], self.mergeval(sel, va[1], vb[1], va[0]))
                    done.add(k)
            rest = [k for k in keys if k not in done]
            if rest:
                ra_, rb_ = sa.copy(), sb.copy()
                for k in sorted(rest):
                    va, vb = ca.get(k), cb.get(k)
                    for v in (va, vb):
                        if v is None:
                            continue
                        n = v[0]
                        # skip if covered already
                        if any(x < k + n and x + y[0] > k for x, y in s.cells.items()):
                            # overlap with a merged cell: fall back to bytes
                            for i in range(n):
                                if any(x <= k + i < x + y[0] for x, y in s.cells.items()):
                                    continue
                                x = self.rdcell(o, ra_, a, k + i, 1, None)
                                y = self.rdcell(o, rb_, b, k + i, 1, None)
                                s.cells[k + i] = (1, self.mergeval(sel, x, y, 1))
                            continue
                        want = PTR if isinstance(v[1], Ptr) else None
                        x = self.rdcell(o, ra_, a, k, n, want)
                        y = self.rdcell(o, rb_, b, k, n, want)
                        s.cells[k] = (n, self.mergeval(sel, x, y, n))
        if sa.cols is sb.cols:
            s.cols = sa.cols
        else:
            for k in set(sa.cols) | set(sb.cols):
                x, y = sa.cols.get(k), sb.cols.get(k)
                if x is None or y is None:
                    # created lazily on one side: same initial array is only sound if untouched on the other
                    if x is None:
                        x = self.getcol(o, sa, k) if any(q[0] == k[0] and q[2] < k[2] + k[3] and q[2] + q[3] > k[2] for q in sa.cols) else y_init(self, o, k, sa, sb)
                    if y is None:
                        y = self.getcol(o, sb, k) if any(q[0] == k[0] and q[2] < k[2] + k[3] and q[2] + q[3] > k[2] for q in sb.cols) else y_init(self, o, k, sb, sa)
                s.cols[k] = x if x.eq(y) else z3.If(sel, x, y)
        s.freed = sa.freed or sb.freed
        return s

    def mergeval(self, sel, x, y, n):
        if isinstance(x, Ptr) and isinstance(y, PtrInt):
            y = y.p
        if isinstance(y, Ptr) and isinstance(x, PtrInt):
            x = x.p
        if isinstance(x, Ptr) != isinstance(y, Ptr) and not isinstance(x, tuple) and not isinstance(y, tuple):
            # uninitialised / raw bits against a pointer
            if isint(x) and x == 0:
                x = NULL
            elif isint(y) and y == 0:
                y = NULL
            elif isinstance(x, Ptr):
                return x if str(y).startswith(('m_', 'undef')) else self.itew(sel, self.ptr2int(x), y, 8 * n)
            else:
                return y if str(x).startswith(('m_', 'undef')) else self.itew(sel, x, self.ptr2int(y), 8 * n)
        return self.itew(sel, x, y, 8 * n)

    def merge_states(self, items, blk):
        """items: list of (state, env, from). Returns (state, env with phis evaluated)."""
        phis = blk.phis

        def phivals(env, frm):
            out = []
            for ph in phis:
                for v, b in ph.a:
                    if b == frm:
                        out.append((self.val(env, ph.ty, v), ph.ty))
                        break
                else:
                    raise Unsupported('phi edge')
            return out
        st, env, frm = items[-1]
        vals = phivals(env, frm)
        base = env
        for st2, env2, frm2 in reversed(items[:-1]):
            v2 = phivals(env2, frm2)
            st, merged = self.merge2(st, st2, vals, v2)
            vals = [(x, t) for x, (_, t) in zip(merged, vals)]
            if len(env2) < len(base):
                base = env2
        env = dict(base) if phis or len(items) > 1 else base
        for ph, (v, _) in zip(phis, vals):
            env[ph.dst] = v
        return st, env

    # ---------------------------------------------------------------- execution
    def cfg(self, f):
        c = self.cfgs.get(f.name)
        if c is None:
            c = self.cfgs[f.name] = CFG(f)
        return c

    def call(self, st, name, args, ins):
        """returns list of (state, retval)"""
        r = self.replace.get(name)
        if r is not None and r not in self.callstack and name not in self.no_replace:
            self.replaced_used.add(name)
            name = r
        f = self.m.func(name)
        b = self.builtin(st, name, args, ins) if f is None or name != 'v_index' else NotImplemented
        if b is not NotImplemented:
            return b
        if f is None:
            if name in self.m.decls:
                self.externs.add(name)
                raise Unsupported('external function ' + name)
            raise Unsupported('unknown function ' + name)
        return self.exec_func(f, args, st)

    no_replace = ()

    def exec_func(self, f, args, st):
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('call depth')
        if time.time() > self.deadline:
            raise Budget('time')
        self.used_funcs[f.name] = self.used_funcs.get(f.name, 0) + 1
        self.callstack.append(f.name)
        try:
            cfg = self.cfg(f)
            env = {}
            for (t, n), a in zip(f.params, args):
                env[n] = a
            rets = self.run(f, cfg, [(f.entry, None, env, st)], None, None)
            if not rets:
                return []
            if self.mode == 'fork' or len(rets) == 1 or f.name.endswith('_split'):
                return rets  # contracts named *_split leave their cases to the caller's control flow
            st0, v0 = rets[-1]
            for s2, v2 in reversed(rets[:-1]):
                if f.ret.k == 'void':
                    st0, _ = self.merge2(st0, s2, [], [])
                else:
                    st0, o = self.merge2(st0, s2, [(v0, f.ret)], [(v2, f.ret)])
                    v0 = o[0]
            return [(st0, v0)]
        finally:
            self.depth -= 1
            self.callstack.pop()

    def run(self, f, cfg, edges, region, stopinv):
        """Worklist execution. edges: list of (block, from, env, state).
        region: set of blocks to stay inside (None: whole function); edges leaving it are returned.
        stopinv: None or (header, mode) for cut-loop processing.
        Returns list of (state, retval) when region is None, else (exit edges, back edges, rets)"""
        rets = []
        exits = []
        backs = []
        pend = {}
        visits = {}
        header = stopinv[0] if stopinv else None
        started = False
        fork = self.mode == 'fork' or f.name.endswith('_split')
        stack = []

        def push(e, initial=False):
            b, frm, env, st = e
            if st.dead:
                return
            if region is not None and b not in region:
                exits.append(e)
                return
            if header is not None and b == header and not initial:
                backs.append(e)
                return
            if fork:
                stack.append(e)
            else:
                pend.setdefault(b, []).append((st, env, frm))
        for e in edges:
            push(e, True)
        order = cfg.order
        while pend or stack:
            self.steps += 1
            if fork:
                b, frm, env, st = stack.pop()
                items = [(st, env, frm)]
            else:
                b = min(pend, key=order.__getitem__)
                items = pend.pop(b)
            blk = f.blocks[b]
            if frm_is_none(items):
                st, env = items[0][0], dict(items[0][1])
            elif stopinv and b == header and items[0][2] == '#havoc':
                st, env = items[0][0], dict(items[0][1])
            else:
                st, env = self.merge_states(items, blk)
            if b in cfg.loops and not (stopinv and b == header):
                if b in cfg.cut and not fork:
                    # fresh entry into a cut loop
                    ex, rt = self.cut_loop(f, cfg, b, env, st)
                    rets.extend(rt)
                    for e in ex:
                        push(e)
                    continue
                k = (b, id(stack)) if not fork else b
                visits[b] = visits.get(b, 0) + 1
                if not fork:
                    if visits[b] > self.unroll:
                        self.bounded_loops.append((f.name, b))
                        if self.unroll_assume:
                            continue
                        raise Budget('unroll limit in ' + f.name)
            elif b in cfg.loops:
                pass
            if not fork:
                # entering a loop header from outside resets its visit count
                pass
            # own the env for this block
            env = dict(env)
            self.run_block(f, cfg, blk, 0, env, st, push, rets, stopinv, visits)
        if region is None:
            return rets
        return exits, backs, rets

    unroll_assume = False

    def run_block(self, f, cfg, blk, i, env, st, push, rets, stopinv, visits):
        n = len(blk.ins)
        b = blk.name
        while i < n:
            ins = blk.ins[i]
            op = ins.op
            self.steps += 1
            if self.steps & 1023 == 0:
                if time.time() > self.deadline:
                    raise Budget('time')
                if self.steps > self.max_steps:
                    raise Budget('steps')
            if op == 'call':
                nm = ins.x[1]
                if nm == 'v_invariant' and ins.x[0] == 'glob':
                    c = self.val(env, ins.a[0][0], ins.a[0][1])
                    mode = stopinv[1] if stopinv and cfg.inner[b] and cfg.inner[b][0] == stopinv[0] else None
                    if mode == 'assume':
                        c = tobool(self.tobit(c))
                        if not st.assume(norm(c)):
                            return
                        i += 1
                        st.marks = st.marks | {stopinv[4]}
                        st.soft = True
                        continue
                    if mode == 'check':
                        self.oblige(st, 'invariant', self.tobit(c), stopinv[3] + '-invariant', ins, user=True)
                        # several markers in a row: all are checked before stopping
                        j = i + 1
                        while j < n and self.more_inv(blk, j):
                            j += 1
                        if self.more_inv_ahead(blk, i + 1):
                            # conjuncts may rely on earlier ones
                            st.assume(norm(tobool(self.tobit(c))))
                            i += 1
                            continue
                        return
                    i += 1
                    continue
                args = [self.val(env, t, v) for t, v in ins.a if t.k != 'metadata']
                if ins.x[0] == 'loc':
                    fp = env[nm]
                    targets = []
                    for g, oid, c, ts in fp.alts:
                        o = self.objs.get(oid)
                        if o is None or o.kind != 'func':
                            if len(fp.alts) == 1:
                                raise Unsupported('indirect call')
                            continue
                        targets.append((g, o.fn))
                    if len(targets) != 1:
                        raise Unsupported('indirect call with several targets')
                    nm = targets[0][1]
                self.cur = ins
                res = self.call(st, nm, args, ins)
                if not res:
                    return
                if len(res) == 1:
                    st, v = res[0]
                    if st.dead:
                        return
                    if ins.dst is not None:
                        env[ins.dst] = v
                    i += 1
                    continue
                for s2, v in res:
                    if s2.dead:
                        continue
                    e2 = dict(env)
                    if ins.dst is not None:
                        e2[ins.dst] = v
                    self.run_block(f, cfg, blk, i + 1, e2, s2, push, rets, stopinv, visits)
                return
            if op == 'br':
                if ins.a is None:
                    push((ins.x[0], b, env, st))
                    return
                c = self.val(env, INT(1), ins.a)
                self.branch(f, cfg, b, [(c, ins.x[0]), (self.bnot(c), ins.x[1])], env, st, push, visits)
                return
            if op == 'switch':
                c = self.val(env, ins.ty, ins.a)
                w = ins.ty.a
                d, cases = ins.x
                if isint(c):
                    for cv, lb in cases:
                        if cv & mask(w) == c:
                            push((lb, b, env, st))
                            return
                    push((d, b, env, st))
                    return
                bylabel = {}
                c = self.num(c)
                for cv, lb in cases:
                    bylabel.setdefault(lb, []).append(c == BVV(cv & mask(w), w))
                conds = []
                allc = []
                for lb, cs in bylabel.items():
                    x = cs[0] if len(cs) == 1 else z3.Or(cs)
                    allc.extend(cs)
                    if lb != d:
                        conds.append((x, lb))
                dflt = [self.bnot(x) for x, _ in conds]
                conds.append((z3.And(dflt) if len(dflt) > 1 else dflt[0] if dflt else 1, d))
                self.branch(f, cfg, b, conds, env, st, push, visits)
                return
            if op == 'ret':
                v = None if ins.a is None else self.val(env, ins.ty, ins.a)
                rets.append((st, v))
                return
            if op == 'unreachable':
                self.oblige(st, 'unreachable', 0, 'unreachable', ins)
                return
            self.step(ins, env, st)
            if st.dead:
                return
            i += 1

    def more_inv(self, blk, j):
        ins = blk.ins[j]
        return ins.op == 'call' and ins.x[1] == 'v_invariant'

    def more_inv_ahead(self, blk, j):
        return any(self.more_inv(blk, k) for k in range(j, len(blk.ins)))

    def tobit(self, c):
        if isint(c):
            return c
        if isinstance(c, z3.BoolRef):
            return c
        return c != 0

    def branch(self, f, cfg, b, conds, env, st, push, visits):
        live = []
        for c, lb in conds:
            if isint(c):
                if c:
                    push((lb, b, env, st))
                    return
                continue
            live.append((c, lb))
        # simplify symbolic conditions
        sl = []
        for c, lb in live:
            cs = norm(z3.simplify(c))
            if isint(cs):
                if cs:
                    push((lb, b, env, st))
                    return
                continue
            sl.append((c, lb))
        live = sl
        inloop = cfg.inner[b]
        fork = self.mode == 'fork'
        if len(live) > 1 and (fork or self.prune in ('all', 'near') or (
                self.prune == 'loops' and inloop and any(
                    any(lb == h or (lb not in cfg.loops[h]) for h in inloop if h not in cfg.cut) for _, lb in live)
                and any(visits.get(h, 0) >= 1 for h in inloop))):
            ok = []
            for k, (c, lb) in enumerate(live):
                if k == len(live) - 1 and not ok:
                    ok.append((c, lb))  # at least one must be possible (if the path is)
                    break
                if st.model is not None and fork:
                    try:
                        if z3.is_true(st.model.eval(c, model_completion=True)):
                            ok.append((c, lb))
                            continue
                    except z3.Z3Exception:
                        pass
                m0 = st.model
                if self.feasible(st, c):
                    ok.append((c, lb))
                if fork:
                    pass
            live = ok
        for k, (c, lb) in enumerate(live):
            s2 = st.copy() if k < len(live) - 1 else st
            if k < len(live) - 1:
                e2 = dict(env)
            else:
                e2 = env
            if fork and s2.model is not None:
                try:
                    if not z3.is_true(s2.model.eval(c, model_completion=True)):
                        s2.model = None
                except z3.Z3Exception:
                    s2.model = None
            if s2.assume(c):
                push((lb, b, e2, s2))

    def step(self, ins, env, st):
        op = ins.op
        if op == 'load':
            p = self.val(env, PTR, ins.a[0])
            env[ins.dst] = self.load(st, p, ins.ty, ins)
        elif op == 'store':
            v = self.val(env, ins.ty, ins.a[0])
            p = self.val(env, PTR, ins.a[1])
            self.store(st, p, ins.ty, v, ins)
        elif op == 'gep':
            p = self.val(env, PTR, ins.a[0][1])
            idx = [(t, self.val(env, t, v)) for t, v in ins.a[1:]]
            env[ins.dst] = self.gep(p, ins.ty, idx)
        elif op == 'icmp':
            a, b = self.val(env, ins.ty, ins.a[0]), self.val(env, ins.ty, ins.a[1])
            env[ins.dst] = self.icmp(ins.x, ins.ty, a, b)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(env, ins.ty, ins.a[0]), self.val(env, ins.ty, ins.a[1])
            env[ins.dst] = self.binop(op, ins.ty.a, a, b, st, ins, ins.flags)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                    'fptrunc', 'fpext'):
            a = self.val(env, ins.x, ins.a[0])
            env[ins.dst] = self.cast(op, ins.x, ins.ty, a, st, ins)
        elif op == 'select':
            c = self.val(env, INT(1), ins.a[0])
            a, b = self.val(env, ins.ty, ins.a[1]), self.val(env, ins.ty, ins.a[2])
            env[ins.dst] = self.itety(c, a, b, ins.ty)
        elif op == 'alloca':
            cnt = 1
            if ins.a is not None:
                cnt = self.val(env, ins.a[0], ins.a[1])
                if not isint(cnt):
                    raise Unsupported('VLA')
            o = self.new_obj(st, self.m.size(ins.ty) * cnt, 'l' + str(ins.dst), 'alloca',
                             ty=ins.ty if cnt == 1 else T('arr', cnt, ins.ty))
            env[ins.dst] = mkptr(o.id)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            env[ins.dst] = ('fp', None)
        elif op == 'fcmp':
            env[ins.dst] = self.freshbool('fcmp')
        elif op == 'freeze':
            env[ins.dst] = self.val(env, ins.ty, ins.a)
        elif op == 'extractvalue':
            v = self.val(env, ins.ty, ins.a)
            for k in ins.x:
                v = v[k]
            env[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(env, ins.ty, ins.a[0])
            x = self.val(env, ins.a[1], ins.a[2])
            env[ins.dst] = self.insval(v, ins.x, x)
        else:
            raise Unsupported('instr ' + str(op) + ' ' + str(ins.x))

    def insval(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insval(v[idx[0]], idx[1:], x)
        return tuple(v)

    # ---------------------------------------------------------------- cut loops
    def cut_loop(self, f, cfg, header, env, st):
        body = cfg.loops[header]
        blk = f.blocks[header]
        nm = '%s:loop%d' % (f.name, (self.loc(next((i for i in blk.ins if i.dbg), None)) or ('', 0))[1])
        self.ncut = getattr(self, 'ncut', 0) + 1
        cid = self.ncut
        # 1. entry: invariant holds on first arrival
        s0 = st.copy()
        ex0, _, rt0 = self.run(f, cfg, [(header, '#havoc', dict(env), s0)], body, (header, 'check', [], 'entry', cid))
        # 2. frame by iteration to a fixpoint
        phis = blk.phis
        log = set()
        deltas = {}
        for rnd in range(8):
            hs, henv, hv = self.havoc(st, env, phis, log, {})
            old = self.wlog
            self.wlog = set()
            self.quiet += 1
            nobj = self.nobj
            try:
                _, backs, _ = self.run(f, cfg, [(header, '#havoc', henv, hs)], body, (header, 'assume', [], '', cid))
            finally:
                self.quiet -= 1
                new = self.wlog
                self.wlog = old
            new = set(x for x in new if x[0] <= nobj and x[0] in st.mem or x[0] in self.root.mem)
            if new <= log:
                break
            log |= new
        else:
            raise Unsupported('loop frame did not converge')
        # 3. linear induction variables
        deltas = {}
        if backs:
            bs, benv = self.merge_states([(s, e, fr) for (_, fr, e, s) in backs], blk)
            for key, h in hv.items():
                if key[0] == 'phi':
                    v = benv[key[1]]
                elif key[0] == 'cell':
                    o = self.objs[key[1]]
                    v = self.rdcell(o, self.ost(bs, key[1]), bs, key[2], key[3], None)
                else:
                    continue
                if isinstance(h, Ptr):
                    if not isinstance(v, Ptr) or len(v.alts) != 1 or len(h.alts) != 1:
                        continue
                    if v.alts[0][1] != h.alts[0][1]:
                        raise Unsupported('pointer changes object in loop')
                    d = simp(tobv(self.ptrdiff(v, h), 64))
                    if isint(d):
                        deltas[key] = d
                elif isinstance(h, z3.BitVecRef) and not isinstance(v, (Ptr, tuple, PtrInt)):
                    d = simp(tobv(v, h.size()) - h)
                    if isint(d):
                        deltas[key] = d
        # 4. the generic iteration
        hs, henv, hv = self.havoc(st, env, phis, log, deltas)
        ex1, backs, rt1 = self.run(f, cfg, [(header, '#havoc', henv, hs)], body, (header, 'assume', [], '', cid))
        # exits taken before the marker in the arbitrary header state are covered by step 5
        ex1 = [e for e in ex1 if cid in e[3].marks]
        rt1 = [r for r in rt1 if cid in r[0].marks]
        if not self.quiet:
            self.cut_loops.append(nm)
        exits = list(ex0)
        rets = list(rt0) + [r for r in rt1]
        if backs:
            bs, benv = self.merge_states([(s, e, fr) for (_, fr, e, s) in backs], blk)
            bs.soft = True
            ex2, _, rt2 = self.run(f, cfg, [(header, '#havoc', benv, bs)], body, (header, 'check', [], 'preserved', cid))
            for e in ex2:
                e[3].soft = True
            exits += ex2
            rets += rt2
        exits += ex1
        if self.wlog is not None:
            self.wlog |= log
        return exits, rets

    def havoc(self, st, env, phis, log, deltas):
        hs = st.copy()
        henv = dict(env)
        hv = {}
        k = None
        if deltas:
            k = self.fresh(64, 'iter')
        for ph in phis:
            r = self.m.resolve(ph.ty)
            cur = env[ph.dst]
            key = ('phi', ph.dst)
            if r.k == 'int':
                if key in deltas:
                    kk = k if r.a == 64 else z3.Extract(r.a - 1, 0, k)
                    h = tobv(self.num(cur), r.a) + kk * BVV(deltas[key], r.a)
                else:
                    h = self.freshbool('hv') if r.a == 1 else self.fresh(r.a, 'hv')
            elif r.k == 'ptr':
                h = self.havocptr(cur, deltas.get(key), k)
            else:
                h = ('fp', None)
            henv[ph.dst] = h
            hv[key] = h
        for e in sorted(log, key=str):
            oid = e[0]
            o = self.objs[oid]
            s = self.ostw(hs, oid)
            if e[1] == 'cell':
                key = ('cell', oid, e[2], e[3])
                if s.dyn:
                    continue
                cur = self.rdcell(o, s, hs, e[2], e[3], None)
                if isinstance(cur, (Ptr, PtrInt)):
                    h = self.havocptr(cur if isinstance(cur, Ptr) else cur.p, deltas.get(key), k)
                elif isinstance(cur, tuple):
                    h = ('fp', None)
                elif key in deltas:
                    w = 8 * e[3]
                    kk = k if w == 64 else z3.Extract(w - 1, 0, k)
                    h = tobv(cur, w) + kk * BVV(deltas[key], w)
                else:
                    h = self.fresh(8 * e[3], 'hc')
                q = self.wlog
                self.wlog = None
                self.wrcell(o, s, hs, e[2], e[3], h)
                self.wlog = q
                hv[key] = h
            else:
                key = e[2]
                self.nfresh += 1
                if s.dyn is None and key[0] == 0 and not o.regions:
                    q = self.wlog
                    self.wlog = None
                    self.todyn(o, s, key[1])
                    self.wlog = q
                a = z3.Array('H!%d.%d' % (oid, self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8 * key[3]))
                q = self.wlog
                self.wlog = None
                self.setcol(o, s, key, a)
                self.wlog = q
        hs.model = None
        return hs, henv, hv

    def havocptr(self, p, delta, k):
        if len(p.alts) != 1:
            raise Unsupported('havoc of merged pointer')
        g, oid, c, ts = p.alts[0]
        if oid == 0:
            return p
        if delta is not None:
            if delta == 0:
                return p
            return p.add(0, ((delta, k),))
        return mkptr(oid, 0, ((1, self.fresh(64, 'hp')),))

    # ---------------------------------------------------------------- builtins
    def cstr(self, st, p):
        if not isinstance(p, Ptr) or len(p.alts) != 1:
            return '?'
        _, oid, c, ts = p.alts[0]
        o = self.objs.get(oid)
        if o is None or o.data is None:
            return '?'
        d = o.data[c:]
        return d[:d.index(0)].decode() if 0 in d else d.decode()

    NORETURN = ('abort', '__assert_fail', '_ZSt9terminatev', '__cxa_pure_virtual', 'exit',
                '_ZN7brunsli19BrunsliDumpAndAbortEPKciS1_')

    def builtin(self, st, name, args, ins):
        if name.startswith('v_'):
            return self.vbuiltin(st, name, args, ins)
        if name.startswith('llvm.'):
            return self.llvm(st, name, args, ins)
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            n = args[0]
            if not isint(n):
                n = simp(n)
            o = self.new_obj(st, n, 'heap%d' % (self.nobj + 1), 'heap')
            return [(st, mkptr(o.id))]
        if name == 'calloc':
            n = self.binop('mul', 64, args[0], args[1])
            n = simp(n)
            o = self.new_obj(st, n, 'heap%d' % (self.nobj + 1), 'heap')
            self.memset(st, mkptr(o.id), 0, n, ins)
            return [(st, mkptr(o.id))]
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t'):
            return [(st, None)]
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2], ins)
            return [(st, args[0])]
        if name == 'memset':
            self.memset(st, args[0], self.trunc(args[1], 32, 8), args[2], ins)
            return [(st, args[0])]
        if name in ('memcmp', 'bcmp'):
            return [(st, self.memcmp(st, args[0], args[1], args[2], ins))]
        if name == 'strlen':
            return [(st, len(self.cstr(st, args[0])))]
        if name in ('__cxa_guard_acquire',):
            return [(st, 1)]
        if name in ('__cxa_guard_release', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev'):
            return [(st, 0)]
        if name in self.NORETURN or name.startswith('_ZSt') and '__throw_' in name or name.startswith('_ZSt17__throw'):
            self.oblige(st, 'abort', 0, 'no-abort(' + name + ')', ins)
            return []
        if name in ('abs', 'labs'):
            w = 32 if name == 'abs' else 64
            return [(st, self.absv(args[0], w))]
        if name in ('exp', 'log', 'log2', 'sqrt', 'floor', 'ceil', 'pow', 'round'):
            return [(st, ('fp', None))]
        return NotImplemented

    def absv(self, a, w):
        if isint(a):
            return abs(sgn(a, w)) & mask(w)
        return z3.If(a < 0, -a, a)

    def llvm(self, st, name, args, ins):
        n = name[5:]
        if n.startswith(('lifetime', 'dbg', 'experimental.noalias', 'var.annotation', 'prefetch', 'donothing',
                         'stackrestore')):
            return [(st, None)]
        if n.startswith('stacksave'):
            return [(st, NULL)]
        if n.startswith('assume'):
            return [(st, None)]
        if n.startswith('expect') or n.startswith('launder') or n.startswith('ssa.copy'):
            return [(st, args[0])]
        if n.startswith('is.constant'):
            return [(st, 0)]
        if n.startswith('objectsize'):
            return [(st, M64)]
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, args[0], args[1], args[2], ins)
            return [(st, None)]
        if n.startswith('memset'):
            self.memset(st, args[0], args[1], args[2], ins)
            return [(st, None)]
        w = None
        if '.i' in n:
            try:
                w = int(n.rsplit('.i', 1)[1])
            except ValueError:
                pass
        if n.startswith('abs.'):
            return [(st, self.absv(args[0], w))]
        if n.startswith(('umin', 'umax', 'smin', 'smax')):
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[n[:4]]
            c = self.icmp(pred, INT(w), args[0], args[1])
            return [(st, self.itew(c, args[0], args[1], w))]
        if n.startswith('ctlz'):
            return [(st, self.ctlz(args[0], w))]
        if n.startswith('cttz'):
            return [(st, self.cttz(args[0], w))]
        if n.startswith('ctpop'):
            a = args[0]
            if isint(a):
                return [(st, bin(a).count('1'))]
            r = BVV(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return [(st, r)]
        if n.startswith('bswap'):
            a = args[0]
            if isint(a):
                return [(st, int.from_bytes(a.to_bytes(w // 8, 'little'), 'big'))]
            return [(st, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))]
        if n.startswith(('fshl', 'fshr')):
            a, b, c = args
            if isint(c):
                c %= w
                if n.startswith('fshl'):
                    r = (tobv(a, w) << c) | z3.LShR(tobv(b, w), w - c) if c else a
                else:
                    r = (tobv(a, w) << (w - c)) | z3.LShR(tobv(b, w), c) if c else b
                return [(st, simp(r))]
            raise Unsupported('fsh')
        if '.with.overflow' in n:
            a, b = args
            ext = w + w if n[1:4] == 'mul' else w + 1
            sg = n[0] == 's'
            f = z3.SignExt if sg else z3.ZeroExt
            A, B = f(ext - w, tobv(a, w)), f(ext - w, tobv(b, w))
            o3 = n[1:4]
            r = A + B if o3 == 'add' else A - B if o3 == 'sub' else A * B
            lo = z3.Extract(w - 1, 0, r)
            ov = r != f(ext - w, lo)
            return [(st, (simp(lo), simp(ov)))]
        if n.startswith('usub.sat'):
            c = self.icmp('ult', INT(w), args[0], args[1])
            return [(st, self.itew(c, 0, self.binop('sub', w, args[0], args[1]), w))]
        if n.startswith(('fmuladd', 'fabs', 'floor', 'ceil', 'sqrt', 'exp', 'log', 'pow', 'maxnum', 'minnum', 'round',
                         'fma', 'copysign')):
            return [(st, ('fp', None))]
        if n.startswith('trap') or n.startswith('ubsantrap'):
            self.oblige(st, 'ub', 0, 'undefined-behaviour', ins)
            return []
        raise Unsupported('intrinsic ' + name)

    def ctlz(self, a, w):
        if isint(a):
            return w - a.bit_length()
        r = BVV(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a) == 1, BVV(w - 1 - i, w), r)
        return r

    def cttz(self, a, w):
        if isint(a):
            return w if a == 0 else (a & -a).bit_length() - 1
        r = BVV(w, w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, a) == 1, BVV(i, w), r)
        return r

    def vbuiltin(self, st, name, args, ins):
        if name == 'v_nondet':
            nm = self.cstr(st, args[0])
            idx = args[1]
            bits = args[2]
            if not isint(idx):
                idx = simp(idx)
            if not isint(idx):
                raise Unsupported('symbolic nondet index ' + nm + str(idx)[:300])
            key = (nm, idx)
            occ = st.occ.get(key, 0)
            st.occ = dict(st.occ)
            st.occ[key] = occ + 1
            full = (nm, idx, occ)
            t = self.inputs.get(full)
            if t is None:
                t = (z3.BitVec('in_%s_%d_%d' % full, bits), bits)
                self.inputs[full] = t
            return [(st, self.zext(t[0], bits, 64) if bits < 64 else t[0])]
        if name == 'v_determined':
            # the value itself; as a constant if the path condition leaves only one
            a = args[0]
            if not isint(a):
                a = simp(a)
            if isint(a):
                return [(st, a)]
            syms = symbols(a)
            pcs = [t for t in st.pc.values() if symbols(t)]
            near = [t for t in pcs if symbols(t) <= syms]
            for ts in (near, [t for t in pcs if symbols(t) & syms], pcs):
                s = z3.Solver()
                s.set('timeout', 3000)
                s.add(ts)
                c = None
                if s.check() == z3.sat:
                    c = s.model().eval(a, model_completion=True)
                    s = z3.Solver()
                    s.set('timeout', 3000)
                    s.add(ts)
                    s.add(a != c)
                    self.nfeas += 1
                    if s.check() != z3.unsat:
                        c = None
                if c is not None:
                    return [(st, c.as_long())]
                if len(ts) == len(pcs):
                    break
            return [(st, a)]
        if name == 'v_case':
            # one run of the harness per value (worker option 'cases')
            nm = self.cstr(st, args[0])
            v = self.case[nm]
            assert args[1] <= v <= args[2], 'case outside its range'
            return [(st, v)]
        if name == 'v_index':
            return [(st, None)]
        if name in ('v_range', 'v_srange'):
            lo, hi = args[3], args[4]
            bits = args[2]
            w = bits
            if isint(lo) and isint(hi):
                # a variable just wide enough: its high bits are known to the solvers
                if name == 'v_range':
                    w = min(bits, max(1, hi.bit_length()))
                else:
                    sl, sh = [x - (1 << 64) if x >> 63 else x for x in (lo, hi)]
                    w = min(bits, max(sh.bit_length(), (-sl - 1).bit_length() if sl < 0 else 0) + 1)
            st, v = self.vbuiltin(st, 'v_nondet', [args[0], args[1], w], ins)[0]
            if name == 'v_srange' and w < 64:
                v = self.sext(self.trunc(v, 64, w), w, 64)
            if isint(lo) and isint(hi) and lo == hi:
                c = self.icmp('eq', INT(64), v, lo)
            else:
                p = ('sge', 'sle') if name == 'v_srange' else ('uge', 'ule')
                c = self.boolop('and', self.icmp(p[0], INT(64), v, lo), self.icmp(p[1], INT(64), v, hi))
            r = self.vbuiltin(st, 'v_assume', [c], ins)
            return [(s2, v) for s2, _ in r]
        if name == 'v_assume':
            c = self.tobit(args[0])
            if isint(c):
                return [(st, None)] if c else []
            if not st.assume(norm(c)):
                return []
            if st.model is not None:
                try:
                    if not z3.is_true(st.model.eval(c, model_completion=True)):
                        st.model = None
                except z3.Z3Exception:
                    st.model = None
            if self.mode == 'fork' and st.model is None:
                if not self.feasible(st, z3.BoolVal(True)):
                    return []
            return [(st, None)]
        if name in ('v_assert', 'v_lemma'):
            c = self.tobit(args[0])
            nm = self.cstr(st, args[1])
            self.oblige(st, 'assert', c, nm, ins, user=True)
            if name == 'v_lemma' or True:
                if isint(c):
                    return [(st, None)] if c else []
                st.assume(norm(c))
            return [(st, None)]
        if name == 'v_cover':
            if not self.quiet:
                self.covers.append((self.cstr(st, args[0]), st.pcs()))
            return [(st, None)]
        if name == 'v_native':
            return [(st, 0)]
        if name == 'v_concrete':
            # forces a small case split in fork mode: returns the value as a constant on each path
            a = args[0]
            if not isint(a):
                a = simp(a)
            if isint(a) or self.mode != 'fork':
                return [(st, a)]
            lo, hi = args[1], args[2]
            out = []
            for v in range(lo, hi + 1):
                c = a == BVV(v, 64)
                if self.feasible(st, c):
                    s2 = st.copy()
                    s2.model = None
                    s2.assume(c)
                    out.append((s2, v))
            return out
        if name == 'v_array':
            # (name, elem bytes, count) -> pointer to a fresh symbolic array
            nm = self.cstr(st, args[0])
            es = args[1]
            cnt = args[2]
            sz = self.binop('mul', 64, cnt, es)
            sz = simp(sz)
            o = self.new_obj(st, sz, 'arr_' + nm, 'heap', stride=es)
            s = self.ostw(st, o.id)
            a = z3.Array('arr_' + nm, z3.BitVecSort(64), z3.BitVecSort(8 * es))
            s.cols[(0, es, 0, es)] = a
            self.arrays[nm] = (a, es, cnt)
            return [(st, mkptr(o.id))]
        if name == 'v_alloc':
            # (bytes, stride) uninitialised
            n, sr = args
            if not isint(n):
                n = simp(n)
            o = self.new_obj(st, n, 'heap%d' % (self.nobj + 1), 'heap', stride=sr if sr else None)
            return [(st, mkptr(o.id))]
        if name == 'v_bound':
            lo, hi = args
            b = self.fresh(64, 'q')
            st.assume(norm(z3.ULE(tobv(lo, 64), b)))
            st.assume(norm(z3.ULT(b, tobv(hi, 64))))
            return [(st, b)]
        if name in ('v_forall_close', 'v_exists_close'):
            b, lo, hi, r = args
            r = tobool(self.tobit(r))
            rng = z3.And(z3.ULE(tobv(lo, 64), b), z3.ULT(b, tobv(hi, 64)))
            # drop the bound variable's range facts
            for i in list(st.pc):
                t = st.pc[i]
                if mentions(t, b):
                    del st.pc[i]
            if name == 'v_forall_close':
                q = z3.ForAll([b], z3.Implies(rng, r))
            else:
                q = z3.Exists([b], z3.And(rng, r))
            return [(st, q)]
        if name == 'v_same_object':
            return [(st, 1)]
        raise Unsupported(name)

    def run_harness(self, fname):
        self.root = State()
        st = State()
        f = self.m.func(fname)
        if f is None:
            raise Unsupported('no harness ' + fname)
        t = time.time()
        res = self.exec_func(f, [], st)
        self.exec_time = time.time() - t
        return res


def y_init(eng, o, k, me, other):
    """column k exists only in `other`: the shared initial array"""
    ini = getattr(o, 'tag', None)
    if o.tag is None:
        o.tag = {}
    a = o.tag.get(k)
    if a is None:
        a = eng.colinit(o, k)
        o.tag[k] = a
    return a


def frm_is_none(items):
    return len(items) == 1 and items[0][2] is None


_mc = {}


def mentions(t, b):
    seen = set()
    st = [t]
    bid = b.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == bid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False
