"""Parser for textual LLVM 18 IR (the subset clang emits for brunsli).

Function bodies are parsed lazily: a linked module holds thousands of STL
functions and a harness reaches a few dozen of them.
"""
import re

TOK = re.compile(r'''
  "[^"]*"
 |[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
 |c"[^"]*"
 |![-a-zA-Z$._0-9]*
 |\#\d+
 |0x[KLMHR]?[0-9A-Fa-f]+
 |-?\d+\.\d+(?:e[+-]?\d+)?
 |-?\d+
 |\.\.\.
 |[a-zA-Z_$.][-a-zA-Z$._0-9]*
 |[()\[\]{}<>,=*:|]
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    return TOK.findall(s)


class T:
    """Types."""
    __slots__ = ('k', 'a', 'b', '_sz', '_al')

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b
        self._sz = None
        self._al = None

    def __repr__(self):
        return 'T(%s,%r,%r)' % (self.k, self.a, self.b)


VOID = T('void')
PTR = T('ptr')
LABEL = T('label')
META = T('metadata')
FLOAT = T('float')
DOUBLE = T('double')
X86FP80 = T('x86_fp80')
INTS = {}


def INT(n):
    t = INTS.get(n)
    if t is None:
        t = INTS[n] = T('int', n)
    return t


def unq(name):
    """%"foo" -> foo ; @bar -> bar"""
    s = name[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.p = 0
        self.m = mod

    def peek(self, k=0):
        i = self.p + k
        return self.t[i] if i < len(self.t) else None

    def next(self):
        x = self.t[self.p]
        self.p += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.p += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise ParseError('expected %s at %s' % (x, ' '.join(self.t[max(0, self.p - 6):self.p + 6])))

    def type(self):
        x = self.next()
        t = None
        if x[0] == 'i' and x[1:].isdigit():
            t = INT(int(x[1:]))
        elif x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x == 'float':
            t = FLOAT
        elif x == 'double':
            t = DOUBLE
        elif x == 'x86_fp80':
            t = X86FP80
        elif x == 'label':
            t = LABEL
        elif x == 'metadata':
            t = META
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = T('arr', n, e)
        elif x == '{':
            t = T('struct', self._fields('}'), False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                f = self._fields('}')
                self.expect('>')
                t = T('struct', f, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = T('vec', n, e)
        elif x[0] == '%':
            t = T('named', unq(x))
        elif x == 'opaque':
            t = T('opaque')
        else:
            raise ParseError('type? ' + x + ' in ' + ' '.join(self.t))
        # function types (only in call <ty> (<args>) form)
        while self.peek() == '(' :
            # function type: skip args
            d = 0
            while True:
                y = self.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
            t = T('func', t)
        if self.peek() == '*':
            self.next()
            t = PTR
        return t

    def _fields(self, close):
        f = []
        if self.eat(close):
            return f
        while True:
            f.append(self.type())
            if self.eat(','):
                continue
            self.expect(close)
            return f

    ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly',
             'readnone', 'returned', 'immarg', 'nofree', 'inreg', 'swiftself', 'allocalign', 'allocptr',
             'writable', 'dead_on_unwind', 'nest'}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTRS:
                self.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                       'elementtype', 'captures', 'range', 'memory', 'initializes'):
                self.next()
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.next()
            else:
                return

    # operands: ('loc',name) ('int',v) ('null',) ('undef',) ('glob',name) ('zero',) ('agg',[...]) ('cexpr',op,...)
    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('loc', unq(x))
        if x[0] == '@':
            return ('glob', unq(x))
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'none':
            return ('null',)
        if x[0] == 'c' and x[1:2] == '"':
            s = x[2:-1]
            out = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\' and s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                elif s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ('str', bytes(out))
        if re.match(r'^-?\d+$', x):
            if ty.k in ('float', 'double'):
                return ('fp', float(x))
            return ('int', int(x))
        if x.startswith('0x') or re.match(r'^-?\d+\.', x):
            return ('fp', x)
        if x in ('[', '{', '<'):
            if x == '<' and self.peek() == '{':
                self.next()
                x = '<{'
            close = {'[': ']', '{': '}', '<': '>', '<{': '}'}[x]
            vals = []
            if self.peek() != close:
                while True:
                    t = self.type()
                    vals.append((t, self.value(t)))
                    if not self.eat(','):
                        break
            self.expect(close)
            if x == '<{':
                self.expect('>')
            return ('agg', vals)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                while self.next() != ')':
                    pass
            self.expect('(')
            bt = self.type()
            ops = []
            while self.eat(','):
                self.eat('inrange')
                t = self.type()
                ops.append((t, self.value(t)))
            self.expect(')')
            return ('cgep', bt, ops)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(',')
            t2 = self.type()
            v2 = self.value(t2)
            self.expect(')')
            return ('cbin', x, t, v, v2)
        if x == 'icmp':
            pred = self.next()
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(',')
            t2 = self.type()
            v2 = self.value(t2)
            self.expect(')')
            return ('cicmp', pred, t, v, v2)
        raise ParseError('value? ' + x + ' in ' + ' '.join(self.t))

    def tv(self):
        t = self.type()
        self.attrs()
        if t.k == 'metadata':
            # skip metadata operand
            d = 0
            while self.peek() not in (None,):
                y = self.peek()
                if y in ('(', '{'):
                    d += 1
                if y in (')', '}'):
                    if d == 0:
                        break
                    d -= 1
                if y == ',' and d == 0:
                    break
                self.next()
            return (t, ('meta',))
        return (t, self.value(t))


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'flags', 'dbg', 'x')

    def __init__(self, op, dst=None, ty=None, a=None, flags=(), x=None):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.flags = flags
        self.dbg = None
        self.x = x

    def __repr__(self):
        return '<%s %s %s>' % (self.dst, self.op, self.a)


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succ = []
        self.preds = []


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self.parsed = False
        self.blocks = None
        self._hdr()

    def _hdr(self):
        toks = tokenize(self.header)
        # find '@name' token
        k = next(i for i, x in enumerate(toks) if x[0] == '@')
        # return type: scan from after 'define'
        p = Parser(toks, self.mod)
        p.p = 1
        skip = {'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'weak', 'private', 'hidden', 'available_externally',
                'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'external', 'linkonce', 'extern_weak', 'protected',
                'dso_preemptable', 'ccc', 'noundef', 'zeroext', 'signext', 'nonnull', 'noalias'}
        while True:
            x = p.peek()
            if x in skip:
                p.next()
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                p.attrs()
            elif x == '!dbg':
                p.next()
                p.next()
            else:
                break
        if self.header.startswith('declare'):
            pass
        self.ret = p.type() if p.t[p.p][0] != '@' else VOID
        p.p = k + 1
        p.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        if p.peek() != ')':
            while True:
                if p.peek() == '...':
                    p.next()
                    self.vararg = True
                    break
                t = p.type()
                p.attrs()
                nm = str(n)
                if p.peek() and p.peek()[0] == '%':
                    nm = unq(p.next())
                self.params.append((t, nm))
                n += 1
                if not p.eat(','):
                    break

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        self.blocks = {}
        # entry label is implicit: next unnamed number after params, irrelevant unless referenced
        nparams = sum(1 for _, n in self.params if n.isdigit())
        cur = Block(str(nparams))
        first = True
        self.entry = None
        joined = []
        buf = None
        for ln in self.lines:
            if buf is not None:
                buf += ' ' + ln.strip()
                if ln.strip().startswith(']'):
                    joined.append(buf)
                    buf = None
                continue
            s = ln.strip()
            if s.startswith('switch ') and not s.rstrip().endswith(']') and ']' not in s:
                buf = ln
                continue
            joined.append(ln)
        for ln in joined:
            if not ln.strip():
                continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                if first:
                    cur.name = nm
                    first = False
                    if self.entry is None:
                        self.entry = nm
                    self.blocks[nm] = cur
                    continue
                cur = Block(nm)
                self.blocks[nm] = cur
                continue
            if first:
                self.blocks[cur.name] = cur
                self.entry = cur.name
                first = False
            ins = self.parse_ins(ln)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = [t.x[0]] if t.a is None else list(dict.fromkeys([t.x[0], t.x[1]]))
            elif t.op == 'switch':
                b.succ = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
            else:
                b.succ = []
        for b in self.blocks.values():
            for s in b.succ:
                self.blocks[s].preds.append(b.name)
        return self

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
            'inttoptr', 'bitcast', 'addrspacecast'}
    FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

    def parse_ins(self, ln):
        dbg = None
        m = re.search(r', !dbg !(\d+)', ln)
        if m:
            dbg = int(m.group(1))
        k = ln.find(', !')
        body = ln
        # strip trailing metadata attachments
        mm = re.search(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', ln)
        if mm:
            body = ln[:mm.start()]
        toks = tokenize(body)
        if not toks:
            return None
        p = Parser(toks, self.mod)
        dst = None
        if p.peek(1) == '=':
            dst = unq(p.next())
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins = None
        if op in self.BIN:
            flags = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in self.FMF:
                flags.append(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            ins = Instr(op, dst, t, (a, b), tuple(flags))
        elif op == 'fneg':
            while p.peek() in self.FMF:
                p.next()
            t = p.type()
            ins = Instr('fneg', dst, t, (p.value(t),))
        elif op in self.CAST:
            flags = []
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                flags.append(p.next())
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            ins = Instr(op, dst, t2, (a,), tuple(flags), x=t)
        elif op in ('icmp', 'fcmp'):
            while p.peek() in self.FMF:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            ins = Instr(op, dst, t, (a, b), x=pred)
        elif op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            pt = p.type()
            ins = Instr('load', dst, t, (p.value(pt),))
        elif op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            ins = Instr('store', None, t, (v, p.value(pt)))
        elif op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            n = None
            if p.eat(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = (nt, p.value(nt))
            ins = Instr('alloca', dst, t, n)
        elif op == 'getelementptr':
            flags = []
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                flags.append(p.next())
            bt = p.type()
            ops = []
            while p.eat(','):
                t = p.type()
                ops.append((t, p.value(t)))
            ins = Instr('gep', dst, bt, ops, tuple(flags))
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                ins = Instr('br', None, None, None, x=(unq(p.next()),))
            else:
                t = p.type()
                c = p.value(t)
                p.expect(',')
                p.expect('label')
                l1 = unq(p.next())
                p.expect(',')
                p.expect('label')
                l2 = unq(p.next())
                ins = Instr('br', None, None, c, x=(l1, l2))
        elif op == 'switch':
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            d = unq(p.next())
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], unq(p.next())))
            ins = Instr('switch', None, t, c, x=(d, cases))
        elif op == 'ret':
            t = p.type()
            ins = Instr('ret', None, t, None if t.k == 'void' else p.value(t))
        elif op == 'unreachable':
            ins = Instr('unreachable')
        elif op == 'phi':
            while p.peek() in self.FMF:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, unq(p.next())))
                p.expect(']')
                if not p.eat(','):
                    break
            ins = Instr('phi', dst, t, inc)
        elif op == 'select':
            while p.peek() in self.FMF:
                p.next()
            ct, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            t2, b = p.tv()
            ins = Instr('select', dst, t, (c, a, b))
        elif op == 'call':
            while p.peek() in self.FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            p.attrs()
            t = p.type()
            callee = p.next()
            if callee[0] in '@%':
                cal = ('glob' if callee[0] == '@' else 'loc', unq(callee))
            elif callee == 'asm':
                cal = ('asm', None)
                while p.peek() != '(':
                    p.next()
            else:
                raise ParseError('callee ' + ln)
            p.expect('(')
            args = []
            if p.peek() != ')':
                while True:
                    at, av = p.tv()
                    args.append((at, av))
                    if not p.eat(','):
                        break
            if t.k == 'func':
                t = t.a
            ins = Instr('call', dst, t, args, x=cal)
        elif op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            ins = Instr('extractvalue', dst, t, v, x=idx)
        elif op == 'insertvalue':
            t, v = p.tv()
            p.expect(',')
            t2, v2 = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            ins = Instr('insertvalue', dst, t, (v, t2, v2), x=idx)
        elif op == 'freeze':
            t, v = p.tv()
            ins = Instr('freeze', dst, t, v)
        elif op in ('extractelement', 'insertelement', 'shufflevector', 'atomicrmw', 'cmpxchg', 'fence', 'invoke',
                    'landingpad', 'resume', 'va_arg', 'indirectbr'):
            ins = Instr('unsupported', dst, None, None, x=op)
        else:
            raise ParseError('instr: ' + ln)
        ins.dbg = dbg
        return ins


class Global:
    def __init__(self, name, ty, init, const):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.decls = {}
        self.types = {}
        self.globals = {}
        self._gl = {}
        self.md = {}
        self._lay = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = unq('@' + m.group(1))
                self.funcs[nm] = (ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[unq('@' + m.group(1))] = ln
            elif ln.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                self.types[unq(m.group(1))] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                self._gl[unq(m.group(1))] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        self._fcache = {}
        self._tcache = {}

    def unalias(self, name):
        k = 0
        while name in self._gl and k < 10:
            m = re.search(r'\balias\b.*,\s*ptr\s+@("[^"]*"|[-a-zA-Z$._0-9]+)', self._gl[name])
            if not m:
                break
            name = unq('@' + m.group(1))
            k += 1
        return name

    def func(self, name):
        if name not in self.funcs:
            name = self.unalias(name)
        f = self._fcache.get(name)
        if f is None and name in self.funcs:
            h, ls = self.funcs[name]
            f = Function(self, name, h, ls)
            self._fcache[name] = f
        return f

    def resolve(self, t):
        while t.k == 'named':
            r = self._tcache.get(t.a)
            if r is None:
                r = Parser(tokenize(self.types[t.a]), self).type()
                self._tcache[t.a] = r
            t = r
        return t

    def align(self, t):
        if t._al is None:
            r = self.resolve(t)
            if r.k == 'int':
                b = (r.a + 7) // 8
                al = 1
                while al < b:
                    al *= 2
                t._al = min(al, 16)
            elif r.k in ('ptr', 'double'):
                t._al = 8
            elif r.k == 'float':
                t._al = 4
            elif r.k == 'x86_fp80':
                t._al = 16
            elif r.k == 'arr':
                t._al = self.align(r.b)
            elif r.k == 'vec':
                t._al = self.size(r)
            elif r.k == 'struct':
                t._al = 1 if r.b else max([self.align(f) for f in r.a] + [1])
            else:
                raise ParseError('align %r' % r)
        return t._al

    def size(self, t):
        if t._sz is None:
            r = self.resolve(t)
            if r.k == 'int':
                b = (r.a + 7) // 8
                al = self.align(r)
                t._sz = (b + al - 1) // al * al
            elif r.k in ('ptr', 'double'):
                t._sz = 8
            elif r.k == 'float':
                t._sz = 4
            elif r.k == 'x86_fp80':
                t._sz = 16
            elif r.k == 'arr':
                t._sz = r.a * self.size(r.b)
            elif r.k == 'vec':
                t._sz = r.a * self.size(r.b)
            elif r.k == 'struct':
                t._sz = self.layout(r)[1]
            elif r.k in ('func', 'opaque'):
                t._sz = 1
            else:
                raise ParseError('size %r' % r)
        return t._sz

    def layout(self, t):
        r = self.resolve(t)
        key = id(r)
        v = self._lay.get(key)
        if v is not None:
            return v[:2]
        off = 0
        offs = []
        for f in r.a:
            if not r.b:
                al = self.align(f)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += self.size(f)
        if not r.b:
            al = self.align(r)
            off = (off + al - 1) // al * al
        self._lay[key] = (offs, off, r)
        return offs, off

    def glob(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        s = self._gl.get(name)
        if s is None:
            return None
        s = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', s)
        toks = tokenize(s)
        p = Parser(toks, self)
        const = False
        ext = False
        while True:
            x = p.peek()
            if x in ('constant', 'global'):
                const = x == 'constant'
                p.next()
                break
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'alias':
                p.next()
                t = p.type()
                p.expect(',')
                p.type()
                tgt = p.next()
                g = Global(name, t, ('alias', unq(tgt)), True)
                self.globals[name] = g
                return g
            p.next()
            if x in ('thread_local', 'addrspace') and p.peek() == '(':
                while p.next() != ')':
                    pass
        t = p.type()
        init = None
        if not ext and p.peek() not in (None, ','):
            init = p.value(t)
        g = Global(name, t, init, const)
        self.globals[name] = g
        return g

    def line(self, dbg):
        """(file, line) of a !dbg id"""
        if dbg is None:
            return None
        s = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        ln = int(m.group(1)) if m else 0
        sc = re.search(r'scope: !(\d+)', s)
        f = None
        k = 0
        cur = int(sc.group(1)) if sc else None
        while cur is not None and k < 50:
            t = self.md.get(cur, '')
            m = re.search(r'file: !(\d+)', t)
            if m:
                fm = re.search(r'filename: "([^"]*)"', self.md.get(int(m.group(1)), ''))
                if fm:
                    f = fm.group(1)
                    break
            m = re.search(r'scope: !(\d+)', t)
            cur = int(m.group(1)) if m else None
            k += 1
        return (f, ln)
