"""Reader for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for /repo's sources.

Only what clang -O0 + sroa/mem2reg/simplifycfg produces for C is understood; anything else raises
IRError, which the drivers report as a breakdown of the tool and never as a violation.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'elem', 'n', 'fields', 'offs', 'size', 'align', 'name')

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'struct':
            return self.name or '{%s}' % ','.join(map(repr, self.fields))
        return self.k


def _mk(k, **kw):
    t = Ty()
    t.k = k
    t.name = None
    t.w = t.n = 0
    t.elem = t.fields = t.offs = None
    t.size = t.align = None
    for a, b in kw.items():
        setattr(t, a, b)
    return t


_ints = {}


def int_t(w):
    t = _ints.get(w)
    if t is None:
        sz = (w + 7) // 8
        p = 1
        while p < sz:
            p *= 2
        t = _ints[w] = _mk('int', w=w, size=p, align=min(p, 16))
    return t


PTR = _mk('ptr', size=8, align=8)
VOID = _mk('void', size=0, align=1)
DOUBLE = _mk('fp', w=64, size=8, align=8)
FLOAT = _mk('fp', w=32, size=4, align=4)
X86FP = _mk('fp', w=80, size=16, align=16)
LABEL = _mk('label', size=0, align=1)
META = _mk('metadata', size=0, align=1)


def arr_t(n, e):
    return _mk('arr', n=n, elem=e, size=n * e.size, align=e.align)


def struct_t(fields, packed=False, name=None):
    o = 0
    offs = []
    al = 1
    for f in fields:
        a = 1 if packed else f.align
        o = (o + a - 1) // a * a
        offs.append(o)
        o += f.size
        al = max(al, a)
    return _mk('struct', fields=fields, offs=offs, size=(o + al - 1) // al * al, align=al, name=name)


# ---------------------------------------------------------------- tokens
_tok = re.compile(r'''
    (?P<str>c?"(?:[^"])*")
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]*))
  | (?P<attr>\#\d+)
  | (?P<num>0x[A-Z]?[0-9A-Fa-f]+|-?\d+(?:\.\d*)?(?:e[+-]?\d+)?)
  | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
  | (?P<dots>\.\.\.)
  | (?P<punct><\{|\}>|[()\[\]{}<>,=*:|])
  | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = _tok.match(s, i)
        if not m:
            raise IRError('token? %r' % s[i:i + 40])
        if m.lastgroup != 'ws':
            out.append(m.group())
        i = m.end()
    return out


def _str_bytes(t):
    # c"..." with \xx escapes
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == '\\\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'returned', 'immarg', 'readnone', 'inreg', 'allocptr', 'allocalign', 'nofree', 'nest', 'noreturn',
               'nounwind', 'writable', 'dead_on_unwind', 'willreturn'}
FN_WORDS = {'dso_local', 'internal', 'external', 'private', 'hidden', 'protected', 'default', 'local_unnamed_addr',
            'unnamed_addr', 'linkonce_odr', 'weak', 'available_externally', 'common', 'constant', 'global',
            'thread_local', 'extern_weak'}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'fl', 'dbg', 'text')

    def __init__(self, op, res, ty, a, fl=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.fl = fl
        self.dbg = None
        self.text = None

    def __repr__(self):
        return '%s = %s %s %r' % (self.res, self.op, self.ty, self.a)


# operands: ('r', name) register; ('c', int) ; ('g', name); ('null',); ('undef',); ('ce', opcode, ...) ; ('agg', [...]); ('zero',); ('bytes', b)


class Parser:
    def __init__(self, mod):
        self.mod = mod

    def start(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise IRError('expected %r got %r in %r' % (x, self.peek(), ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
        elif x[0] == 'i' and x[1:].isdigit():
            t = int_t(int(x[1:]))
        elif x == 'void':
            t = VOID
        elif x == 'double':
            t = DOUBLE
        elif x == 'float':
            t = FLOAT
        elif x == 'x86_fp80':
            t = X86FP
        elif x == 'label':
            t = LABEL
        elif x == 'metadata':
            t = META
        elif x == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = arr_t(n, e)
        elif x == '<':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need('>')
            t = _mk('vec', n=n, elem=e, size=n * e.size, align=n * e.size)
        elif x in ('{', '<{'):
            fs = []
            end = '}' if x == '{' else '}>'
            if not self.eat(end):
                while True:
                    fs.append(self.type())
                    if self.eat(end):
                        break
                    self.need(',')
            t = struct_t(fs, packed=(x == '<{'))
        elif x[0] == '%':
            t = self.mod.named(x)
        else:
            raise IRError('type? %r in %r' % (x, ' '.join(self.t)[:200]))
        # function type "ret (args...)" is only met in call; handled there
        return t

    def skip_attrs(self):
        al = None
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                self.i += 1
            elif p == 'align':
                self.i += 1
                self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'allockind',
                       'memory', 'range', 'captures', 'initializes'):
                self.i += 1
                self.need('(')
                d = 1
                while d:
                    q = self.next()
                    d += q == '('
                    d -= q == ')'
            else:
                return al

    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        if c == '@':
            return ('g', x)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
                inb = True
            self.need('(')
            bt = self.type()
            self.need(',')
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.value(t)))
                if self.eat(')'):
                    break
                self.need(',')
            return ('cgep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.need('(')
            t = self.type()
            v = self.value(t)
            self.need('to')
            t2 = self.type()
            self.need(')')
            return ('ccast', x, t, v, t2)
        if x in ('sub', 'add', 'mul'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.need('(')
            t = self.type()
            a = self.value(t)
            self.need(',')
            t = self.type()
            b = self.value(t)
            self.need(')')
            return ('cbin', x, t, a, b)
        if c == 'c' and x[1:2] == '"':
            return ('bytes', _str_bytes(x))
        if x == '[' or x == '{' or x == '<{':
            end = {'[': ']', '{': '}', '<{': '}>'}[x]
            out = []
            if not self.eat(end):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if self.eat(end):
                        break
                    self.need(',')
            return ('agg', out)
        if ty is not None and ty.k == 'fp':
            return ('fp', x)
        if re.fullmatch(r'-?\d+', x):
            return ('c', int(x) & ((1 << ty.w) - 1))
        raise IRError('value? %r in %r' % (x, ' '.join(self.t)[:200]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    # ---- instructions
    def inst(self, toks):
        self.start(toks)
        res = None
        if len(toks) > 1 and toks[1] == '=':
            res = self.next()
            self.next()
        op = self.next()
        if op in ('tail', 'musttail', 'notail'):
            op = self.next()
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = []
            while self.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'contract'):
                fl.append(self.next())
            t = self.type()
            a = self.value(t)
            self.need(',')
            b = self.value(t)
            return Inst('fbin' if op[0] == 'f' else 'bin', res, t, (op, a, b), tuple(fl))
        if op == 'fneg':
            t = self.type()
            return Inst('fneg', res, t, (self.value(t),))
        if op in ('icmp', 'fcmp'):
            while self.peek() in ('fast', 'nnan', 'contract', 'samesign'):
                self.next()
            pred = self.next()
            t = self.type()
            a = self.value(t)
            self.need(',')
            b = self.value(t)
            return Inst(op, res, t, (pred, a, b))
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'addrspacecast'):
            while self.peek() in ('nneg', 'nuw', 'nsw'):
                self.next()
            t = self.type()
            a = self.value(t)
            self.need('to')
            return Inst('cast', res, self.type(), (op, t, a))
        if op == 'load':
            while self.peek() in ('volatile', 'atomic'):
                self.next()
            t = self.type()
            self.need(',')
            pt = self.type()
            return Inst('load', res, t, (self.value(pt),))
        if op == 'store':
            while self.peek() in ('volatile', 'atomic'):
                self.next()
            t = self.type()
            v = self.value(t)
            self.need(',')
            pt = self.type()
            return Inst('store', None, t, (v, self.value(pt)))
        if op == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
                inb = True
            bt = self.type()
            self.need(',')
            ops = []
            while True:
                ops.append(self.tv())
                if not self.eat(','):
                    break
                if self.peek() and self.peek()[0] == '!':
                    break
            return Inst('gep', res, bt, ops, ('inbounds',) if inb else ())
        if op == 'alloca':
            self.eat('inalloca')
            t = self.type()
            n = ('c', 1)
            if self.eat(',') and self.peek() != 'align':
                nt = self.type()
                n = self.value(nt)
            return Inst('alloca', res, t, (n,))
        if op == 'phi':
            t = self.type()
            inc = []
            while True:
                self.need('[')
                v = self.value(t)
                self.need(',')
                b = self.next()
                self.need(']')
                inc.append((v, b))
                if not self.eat(','):
                    break
                if self.peek() and self.peek()[0] == '!':
                    break
            return Inst('phi', res, t, inc)
        if op == 'select':
            while self.peek() in ('fast', 'nnan', 'contract'):
                self.next()
            ct = self.type()
            c = self.value(ct)
            self.need(',')
            t = self.type()
            a = self.value(t)
            self.need(',')
            self.type()
            b = self.value(t)
            return Inst('select', res, t, (c, a, b))
        if op == 'br':
            if self.eat('label'):
                return Inst('br', None, None, (None, self.next(), None))
            t = self.type()
            c = self.value(t)
            self.need(',')
            self.need('label')
            a = self.next()
            self.need(',')
            self.need('label')
            return Inst('br', None, None, (c, a, self.next()))
        if op == 'switch':
            t = self.type()
            v = self.value(t)
            self.need(',')
            self.need('label')
            d = self.next()
            self.need('[')
            cases = []
            while not self.eat(']'):
                ct = self.type()
                cv = self.value(ct)
                self.need(',')
                self.need('label')
                cases.append((cv[1], self.next()))
            return Inst('switch', None, t, (v, d, cases))
        if op == 'ret':
            t = self.type()
            return Inst('ret', None, t, (self.value(t) if t.k != 'void' else None,))
        if op == 'unreachable':
            return Inst('unreachable', None, None, ())
        if op == 'freeze':
            t = self.type()
            return Inst('freeze', res, t, (self.value(t),))
        if op == 'extractvalue':
            t, v = self.tv()
            idx = []
            while self.eat(','):
                idx.append(int(self.next()))
            return Inst('extractvalue', res, t, (v, idx))
        if op == 'insertvalue':
            t, v = self.tv()
            self.need(',')
            t2, v2 = self.tv()
            idx = []
            while self.eat(','):
                idx.append(int(self.next()))
            return Inst('insertvalue', res, t, (v, t2, v2, idx))
        if op == 'call':
            while self.peek() in ('fast', 'nnan', 'contract', 'fastcc', 'ccc'):
                self.next()
            self.skip_attrs()
            rt = self.type()
            if self.peek() == '(':  # function type
                d = 0
                while True:
                    q = self.next()
                    d += q == '('
                    d -= q == ')'
                    if d == 0:
                        break
            if self.peek() == 'asm':
                raise IRError('inline asm')
            callee = self.value(PTR)
            self.need('(')
            args = []
            if not self.eat(')'):
                while True:
                    t = self.type()
                    self.skip_attrs()
                    if t.k == 'metadata':
                        # skip to , or )
                        d = 0
                        while True:
                            p = self.peek()
                            if d == 0 and p in (',', ')'):
                                break
                            self.next()
                            d += p == '('
                            d -= p == ')'
                        args.append((t, None))
                    else:
                        args.append((t, self.value(t)))
                    if self.eat(')'):
                        break
                    self.need(',')
            return Inst('call', res, rt, (callee, args))
        if op == 'va_arg':
            t, v = self.tv()
            self.need(',')
            return Inst('va_arg', res, self.type(), (v,))
        raise IRError('opcode %r' % op)


class Block:
    __slots__ = ('name', 'insts', 'succ', 'pred', 'phis', 'fn', 'ipdom', 'rpo')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []
        self.succ = []
        self.pred = []
        self.ipdom = None


class Function:
    def __init__(self, name, rty, params, vararg, module, internal):
        self.name = name
        self.rty = rty
        self.params = params
        self.vararg = vararg
        self.blocks = {}
        self.entry = None
        self.module = module
        self.internal = internal
        self.loops = None

    def analyse(self):
        bl = self.blocks
        for b in bl.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = [t.a[1]] + ([t.a[2]] if t.a[2] and t.a[2] != t.a[1] else [])
            elif t.op == 'switch':
                s = [t.a[1]]
                for _, x in t.a[2]:
                    if x not in s:
                        s.append(x)
                b.succ = s
            else:
                b.succ = []
        for b in bl.values():
            for s in b.succ:
                bl[s].pred.append(b.name)
        # rpo
        seen = set()
        order = []
        st = [(self.entry, iter(bl[self.entry].succ))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(bl[s].succ)))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        self.rpo = {n: i for i, n in enumerate(order)}
        self.order = order
        # dominators
        idom = {self.entry: self.entry}
        ch = True

        def inter(a, b):
            while a != b:
                while self.rpo[a] > self.rpo[b]:
                    a = idom[a]
                while self.rpo[b] > self.rpo[a]:
                    b = idom[b]
            return a
        while ch:
            ch = False
            for n in order[1:]:
                new = None
                for p in bl[n].pred:
                    if p in idom:
                        new = p if new is None else inter(p, new)
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True
        self.idom = idom

        def dom(a, b):  # a dominates b
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        # natural loops
        loops = {}
        for n in order:
            for s in bl[n].succ:
                if dom(s, n):
                    body = loops.setdefault(s, {s})
                    wl = [n]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(p for p in bl[x].pred if p in self.rpo)
        self.loops = loops
        # post dominators (virtual exit None)
        rev = list(reversed(order))
        EXIT = '#exit'
        ip = {EXIT: EXIT}
        num = {EXIT: 10 ** 9}
        # reverse postorder of the reversed graph
        rpred = {}
        for n in order:
            ss = bl[n].succ or [EXIT]
            # unreachable blocks (assert failures) do not count as exits for merging purposes
            if not bl[n].succ and bl[n].insts[-1].op == 'unreachable':
                ss = []
            rpred[n] = ss
        preds = {EXIT: []}
        for n in order:
            for s in rpred[n]:
                preds.setdefault(s, []).append(n)
        seen = {EXIT}
        po = []
        st = [(EXIT, iter(preds.get(EXIT, [])))]
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(preds.get(s, []))))
                    break
            else:
                po.append(n)
                st.pop()
        po.reverse()
        num = {n: i for i, n in enumerate(po)}

        def inter2(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = ip[a]
                while num[b] > num[a]:
                    b = ip[b]
            return a
        ch = True
        while ch:
            ch = False
            for n in po[1:]:
                new = None
                for p in rpred[n]:
                    if p in ip:
                        new = p if new is None else inter2(p, new)
                if ip.get(n) != new:
                    ip[n] = new
                    ch = True
        self.ipdom = {n: (None if ip.get(n) in (None, EXIT) else ip[n]) for n in order}


class Global:
    def __init__(self, name, ty, init, const, module):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const
        self.module = module


class Module:
    def __init__(self, text, tag):
        self.tag = tag
        self.types = {}
        self.tydefs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.parse(text)

    def named(self, x):
        t = self.types.get(x)
        if t is None:
            d = self.tydefs.get(x)
            if d is None:
                raise IRError('unknown type ' + x)
            if d == ['opaque']:
                t = _mk('struct', fields=[], offs=[], size=0, align=1, name=x)
            else:
                p = Parser(self)
                p.start(d)
                t = p.type()
                t.name = x
            self.types[x] = t
        return t

    def parse(self, text):
        lines = text.split('\n')
        P = Parser(self)
        fn = None
        blk = None
        i = 0
        deferred = []
        n = len(lines)
        gl = []
        while i < n:
            ln = lines[i]
            i += 1
            if fn is None:
                if ln.startswith('%') and ' = type ' in ln:
                    nm, d = ln.split(' = type ', 1)
                    self.tydefs[nm] = tokenize(d)
                elif ln.startswith('@'):
                    gl.append(ln)
                elif ln.startswith('define'):
                    fn = self._define(P, ln)
                    blk = None
                    body = []
                elif ln.startswith('declare'):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                    self.decls[m.group()] = ln
                continue
            if ln == '}':
                fn.analyse()
                self.funcs[fn.name] = fn
                fn = None
                continue
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                blk = Block('%' + m.group(1))
                fn.blocks[blk.name] = blk
                if fn.entry is None:
                    fn.entry = blk.name
                continue
            if blk is None:
                # implicit entry label: number = count of params
                blk = Block('%%%d' % fn.nunnamed)
                fn.blocks[blk.name] = blk
                fn.entry = blk.name
            # switch spans lines
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            if s.startswith('call void @llvm.dbg') or s.startswith('#dbg'):
                continue
            # strip metadata suffix
            s2 = re.sub(r', !(\w+) !\d+|, !srcloc !\d+|, !nosanitize !\d+', '', s)
            s2 = re.sub(r',\s*![a-z.A-Z_]+ !\{[^}]*\}', '', s2)
            ins = P.inst(tokenize(s2))
            ins.text = s
            if ins.op == 'phi':
                blk.phis.append(ins)
            else:
                blk.insts.append(ins)
        for ln in gl:
            self._global(P, ln)

    def _define(self, P, ln):
        toks = tokenize(ln)
        P.start(toks)
        P.need('define')
        internal = False
        while P.peek() in FN_WORDS or P.peek() in PARAM_ATTRS:
            w = P.next()
            if w == 'internal':
                internal = True
        P.skip_attrs()
        rt = P.type()
        name = P.next()
        P.need('(')
        ps = []
        va = False
        k = 0
        if not P.eat(')'):
            while True:
                if P.eat('...'):
                    va = True
                else:
                    t = P.type()
                    P.skip_attrs()
                    if P.peek() and P.peek()[0] == '%':
                        nm = P.next()
                    else:
                        nm = '%%%d' % k
                    if nm == '%%%d' % k:
                        k += 1
                    ps.append((t, nm))
                if P.eat(')'):
                    break
                P.need(',')
        f = Function(name, rt, ps, va, self, internal)
        f.nunnamed = k
        return f

    def _global(self, P, ln):
        toks = tokenize(re.sub(r', !dbg !\d+', '', ln))
        P.start(toks)
        name = P.next()
        P.need('=')
        ext = False
        const = False
        while P.peek() in FN_WORDS:
            w = P.next()
            if w in ('external', 'extern_weak'):
                ext = True
            if w == 'constant':
                const = True
        if P.peek() == 'alias':
            return
        t = P.type()
        init = None
        if not ext:
            init = P.value(t)
        self.globals[name] = Global(name, t, init, const, self)


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        m = Module(open(f).read(), f)
        print(f, len(m.funcs), 'functions', len(m.globals), 'globals', sum(len(x.blocks) for x in m.funcs.values()))
