"""Values of the symbolic executor: Python ints when concrete, z3 bit-vectors otherwise; pointers are
(object, linear offset, null condition)."""
import z3

z3.set_param("rewriter.bv_le2extract", False)     # comparisons stay comparisons (lia.py)

MASK = [(1 << w) - 1 for w in range(0, 129)]


def is_c(x):
    return type(x) is int


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


_bvcache = {}


def bv(x, w):
    if type(x) is int:
        k = (x, w)
        r = _bvcache.get(k)
        if r is None:
            r = _bvcache[k] = z3.BitVecVal(x, w)
        return r
    return x


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def bl(x):
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    return x


def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return b_not(c)
    if a is True:
        return b_or(c, b)
    if b is False:
        return b_and(c, a)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    return z3.If(c, a, b)


def same(a, b):
    if a is b:
        return True
    ta = type(a)
    if ta is int or type(b) is int:
        return ta is type(b) and a == b
    if ta is bool or type(b) is bool:
        return a is b
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and a.off.same(b.off) and same(a.null, b.null)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a.same(b)
    if isinstance(a, FV) and isinstance(b, FV):
        return a.key == b.key
    if type(a) is not type(b) and (isinstance(a, (z3.AstRef, Lin, Ptr, FV, Undef)) or isinstance(b, (z3.AstRef, Lin, Ptr, FV, Undef))):
        return False
    return a == b


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    a = tobv(a, w)
    b = tobv(b, w)
    if type(a) is not int and z3.is_app_of(a, z3.Z3_OP_ITE) and type(c) is not bool:
        if a.arg(0).eq(c):
            a = a.arg(1)
    return z3.If(c, bv(a, w), bv(b, w))


def tobv(x, w):
    if isinstance(x, Lin):
        return x.bv(w)
    return x


def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return a == b
    if same(a, b):
        return True
    # if(c, const, const) == const
    if type(b) is int and z3.is_app_of(a, z3.Z3_OP_ITE):
        r = _eq_ite(a, b, w, 0)
        if r is not None:
            return r
    elif type(a) is int and z3.is_app_of(b, z3.Z3_OP_ITE):
        r = _eq_ite(b, a, w, 0)
        if r is not None:
            return r
    return bv(a, w) == bv(b, w)


def _eq_ite(a, k, w, d):
    """a is an If; decide a==k structurally when the leaves are numerals."""
    if d > 6:
        return None
    c, x, y = a.arg(0), a.arg(1), a.arg(2)
    r = []
    for z in (x, y):
        if z3.is_bv_value(z):
            r.append(z.as_long() == k)
        elif z3.is_app_of(z, z3.Z3_OP_ITE):
            q = _eq_ite(z, k, w, d + 1)
            if q is None:
                return None
            r.append(q)
        else:
            return None
    return b_ite(c, r[0], r[1])


KEEP = {}    # expressions whose ids are used as keys must stay alive


class Lin:
    """const + sum coeff*term, terms are 64-bit z3 expressions; arithmetic modulo 2^64.
    A leaf may carry the 32-bit expression it is the sign extension of."""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t  # tuple of (key, coeff, leaf) sorted by key ; leaf = ('s32', e32) or ('z32', e32) or ('64', e64)

    @staticmethod
    def of(x, w=64):
        if type(x) is int:
            return Lin(sgn(x & MASK[64], 64))
        if isinstance(x, Lin):
            return x
        return Lin.leaf('64', x)

    @staticmethod
    def leaf(kind, e):
        KEEP[e.get_id()] = e
        return Lin(0, ((e.get_id() * 4 + {'s32': 0, 'z32': 1, '64': 2}[kind], 1, (kind, e)),))

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.c + o.c * k, self.t)
        d = {a: (b, c) for a, b, c in self.t}
        for a, b, c in o.t:
            if a in d:
                d[a] = (d[a][0] + b * k, c)
            else:
                d[a] = (b * k, c)
        return Lin(self.c + o.c * k, tuple(sorted((a, b, c) for a, (b, c) in d.items() if b)))

    def mul(self, k):
        if k == 0:
            return Lin()
        return Lin(self.c * k, tuple((a, b * k, c) for a, b, c in self.t))

    def same(self, o):
        return self.c == o.c and [(a, b) for a, b, _ in self.t] == [(a, b) for a, b, _ in o.t]

    def div(self, s):
        """(quotient Lin, remainder int) or None when some coefficient is not a multiple of s"""
        for a, b, c in self.t:
            if b % s:
                return None
        return Lin(self.c // s, tuple((a, b // s, c) for a, b, c in self.t)), self.c % s

    def bv(self, w=64):
        if not self.t:
            return self.c & MASK[w]
        r = None
        for a, b, (k, e) in self.t:
            if w == 32:
                x = e if k != '64' else z3.Extract(31, 0, e)
            elif k == 's32':
                x = z3.SignExt(32, e)
            elif k == 'z32':
                x = z3.ZeroExt(32, e)
            else:
                x = e
            if w < 32 or (w < 64 and w != 32):
                x = z3.Extract(w - 1, 0, x)
            if b == 1:
                pass
            elif b == -1:
                x = -x
            else:
                x = x * z3.BitVecVal(b & MASK[w], w)
            r = x if r is None else r + x
        if self.c:
            r = r + z3.BitVecVal(self.c & MASK[w], w)
        return r

    def __repr__(self):
        return 'Lin(%d%s)' % (self.c, ''.join(' %+d*%s' % (b, c[1]) for a, b, c in self.t))


L0 = Lin()


class Ptr:
    """obj: object id or None (the null pointer); off: Lin in bytes; null: condition under which it is null;
    win: (lo, hi) byte window of the sub-array the pointer was formed in, or None"""
    __slots__ = ('obj', 'off', 'null', 'win')

    def __init__(self, obj, off=L0, null=False, win=None):
        self.obj = obj
        self.off = off
        self.null = null
        self.win = win

    def __repr__(self):
        return 'Ptr(%s%s%s)' % (self.obj, '' if self.off is L0 else ', %r' % self.off,
                                '' if self.null is False else ', null=%s' % self.null)


NULL = Ptr(None, L0, True)


class FV:
    """a double: concrete python float or opaque term"""
    __slots__ = ('key',)

    def __init__(self, *key):
        self.key = key

    def __repr__(self):
        return 'FV%r' % (self.key,)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


# -------------------------------------------------------------- integer operations
def bin_op(op, a, b, w):
    """a, b ints or z3; returns value"""
    if isinstance(a, Lin) or isinstance(b, Lin):
        if op in ('add', 'sub'):
            return norm_lin(Lin.of(a).add(Lin.of(b), 1 if op == 'add' else -1))
        if op == 'sdiv' and type(b) is int and isinstance(a, Lin):
            q = a.div(sgn(b, 64))
            if q and q[1] == 0:
                return norm_lin(q[0])
        a = tobv(a, w)
        b = tobv(b, w)
    ca, cb = type(a) is int, type(b) is int
    m = MASK[w]
    if ca and cb:
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if b == 0:
            return 0
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & m
        if op == 'srem':
            return (x - q * y) & m
        raise NotImplementedError(op)
    if op == 'add':
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
        return bv(a, w) + bv(b, w)
    if op == 'sub':
        if cb and b == 0:
            return a
        if not ca and not cb and a.eq(b):
            return 0
        return bv(a, w) - bv(b, w)
    if op == 'mul':
        for x, y, c in ((a, b, ca), (b, a, cb)):
            if c:
                if x == 0:
                    return 0
                if x == 1:
                    return y
                if x & (x - 1) == 0:
                    return y << bv(x.bit_length() - 1, w)
        return bv(a, w) * bv(b, w)
    if op == 'and':
        for x, y, c in ((a, b, ca), (b, a, cb)):
            if c:
                if x == 0:
                    return 0
                if x == m:
                    return y
        r = bv(a, w) & bv(b, w)
        if ca or cb:
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                return r.as_long()
        return r
    if op == 'or':
        for x, y, c in ((a, b, ca), (b, a, cb)):
            if c:
                if x == 0:
                    return y
                if x == m:
                    return m
        r = bv(a, w) | bv(b, w)
        if w <= 32 and (ca or cb or w <= 16 or a.num_args() == 2 and a.decl().kind() == z3.Z3_OP_BSHL and z3.is_bv_value(a.arg(1))):
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                return r.as_long()
        return r
    if op == 'xor':
        if ca and a == 0:
            return b
        if cb and b == 0:
            return a
        return bv(a, w) ^ bv(b, w)
    A, B = bv(a, w), bv(b, w)
    if op == 'shl':
        if cb and b == 0:
            return a
        if cb and w <= 16:
            r = z3.simplify(A << B)
            return r.as_long() if z3.is_bv_value(r) else r
        return A << B
    if op == 'lshr':
        if cb and b == 0:
            return a
        r = z3.LShR(A, B)
        if cb:
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                return r.as_long()
        return r
    if op == 'ashr':
        if cb and b == 0:
            return a
        if cb and w <= 16 and b < w:
            # a signed bit-field
            r = z3.simplify(z3.SignExt(b, z3.Extract(w - 1, b, A)))
            return r.as_long() if z3.is_bv_value(r) else r
        return A >> B
    if op == 'udiv':
        if cb and b == 1:
            return a
        return z3.UDiv(A, B)
    if op == 'urem':
        return z3.URem(A, B)
    if op == 'sdiv':
        if cb and b == 1:
            return a
        return A / B
    if op == 'srem':
        return z3.SRem(A, B)
    raise NotImplementedError(op)


def norm_lin(l):
    if not l.t:
        return l.c & MASK[64]
    if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1 and l.t[0][2][0] == '64':
        return l.t[0][2][1]
    return l


def cmp_op(pred, a, b, w):
    if isinstance(a, Lin) and isinstance(b, Lin) and pred in ('eq', 'ne'):
        d = a.add(b, -1)
        if not d.t:
            r = d.c == 0
            return r if pred == 'eq' else not r
    a = tobv(a, w)
    b = tobv(b, w)
    if type(a) is int and type(b) is int:
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b
    if pred == 'eq':
        return eq(a, b, w)
    if pred == 'ne':
        return b_not(eq(a, b, w))
    if same(a, b):
        return pred[1:] in ('ge', 'le')
    if pred[0] == 'u':
        if type(b) is int:
            if pred == 'ult' and b == 0:
                return False
            if pred == 'uge' and b == 0:
                return True
            if pred == 'ugt' and b == MASK[w]:
                return False
            if pred == 'ule' and b == MASK[w]:
                return True
        elif type(a) is int:
            if pred == 'ugt' and a == 0:
                return False
            if pred == 'ule' and a == 0:
                return True
    A, B = bv(a, w), bv(b, w)
    r = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE}.get(pred)
    if r:
        return r(A, B)
    return {'sgt': A > B, 'sge': A >= B, 'slt': A < B, 'sle': A <= B}[pred]


def cast_op(op, a, wf, wt):
    if op == 'trunc':
        if isinstance(a, Lin):
            return a.bv(wt)
        if type(a) is int:
            return a & MASK[wt]
        if z3.is_app(a):
            k = a.decl().kind()
            if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
                x = a.arg(0)
                if x.size() == wt:
                    return x
                if x.size() > wt:
                    return z3.Extract(wt - 1, 0, x)
                return z3.ZeroExt(wt - x.size(), x) if k == z3.Z3_OP_ZERO_EXT else z3.SignExt(wt - x.size(), x)
        return z3.Extract(wt - 1, 0, a)
    if op == 'zext':
        if type(a) is int:
            return a
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            return z3.If(a.arg(0), z3.BitVecVal(a.arg(1).as_long(), wt), z3.BitVecVal(a.arg(2).as_long(), wt))
        return z3.ZeroExt(wt - wf, a)
    if op == 'sext':
        if type(a) is int:
            return sgn(a, wf) & MASK[wt]
        return z3.SignExt(wt - wf, a)
    raise NotImplementedError(op)


def bool_to_bv(c, w, signed=False):
    one = MASK[w] if signed else 1
    if c is True:
        return one
    if c is False:
        return 0
    return z3.If(c, bv(one, w), bv(0, w))


def bv_to_bool(x, w):
    """x: i1-ish bit-vector of width w (nonzero = true)"""
    if type(x) is int:
        return x != 0
    return b_not(eq(x, 0, w))
