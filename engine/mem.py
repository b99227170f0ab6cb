"""Memory model: small objects are byte maps, arrays of symbolic length are persistent update chains per field."""
import z3
from vals import *


class MemError(Exception):
    pass


_n = [0]


def fresh_name(p):
    _n[0] += 1
    return '%s!%d' % (p, _n[0])


class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'stride', 'ro', 'heap', 'init', 'fn', 'hooks', 'nelem', 'sizelin', 'ty', 'ghost', 'junk')

    def __init__(self, id, name, kind, size, init='undef'):
        self.id = id
        self.name = name
        self.kind = kind        # rec / arr / func / opaque
        self.size = size        # int or Lin (bytes)
        self.stride = None
        self.ro = False
        self.heap = False
        self.init = init
        self.fn = None
        self.hooks = []
        self.sizelin = None
        self.ghost = False
        self.junk = False


# ------------------------------------------------------------------ array field chains
_atoms = {}


def atomize(e, d=0):
    """32-bit expression -> Lin of atomic 32-bit leaves, modulo 2^32"""
    if type(e) is int:
        return Lin(sgn(e & 0xffffffff, 32))
    r = _atoms.get(e.get_id())
    if r is not None:
        return r
    r = _atomize(e, d)
    KEEP[e.get_id()] = e
    _atoms[e.get_id()] = r
    return r


def _atomize(e, d):
    if z3.is_bv_value(e):
        return Lin(sgn(e.as_long(), 32))
    if d < 12 and z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = atomize(e.arg(0), d + 1)
            for i in range(1, e.num_args()):
                r = r.add(atomize(e.arg(i), d + 1))
            return r
        if k == z3.Z3_OP_BSUB and e.num_args() == 2:
            return atomize(e.arg(0), d + 1).add(atomize(e.arg(1), d + 1), -1)
        if k == z3.Z3_OP_BNEG:
            return atomize(e.arg(0), d + 1).mul(-1)
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            for i in (0, 1):
                if z3.is_bv_value(e.arg(i)):
                    return atomize(e.arg(1 - i), d + 1).mul(sgn(e.arg(i).as_long(), 32))
    return Lin.leaf('s32', e)


def low32(kind, e):
    if kind != '64':
        return e
    if z3.is_app(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and e.arg(0).size() == 32:
            return e.arg(0)
        if k == z3.Z3_OP_BADD:
            r = low32('64', e.arg(0))
            for i in range(1, e.num_args()):
                r = r + low32('64', e.arg(i))
            return r
        if k == z3.Z3_OP_BSUB:
            return low32('64', e.arg(0)) - low32('64', e.arg(1))
        if z3.is_bv_value(e):
            return z3.BitVecVal(e.as_long() & 0xffffffff, 32)
    return z3.Extract(31, 0, e)


class Ix:
    """array index, modulo 2^32 (array lengths are below 2^31)"""
    __slots__ = ('lin', 'e', 'key')

    def __init__(self, lin):
        if lin.t:
            r = Lin(lin.c)
            for _, k, (kind, e) in lin.t:
                r = r.add(atomize(low32(kind, e)), k)
            lin = r
        c = sgn(lin.c & 0xffffffff, 32)
        if c != lin.c:
            lin = Lin(c, lin.t)
        self.lin = lin
        if lin.t:
            self.e = lin.bv(32)
            self.key = (lin.c, tuple((a, b) for a, b, _ in lin.t))
        else:
            self.e = lin.c & 0xffffffff
            self.key = lin.c

    @staticmethod
    def of_e(e):
        return Ix(atomize(e))


def ix_eq(a, b):
    """condition that two indices are equal (bool or z3)"""
    if a.key == b.key:
        return True
    d = a.lin.add(b.lin, -1)
    if not d.t:
        return d.c == 0
    return bv(a.e, 32) == bv(b.e, 32)


class Node:
    __slots__ = ('w', 'memo')

    def read(self, ix, ex):
        r = self.memo.get(ix.key)
        if r is None:
            m = len(ex.tlog)
            v = self._read(ix, ex)
            log = tuple({(o.id, i.key): (o, i) for o, i in ex.tlog[m:]}.values())
            ex.tlog[m:] = log
            self.memo[ix.key] = (v, log)
            return v
        for o, i in r[1]:
            ex.on_touch(o, i)
        return r[0]


class Base(Node):
    __slots__ = ('name', 'mode', 'uf', 'obj', 'fld')

    def __init__(self, name, mode, w, obj=None, fld=None):
        self.name = name
        self.mode = mode
        self.w = w
        self.memo = {}
        self.obj = obj
        self.fld = fld
        self.uf = None
        if mode != 'zero':
            self.uf = z3.Function(name, z3.BitVecSort(32), z3.BitVecSort(w))
            BASES[name] = self

    def read(self, ix, ex):
        if self.mode == 'zero':
            return 0
        r = self.memo.get(ix.key)
        if r is None:
            r = self.memo[ix.key] = self.uf(bv(ix.e, 32))
        if self.mode == 'sym' and self.obj is not None:
            ex.on_touch(self.obj, ix)
        return r


BASES = {}


class Table(Node):
    __slots__ = ('vals',)

    def __init__(self, vals, w):
        self.vals = vals
        self.w = w
        self.memo = {}

    def _read(self, ix, ex):
        if type(ix.e) is int:
            if ix.e >= len(self.vals):
                return 0
            return self.vals[ix.e]
        n = len(self.vals)
        bits = max(1, (n - 1).bit_length())

        def rec(b, base):
            if base >= n:
                return 0
            if b < 0:
                return self.vals[base]
            lo = rec(b - 1, base)
            hi = rec(b - 1, base | 1 << b)
            return ite(z3.Extract(b, b, ix.e) == z3.BitVecVal(1, 1), hi, lo, self.w)
        return rec(bits - 1, 0)


class Store(Node):
    __slots__ = ('prev', 'ix', 'val')

    def __init__(self, prev, ix, val):
        self.prev = prev
        self.ix = ix
        self.val = val
        self.w = prev.w
        self.memo = {}

    def read(self, ix, ex):
        if ix.key == self.ix.key:
            return self.val
        return Node.read(self, ix, ex)

    def _read(self, ix, ex):
        # walk down a run of stores iteratively
        n = self
        conds = []
        while isinstance(n, Store):
            c = ix_eq(n.ix, ix)
            if c is True:
                r = n.val
                break
            if c is not False:
                conds.append((c, n.val))
            n = n.prev
        else:
            r = n.read(ix, ex)
        for c, v in reversed(conds):
            r = ite(c, v, r, self.w)
        return r


def in_range(ix, lo, n):
    """lo <= ix < lo+n, with lo: Ix, n: int or bv32"""
    d = ix.lin.add(lo.lin, -1)
    if not d.t:
        if type(n) is int:
            return 0 <= d.c < n
        if d.c < 0:
            return False
        return z3.ULT(bv(d.c, 32), n)
    if type(n) is int and n == 0:
        return False
    return z3.ULT(bv(d.bv(32), 32), bv(n, 32))


class Fill(Node):
    __slots__ = ('prev', 'lo', 'n', 'fn')

    def __init__(self, prev, lo, n, fn):
        self.prev = prev
        self.lo = lo
        self.n = n
        self.fn = fn
        self.w = prev.w
        self.memo = {}

    def _read(self, ix, ex):
        c = in_range(ix, self.lo, self.n)
        if c is True:
            return self.fn(ix, ex)
        if c is False:
            return self.prev.read(ix, ex)
        return ite(c, self.fn(ix, ex), self.prev.read(ix, ex), self.w)


class PFill(Node):
    """where pred(ix) holds the value is fn(ix), elsewhere prev"""
    __slots__ = ('prev', 'pred', 'fn')

    def __init__(self, prev, pred, fn):
        self.prev = prev
        self.pred = pred
        self.fn = fn
        self.w = prev.w
        self.memo = {}

    def _read(self, ix, ex):
        c = self.pred(ix)
        if c is True:
            return self.fn(ix, ex)
        if c is False:
            return self.prev.read(ix, ex)
        return ite(c, self.fn(ix, ex), self.prev.read(ix, ex), self.w)


class IteN(Node):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b
        self.w = a.w
        self.memo = {}

    def _read(self, ix, ex):
        return ite(self.c, self.a.read(ix, ex), self.b.read(ix, ex), self.w)


class Cut(Node):
    """a name for a complicated content: an uninterpreted function defined, where it is read, as what it stands for"""
    __slots__ = ('prev', 'uf', 'id', 'mode')
    count = 0

    def __init__(self, prev):
        Cut.count += 1
        self.prev = prev
        self.w = prev.w
        self.memo = {}
        self.id = 'cut%d' % Cut.count
        self.mode = 'cut'
        name = '%s_%d' % (self.id, self.w)
        self.uf = z3.Function(name, z3.BitVecSort(32), z3.BitVecSort(self.w))
        BASES[name] = self

    def read(self, ix, ex):
        r = self.memo.get(ix.key)
        if r is None:
            r = self.memo[ix.key] = self.uf(bv(ix.e, 32))
        ex.on_touch(self, ix)
        return r


def complicated(n):
    """merged contents"""
    k = 0
    while True:
        if isinstance(n, IteN):
            return True
        if isinstance(n, (Store, Fill, PFill)):
            n = n.prev
            k += 1
            if k > 6:
                return True
        else:
            return False


class Arr:
    """content of an array object: dict (foff,size) -> Node; immutable (with_field copies)"""
    __slots__ = ('f',)

    def __init__(self, f=None):
        self.f = f or {}

    def with_field(self, k, node):
        d = dict(self.f)
        d[k] = node
        return Arr(d)


def field_node(obj, a, k):
    n = a.f.get(k)
    if n is None:
        for (o, s) in a.f:
            if o < k[0] + k[1] and k[0] < o + s:
                raise MemError('overlapping fields %r and %r in %s' % (k, (o, s), obj.name))
        n = base_node(obj, k)
    return n


_bases = {}


def base_node(obj, k):
    b = _bases.get((obj.id, k))
    if b is None:
        b = _bases[(obj.id, k)] = Base('%s@%d.%d' % (obj.name, obj.id, k[0]), obj.init, k[1] * 8, obj, k)
    return b


class Rec:
    """content of a small object: off -> (size, value); immutable by convention.
    sub: lo -> (hi, stride, Arr) for embedded big arrays"""
    __slots__ = ('d', 'sub')

    def __init__(self, d=None, sub=None):
        self.d = d if d is not None else {}
        self.sub = sub or {}

    def copy(self):
        return Rec(dict(self.d), self.sub)


def byte_of(val, size, i):
    """i-th byte (little endian) of value of size bytes"""
    if type(val) is int:
        return (val >> (8 * i)) & 0xff
    if isinstance(val, (Ptr, FV)):
        raise MemError('byte access to a pointer/double')
    if isinstance(val, Undef):
        return val
    val = tobv(val, size * 8)
    if type(val) is int:
        return (val >> (8 * i)) & 0xff
    if size == 1:
        return val
    return simp(z3.Extract(8 * i + 7, 8 * i, val))


def simp(e):
    r = z3.simplify(e)
    if z3.is_bv_value(r):
        return r.as_long()
    return r


def join_bytes(bs):
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    # collapse concats of consecutive extracts
    r = z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
    if z3.is_bv_value(r):
        return r.as_long()
    return r
