"""Intrinsics of the contract language and models of the C library functions the verified code calls."""
import z3
from vals import *
from mem import *
import ir
import exec as X
from exec import Unsupported, PC

BUILTINS = {}


def builtin(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


def cstr(ex, st, p):
    """concrete C string behind p"""
    if isinstance(p, Ptr) and p.obj is None:
        return None
    o = ex.objs[p.obj]
    c = ex.content(st, o)
    out = bytearray()
    if p.off.t:
        raise Unsupported('symbolic string pointer')
    i = p.off.c
    while True:
        if isinstance(c, Arr):
            n = c.f.get((0, 1))
            if not isinstance(n, Table):
                raise Unsupported('string is not a constant')
            b = n.vals[i] if i < len(n.vals) else 0
        else:
            e = c.d.get(i)
            b = e[1] if e else 0
        if type(b) is not int:
            raise Unsupported('string is not a constant')
        if b == 0:
            break
        out.append(b)
        i += 1
    return out.decode('latin1')


def ret(v, st):
    return [(v, st)]


def nd(ex, st, name, w):
    if ex.pure:
        raise Unsupported('nondet in a pure context')
    n = st.ndn
    st.ndn += 1
    full = '%s#%d' % (name, sum(1 for x in st.nds if x[0].split('#')[0] == name))
    e = z3.BitVec('nd_%s' % full, w) if w > 1 else z3.Bool('nd_%s' % full)
    st.nds = st.nds + ((full, e, w),)
    return e


@builtin('nd_u8')
def _(ex, st, fr, a, ins):
    return ret(nd(ex, st, cstr(ex, st, a[0]), 8), st)


@builtin('nd_u16')
def _(ex, st, fr, a, ins):
    return ret(nd(ex, st, cstr(ex, st, a[0]), 16), st)


@builtin('nd_u32')
def _(ex, st, fr, a, ins):
    return ret(nd(ex, st, cstr(ex, st, a[0]), 32), st)


@builtin('nd_u64')
def _(ex, st, fr, a, ins):
    return ret(nd(ex, st, cstr(ex, st, a[0]), 64), st)


@builtin('nd_bool')
def _(ex, st, fr, a, ins):
    return ret(nd(ex, st, cstr(ex, st, a[0]), 1), st)


@builtin('nd_range')
def _(ex, st, fr, a, ins):
    v = nd(ex, st, cstr(ex, st, a[0]), 32)
    st.add(z3.And(v >= bv(a[1], 32), v <= bv(a[2], 32)), 'as')
    return ret(v, st)


@builtin('spec_dim')
def _(ex, st, fr, a, ins):
    name = cstr(ex, st, a[0])
    if name in ex.dims:
        v = ex.dims[name]
        st.nds = st.nds + ((name + '#0', v & MASK[32], 32),)
        return ret(v & MASK[32], st)
    v = nd(ex, st, name, 32)
    st.add(z3.And(v >= bv(a[1], 32), v <= bv(a[2], 32)), 'as')
    return ret(v, st)


@builtin('spec_case')
def _(ex, st, fr, a, ins):
    st.nds = st.nds + (('case#0', ex.case, 32),)
    return ret(ex.case, st)


@builtin('spec_symbolic')
def _(ex, st, fr, a, ins):
    return ret(1, st)


@builtin('spec_proof')
def _(ex, st, fr, a, ins):
    return ret(1 if ex.mode == 'P' else 0, st)


@builtin('spec_concrete')
def _(ex, st, fr, a, ins):
    x = a[0]
    return ret(1 if type(x) is int or not isinstance(x, Lin) and z3.is_bv_value(x) else 0, st)


@builtin('spec_assume')
def _(ex, st, fr, a, ins):
    c = a[0]
    if isinstance(c, (z3.BoolRef,)):
        s = z3.simplify(c)
        if z3.is_true(s):
            c = True
        elif z3.is_false(s):
            c = False
    if c is False:
        return []
    if c is True:
        return ret(None, st)
    if not ex.pure and ex.query(st, c) == z3.unsat:
        return []
    st.add(c, 'as')
    return ret(None, st)


@builtin('spec_fact')
def _(ex, st, fr, a, ins):
    if a[0] is not True:
        st.add(bl(a[0]), 'fact')
    return ret(None, st)


@builtin('spec_replay')
def _(ex, st, fr, a, ins):
    return ret(0, st)


@builtin('spec_check')
def _(ex, st, fr, a, ins):
    if ex.oblige(st, a[0], cstr(ex, st, a[1]), fr):
        return ret(None, st)
    return []


@builtin('spec_cover')
def _(ex, st, fr, a, ins):
    l = cstr(ex, st, a[0])
    if not ex.quiet and not ex.pure and not ex.covers.get(l):
        ex.covers[l] = ex.query(st, True) == z3.sat
    return ret(None, st)


@builtin('spec_scale')
def _(ex, st, fr, a, ins):
    if type(a[0]) is not int and not any(x.eq(a[0]) for x in ex.scales):
        ex.scales.append(a[0])
    return ret(None, st)


def parse_fields(s):
    out = []
    for f in s.split(','):
        o, n = f.split(':')
        out.append((int(o), int(n)))
    return out


@builtin('spec_array')
def _(ex, st, fr, a, ins):
    """spec_array(name, n, stride, fields): an array of n elements with arbitrary content"""
    name = cstr(ex, st, a[0])
    n, stride = a[1], a[2]
    fields = parse_fields(cstr(ex, st, a[3]))
    o = ex.new_obj(name, 'arr', None, 'sym')
    o.stride = stride
    o.sizelin = n
    o.size = n * stride if type(n) is int else atomize(n).mul(stride) if False else Lin.leaf('z32', n).mul(stride)
    o.heap = True
    st.mem[o.id] = Arr({k: base_node(o, k) for k in fields})
    return ret(Ptr(o.id), st)


@builtin('spec_havoc_array')
def _(ex, st, fr, a, ins):
    p = a[0]
    if p.obj is None:
        return ret(None, st)
    o = ex.objs[p.obj]
    o.junk = True
    c = ex.content(st, o)
    st.mem[o.id] = Arr({k: Base(fresh_name('hv.' + o.name), 'hav', n.w) for k, n in c.f.items()})
    return ret(None, st)


@builtin('spec_block')
def _(ex, st, fr, a, ins):
    """spec_block(name, size): a record whose content is undefined until written"""
    name = cstr(ex, st, a[0])
    o = ex.new_obj(name, 'rec', a[1], 'undef')
    o.heap = True
    st.mem[o.id] = Rec()
    return ret(Ptr(o.id), st)


@builtin('spec_on_touch')
def _(ex, st, fr, a, ins):
    """spec_on_touch(arr, pred): pred(arr, i) holds for every i of the initial content"""
    o = ex.objs[a[0].obj]
    f = ex.objs[a[1].obj].fn
    # the predicate sees the initial content: a snapshot object sharing the base nodes
    sn = snapshot(ex, st, a[0])
    o.hooks.append((f, sn))
    return ret(None, st)


def snapshot(ex, st, p):
    o = ex.objs[p.obj]
    o2 = ex.new_obj(o.name + "'", o.kind, o.size, o.init)
    o2.stride, o2.sizelin = o.stride, o.sizelin
    o2.heap = True
    o2.ghost = True
    c = ex.content(st, o)
    if isinstance(c, Arr):
        st.mem[o2.id] = c
    else:
        if o.init == 'sym':
            raise Unsupported('snapshot of a lazily initialised record')
        st.mem[o2.id] = c
    return Ptr(o2.id, p.off, p.null, p.win)


@builtin('spec_snapshot')
def _(ex, st, fr, a, ins):
    if a[0].obj is None:
        return ret(a[0], st)
    return ret(snapshot(ex, st, a[0]), st)


@builtin('spec_uf1', 'spec_uf1_8')
def _(ex, st, fr, a, ins):
    name = cstr(ex, st, a[0])
    w = ins.ty.w
    f = z3.Function('uf_' + name, z3.BitVecSort(32), z3.BitVecSort(w))
    return ret(f(bv(tobv(a[1], 32), 32)), st)


@builtin('spec_ghost_step')
def _(ex, st, fr, a, ins):
    ex.ghost_steps.append(ex.objs[a[0].obj].fn)
    return ret(None, st)


@builtin('spec_loop_inv')
def _(ex, st, fr, a, ins):
    ex.loop_cands.append(ex.objs[a[0].obj].fn)
    return ret(None, st)


@builtin('spec_havoc_u64')
def _(ex, st, fr, a, ins):
    return ret(ex.fresh(64, 'hv'), st)


@builtin('spec_trace')
def _(ex, st, fr, a, ins):
    if not ex.quiet and not ex.pure and ex.opts.get('trace'):
        print('TRACE', cstr(ex, st, a[0]), [z3.simplify(bl(x)) if isinstance(x, (bool, z3.AstRef)) else x for x in a[1:]])
    return ret(None, st)


# ------------------------------------------------------------------ C library
def new_heap(ex, st, size, zero):
    name = 'heap'
    if isinstance(size, int):
        ms = ex.opts.get('malloc_stride', {})
        if size in ms or size > 1024:
            o = ex.new_obj(name, 'arr', size, 'zero' if zero else 'undef')
            o.stride = ms.get(size)
            st.mem[o.id] = Arr()
        else:
            o = ex.new_obj(name, 'rec', size, 'zero' if zero else 'undef')
            st.mem[o.id] = Rec()
    else:
        o = ex.new_obj(name, 'arr', size if isinstance(size, Lin) else Lin.of(size), 'zero' if zero else 'undef')
        g = 0
        import math
        g = abs(o.size.c)
        for _, k, _ in o.size.t:
            g = math.gcd(g, abs(k))
        o.stride = g if 1 < g <= 64 else None
        if g == 1 or g > 64:
            o.stride = None
        st.mem[o.id] = Arr()
    o.heap = True
    return o


@builtin('malloc')
def _(ex, st, fr, a, ins):
    n = a[0]
    if not isinstance(n, (int, Lin)):
        n = lin_of64(n)
    o = new_heap(ex, st, n, False)
    if not ex.opts.get('malloc_fail'):
        return ret(Ptr(o.id), st)
    c = nd(ex, st, 'malloc_fails', 1)
    return ret(Ptr(o.id, L0, c), st)


def lin_of64(e):
    """64-bit expression -> Lin with the leaves split out where possible"""
    if type(e) is int:
        return Lin(sgn(e, 64))
    if isinstance(e, Lin):
        return e
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_SIGN_EXT and e.arg(0).size() == 32:
            return Lin.leaf('s32', e.arg(0))
        if k == z3.Z3_OP_ZERO_EXT and e.arg(0).size() == 32:
            return Lin.leaf('z32', e.arg(0))
        if k == z3.Z3_OP_BADD:
            r = lin_of64(e.arg(0))
            for i in range(1, e.num_args()):
                r = r.add(lin_of64(e.arg(i)))
            return r
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            for i in (0, 1):
                if z3.is_bv_value(e.arg(i)):
                    return lin_of64(e.arg(1 - i)).mul(sgn(e.arg(i).as_long(), 64))
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            return lin_of64(e.arg(0)).mul(1 << e.arg(1).as_long())
        if z3.is_bv_value(e):
            return Lin(sgn(e.as_long(), 64))
    return Lin.of(e)


@builtin('calloc')
def _(ex, st, fr, a, ins):
    n, s = a
    if isinstance(n, int) and isinstance(s, int):
        sz = n * s
    elif isinstance(s, int):
        sz = (n if isinstance(n, Lin) else lin_of64(n)).mul(s)
    else:
        raise Unsupported('calloc')
    o = new_heap(ex, st, sz, True)
    return ret(Ptr(o.id), st)


def do_free(ex, st, fr, p):
    """-> list of states"""
    if not isinstance(p, Ptr):
        if type(p) is int and p == 0:
            return [st]
        if isinstance(p, Undef):
            ex.oblige(st, False, 'UB:free of an indeterminate pointer', fr)
            return []
        raise Unsupported('free of %r' % (p,))
    if p.obj is None:
        return [st]
    out = []
    if p.null is not False and p.null is not True:
        if ex.feasible(st, p.null):
            s2 = st.fork()
            s2.add(p.null, 'br')
            out.append(s2)
        if not ex.feasible(st, b_not(p.null)):
            return out
        st.add(b_not(p.null), 'br')
    o = ex.objs[p.obj]
    if not o.heap or p.off.t or p.off.c:
        ex.oblige(st, False, 'UB:free of a pointer malloc did not return', fr)
        return out
    if o.id in st.freed:
        ex.oblige(st, False, 'UB:double free of %s' % o.name, fr)
        return out
    st.freed = st.freed | {o.id}
    st.mem.pop(o.id, None)
    return out + [st]


@builtin('free')
def _(ex, st, fr, a, ins):
    return [(None, s) for s in do_free(ex, st, fr, a[0])]


@builtin('realloc')
def _(ex, st, fr, a, ins):
    p, n = a
    if not isinstance(n, (int, Lin)):
        n = lin_of64(n)
    if isinstance(p, Ptr) and p.obj is None or type(p) is int and p == 0:
        o = new_heap(ex, st, n, False)
        return ret(Ptr(o.id), st)
    if not isinstance(p, Ptr) or p.null is not False:
        raise Unsupported('realloc of a maybe-null pointer')
    o = ex.objs[p.obj]
    if o.id in st.freed or not o.heap or p.off.t or p.off.c:
        ex.oblige(st, False, 'UB:realloc of an invalid pointer', fr)
        return []
    c = ex.content(st, o)
    if isinstance(c, Rec) and isinstance(n, int) and n <= 1024:
        o2 = ex.new_obj(o.name, 'rec', n, o.init)
        st.mem[o2.id] = c
    elif isinstance(c, Rec):
        raise Unsupported('realloc of a record')
    else:
        o2 = ex.new_obj(o.name, 'arr', n if isinstance(n, (int, Lin)) else Lin.of(n), 'undef')
        o2.stride = o.stride
        f = dict(c.f)
        st.mem[o2.id] = Arr(f)
    o2.heap = True
    st.freed = st.freed | {o.id}
    st.mem.pop(o.id, None)
    return ret(Ptr(o2.id), st)


@builtin('llvm.memcpy*', 'memcpy')
def _(ex, st, fr, a, ins):
    n = a[2]
    if not isinstance(n, (int, Lin)):
        n = lin_of64(n)
    if not ex.copy_bytes(st, a[0], a[1], n, fr, False):
        return []
    return ret(a[0], st)


@builtin('llvm.memmove*', 'memmove')
def _(ex, st, fr, a, ins):
    n = a[2]
    if not isinstance(n, (int, Lin)):
        n = lin_of64(n)
    if not ex.copy_bytes(st, a[0], a[1], n, fr, True):
        return []
    return ret(a[0], st)


@builtin('llvm.memset*', 'memset')
def _(ex, st, fr, a, ins):
    n = a[2]
    if not isinstance(n, (int, Lin)):
        n = lin_of64(n)
    v = a[1]
    if type(v) is int:
        v &= 255
    elif v.size() > 8:
        v = z3.Extract(7, 0, v)
    if not ex.set_bytes(st, a[0], v, n, fr):
        return []
    return ret(a[0], st)


def abs_val(ex, st, x, w):
    """where the path decides the sign, the value without a conditional"""
    c = cmp_op('slt', x, 0, w)
    if not isinstance(c, bool) and not ex.pure:
        c2 = z3.simplify(c)
        c = z3.is_true(c2) if z3.is_true(c2) or z3.is_false(c2) else c
    if not isinstance(c, bool) and not ex.pure:
        if not ex.feasible(st, c):
            c = False
        elif not ex.feasible(st, b_not(c)):
            c = True
    n = bin_op('sub', 0, x, w)
    if type(n) is not int:
        n = z3.simplify(n)
    return ite(c, n, x, w)


@builtin('llvm.abs*')
def _(ex, st, fr, a, ins):
    w = ins.ty.w
    x = tobv(a[0], w)
    return ret(abs_val(ex, st, x, w), st)


@builtin('abs', 'labs')
def _(ex, st, fr, a, ins):
    w = ins.ty.w
    x = tobv(a[0], w)
    ex.oblige_nf(st, b_not(eq(x, 1 << (w - 1), w)), 'UB:signed overflow', fr)
    return ret(abs_val(ex, st, x, w), st)


@builtin('llvm.umin*', 'llvm.umax*', 'llvm.smin*', 'llvm.smax*')
def _(ex, st, fr, a, ins):
    w = ins.ty.w
    n = ins.a[0][1]
    x, y = tobv(a[0], w), tobv(a[1], w)
    c = cmp_op(('u' if '.u' in n else 's') + ('lt' if 'min' in n else 'gt'), x, y, w)
    return ret(ite(c, x, y, w), st)


@builtin('llvm.fmuladd*')
def _(ex, st, fr, a, ins):
    return ret(FV('fma', *a), st)


@builtin('llvm.stacksave*')
def _(ex, st, fr, a, ins):
    return ret(NULL, st)


@builtin('llvm.stackrestore*', 'llvm.va_start*', 'llvm.va_end*', 'llvm.assume', 'llvm.lifetime*')
def _(ex, st, fr, a, ins):
    return ret(None, st)


@builtin('llvm.va_copy*')
def _(ex, st, fr, a, ins):
    return ret(None, st)


@builtin('__assert_fail')
def _(ex, st, fr, a, ins):
    ex.oblige(st, False, 'UB:assertion %s' % cstr(ex, st, a[0]), fr)
    return []


@builtin('abort', '__stack_chk_fail')
def _(ex, st, fr, a, ins):
    ex.oblige(st, False, 'UB:abort', fr)
    return []


@builtin('exit', '_exit')
def _(ex, st, fr, a, ins):
    return []


# ------------------------------------------------------------------ string functions on constant strings (symbolic ones are given contracts)
def _cmp(x, y):
    return ((x > y) - (x < y)) & 0xffffffff


@builtin('strcmp')
def _(ex, st, fr, a, ins):
    return ret(_cmp(cstr(ex, st, a[0]), cstr(ex, st, a[1])), st)


@builtin('strcasecmp')
def _(ex, st, fr, a, ins):
    return ret(_cmp(cstr(ex, st, a[0]).lower(), cstr(ex, st, a[1]).lower()), st)


@builtin('strncmp')
def _(ex, st, fr, a, ins):
    if type(a[2]) is not int:
        raise Unsupported('strncmp of symbolic length')
    return ret(_cmp(cstr(ex, st, a[0])[:a[2]], cstr(ex, st, a[1])[:a[2]]), st)


@builtin('strncasecmp')
def _(ex, st, fr, a, ins):
    if type(a[2]) is not int:
        raise Unsupported('strncasecmp of symbolic length')
    return ret(_cmp(cstr(ex, st, a[0]).lower()[:a[2]], cstr(ex, st, a[1]).lower()[:a[2]]), st)


@builtin('strlen')
def _(ex, st, fr, a, ins):
    return ret(len(cstr(ex, st, a[0])), st)
