"""An outermost loop whose control state is finite: an inductive invariant with one disjunct per ghost state (the values of the
ghost variables named by the contract), each giving every loop-carried value and every written piece of memory as a constant or as
anything.  Found by iteration to a fixpoint; every obligation is proved once more from the final invariant, so it holds for
any number of iterations."""
import z3
from vals import *
from mem import *
import ir

TOP = 'top'
LIMIT = 4000



def const(ex, st, v):
    """an int, a pointer/flag as it is, or TOP"""
    if isinstance(v, bool) or type(v) is int:
        return v
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
        if not z3.is_bv(v) or v.size() > 32:
            return TOP
        # one value only on this path?
        ex.stats['queries'] += 1
        s = z3.Solver()
        s.set('timeout', 2000)
        for c in ex.pc_list(st):
            s.add(c)
        if s.check() == z3.sat:
            x = s.model().eval(v, True)
            s.add(v != x)
            if s.check() == z3.unsat:
                return x.as_long()
        return TOP
    return v


def state_loop(ex, st0, fr0, blk, stops, ghosts):
    import exec as X
    fn = fr0.fn
    phis = fn.blocks[blk].phis
    gobj = [(ex.global_ptr('@' + g, ex.contract_mod), ir.int_t(32)) for g in ghosts]
    inv = {}
    work = []
    base = dict(st0.mem)

    def arrive(s, f):
        key = []
        for p, ty in gobj:
            v = const(ex, s, ex.load(s, p, ty, f))
            if type(v) is not int:
                raise X.Unsupported('the ghost state is not determined')
            key.append(v)
        key = tuple(key)
        vals = [const(ex, s, f.regs[p.res]) for p in phis]
        mem = {}
        for oid, c in s.mem.items():
            o = ex.objs[oid]
            b = base.get(oid)
            if b is None and ex.ginit and oid in ex.ginit:
                b = base[oid] = ex.ginit[oid]
            if o.ro or c is b or (b is None and o.kind != 'rec' and o.heap):
                continue
            if isinstance(c, Rec):
                if c.sub and not (b is not None and c.sub is b.sub):
                    mem[oid, 'sub'] = c.sub
                bd = b.d if isinstance(b, Rec) else {}
                for off, (sz, v) in c.d.items():
                    if off in bd and bd[off][0] == sz and bd[off][1] is v:
                        mem[oid, off, sz] = ('base',)
                        continue
                    mem[oid, off, sz] = const(ex, s, v)
            else:
                mem[oid, 'arr'] = c
        old = inv.get(key)
        if old is None:
            inv[key] = (vals, mem)
            work.append(key)
            return
        ch = False
        ov, om = old
        for i, (a, b) in enumerate(zip(ov, vals)):
            if a is not TOP and not eqv(a, b):
                ov[i] = TOP
                ch = True
        for k in set(om) | set(mem):
            if k[1] in ('sub', 'arr'):
                if k not in om:
                    om[k] = mem[k]
                    ch = True
                continue
            if k in om and om[k] is TOP:
                continue
            a, b = om.get(k, ('base',)), mem.get(k, ('base',))
            if not eqv(a, b):
                om[k] = TOP
                ch = True
        if ch and key not in work:
            work.append(key)

    def eqv(a, b):
        if a is b:
            return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a == b if isinstance(a, tuple) and isinstance(b, tuple) else False
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and a.off.same(b.off) and a.null is b.null
        if type(a) is int and type(b) is int or isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return False

    def build(key):
        vals, mem = inv[key]
        s, f = st0.fork(), fr0.fork()
        f.iters = dict(fr0.iters)
        f.iters[blk] = 0
        s.mem = dict(base)
        for p, v in zip(phis, vals):
            if v is TOP:
                if p.ty.k != 'int':
                    raise X.Unsupported('a loop-carried pointer')
                v = ex.fresh(p.ty.w, 'inv')
            f.regs[p.res] = v
        recs = {}
        pieces = {}
        for k, v in mem.items():
            if k[1] not in ('sub', 'arr'):
                for a, n in pieces.setdefault(k[0], []):
                    if a < k[1] + k[2] and k[1] < a + n:
                        raise X.Unsupported('overlapping pieces of memory in a loop')
                pieces[k[0]].append((k[1], k[2]))
        for k, v in mem.items():
            o = ex.objs[k[0]]
            if k[1] == 'arr':
                c = v
                s.mem[o.id] = Arr({q: Base(fresh_name('inv.' + o.name), 'hav', n.w) for q, n in c.f.items()})
                continue
            c = recs.get(o.id)
            if c is None:
                b = base.get(o.id)
                c = recs[o.id] = Rec(dict(b.d), dict(b.sub)) if isinstance(b, Rec) else Rec()
                s.mem[o.id] = c
            if k[1] == 'sub':
                for lo, (hi, stride, a) in v.items():
                    c.sub[lo] = (hi, stride, Arr({q: Base(fresh_name('inv.' + o.name), 'hav', n.w) for q, n in a.f.items()}))
                continue
            if v == ('base',):
                continue
            if v is TOP:
                v = ex.fresh(k[2] * 8, 'inv')
            for a in list(c.d):
                if a < k[1] + k[2] and k[1] < a + c.d[a][0]:
                    del c.d[a]
            c.d[k[1]] = (k[2], v)
        return s, f

    arrive(st0, fr0)
    outs = {}
    steps = 0
    n0 = len(ex.obs)
    obs = {}
    while work:
        key = work.pop(0)
        steps += 1
        if steps > LIMIT:
            raise X.Unsupported('too many states')
        s, f = build(key)
        m = len(ex.obs)
        res = ex.run(s, f, blk, 0, stops | {blk})
        obs[key] = ex.obs[m:]
        del ex.obs[m:]
        outs[key] = []
        for o in res:
            if o[0] == 'stop' and o[1][0] == blk and blk not in stops:
                if o[1][1] is not None:
                    ex.do_phis(o[2], o[3], blk, o[1][1])
                arrive(o[2], o[3])
            else:
                outs[key].append(o)
    # the obligations of the last visit of every state: those from the final, widest invariant
    for key in obs:
        ex.obs.extend(obs[key])
    ex.stats['loops_rule'] += 1
    ex.stats['states'] = len(inv)
    return [o for key in outs for o in outs[key]]
