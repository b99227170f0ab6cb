"""Loops: exact unrolling where the exits are determined, otherwise a loop contract inferred and checked inductively:
closed forms for affine scalars, point-wise summaries for map-like array writes, Houdini for the rest."""
import z3
from vals import *
from mem import *
import mem as mem_
import ir
from exec import SpecFail, Unsupported, MergeFail, PC

ITER_MAX = 1 << 30


def loop_entry(ex, st, fr, blk, prev, stops):
    ex.do_phis(st, fr, blk, prev)
    return loop_entry_phis(ex, st, fr, blk, prev, stops)


def speculate(ex, st, fr, blk, stops, limit, strict):
    key = (id(fr.fn), blk)
    n0 = len(ex.obs)
    f2 = fr.fork()
    f2.rule = tuple(r for r in fr.rule if r[0] != key) + ((key, limit, strict),)
    f2.iters[blk] = 0
    save = (ex.quiet, ex.pure, ex.in_hook, ex.cur, len(ex.callstack))
    try:
        return ex.run(st.fork(), f2, blk, 0, stops)
    except SpecFail as e:
        if e.key != key:
            raise
        del ex.obs[n0:]
        ex.quiet, ex.pure, ex.in_hook, ex.cur = save[:4]
        del ex.callstack[save[4]:]
        return None


def loop_entry_phis(ex, st, fr, blk, prev, stops):
    fn = fr.fn
    fr.iters[blk] = 0
    if ex.mode != 'B' and fn.name[1:] in ex.opts.get('states', ()) and not any(h != blk and blk in b for h, b in fn.loops.items()):
        import states
        return states.state_loop(ex, st, fr, blk, stops, ex.opts['states'][fn.name[1:]])
    if ex.mode == 'B' or ex.pure:
        return ex.run(st, fr, blk, 0, stops)
    name = fn.name[1:]
    pol = ex.loop_policy.get(name, 'auto')
    if ex.opts.get('nomerge_all') and fn.module.tag.startswith('s_'):
        pol = 'unroll'
    if pol == 'unroll':
        return ex.run(st, fr, blk, 0, stops)
    r = speculate(ex, st, fr, blk, stops, ex.opts.get('spec_limit', 400), True)
    if r is not None:
        return r
    L = Loop(ex, st, fr, blk, stops)
    if pol == 'auto' or pol == 'rule':
        ok = L.infer()
        if ok == 'single':
            return ex.run(st, fr, blk, 0, stops)
        if ok and not L.lossy:
            return L.finish()
        if pol == 'auto' and not ok or L.lossy:
            lim = ex.unroll
            if ok and ex.ghost_steps and L.useful:
                return L.finish()
            r = speculate(ex, st, fr, blk, stops, lim, False)
            if r is not None:
                ex.stats['loops_unrolled'] = ex.stats.get('loops_unrolled', 0) + 1
                return r
        if not ok:
            raise Unsupported('loop in %s: %s' % (name, L.why))
        return L.finish()
    ok = L.infer()
    if ok == 'single':
        return ex.run(st, fr, blk, 0, stops)
    if not ok:
        raise Unsupported('loop in %s: %s' % (name, L.why))
    return L.finish()


_newcache = {}


def is_old(e, wm):
    """no variable/function in e was created after the watermark"""
    if not isinstance(e, z3.AstRef):
        return True
    seen = set()
    wl = [e]
    while wl:
        x = wl.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                p = n.rfind('!')
                if p >= 0:
                    try:
                        if int(n[p + 1:]) > wm:
                            return False
                    except ValueError:
                        pass
            for j in range(x.num_args()):
                wl.append(x.arg(j))
    return True


def lin_old(l, wm):
    return all(is_old(c[1], wm) for _, _, c in l.t)


def mentions(e, v):
    seen = set()
    wl = [e]
    vid = v.get_id()
    while wl:
        x = wl.pop()
        i = x.get_id()
        if i == vid:
            return True
        if i in seen:
            continue
        seen.add(i)
        for j in range(x.num_args()):
            wl.append(x.arg(j))
    return False


class Slot:
    __slots__ = ('kind', 'res', 'ty', 'oid', 'off', 'size', 'v0', 'cls', 'd', 'gen', 'w', 'locked')

    def key(self):
        return ('p', self.res) if self.kind == 'phi' else ('m', self.oid, self.off, self.size)


class AField:
    __slots__ = ('oid', 'lo', 'k', 'node0', 'cls', 'cand', 'tried', 'gnode', 'fresh')

    def key(self):
        return (self.oid, self.lo, self.k)


class Loop:
    def __init__(self, ex, st, fr, blk, stops):
        self.ex = ex
        self.st = st
        self.fr = fr
        self.blk = blk
        self.stops = stops
        fn = fr.fn
        self.body = fn.loops[blk]
        self.exits = set()
        for b in self.body:
            for s in fn.blocks[b].succ:
                if s not in self.body:
                    self.exits.add(s)
        self.pstops = frozenset({blk} | self.exits)
        self.slots = {}
        self.afs = {}
        self.invs = []
        self.why = ''
        self.lossy = False
        self.useful = False
        self.cont = None
        self.contk = None
        self.killed = set()

    # ------------------------------------------------------------ helpers
    def get_slot(self, s, vals, sl):
        if sl.kind == 'phi':
            return vals[sl.res]
        o = self.ex.objs[sl.oid]
        c = self.ex.content(s, o)
        e = c.d.get(sl.off)
        if e is not None and e[0] == sl.size:
            return e[1]
        return self.ex.rec_read(s, o, c, sl.off, sl.size, ir.int_t(sl.size * 8))

    def set_slot(self, s, f, sl, v):
        if sl.kind == 'phi':
            f.regs[sl.res] = v
            return
        o = self.ex.objs[sl.oid]
        s.mem[sl.oid] = self.ex.rec_write(o, self.ex.content(s, o), sl.off, sl.size, v)

    def node_of(self, s, af):
        o = self.ex.objs[af.oid]
        c = self.ex.content(s, o)
        if af.lo is None:
            return field_node(o, c, af.k)
        a = c.sub[af.lo][2]
        return field_node(o, a, af.k)

    def set_node(self, s, af, node):
        o = self.ex.objs[af.oid]
        c = self.ex.content(s, o)
        if af.lo is None:
            s.mem[af.oid] = c.with_field(af.k, node)
        else:
            c2 = Rec(c.d, dict(c.sub))
            hi, stride, a = c.sub[af.lo]
            c2.sub[af.lo] = (hi, stride, a.with_field(af.k, node))
            s.mem[af.oid] = c2

    def iterate(self, s, f):
        """run one iteration; -> (back outs [(vals, state, frame)], exit outs)"""
        ex = self.ex
        outs = ex.run(s, f, self.blk, 0, self.pstops)
        back, exits = [], []
        hb = self.fr.fn.blocks[self.blk]
        for o in outs:
            if o[0] == 'stop' and o[1][0] == self.blk:
                _, (b, pv), s2, f2 = o
                vals = {}
                for ph in hb.phis:
                    for v, pb in ph.a:
                        if pb == pv:
                            vals[ph.res] = ex.val(f2, v, ph.ty)
                            break
                ss = [s2]
                for g in ex.ghost_steps:
                    nx = []
                    for s3 in ss:
                        nx.extend(s4 for _, s4 in ex.call(s3, g, [], None))
                    ss = nx
                for s3 in ss:
                    back.append((vals, s3, f2))
            else:
                exits.append(o)
        return back, exits

    def merge_back(self, back, base):
        if len(back) <= 1:
            return back
        phis = self.fr.fn.blocks[self.blk].phis
        m = self.ex.merge_states([([v[p.res] for p in phis], s) for v, s, f in back], base, [p.ty for p in phis])
        fmap = {id(s): f for v, s, f in back}
        return [({p.res: x for p, x in zip(phis, v)}, s, fmap.get(id(s))) for v, s in m]

    def quiet_iter(self, s, f):
        ex = self.ex
        ex.quiet += 1
        try:
            base = s.pc
            back, exits = self.iterate(s, f)
            return self.merge_back(back, base), exits
        finally:
            ex.quiet -= 1

    # ------------------------------------------------------------ modified locations
    def find_mods(self, ref, outs):
        """add slots/fields modified between ref and the states outs; True when something new appeared"""
        ex = self.ex
        new = False
        for vals, s, f in outs:
            fr_new = s.freed - ref.freed
            if any(i in ref.mem for i in fr_new):
                raise Unsupported('memory freed in a loop')
            for oid, c in s.mem.items():
                c0 = ref.mem.get(oid)
                if c0 is None:
                    if oid in self.st.mem or oid in self.preobjs:
                        # materialised lazily (global or fresh touch)
                        o = ex.objs[oid]
                        c0 = ex.ginit[oid] if ex.ginit and oid in ex.ginit else (Arr() if o.kind == 'arr' else Rec())
                    else:
                        continue
                if c is c0:
                    continue
                o = ex.objs[oid]
                if isinstance(c, Arr):
                    new |= self.mods_arr(o, None, c0, c)
                    continue
                for off, (size, v) in c.d.items():
                    e0 = c0.d.get(off)
                    if e0 is not None and e0[0] == size and same(e0[1], v):
                        continue
                    if e0 is None or e0[0] != size:
                        if o.init == 'sym':
                            if isinstance(v, z3.AstRef) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                                    and v.decl().name() in ('%s@%d+%d' % (o.name, o.id, off),):
                                continue
                        elif o.init == 'undef' and isinstance(v, Undef):
                            continue
                    new |= self.add_slot(oid, off, size)
                for lo, (hi, stride, a) in c.sub.items():
                    x0 = c0.sub.get(lo)
                    if x0 is not None and x0[2] is not a:
                        new |= self.mods_arr(o, lo, x0[2], a)
        return new

    def mods_arr(self, o, lo, a0, a):
        new = False
        for k, n in a.f.items():
            n0 = a0.f.get(k)
            if n0 is None:
                n0 = field_node(o, a0, k) if not any(x < k[0] + k[1] and k[0] < x + y for x, y in a0.f) else None
                if n0 is None:
                    raise Unsupported('field layout of %s changes in a loop' % o.name)
            if n is n0:
                continue
            key = (o.id, lo, k)
            if key in self.afs:
                continue
            af = AField()
            af.oid, af.lo, af.k = key
            af.cls = 'old'
            af.cand = None
            af.tried = 0
            af.node0 = self.node_of(self.st, af)
            af.fresh = True
            if complicated(af.node0):
                af.node0 = Cut(af.node0)
                self.set_node(self.st, af, af.node0)
            self.afs[key] = af
            new = True
        return new

    def add_slot(self, oid, off, size):
        for kk, sl in self.slots.items():
            if sl.kind == 'mem' and sl.oid == oid and sl.off < off + size and off < sl.off + sl.size:
                if sl.off == off and sl.size == size:
                    return False
                raise Unsupported('overlapping scalar accesses in a loop')
        sl = Slot()
        sl.kind = 'mem'
        sl.oid, sl.off, sl.size = oid, off, size
        sl.w = size * 8
        sl.cls = 'inv'
        sl.locked = 0
        sl.d = None
        sl.v0 = self.get_slot(self.st, None, sl)
        sl.ty = None
        self.slots[sl.key()] = sl
        return True

    # ------------------------------------------------------------ classes
    def delta(self, sl, a, b):
        """a - b as Lin (64 bit / pointers) or z3/int (others); None when not meaningful"""
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None \
                    and a.null is False and b.null is False:
                return a.off.add(b.off, -1)
            return None
        if isinstance(a, (FV, Undef, bool, z3.BoolRef)) or isinstance(b, (FV, Undef, bool, z3.BoolRef)):
            return None
        w = sl.w
        if w == 64:
            return Lin.of(a).add(Lin.of(b), -1)
        if w == 32:
            r = atomize(bv(a, 32)).add(atomize(bv(b, 32)), -1)
            r = Lin(sgn(r.c & MASK[32], 32), r.t)
            if r.t:
                e = z3.simplify(r.bv(32))
                if z3.is_bv_value(e):
                    return Lin(sgn(e.as_long(), 32))
            return r
        return None

    def aff_value(self, s, sl, kk):
        """v0 + d*kk ; kk int or BV32"""
        d = sl.d
        if type(kk) is int:
            mulk = d.mul(kk)
        else:
            mulk = Lin(0, ()).add(Lin.leaf('s32', kk).mul(d.c)) if d.c else Lin()
            for key, co, (kind, e) in d.t:
                for sc in self.ex.scales:
                    if e.eq(sc):
                        p = self.ex.scaled_prod(s, kk, sc)
                        mulk = mulk.add(Lin.of(p, 32).mul(co) if type(p) is int else Lin.leaf('s32', p).mul(co))
                        break
                else:
                    raise Unsupported('symbolic step in a loop')
        v0 = sl.v0
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, v0.off.add(mulk), False, v0.win)
        if sl.w == 64:
            return norm_lin(Lin.of(v0).add(mulk))
        r = atomize(bv(v0, 32)).add(mulk)
        r = Lin(sgn(r.c & MASK[32], 32), r.t)
        return r.bv(32)

    def fresh_value(self, sl):
        v0 = sl.v0
        ex = self.ex
        if isinstance(v0, Ptr):
            if v0.obj is None or v0.null is not False:
                raise Unsupported('pointer varying in a loop')
            o = ex.objs[v0.obj]
            stride = sl.d.c if isinstance(sl.d, Lin) and not sl.d.t and sl.d.c else (o.stride or 1)
            return Ptr(v0.obj, v0.off.add(Lin.leaf('s32', ex.fresh(32, 'lp')).mul(abs(stride))), False, v0.win)
        if isinstance(v0, FV):
            return FV('loop', fresh_name('f'))
        if isinstance(v0, Undef):
            if sl.w is None:
                return v0
            return ex.fresh(sl.w, 'lv')
        if isinstance(v0, (bool, z3.BoolRef)):
            return ex.fresh(1, 'lv')
        return ex.fresh(sl.w, 'lv')

    def generic(self):
        """state at the loop head after kk iterations"""
        ex = self.ex
        s = self.st.fork()
        f = self.fr.fork()
        f.rule = tuple(r for r in self.fr.rule if r[0][0] != id(self.fr.fn) or r[0][1] != self.blk)
        f.iters[self.blk] = 0
        # inside the generic iteration no strict speculation of enclosing loops may fail on our exits
        kk = z3.BitVec(fresh_name('it'), 32)
        s.pc = PC(s.pc, z3.ULT(kk, ITER_MAX), 'as')
        for sl in self.slots.values():
            if sl.cls == 'inv':
                v = sl.v0
            elif sl.cls == 'aff':
                v = self.aff_value(s, sl, kk)
            else:
                v = self.fresh_value(sl)
            sl.gen = v
            self.set_slot(s, f, sl, v)
        for af in self.afs.values():
            af.fresh = False
            if af.cls == 'old':
                pass
            elif af.cls == 'map':
                af.gnode = self.summary(af, kk)
                self.set_node(s, af, af.gnode)
            else:
                self.set_node(s, af, Base(fresh_name('hv'), 'hav', af.k[1] * 8))
        for nm, fnc in self.invs:
            c = fnc(lambda sl: sl.gen, s, kk)
            if c is not None and c is not True:
                s.pc = PC(s.pc, bl(c), 'as')
        if self.cont is not None:
            c = z3.substitute(self.cont, (self.contk, kk - 1))
            s.pc = PC(s.pc, z3.Or(kk == 0, c), 'as')
        return s, f, kk

    def summary(self, af, kk):
        A, sg, e, k0 = af.cand
        node0 = af.node0

        def t_of(ix):
            d = ix.lin.add(A.lin, -1).mul(sg)
            return Ix(d)

        def pred(ix):
            t = t_of(ix)
            if type(t.e) is int and type(kk) is int:
                return t.e < kk
            return cmp_op('ult', t.e, kk, 32)

        def fn(ix, ex):
            if type(e) is int:
                return e
            t = t_of(ix)
            r = z3.substitute(e, (k0, bv(t.e, 32)))
            touch_expr(ex, r)
            r2 = z3.simplify(r)
            if z3.is_bv_value(r2):
                return r2.as_long()
            return r
        return PFill(node0, pred, fn)

    # ------------------------------------------------------------ inference
    def infer(self):
        ex = self.ex
        self.preobjs = set(ex.objs)
        try:
            return self._infer()
        except Unsupported as e:
            self.why = str(e)
            return False
        except MemError as e:
            self.why = str(e)
            return False

    def _infer(self):
        ex = self.ex
        hb = self.fr.fn.blocks[self.blk]
        for ph in hb.phis:
            sl = Slot()
            sl.kind = 'phi'
            sl.res = ph.res
            sl.ty = ph.ty
            sl.w = ph.ty.w if ph.ty.k == 'int' else None
            sl.v0 = self.fr.regs[ph.res]
            sl.cls = 'inv'
            sl.d = None
            sl.locked = 0
            self.slots[sl.key()] = sl
        # probe: the first iteration from the entry state
        back, exits = self.quiet_iter(self.st.fork(), self.probe_frame())
        if not back:
            return 'single'
        self.find_mods(self.st, back)
        for sl in self.slots.values():
            self.classify(sl, [(self.get_slot(s, v, sl), sl.v0) for v, s, f in back], probe=True)
        stable = False
        for rnd in range(14):
            wm = mem_._n[0]
            s, f, kk = self.generic()
            wmk = mem_._n[0]
            entry = s.fork()
            ids0 = dict(s.mem)
            back, exits = self.quiet_iter(s, f)
            changed = self.find_mods(entry, back)
            if not back:
                # the generic state never iterates again: the loop runs at most once more; treat as stable
                stable = not changed
                if stable:
                    break
                continue
            # scalars
            for sl in list(self.slots.values()):
                if sl.kind == 'mem' and sl.key() not in self.slots:
                    continue
                if not hasattr(sl, 'gen') or sl.cls == 'new':
                    continue
                changed |= self.recheck(sl, back, entry, kk, wm)
            # arrays
            for af in list(self.afs.values()):
                changed |= self.recheck_arr(af, back, kk, wm)
            # continuation condition
            c = self.cont_cond(back, entry.pc, kk, wm)
            if not changed:
                if self.cont is None and c is not None:
                    self.cont, self.contk = c, kk
                    changed = True
                elif not self.houdini_done:
                    changed = self.houdini(back, exits, kk, entry, wm)
                else:
                    changed = self.houdini_recheck(back, kk)
            else:
                self.cont = None
            if not changed:
                stable = True
                break
        if not stable:
            self.why = 'no stable loop contract'
            return False
        if ex.opts.get('debug'):
            print('LOOP', self.fr.fn.name, self.blk, {str(sl.key()[1:]): (sl.cls, sl.v0, getattr(sl, 'gen', None)) for sl in self.slots.values() if sl.cls == 'hav'},
                  {'%s%r' % (ex.objs[a.oid].name, a.k): a.cls for a in self.afs.values()}, [n for n, _ in self.invs], 'rounds', rnd, 'quiet', ex.quiet)
        self.useful = any(n in ('eq', 'user') for n, _ in self.invs)
        self.lossy = any(sl.cls == 'hav' for sl in self.slots.values()) or any(a.cls == 'hav' and not ex.objs[a.oid].junk for a in self.afs.values())
        return True

    houdini_done = False

    def probe_frame(self):
        f = self.fr.fork()
        f.iters[self.blk] = 0
        f.rule = tuple(r for r in self.fr.rule if r[0][1] != self.blk)
        return f

    def classify(self, sl, pairs, probe):
        ds = []
        for a, b in pairs:
            if same(a, b):
                ds.append('same')
                continue
            ds.append(self.delta(sl, a, b))
        if all(d == 'same' for d in ds):
            sl.cls = 'inv'
            return
        if any(d is None or d == 'same' for d in ds) or any(not d.same(ds[0]) for d in ds):
            sl.cls = 'hav'
            d = next((d for d in ds if isinstance(d, Lin)), None)
            sl.d = d
            return
        d = ds[0]
        if not d.t and d.c == 0:
            sl.cls = 'inv'
            return
        if d.t and not (len(d.t) == 1 and d.c == 0 and any(d.t[0][2][1].eq(x) for x in self.ex.scales)):
            sl.cls = 'hav'
            sl.d = d
            return
        sl.cls = 'aff'
        sl.d = d

    def recheck(self, sl, back, entry, kk, wm):
        """verify the class of sl on the back edges; True when it changed"""
        ex = self.ex
        vals = [(self.get_slot(s, v, sl), s) for v, s, f in back]
        if not hasattr(sl, 'gen'):
            return True
        if sl.cls == 'hav':
            # upgrade?
            if sl.locked:
                return False
            sl.locked = 1
            ds = [self.delta(sl, a, sl.gen) if not same(a, sl.gen) else Lin() for a, s in vals]
            if all(d is not None and d.same(ds[0]) for d in ds):
                d = ds[0]
                if not d.t and d.c == 0:
                    sl.cls = 'inv'
                    return True
                if not d.t or (len(d.t) == 1 and d.c == 0 and any(d.t[0][2][1].eq(x) for x in ex.scales)):
                    sl.cls = 'aff'
                    sl.d = d
                    return True
            return False
        if sl.cls == 'inv':
            want = lambda s: sl.v0
        else:
            want = lambda s: self.aff_value(s, sl, kk + 1)
        for a, s in vals:
            w = want(s)
            if not self.entails_eq(s, sl, a, w):
                if sl.cls == 'inv':
                    d = self.delta(sl, a, sl.gen)
                    sl.d = d if isinstance(d, Lin) else None
                sl.cls = 'hav'
                return True
        return False

    def entails_eq(self, s, sl, a, b):
        ex = self.ex
        if same(a, b):
            return True
        if isinstance(a, (FV, Undef)) or isinstance(b, (FV, Undef)):
            return False
        d = self.delta(sl, a, b)
        if d is not None:
            if not d.t:
                return d.c == 0
            if sl.w == 32:
                c = d.bv(32) == 0
            else:
                c = d.bv(64) == 0
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            return False
        elif isinstance(a, (bool, z3.BoolRef)):
            c = bl(a) == bl(b)
        else:
            c = bv(tobv(a, sl.w), sl.w) == bv(tobv(b, sl.w), sl.w)
        return ex.query(s, z3.Not(c)) == z3.unsat

    # arrays
    def recheck_arr(self, af, back, kk, wm):
        ex = self.ex
        if af.cls == 'hav':
            return False
        if af.fresh:
            return True
        if af.cls == 'old':
            af.tried += 1
            cand = self.arr_candidate(af, back, kk, wm) if af.tried <= 4 else None
            if cand == 'retry':
                return True
            if cand is None:
                if ex.opts.get('debug'):
                    print('ARR: no candidate', ex.objs[af.oid].name, af.k, [(type(self.node_of(s, af)).__name__, self.node_of(s, af) is af.node0) for v, s, f in back])
                af.cls = 'hav'
            else:
                af.cls = 'map'
                af.cand = cand
            return True
        # inductive check at a Skolem index
        ok = True
        for v, s, f in back:
            node = self.node_of(s, af)
            A, sg, e, k0 = af.cand
            ixs = {}
            if self.chain_ixs(node, af.gnode, ixs, set()):
                # stores only at A+sg*kk, and the value there is the summary's: inductive by construction
                ik = Ix(A.lin.add(Lin.leaf('s32', kk).mul(sg)))
                if not ixs or list(ixs) == [ik.key]:
                    ex.cur = s.fork()
                    val = node.read(ik, ex)
                    w2 = e if type(e) is int else z3.substitute(e, (k0, kk))
                    if ixs and (same(val, w2) or type(w2) is not int and type(val) is not int and
                                z3.simplify(val).eq(z3.simplify(w2))):
                        continue
                    if ixs and type(val) is not int and z3.is_bv(val):
                        p1 = z3.simplify(self.prune(s, val, kk))
                        if p1.eq(z3.simplify(bv(w2, af.k[1] * 8))) or p1.eq(z3.simplify(self.prune(s, bv(w2, af.k[1] * 8), kk))):
                            continue
            x = z3.BitVec(fresh_name('sk'), 32)
            s2 = s.fork()
            ex.cur = s2
            after = node.read(Ix.of_e(x), ex)
            want = self.summary(af, kk + 1).read(Ix.of_e(x), ex)
            if same(after, want):
                continue
            c = bv(after, af.k[1] * 8) == bv(want, af.k[1] * 8)
            r = ex.query(s2, z3.Not(c))
            if r != z3.unsat:
                if ex.opts.get('debug'):
                    print('ARR: not inductive', ex.objs[af.oid].name, af.k, r, z3.simplify(c).sexpr()[:1500])
                ok = False
                break
        if not ok:
            af.cls = 'hav'
            return True
        return False

    def prune(self, s, e, kk):
        """e with the conditionals the path decides replaced by the branch taken"""
        ex = self.ex
        budget = [24]
        memo = {}

        def go(x):
            i = x.get_id()
            if i in memo:
                return memo[i]
            r = x
            if z3.is_app(x) and x.num_args():
                if z3.is_app_of(x, z3.Z3_OP_ITE) and budget[0] > 0 and mentions(x.arg(0), kk):
                    c = x.arg(0)
                    budget[0] -= 1
                    if not ex.feasible(s, c):
                        r = go(x.arg(2))
                        memo[i] = r
                        return r
                    if not ex.feasible(s, z3.Not(c)):
                        r = go(x.arg(1))
                        memo[i] = r
                        return r
                ch = [go(x.arg(j)) for j in range(x.num_args())]
                if any(not a.eq(x.arg(j)) for j, a in enumerate(ch)):
                    r = z3.substitute(x, *[(x.arg(j), a) for j, a in enumerate(ch) if not a.eq(x.arg(j))]) \
                        if len({x.arg(j).get_id() for j in range(x.num_args())}) == x.num_args() else x.decl()(*ch)
            memo[i] = r
            return r
        ex.pure, p = 0, ex.pure
        fm = ex.opts.get('feas_ms')
        ex.opts['feas_ms'] = 2500
        try:
            return go(e)
        finally:
            ex.pure = p
            if fm is None:
                del ex.opts['feas_ms']
            else:
                ex.opts['feas_ms'] = fm

    def arr_candidate(self, af, back, kk, wm):
        """(A, sign, value expr, k variable) from the stores of one generic iteration"""
        ex = self.ex
        ixs = {}
        vals = []
        for v, s, f in back:
            node = self.node_of(s, af)
            if node is af.node0:
                vals.append((None, s))
                continue
            if not self.chain_ixs(node, af.node0, ixs, set()):
                return None
            vals.append((node, s))
        if len(ixs) != 1:
            return None
        ix = next(iter(ixs.values()))
        # ix = A + sg*kk
        r = Lin(ix.lin.c, tuple(x for x in ix.lin.t if not x[2][1].eq(kk)))
        co = [b for a, b, c in ix.lin.t if c[1].eq(kk)]
        if len(co) != 1 or co[0] not in (1, -1):
            return None
        if not lin_old(r, wm):
            return None
        A = Ix(r)
        res = None
        if len(vals) != 1:
            return None
        node, s = vals[0]
        ex.cur = s.fork()
        e = node.read(ix, ex)
        if type(e) is not int:
            e = z3.simplify(e) if False else e
            # every variable must be older than the iteration, except the counter itself
            e1 = z3.substitute(e, (kk, z3.BitVecVal(0, 32)))
            if not is_old(e1, wm):
                # may depend on another field/slot that is still being refined
                return None
        return (A, co[0], e, kk)

    def chain_ixs(self, node, stop, ixs, seen):
        while node is not stop:
            if id(node) in seen:
                return True
            seen.add(id(node))
            if isinstance(node, Store):
                ixs[node.ix.key] = node.ix
                node = node.prev
            elif isinstance(node, IteN):
                if not self.chain_ixs(node.a, stop, ixs, seen):
                    return False
                node = node.b
            else:
                return False
        return True

    def cont_cond(self, back, base, kk, wm):
        ex = self.ex
        ds = []
        for v, s, f in back:
            cs = []
            for n in ex.suffix(s.pc, base):
                if n.kind == 'fact':
                    continue
                c = n.cond
                c0 = z3.substitute(c, (kk, z3.BitVecVal(0, 32)))
                if is_old(c0, wm) and mentions(c, kk):
                    cs.append(c)
            if not cs:
                return None
            ds.append(z3.And(*cs) if len(cs) > 1 else cs[0])
        if not ds:
            return None
        return z3.Or(*ds) if len(ds) > 1 else ds[0]

    # Houdini
    def exit_atoms(self, outs):
        """comparisons that decide the loop exits, as (lhs, rhs, width) in terms of the generic state"""
        res = []
        fn = self.fr.fn
        for b in self.body:
            blk = fn.blocks[b]
            t = blk.insts[-1]
            if t.op != 'br' or t.a[0] is None or all(x in self.body for x in t.a[1:]):
                continue
            c = t.a[0]
            if c[0] != 'r':
                continue
            ic = None
            for bb in self.body:
                for i in fn.blocks[bb].insts:
                    if i.res == c[1]:
                        ic = i
            if ic is None or ic.op != 'icmp':
                continue
            pred, x, y = ic.a
            for o in outs:
                f = o[2] if len(o) == 3 else o[3]
                if f is None:
                    continue
                try:
                    a, bb_ = self.ex.val(f, x, ic.ty), self.ex.val(f, y, ic.ty)
                except Unsupported:
                    continue
                res.append((a, bb_, ic.ty))
                break
        return res

    def houdini(self, back, exits, kk, entry, wm):
        """collect candidate invariants, keep the inductive ones.  -> True when some candidate was added"""
        ex = self.ex
        self.houdini_done = True
        cands = []
        ints = [sl for sl in self.slots.values() if sl.cls in ('aff', 'hav') and sl.w in (32, 64)
                and not isinstance(sl.v0, (Ptr, FV, Undef))]
        havs = [sl for sl in ints if sl.cls == 'hav']
        for a, b, ty in self.exit_atoms(back + exits):
            if ty.k == 'int' and ty.w in (32, 64):
                A, B = bv(tobv(a, ty.w), ty.w), bv(tobv(b, ty.w), ty.w)
                ok = True
                for e in (A, B):
                    e0 = z3.substitute(e, (kk, z3.BitVecVal(0, 32)))
                    if not is_old(e0, wm):
                        ok = False
                if ok and (mentions(A, kk) or mentions(B, kk)):
                    for nm, mk in (('sle', lambda p, q: p <= q), ('sge', lambda p, q: p >= q),
                                   ('ule', lambda p, q: z3.ULE(p, q)), ('uge', lambda p, q: z3.UGE(p, q)),
                                   ('sle1', lambda p, q: p <= q + 1), ('sge1', lambda p, q: p + 1 >= q)):
                        cands.append((nm, lambda g, s, k2, A=A, B=B, mk=mk: mk(
                            z3.substitute(A, (kk, bv(k2, 32))), z3.substitute(B, (kk, bv(k2, 32))))))
            elif ty.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                d = a.off.add(b.off, -1).bv(64)
                if type(d) is not int and mentions(d, kk) and is_old(z3.substitute(d, (kk, z3.BitVecVal(0, 32))), wm):
                    for nm, mk in (('ple', lambda q: q <= 0), ('pge', lambda q: q >= 0)):
                        cands.append((nm, lambda g, s, k2, d=d, mk=mk: mk(z3.substitute(d, (kk, bv(k2, 32))))))
        for sl in havs:
            w = sl.w
            cands.append(('nn', lambda g, s, k2, sl=sl, w=w: bv(tobv(g(sl), w), w) >= 0))
            cands.append(('le0', lambda g, s, k2, sl=sl, w=w: bv(tobv(g(sl), w), w) <= bv(tobv(sl.v0, w), w)))
            cands.append(('ge0', lambda g, s, k2, sl=sl, w=w: bv(tobv(g(sl), w), w) >= bv(tobv(sl.v0, w), w)))
            for s2 in ints:
                if s2 is sl or s2.w != w:
                    continue
                if s2.cls == 'hav' and id(s2) < id(sl):
                    continue
                if self.maybe_equal(sl, s2):
                    cands.append(('eq', lambda g, s, k2, sl=sl, s2=s2, w=w:
                                  bv(tobv(g(sl), w), w) == bv(tobv(g(s2), w), w)))
            # bounds by loop-invariant quantities of the exit tests
            for a, b, ty in self.exit_atoms(back + exits):
                if ty.k != 'int' or ty.w != w:
                    continue
                for e in (a, b):
                    e = tobv(e, w)
                    if type(e) is int or is_old(e, wm):
                        E = bv(e, w)
                        cands.append(('leb', lambda g, s, k2, sl=sl, E=E, w=w: bv(tobv(g(sl), w), w) <= E))
                        cands.append(('leb1', lambda g, s, k2, sl=sl, E=E, w=w: bv(tobv(g(sl), w), w) <= E + 1))
                        cands.append(('geb', lambda g, s, k2, sl=sl, E=E, w=w: bv(tobv(g(sl), w), w) >= E))
        for x in ex.loop_cands:
            cands.append(('user', lambda g, s, k2, x=x: self.user_inv(s, x)))
        # keep those that hold on entry
        keep = []
        for nm, fnc in cands:
            if nm == 'user':
                c = fnc(None, self.st.fork(), 0)
            else:
                c = fnc(lambda sl: sl.v0, self.st, 0)
            c = z3.simplify(c) if not isinstance(c, bool) else c
            if c is True or (not isinstance(c, bool) and z3.is_true(c)) or \
                    (not (c is False) and not (not isinstance(c, bool) and z3.is_false(c)) and ex.query(self.st, b_not(c)) == z3.unsat):
                keep.append((nm, fnc))
        self.invs = keep
        return bool(keep)

    def maybe_equal(self, a, b):
        x, y = a.v0, b.v0
        return same(tobv(x, a.w), tobv(y, b.w)) or self.ex.query(self.st, bv(tobv(x, a.w), a.w) != bv(tobv(y, a.w), a.w)) == z3.unsat

    def user_inv(self, s, fn):
        ex = self.ex
        t = s.fork()
        ex.pure += 1
        try:
            outs = ex.call(t, fn, [], None)
        finally:
            ex.pure -= 1
        return ex.merge_bool(outs, s.pc, fn.rty.w)

    def houdini_recheck(self, back, kk):
        ex = self.ex
        keep = []
        for nm, fnc in self.invs:
            ok = True
            for v, s, f in back:
                c = fnc(lambda sl: self.get_slot(s, v, sl), s, kk + 1)
                c = z3.simplify(c) if not isinstance(c, bool) else c
                if c is True or (not isinstance(c, bool) and z3.is_true(c)):
                    continue
                if c is False or z3.is_false(c) or ex.query(s, b_not(c)) != z3.unsat:
                    ok = False
                    break
            if ok:
                keep.append((nm, fnc))
        ch = len(keep) != len(self.invs)
        self.invs = keep
        return ch

    # ------------------------------------------------------------ result
    def finish(self):
        ex = self.ex
        ex.stats['loops_rule'] += 1
        ex.loopinfo.append((self.fr.fn.name[1:], self.blk,
                            {str(sl.key()[1:]): sl.cls for sl in self.slots.values()},
                            {'%s%r' % (ex.objs[a.oid].name, a.k): a.cls for a in self.afs.values()},
                            [n for n, _ in self.invs]))
        if self.lossy:
            ex.stats['loops_lossy'] = ex.stats.get('loops_lossy', 0) + 1
        s, f, kk = self.generic()
        back, exits = self.iterate(s, f)
        res = []
        for o in exits:
            if o[0] == 'ret':
                res.append(o)
                continue
            _, (b, pv), s2, f2 = o
            if self.lossy:
                s2.lossy = True
            res.extend(ex.enter(s2, f2, b, pv, self.stops))
        return res


def touch_expr(ex, e):
    """instantiate the facts known about the array cells and products a substituted expression mentions"""
    seen = set()
    wl = [e]
    while wl:
        x = wl.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1:
                b = BASES.get(d.name())
                if b is not None:
                    if b.mode == 'cut':
                        b.read(Ix.of_e(x.arg(0)), ex)
                    elif b.mode == 'sym' and b.obj is not None:
                        ex.on_touch(b.obj, Ix.of_e(x.arg(0)))
                elif d.name().startswith('mul_') and ex.cur is not None:
                    for sc in ex.scales:
                        if d.name() == 'mul_%d' % sc.get_id():
                            ex.scaled_prod(ex.cur, x.arg(0), sc)
                elif d.name().startswith('div_') and ex.cur is not None:
                    for sc in ex.scales:
                        if d.name() == 'div_%d' % sc.get_id():
                            ex.scaled_quot(ex.cur, x.arg(0), sc)
            for j in range(x.num_args()):
                wl.append(x.arg(j))
