"""Symbolic executor / verification-condition generator over the LLVM IR of /repo's sources.

Big-step: executing from a program point yields the list of outcomes ('stop', block, prev) / ('ret', value), each with
its own state.  Every obligation met on the way is discharged at once under the path condition and then assumed.
"""
import sys
import time
import math
import z3
import lia
from vals import *
from mem import *
import ir

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class SpecFail(Exception):
    """speculative unrolling met a data dependent loop exit"""

    def __init__(self, key):
        self.key = key


class MergeFail(Exception):
    pass


class Timeout(Exception):
    pass


class PC:
    __slots__ = ('parent', 'cond', 'kind', 'depth')

    def __init__(self, parent, cond, kind):
        self.parent = parent
        self.cond = cond
        self.kind = kind
        self.depth = parent.depth + 1 if parent else 1


class State:
    __slots__ = ('mem', 'pc', 'freed', 'touched', 'prods', 'ndn', 'nds', 'lossy', 'divs')

    def __init__(self):
        self.mem = {}
        self.pc = None
        self.freed = frozenset()
        self.touched = {}
        self.prods = ()
        self.divs = ()
        self.ndn = 0
        self.nds = ()
        self.lossy = False

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.freed = self.freed
        s.touched = dict(self.touched)
        s.prods = self.prods
        s.divs = self.divs
        s.ndn = self.ndn
        s.nds = self.nds
        s.lossy = self.lossy
        return s

    def add(self, cond, kind):
        if cond is True:
            return
        self.pc = PC(self.pc, bl(cond), kind)


class Frame:
    __slots__ = ('fn', 'regs', 'iters', 'depth', 'allocas', 'caller', 'va', 'rule')

    def __init__(self, fn, depth, caller):
        self.fn = fn
        self.regs = {}
        self.iters = {}
        self.depth = depth
        self.allocas = ()
        self.caller = caller
        self.va = None
        self.rule = ()

    def fork(self):
        f = Frame(self.fn, self.depth, self.caller)
        f.regs = dict(self.regs)
        f.iters = dict(self.iters)
        f.allocas = self.allocas
        f.va = self.va
        f.rule = self.rule
        return f


class Ob:
    __slots__ = ('label', 'status', 'where', 'model', 'n', 'detail', 'time', 'lossy')

    def __init__(self, label, where):
        self.label = label
        self.where = where
        self.status = None
        self.model = None
        self.detail = ''
        self.lossy = False
        self.time = 0.0


def budget(s, ms):
    """a solver's share in resources, not time, so that the outcome does not depend on how busy the machine is"""
    s.set('rlimit', ms * 7000)
    s.set('timeout', ms * 6)


class Executor:
    def __init__(self, modules, opts=None):
        self.modules = modules
        o = opts or {}
        self.opts = o
        self.mode = o.get('mode', 'P')
        self.want = o.get('want', lambda label: True)      # which check labels are obligations
        ub = o.get('want_ub', lambda kind, where: True)
        self.want_ub = lambda kind, where: not where.startswith(('harness_', 'S_', 'contract_', 'stub_')) and ub(kind, where)
        self.solver_ms = o.get('solver_ms', 2000)
        self.heavy_ms = o.get('heavy_ms', 60000)
        self.unroll = o.get('unroll', 24)
        self.loop_policy = o.get('loops', {})
        self.nomerge = set(o.get('nomerge', ()))
        self.merge_fns = o.get('merge_fns', None)
        self.dims = o.get('dims', {})
        self.case = o.get('case', 0)
        self.deadline = o.get('deadline')
        self.contract_mod = modules[0]
        self.objs = {}
        self.globals = {}
        self.funcs = {}
        self.fobj = {}
        self.obs = []
        self.stats = {'paths': 0, 'queries': 0, 'qtime': 0.0, 'insts': 0, 'merges': 0, 'loops_rule': 0, 'contracts': {},
                      'inlined': {}, 'assumed': {}, 'heavy': 0, 'touch': 0}
        self.quiet = 0
        self.pure = 0
        self.tlog = []
        self.cur = None
        self.solver = z3.Solver()
        budget(self.solver, self.solver_ms)
        self.sstack = []
        self.in_hook = False
        self.scales = []
        self.covers = {}
        self.uninit = o.get('uninit', False)
        self.callstack = []
        self.loopinfo = []
        self.lia = lia.Ctx()
        self.ghost_steps = []
        self.loop_cands = []
        self.stop_on_fail = o.get('stop_on_fail', False)
        for m in modules:
            for f in m.funcs.values():
                if f.internal:
                    continue
                if f.name in self.funcs and not f.name.startswith('@llvm'):
                    raise Unsupported('duplicate definition of ' + f.name)
                self.funcs[f.name] = f
        self.contracts = {}
        for n, f in list(self.funcs.items()):
            if n.startswith('@contract_'):
                self.contracts['@' + n[len('@contract_'):]] = f
        self.mod_of = {}

    # ------------------------------------------------------------------ objects
    def new_obj(self, name, kind, size, init='undef'):
        i = len(self.objs) + 1
        o = Obj(i, name, kind, size, init)
        self.objs[i] = o
        return o

    def func_ptr(self, f):
        o = self.fobj.get(id(f))
        if o is None:
            o = self.new_obj('fn:' + f.name, 'func', 0)
            o.fn = f
            self.fobj[id(f)] = o
        return Ptr(o.id)

    def ext_func_ptr(self, name):
        o = self.fobj.get(name)
        if o is None:
            o = self.new_obj('fn:' + name, 'func', 0)
            o.fn = name
            self.fobj[name] = o
        return Ptr(o.id)

    def find_global(self, name, mod):
        """-> ('f', Function) / ('v', Global) / ('x', name)"""
        f = mod.funcs.get(name)
        if f is not None:
            return ('f', f)
        g = mod.globals.get(name)
        if g is not None and g.init is not None:
            return ('v', g)
        f = self.funcs.get(name)
        if f is not None:
            return ('f', f)
        for m in self.modules:
            g2 = m.globals.get(name)
            if g2 is not None and g2.init is not None:
                return ('v', g2)
        return ('x', name)

    def global_ptr(self, name, mod):
        k, x = self.find_global(name, mod)
        if k == 'f':
            return self.func_ptr(x)
        if k == 'x':
            if name in mod.globals:
                o = self.globals.get(('ext', name))
                if o is None:
                    o = self.new_obj(name, 'rec', max(8, mod.globals[name].ty.size), 'sym')
                    self.globals[('ext', name)] = o
                    self.ginit[o.id] = Rec()
                return Ptr(o.id)
            return self.ext_func_ptr(name)
        o = self.globals.get(id(x))
        if o is None:
            o = self.make_global(x)
        return Ptr(o.id)

    ginit = None

    def make_global(self, g):
        if self.ginit is None:
            self.ginit = {}
        t = g.ty
        leaf = t
        while leaf.k == 'arr':
            leaf = leaf.elem
        if t.k == 'arr' and t.size > 64 or (t.k == 'arr' and leaf.k == 'int' and leaf.w >= 8):
            stride = leaf.size
            o = self.new_obj(g.name, 'arr', t.size, 'zero')
            o.stride = stride
            o.ro = g.const
            self.globals[id(g)] = o
            flds = {}
            n = t.size // stride
            vals = {}

            def put(ty, v, off):
                if ty.k == 'arr':
                    if v[0] == 'zero':
                        return
                    if v[0] == 'bytes':
                        for i, b in enumerate(v[1]):
                            vals.setdefault((0, 1), {})[off + i] = b
                        return
                    for i, (et, ev) in enumerate(v[1]):
                        put(et, ev, off + i * ty.elem.size)
                elif ty.k == 'struct':
                    if v[0] == 'zero':
                        return
                    for i, (et, ev) in enumerate(v[1]):
                        put(et, ev, off + ty.offs[i])
                else:
                    if v[0] in ('zero', 'null', 'undef'):
                        return
                    vals.setdefault((off % stride, ty.size), {})[off // stride] = self.const(v, ty, g.module)
            put(t, g.init, 0)
            for k, d in vals.items():
                if any(isinstance(v, Ptr) for v in d.values()):
                    # array of structs with pointers: keep as a record
                    o.kind = 'rec'
                    o.stride = None
                    r = Rec()
                    for k2, d2 in vals.items():
                        for i, v in d2.items():
                            r.d[i * stride + k2[0]] = (k2[1], v)
                    self.ginit[o.id] = r
                    return o
                lst = [d.get(i, 0) for i in range(n)]
                flds[k] = Table(lst, k[1] * 8)
            if not g.const:
                pass
            self.ginit[o.id] = Arr(flds)
            return o
        o = self.new_obj(g.name, 'rec', t.size, 'zero')
        o.ro = g.const
        self.globals[id(g)] = o
        r = Rec()
        self.ginit[o.id] = r

        def put2(ty, v, off):
            if v[0] == 'zero':
                return
            if ty.k == 'arr':
                if v[0] == 'bytes':
                    for i, b in enumerate(v[1]):
                        r.d[off + i] = (1, b)
                    return
                for i, (et, ev) in enumerate(v[1]):
                    put2(et, ev, off + i * ty.elem.size)
            elif ty.k == 'struct':
                for i, (et, ev) in enumerate(v[1]):
                    put2(et, ev, off + ty.offs[i])
            else:
                if v[0] == 'undef':
                    return
                r.d[off] = (ty.size, self.const(v, ty, g.module))
        put2(t, g.init, 0)
        return o

    def const(self, v, ty, mod):
        k = v[0]
        if k == 'c':
            if ty.k == 'int' and ty.w == 1:
                return bool(v[1])
            return v[1]
        if k == 'null':
            return NULL
        if k == 'zero':
            return 0 if ty.k == 'int' else NULL
        if k == 'g':
            return self.global_ptr(v[1], mod)
        if k == 'undef':
            return UNDEF
        if k == 'fp':
            s = v[1]
            if s.startswith('0x'):
                import struct
                return FV('c', struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0])
            return FV('c', float(s))
        if k == 'cgep':
            base = self.const(v[2][0][1], PTR_T, mod)
            ops = [(t, self.const(x, t, mod)) for t, x in v[2][1:]]
            return self.gep(base, v[1], ops)
        if k == 'ccast':
            a = self.const(v[3], v[2], mod)
            return self.do_cast(v[1], a, v[2], v[4])
        if k == 'cbin':
            return bin_op(v[1], self.const(v[3], v[2], mod), self.const(v[4], v[2], mod), v[2].w)
        raise Unsupported('constant %r' % (v,))

    # ------------------------------------------------------------------ solver
    def sync(self, node):
        path = []
        n = node
        d = len(self.sstack)
        while n is not None and not (n.depth <= d and self.sstack[n.depth - 1] is n):
            path.append(n)
            n = n.parent
        keep = n.depth if n is not None else 0
        if keep < d:
            self.solver.pop(d - keep)
            del self.sstack[keep:]
        for n in reversed(path):
            self.solver.push()
            self.solver.add(n.cond)
            self.sstack.append(n)

    def query(self, st, cond):
        """sat/unsat/unknown of pc && cond"""
        if cond is False:
            return z3.unsat
        self.tick()
        self.sync(st.pc)
        t = time.time()
        if cond is True:
            r = self.solver.check()
        else:
            r = self.solver.check(bl(cond)) if self._is_lit(cond) else self._check_push(cond)
        self.stats['queries'] += 1
        dt = time.time() - t
        self.stats['qtime'] += dt
        if dt > 0.7 and self.opts.get('slow'):
            ss = z3.Solver()
            ss.add(*self.pc_list(st))
            ss.add(bl(cond))
            self.stats['slow'] = self.stats.get('slow', 0) + 1
            open('%s/q%d_%s_%.1f.smt2' % (self.opts['slow'], self.stats['slow'], r, dt), 'w').write(ss.to_smt2())
        return r

    @staticmethod
    def _is_lit(c):
        return False

    def _check_push(self, cond):
        self.solver.push()
        self.solver.add(bl(cond))
        r = self.solver.check()
        if r == z3.sat:
            self._model = self.solver.model()
        self.solver.pop()
        return r

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Timeout()

    def feasible(self, st, cond, ms=None):
        if cond is True:
            return True
        if cond is False:
            return False
        if self.pure:
            return True
        budget(self.solver, ms or self.opts.get('feas_ms', 300))
        try:
            return self.query(st, cond) != z3.unsat
        finally:
            budget(self.solver, self.solver_ms)

    def pc_list(self, st):
        out = []
        n = st.pc
        while n is not None:
            out.append(n.cond)
            n = n.parent
        out.reverse()
        return out

    def heavy(self, st, cond):
        """last resort for a goal the incremental solver gave up on: fresh solvers"""
        self.stats['heavy'] += 1
        pcs = self.pc_list(st)
        t = time.time()
        try:
            s = z3.SolverFor('QF_UFBV')
            budget(s, self.heavy_ms)
            s.add(*pcs)
            s.add(bl(cond))
            r = s.check()
            if r == z3.sat:
                self._model = s.model()
            if r == z3.unknown:
                tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'bit-blast', 'sat')
                s = tac.solver()
                budget(s, self.heavy_ms)
                s.add(*pcs)
                s.add(bl(cond))
                r = s.check()
                if r == z3.sat:
                    r = z3.unknown if self.mode == 'P' else r
                    if r == z3.sat:
                        self._model = s.model()
            return r
        finally:
            self.stats['qtime'] += time.time() - t

    def lia_query(self, st, cond, ms):
        nodes = []
        n = st.pc
        while n is not None:
            nodes.append(n)
            n = n.parent
        nodes.reverse()
        t = time.time()
        try:
            r = self.lia.check(nodes, bl(cond), ms)
        finally:
            dt = time.time() - t
            self.stats['qtime'] += dt
            self.stats['lia'] = self.stats.get('lia', 0) + 1
            self.stats['liatime'] = self.stats.get('liatime', 0) + dt
        if self.opts.get('slow') and r != z3.unsat:
            ss = z3.Solver()
            ss.add(*[x.cond for x in nodes])
            ss.add(bl(cond))
            open('%s/l%d_%.1f.smt2' % (self.opts['slow'], self.stats['lia'], dt), 'w').write(ss.to_smt2())
        self.stats['lia_' + str(r)] = self.stats.get('lia_' + str(r), 0) + 1
        return r

    def expand_cuts(self, st, e):
        save = self.cur
        self.cur = st
        try:
            for _ in range(40):
                sub = []
                seen = set()
                wl = [e]
                while wl:
                    x = wl.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        b = BASES.get(x.decl().name())
                        if b is not None and b.mode == 'cut':
                            v = b.prev.read(Ix.of_e(x.arg(0)), self)
                            sub.append((x, bv(v, b.w)))
                            continue
                    wl.extend(x.children())
                if not sub:
                    return e
                e = z3.substitute(e, *sub)
            return e
        finally:
            self.cur = save

    def split_prove(self, st, goal):
        """decide the conditionals of a goal one after the other, splitting the proof where the path decides neither"""
        st = st.fork()
        end = time.time() + self.opts.get('split_s', 90)
        nodes = [0]
        g0 = z3.simplify(self.expand_cuts(st, bl(goal)))
        self.stats['split'] = self.stats.get('split', 0) + 1

        def atom(e):
            """a decidable condition of the first conditional in e"""
            seen = set()
            wl = [e]
            while wl:
                x = wl.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    return cond_atom(x.arg(0))
                wl.extend(reversed(x.children()))
            return None

        def cond_atom(c):
            while True:
                k = c.decl().kind()
                if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or \
                        k == z3.Z3_OP_EQ and z3.is_bool(c.arg(0)):
                    c = c.arg(0)
                    continue
                a = atom(c)
                return a if a is not None else c

        def rec(s, g):
            nodes[0] += 1
            if z3.is_true(g):
                return z3.unsat
            if time.time() > end or nodes[0] > 400:
                return z3.unknown
            while True:
                c = atom(g)
                if c is None:
                    break
                t = self.feasible(s, c)
                f = self.feasible(s, z3.Not(c)) if t else True
                if t and f:
                    break
                g = z3.simplify(z3.substitute(g, (c, z3.BoolVal(t))))
                if z3.is_true(g):
                    return z3.unsat
                if time.time() > end:
                    return z3.unknown
            if c is None:
                budget(self.solver, 10000)
                try:
                    return self.query(s, z3.Not(g))
                finally:
                    budget(self.solver, self.solver_ms)
            for v in (True, False):
                s2 = s.fork()
                s2.pc = PC(s2.pc, c if v else z3.Not(c), 'as')
                r = rec(s2, z3.simplify(z3.substitute(g, (c, z3.BoolVal(v)))))
                if r != z3.unsat:
                    return r
            return z3.unsat
        r = rec(st, g0)
        if self.opts.get('debug'):
            print('SPLIT', r, nodes[0], '%.1f' % (time.time() - end + self.opts.get('split_s', 90)))
        return r

    # ------------------------------------------------------------------ obligations
    def where(self, fr):
        return fr.fn.name[1:] if fr is not None else '?'

    def oblige(self, st, cond, label, fr, fatal=False):
        """obligation: cond must hold.  Returns False when the path cannot continue."""
        if self.pure or self.quiet:
            if cond is False:
                return False
            st.add(cond, 'as')
            return True
        w = self.where(fr)
        if label.startswith('UB:'):
            wanted = self.want_ub(label[3:], w)
        else:
            wanted = self.want(label)
        if not wanted:
            if cond is True:
                return True
            self.stats['assumed'][label.split(':')[0] + ':' + label.split(':')[1] if ':' in label else label] = \
                self.stats['assumed'].get(label, 0) + 1
            if cond is False:
                return False
            st.add(cond, 'as')
            return True
        ob = Ob(label, w)
        ob.n = 1
        ob.lossy = st.lossy
        self.obs.append(ob)
        if cond is True:
            ob.status = 'trivial'
            return True
        t = time.time()
        self._model = None
        r = self.query(st, b_not(cond))
        if r == z3.unknown:
            r = self.lia_query(st, b_not(cond), self.opts.get('lia_ms', 20000))
        if r == z3.unknown:
            r = self.split_prove(st, cond)
        if r == z3.unknown:
            r = self.heavy(st, b_not(cond))
        ob.time = time.time() - t
        if r == z3.unsat:
            ob.status = 'proved'
            ob.detail = ''
        elif r == z3.sat:
            # is the path itself feasible?  (it is: the negation is satisfiable)
            ob.status = 'failed'
            m0 = self._model
            if self.mode == 'P' and not cond is False:
                self.refine_model(st, b_not(cond))
            elif self.mode == 'P':
                self.refine_model(st, True)
            ob.model = self.extract_model(st, self._model or m0)
            ob.detail = ' <- '.join(x for x in reversed(self.callstack[-6:]))
        else:
            ob.status = 'unknown'
            ob.detail = ' <- '.join(x for x in reversed(self.callstack[-6:]))
        if ob.status == 'failed' and self.stop_on_fail:
            raise StopRun()
        if cond is False:
            return False
        if ob.status == 'proved' and label.startswith('UB:'):
            return True
        st.add(cond, 'as')
        return True

    def refine_model(self, st, neg):
        """a counterexample that also respects what the proof abstracts (products, character widths), so that it can be
        replayed on the real code; the verdict does not depend on it"""
        t = time.time()
        ext = []
        for a, s, p in st.prods:
            ext.append(a * s == p)
        for X, s, q in st.divs:
            ext.append(q == z3.If(s > 0, X / s, q))
        pcs = self.pc_list(st)
        seen = set()
        wl = list(pcs) + [bl(neg)]
        args = {}
        while wl:
            x = wl.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.decl().name() == 'uf_wcwidth':
                    args[x.arg(0).get_id()] = x
                for j in range(x.num_args()):
                    wl.append(x.arg(j))
        for x in args.values():
            c = x.arg(0)
            U = z3.ULT
            ext.append(z3.Or(z3.And(x == 1, z3.Or(z3.And(z3.UGE(c, 32), U(c, 127)), z3.And(z3.UGE(c, 0xa0), U(c, 0x300)), c == MASK[32],
                                                  z3.And(z3.UGE(c, 0x2190), U(c, 0x2300)))),
                             z3.And(x == 2, z3.UGE(c, 0x4e00), U(c, 0x9fff)), z3.And(x == 0, z3.UGE(c, 0x300), U(c, 0x370)),
                             z3.And(x == 0, c == 0), z3.And(x == MASK[32], z3.Or(U(c, 32), z3.And(z3.UGE(c, 127), U(c, 0xa0))))))
        small = [z3.And(s <= 24, z3.And(*[z3.Implies(a2 >= 0, a2 <= 24) for a2, s2, _ in st.prods if z3.is_const(a2)])) for s in self.scales]
        for extra in (small, []):
            s = z3.SolverFor('QF_UFBV')
            budget(s, 10000)
            s.add(*pcs)
            s.add(bl(neg))
            s.add(*ext)
            s.add(*extra)
            if s.check() == z3.sat:
                self._model = s.model()
                break
        self.stats['qtime'] += time.time() - t

    def extract_model(self, st, m):
        if m is None:
            return None
        out = {'nd': [], 'arr': {}}
        for name, e, w in st.nds:
            if type(e) is int:
                v = e
            elif type(e) is bool:
                v = int(e)
            else:
                v = m.eval(bl(e) if isinstance(e, bool) else e, model_completion=True)
                v = v.as_long() if z3.is_bv_value(v) else int(z3.is_true(v))
            out['nd'].append((name, v, w))
        # array contents: every index of a symbolic base that was touched on this path
        for key, ix in st.touched.items():
            if len(key) == 3:
                continue
            oid = key[0]
            o = self.objs[oid]
            if o.init != 'sym' or o.kind != 'arr':
                continue
            i = m.eval(bv(ix.e, 32), model_completion=True).as_long()
            a = out['arr'].setdefault(o.name, {})
            for (bid, k), b in list(_bases_items()):
                if bid == oid and b.uf is not None:
                    v = m.eval(b.uf(z3.BitVecVal(i, 32)), model_completion=True)
                    a.setdefault(i, {})['%d.%d' % k] = v.as_long()
        return out

    # ------------------------------------------------------------------ touch hooks
    def on_touch(self, obj, ix):
        self.tlog.append((obj, ix))
        st = self.cur
        if st is None:
            return
        k = (obj.id, ix.key)
        if isinstance(obj, Cut):
            k = (obj.id, ix.key, 'c')
            if k not in st.touched:
                st.touched[k] = ix
                v = obj.prev.read(ix, self)
                st.add(bv(obj.read(ix, self), obj.w) == bv(v, obj.w), 'fact')
            return
        if self.in_hook or not obj.hooks:
            if k not in st.touched:
                st.touched[k] = ix
            return
        h = (obj.id, ix.key, 'h')
        if h in st.touched:
            return
        st.touched[k] = ix
        st.touched[h] = ix
        self.stats['touch'] += 1
        self.in_hook = True
        save = self.cur
        try:
            for fn, base in obj.hooks:
                tmp = st.fork()
                self.pure += 1
                try:
                    arg = ix.e if type(ix.e) is int else ix.e
                    outs = self.call(tmp, fn, [base, arg], None)
                finally:
                    self.pure -= 1
                base_pc = st.pc
                r = self.merge_bool(outs, base_pc, fn.rty.w)
                self.import_facts(st, outs, base_pc)
                st.touched.update(outs[0][1].touched if len(outs) == 1 else {})
                n = obj.sizelin
                rng = cmp_op('ult', ix.e, n, 32) if n is not None else True
                f = b_or(b_not(rng), r)
                if f is not True:
                    st.add(f, 'fact')
        finally:
            self.in_hook = False
            self.cur = save

    def import_facts(self, st, outs, base):
        seen = set()
        for _, s in outs:
            for n in self.suffix(s.pc, base):
                if n.kind == 'fact' and n.cond.get_id() not in seen:
                    seen.add(n.cond.get_id())
                    st.pc = PC(st.pc, n.cond, 'fact')
            st.prods = st.prods + tuple(x for x in s.prods if not any(x[0].eq(y[0]) and x[1].eq(y[1]) for y in st.prods))
            st.divs = st.divs + tuple(x for x in s.divs if not any(x[0].eq(y[0]) and x[1].eq(y[1]) for y in st.divs))

    def merge_bool(self, outs, base, w):
        r = False
        for (v, s) in outs:
            c = [n.cond for n in self.suffix(s.pc, base) if n.kind != 'fact']
            r = b_or(r, b_and(*(c + [bv_to_bool(v, w) if not isinstance(v, (bool, z3.BoolRef)) else v])))
        if not isinstance(r, bool):
            r = z3.simplify(r)
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return False
        return r

    def suffix(self, node, base):
        out = []
        while node is not base:
            out.append(node)
            node = node.parent
        out.reverse()
        return out

    # ------------------------------------------------------------------ memory access
    def content(self, st, o):
        c = st.mem.get(o.id)
        if c is None:
            if self.ginit and o.id in self.ginit:
                c = self.ginit[o.id]
            elif o.kind == 'arr':
                c = Arr()
            else:
                c = Rec()
            st.mem[o.id] = c
        return c

    def fresh(self, w, name='u'):
        if w == 1:
            return z3.Bool(fresh_name(name))
        return z3.BitVec(fresh_name(name), w)

    def arr_index(self, o, off, stride):
        q = off.div(stride)
        if q is None:
            raise Unsupported('offset %r not a multiple of the stride %d of %s' % (off, stride, o.name))
        return Ix(q[0]), q[1]

    def guess_stride(self, o, off, size):
        if o.stride:
            return o.stride
        g = 0
        for _, k, _ in off.t:
            g = math.gcd(g, abs(k))
        s = o.sizelin_bytes if hasattr(o, 'sizelin_bytes') else None
        if isinstance(o.size, Lin):
            gg = abs(o.size.c)
            for _, k, _ in o.size.t:
                gg = math.gcd(gg, abs(k))
            if gg and gg <= 64:
                g = gg
        if g == 0:
            g = 1
        o.stride = g
        return g

    def check_bounds(self, st, p, o, size, fr, wr):
        if o.kind == 'func':
            return self.oblige(st, False, 'UB:access to a function', fr)
        if o.id in st.freed:
            return self.oblige(st, False, 'UB:use after free of %s' % o.name, fr)
        off = p.off
        if wr and o.ro:
            return self.oblige(st, False, 'UB:write to constant %s' % o.name, fr)
        lo, hi = 0, None
        if p.win:
            lo, hi = p.win
        if hi is None and type(o.size) is int:
            hi = o.size
        if not off.t and hi is not None:
            ok = lo <= off.c and off.c + size <= hi
            return self.oblige(st, ok, 'UB:out-of-bounds access to %s' % o.name, fr) if not ok or not self.pure else True
        if o.kind == 'arr':
            stride = self.guess_stride(o, off, size)
            q = off.div(stride)
            if q is None:
                raise Unsupported('bounds of %s' % o.name)
            ix = Ix(q[0])
            n = self.nelem(o)
            extra = 0
            if q[1] + size > stride:
                extra = (q[1] + size - 1) // stride
            if lo == 0 and (hi is None or hi == o.size):
                c = cmp_op('ult', ix.e, n, 32)
                if extra:
                    e2 = Ix(q[0].add(Lin(extra)))
                    c = b_and(c, cmp_op('ult', e2.e, n, 32))
            else:
                a = Ix(q[0].add(Lin(-(lo // stride))))
                c = cmp_op('ult', a.e, (hi - lo) // stride, 32)
            return self.oblige(st, c, 'UB:out-of-bounds access to %s' % o.name, fr)
        # record with a symbolic offset
        e = off.add(Lin(-lo)).bv(64)
        c = cmp_op('ule', e, hi - lo - size, 64)
        return self.oblige(st, c, 'UB:out-of-bounds access to %s' % o.name, fr)

    def nelem(self, o):
        if o.sizelin is not None:
            return o.sizelin
        if type(o.size) is int:
            o.sizelin = o.size // o.stride
        else:
            q = o.size.div(o.stride)
            if q is None:
                raise Unsupported('size of %s' % o.name)
            o.sizelin = Ix(q[0]).e
        return o.sizelin

    def resolve(self, st, p, fr, what):
        """pointer -> (ptr, obj) after the non-null obligation, or None if the path ends"""
        if isinstance(p, Undef):
            self.oblige(st, False, 'UB:%s through an indeterminate pointer' % what, fr)
            return None
        if not isinstance(p, Ptr):
            if type(p) is int and p == 0:
                self.oblige(st, False, 'UB:null pointer %s' % what, fr)
                return None
            raise Unsupported('%s through an integer %r' % (what, p))
        if p.obj is None:
            self.oblige(st, False, 'UB:null pointer %s' % what, fr)
            return None
        if p.null is not False:
            if not self.oblige(st, b_not(p.null), 'UB:null pointer %s' % what, fr):
                return None
        elif not self.pure and not self.quiet:
            pass
        return self.objs[p.obj]

    def load(self, st, p, ty, fr):
        """-> value or None when the path ends"""
        o = self.resolve(st, p, fr, 'read')
        if o is None:
            return None
        size = (ty.w + 7) // 8 if ty.k == 'int' else ty.size
        if not self.check_bounds(st, p, o, size, fr, False):
            return None
        v = self.read_raw(st, p, o, size, ty, fr)
        return self.from_mem(v, ty, fr, st)

    def from_mem(self, v, ty, fr, st):
        if isinstance(v, Undef):
            if self.uninit and not self.pure:
                self.oblige(st, False, 'UB:read of uninitialised memory', fr)
            if ty.k == 'int':
                return self.fresh(ty.w, 'undef')
            if ty.k == 'ptr':
                return UNDEF
            return FV('undef', fresh_name('f'))
        if ty.k == 'int' and ty.w == 1:
            if isinstance(v, (bool, z3.BoolRef)):
                return v
            return bv_to_bool(v, 8)
        if ty.k == 'ptr' and not isinstance(v, Ptr):
            if type(v) is int and v == 0:
                return NULL
            raise Unsupported('pointer load of %r' % (v,))
        if ty.k == 'int' and isinstance(v, Ptr):
            if v.obj is None:
                return 0
            raise Unsupported('integer load of a pointer')
        return v

    def sub_arr(self, c, off, win):
        for lo, (hi, stride, a) in c.sub.items():
            if not off.t:
                if lo <= off.c < hi:
                    return lo
            elif win and lo <= win[0] and win[1] <= hi:
                return lo
        return None

    def read_raw(self, st, p, o, size, ty, fr):
        c = self.content(st, o)
        off = p.off
        self.cur = st
        if isinstance(c, Arr):
            return self.arr_read(o, c, off, size, self.guess_stride(o, off, size))
        lo = self.sub_arr(c, off, p.win) if c.sub else None
        if lo is not None:
            hi, stride, a = c.sub[lo]
            return self.arr_read(o, a, off.add(Lin(-lo)), size, stride)
        if not off.t:
            return self.rec_read(st, o, c, off.c, size, ty)
        cands = self.cands(o, off, size, p.win)
        r = None
        for cc, co in cands:
            v = self.rec_read(st, o, self.content(st, o), co, size, ty)
            if isinstance(v, Undef):
                v = self.fresh(size * 8, 'undef') if ty.k == 'int' else v
            v = self.from_mem(v, ty, fr, st)
            if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                v = bool_to_bv(v, 8)
            r = v if r is None else self.ite_val(cc, v, r, size * 8)
        return r

    def cands(self, o, off, size, win):
        lo, hi = win if win else (0, o.size)
        if len(off.t) != 1:
            g = 0
            for _, k, _ in off.t:
                g = math.gcd(g, abs(k))
        else:
            g = abs(off.t[0][1])
        out = []
        first = lo + ((off.c - lo) % g)
        if (hi - size - first) // g > 2100:
            raise Unsupported('symbolic offset into big record %s' % o.name)
        if len(off.t) == 1 and off.t[0][1] > 0:
            kind, e = off.t[0][2]
            w = 64 if kind == '64' else 32
            for co in range(first, hi - size + 1, g):
                out.append((eq(e, ((co - off.c) // g) & MASK[w], w), co))
        else:
            e = off.bv(64)
            for co in range(first, hi - size + 1, g):
                out.append((eq(e, co & MASK[64], 64), co))
        return out

    def arr_read(self, o, c, off, size, stride):
        ix, f = self.arr_index(o, off, stride)
        if stride == 1 and size > 1:
            bs = []
            for i in range(size):
                bs.append(field_node(o, c, (0, 1)).read(Ix(off.add(Lin(i))) if i else ix, self))
            return join_bytes(bs)
        k = (f, size)
        if k in c.f or not any(a < f + size and f < a + b for a, b in c.f):
            return field_node(o, c, k).read(ix, self)
        # read of a part / of several fields
        bs = []
        for i in range(size):
            ff = (f + i)
            for (a, b) in c.f:
                if a <= ff < a + b:
                    bs.append(byte_of(c.f[(a, b)].read(ix, self), b, ff - a))
                    break
            else:
                bs.append(field_node(o, c, (ff, 1)).read(ix, self))
        return join_bytes(bs)

    def rec_read(self, st, o, c, off, size, ty):
        e = c.d.get(off)
        if e is not None and e[0] == size:
            return e[1]
        # covered by bytes?
        parts = []
        missing = True
        for b in range(off, off + size):
            hit = None
            for a in range(b, b - 16, -1):
                x = c.d.get(a)
                if x is not None:
                    if a + x[0] > b:
                        hit = (a, x)
                    break
            parts.append(hit)
            if hit is not None:
                missing = False
        if missing:
            if o.init == 'zero':
                if ty is not None and ty.k == 'ptr':
                    return NULL
                return 0
            if o.init == 'undef':
                return UNDEF
            if ty is not None and ty.k == 'ptr':
                raise Unsupported('symbolic pointer in %s+%d' % (o.name, off))
            v = z3.BitVec('%s@%d+%d' % (o.name, o.id, off), size * 8)
            c2 = c.copy()
            c2.d[off] = (size, v)
            st.mem[o.id] = c2
            return v
        bs = []
        for i, h in enumerate(parts):
            if h is None:
                if o.init == 'zero':
                    bs.append(0)
                elif o.init == 'undef':
                    bs.append(z3.BitVec('undef%d+%d' % (o.id, off + i), 8))
                else:
                    bs.append(z3.BitVec('%s@%d+%d.b' % (o.name, o.id, off + i), 8))
            else:
                a, x = h
                b = byte_of(x[1], x[0], off + i - a)
                if isinstance(b, Undef):
                    b = self.fresh(8, 'undef')
                bs.append(b)
        return join_bytes(bs)

    def store(self, st, p, v, ty, fr):
        o = self.resolve(st, p, fr, 'write')
        if o is None:
            return False
        size = (ty.w + 7) // 8 if ty.k == 'int' else ty.size
        if not self.check_bounds(st, p, o, size, fr, True):
            return False
        self.write_raw(st, p, o, size, v, ty)
        return True

    def write_raw(self, st, p, o, size, v, ty):
        if ty is not None and ty.k == 'int' and ty.w == 1:
            v = bool_to_bv(v, 8)
        c = self.content(st, o)
        off = p.off
        self.cur = st
        if isinstance(c, Arr):
            st.mem[o.id] = self.arr_write(o, c, off, size, v, self.guess_stride(o, off, size))
            return
        lo = self.sub_arr(c, off, p.win) if c.sub else None
        if lo is not None:
            hi, stride, a = c.sub[lo]
            c2 = Rec(c.d, dict(c.sub))
            c2.sub[lo] = (hi, stride, self.arr_write(o, a, off.add(Lin(-lo)), size, v, stride))
            st.mem[o.id] = c2
            return
        if not off.t:
            st.mem[o.id] = self.rec_write(o, c, off.c, size, v)
            return
        for cc, co in self.cands(o, off, size, p.win):
            old = self.rec_read(st, o, self.content(st, o), co, size, ty)
            if isinstance(old, Undef):
                old = self.fresh(size * 8, 'undef')
            st.mem[o.id] = self.rec_write(o, self.content(st, o), co, size, self.ite_val(cc, v, old, size * 8))

    def ite_val(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ite_ptr(c, a, b)
        if isinstance(a, FV) or isinstance(b, FV):
            if same(a, b):
                return a
            return FV('ite', c, a, b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return b_ite(c, a, b)
        if isinstance(a, Undef):
            return a if isinstance(b, Undef) else ite(c, self.fresh(w, 'undef'), b, w)
        if isinstance(b, Undef):
            return ite(c, a, self.fresh(w, 'undef'), w)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise MergeFail()
        return ite(c, a, b, w)

    def ite_ptr(self, c, a, b):
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise MergeFail()
        if a.obj is None and b.obj is None:
            return a
        if a.obj is None:
            return Ptr(b.obj, b.off, b_or(c, b.null), b.win)
        if b.obj is None:
            return Ptr(a.obj, a.off, b_or(b_not(c), a.null), a.win)
        if a.obj != b.obj:
            raise MergeFail()
        if not a.off.same(b.off):
            d = a.off.add(b.off, -1)
            # same stride?
            g = 0
            for _, k, _ in d.t:
                g = math.gcd(g, abs(k))
            g = math.gcd(g, abs(d.c))
            o = self.objs[a.obj]
            if o.stride and g % o.stride == 0 and o.stride:
                s = o.stride
                qa, qb = a.off.div(s), b.off.div(s)
                if qa and qb and qa[1] == qb[1]:
                    e = ite(c, Ix(qa[0]).e, Ix(qb[0]).e, 32)
                    off = Lin(qa[1]).add(atomize(e).mul(s))
                    return Ptr(a.obj, off, b_ite(c, a.null, b.null), a.win if a.win == b.win else None)
            if not d.t and not a.off.t and g > 0 and o.kind == 'rec':
                e = ite(c, a.off.c // g & MASK[32], b.off.c // g & MASK[32], 32)
                if a.off.c % g == b.off.c % g:
                    off = Lin(a.off.c % g).add(Lin.leaf('s32', e).mul(g))
                    return Ptr(a.obj, off, b_ite(c, a.null, b.null), a.win if a.win == b.win else None)
            raise MergeFail()
        return Ptr(a.obj, a.off, b_ite(c, a.null, b.null), a.win if a.win == b.win else None)

    def arr_write(self, o, c, off, size, v, stride):
        ix, f = self.arr_index(o, off, stride)
        if stride == 1 and size > 1:
            for i in range(size):
                node = field_node(o, c, (0, 1))
                c = c.with_field((0, 1), Store(node, Ix(off.add(Lin(i))) if i else ix, byte_of(v, size, i)))
            return c
        if f + size > stride:
            raise Unsupported('write across elements of %s' % o.name)
        if isinstance(v, Lin):
            v = v.bv(size * 8)
        if isinstance(v, Undef):
            v = self.fresh(size * 8, 'undef')
        if isinstance(v, (Ptr, FV)):
            raise Unsupported('pointer stored into array %s' % o.name)
        k = (f, size)
        if k in c.f or not any(a < f + size and f < a + b for a, b in c.f):
            return c.with_field(k, Store(field_node(o, c, k), ix, v))
        covered = [x for x in c.f if x[0] < f + size and f < x[0] + x[1]]
        for (a, b) in covered:
            if a >= f and a + b <= f + size:
                bs = [byte_of(v, size, a - f + i) for i in range(b)]
                c = c.with_field((a, b), Store(c.f[(a, b)], ix, join_bytes(bs)))
            else:
                old = c.f[(a, b)].read(ix, self)
                bs = [byte_of(v, size, a + i - f) if f <= a + i < f + size else byte_of(old, b, i) for i in range(b)]
                c = c.with_field((a, b), Store(c.f[(a, b)], ix, join_bytes(bs)))
        return c

    def rec_write(self, o, c, off, size, v):
        c2 = c.copy()
        d = c2.d
        e = d.get(off)
        if e is not None and e[0] == size:
            d[off] = (size, v)
            # nothing can overlap otherwise
            return c2
        # split overlapping entries
        for a in range(off - 15, off + size):
            x = d.get(a)
            if x is None or a + x[0] <= off:
                continue
            del d[a]
            for i in range(x[0]):
                if not (off <= a + i < off + size):
                    b = byte_of(x[1], x[0], i)
                    d[a + i] = (1, b)
        if o.init == 'sym':
            # entries not yet materialised that straddle the write: nothing to do, bytes are created lazily
            pass
        d[off] = (size, v)
        return c2

    # ------------------------------------------------------------------ bulk operations
    def copy_bytes(self, st, dst, src, n, fr, move=False):
        """memcpy/memmove; n: int or Lin/z3 (64 bit)"""
        if not isinstance(n, int):
            n2 = tobv(n, 64)
            if type(n2) is int:
                n = n2
        if type(n) is int and n == 0:
            return True
        do = self.resolve(st, dst, fr, 'write')
        so = self.resolve(st, src, fr, 'read')
        if do is None or so is None:
            return False
        for o in (do, so):
            if o.id in st.freed:
                return self.oblige(st, False, 'UB:use after free of %s' % o.name, fr)
        dc = self.content(st, do)
        sc = self.content(st, so)
        darr = isinstance(dc, Arr) or (dc.sub and self.sub_arr(dc, dst.off, dst.win) is not None)
        sarr = isinstance(sc, Arr) or (sc.sub and self.sub_arr(sc, src.off, src.win) is not None)
        if darr and sarr:
            return self.copy_arr(st, dst, do, src, so, n, fr, move)
        if type(n) is not int:
            if darr or sarr:
                return self.copy_arr_rec(st, dst, do, src, so, n, fr)
            raise Unsupported('memcpy of symbolic length between records')
        if not darr and not sarr:
            if dst.off.t or src.off.t:
                raise Unsupported('memcpy at symbolic record offset')
            if not self.check_bounds(st, dst, do, n, fr, True) or not self.check_bounds(st, src, so, n, fr, False):
                return False
            # materialise nothing: copy entries
            ents = {}
            a = src.off.c
            b = a + n
            pos = a
            keys = sorted(sc.d)
            cov = []
            for k in keys:
                sz, v = sc.d[k]
                if k + sz <= a or k >= b:
                    continue
                if k >= a and k + sz <= b:
                    cov.append((k, sz, v))
                else:
                    for i in range(sz):
                        if a <= k + i < b:
                            cov.append((k + i, 1, byte_of(v, sz, i)))
            full = sum(x[1] for x in cov)
            if full < n and so.init != do.init or (full < n and so.init == 'sym'):
                # missing bytes must be made explicit
                have = set()
                for k, sz, v in cov:
                    have.update(range(k, k + sz))
                for i in range(a, b):
                    if i not in have:
                        if so.init == 'zero':
                            cov.append((i, 1, 0))
                        elif so.init == 'undef':
                            cov.append((i, 1, UNDEF))
                        else:
                            cov.append((i, 1, z3.BitVec('%s@%d+%d.b' % (so.name, so.id, i), 8)))
            c2 = dc
            # clear destination range
            d2 = dict(dc.d)
            da = dst.off.c
            for k in list(d2):
                sz, v = d2[k]
                if k + sz <= da or k >= da + n:
                    continue
                del d2[k]
                for i in range(sz):
                    if not (da <= k + i < da + n):
                        d2[k + i] = (1, byte_of(v, sz, i))
            for k, sz, v in cov:
                d2[k - a + da] = (sz, v)
            sub = dict(dc.sub)
            for lo, (hi, stride, ar) in sc.sub.items():
                if lo >= a and hi <= b:
                    sub[lo - a + da] = (hi - a + da, stride, ar)
            st.mem[do.id] = Rec(d2, sub)
            return True
        return self.copy_arr_rec(st, dst, do, src, so, n, fr)

    def copy_arr_rec(self, st, dst, do, src, so, n, fr):
        dc, sc = self.content(st, do), self.content(st, so)
        darr = isinstance(dc, Arr) or (dc.sub and self.sub_arr(dc, dst.off, dst.win) is not None)
        if type(n) is int and n <= 4096:
            for p, o, wr in ((dst, do, True), (src, so, False)):
                if not self.check_bounds(st, p, o, n, fr, wr):
                    return False
            i8 = ir.int_t(8)
            self.cur = st
            if darr and not src.off.t:
                # whole entries of the record
                ents = [(k, e) for k, e in sc.d.items() if src.off.c <= k and k + e[0] <= src.off.c + n]
                if sum(e[0] for k, e in ents) == n and not any(isinstance(e[1], (Ptr, FV)) for k, e in ents):
                    for k, (sz, v) in sorted(ents, key=lambda x: x[0]):
                        self.write_raw(st, Ptr(do.id, dst.off.add(Lin(k - src.off.c)), False, dst.win), do, sz, v, None)
                    return True
            if not darr and not dst.off.t:
                a, off, lo = self.get_arr(st, src, so)
                stride = self.arr_stride(st, src, so)
                q = off.div(stride) if stride else None
                if q and q[1] == 0 and stride > 1 and n % stride == 0 and a.f and sum(k[1] for k in a.f) == stride:
                    for j in range(0, n, stride):
                        for k in sorted(a.f):
                            v = a.f[k].read(Ix(q[0].add(Lin(j // stride))), self)
                            st.mem[do.id] = self.rec_write(do, self.content(st, do), dst.off.c + j + k[0], k[1], v)
                    return True
            if darr:
                vals = []
                for i in range(n):
                    vals.append(self.rec_read(st, so, self.content(st, so), src.off.c + i, 1, i8))
                for i, v in enumerate(vals):
                    if isinstance(v, Undef):
                        v = self.fresh(8, 'undef')
                    self.write_raw(st, Ptr(do.id, dst.off.add(Lin(i)), False, dst.win), do, 1, v, i8)
            else:
                if dst.off.t:
                    raise Unsupported('copy to symbolic record offset')
                for i in range(n):
                    v = self.read_raw(st, Ptr(so.id, src.off.add(Lin(i)), False, src.win), so, 1, i8, fr)
                    st.mem[do.id] = self.rec_write(do, self.content(st, do), dst.off.c + i, 1, v)
            return True
        # symbolic length, bounded by the size of the record
        if darr:
            raise Unsupported('symbolic length copy record->array')
        e = tobv(n, 64)
        room = do.size - dst.off.c
        if not self.oblige(st, cmp_op('ule', e, room, 64), 'UB:copy overruns %s' % do.name, fr):
            return False
        if room > 256:
            raise Unsupported('long symbolic copy into record')
        i8 = ir.int_t(8)
        self.cur = st
        for i in range(room):
            v = self.read_raw(st, Ptr(so.id, src.off.add(Lin(i)), False, src.win), so, 1, i8, fr)
            old = self.rec_read(st, do, self.content(st, do), dst.off.c + i, 1, i8)
            if isinstance(old, Undef):
                old = self.fresh(8, 'undef')
            st.mem[do.id] = self.rec_write(do, self.content(st, do), dst.off.c + i, 1,
                                           ite(cmp_op('ugt', e, i, 64), v, old, 8))
        return True

    def get_arr(self, st, p, o):
        c = self.content(st, o)
        if isinstance(c, Arr):
            return c, p.off, None
        lo = self.sub_arr(c, p.off, p.win)
        return c.sub[lo][2], p.off.add(Lin(-lo)), lo

    def put_arr(self, st, o, lo, a):
        if lo is None:
            st.mem[o.id] = a
        else:
            c = self.content(st, o)
            c2 = Rec(c.d, dict(c.sub))
            hi, stride, _ = c.sub[lo]
            c2.sub[lo] = (hi, stride, a)
            st.mem[o.id] = c2

    def arr_stride(self, st, p, o):
        c = self.content(st, o)
        if isinstance(c, Arr):
            return o.stride
        return c.sub[self.sub_arr(c, p.off, p.win)][1]

    def copy_arr(self, st, dst, do, src, so, n, fr, move):
        sd, ss = self.arr_stride(st, dst, do), self.arr_stride(st, src, so)
        if sd is None and ss is None:
            sd = self.guess_stride(do, dst.off, 1)
            ss = self.guess_stride(so, src.off, 1)
        if ss is None:
            so.stride = ss = sd
        if sd is None:
            do.stride = sd = ss
        if sd != ss:
            cd0 = self.content(st, do)
            if isinstance(cd0, Arr) and not cd0.f:
                do.stride = sd = ss
                do.sizelin = None
            else:
                raise Unsupported('copy between strides %d and %d' % (sd, ss))
        s = sd
        sa, soff, slo = self.get_arr(st, src, so)
        da, doff, dlo = self.get_arr(st, dst, do)
        nl = self.div_len(n, s)
        si, f1 = self.arr_index(so, soff, s)
        di, f2 = self.arr_index(do, doff, s)
        if f1 or f2:
            raise Unsupported('copy from the middle of an element')
        for o, ix, lo, p, what in ((so, si, slo, src, 'read'), (do, di, dlo, dst, 'write')):
            if lo is None:
                tot = self.nelem(o)
            else:
                h, stt, _ = self.content(st, o).sub[lo]
                tot = (h - lo) // stt
            # n==0 or (ix <= tot and n <= tot - ix)
            c = b_or(eq(nl, 0, 32), b_and(cmp_op('ule', ix.e, tot, 32),
                                          cmp_op('ule', nl, bin_op('sub', tot, ix.e, 32), 32)))
            if not self.oblige(st, c, 'UB:copy %s out of bounds of %s' % (what, o.name), fr):
                return False
        if not move and so.id == do.id:
            d = bin_op('sub', di.e, si.e, 32)
            d2 = bin_op('sub', si.e, di.e, 32)
            c = b_or(eq(nl, 0, 32), b_and(cmp_op('uge', d, nl, 32), cmp_op('uge', d2, nl, 32)))
            if not self.oblige(st, c, 'UB:memcpy of overlapping areas', fr):
                return False
        flds = set(sa.f) | set(da.f)
        res = da
        delta = si.lin.add(di.lin, -1)
        if type(nl) is int and nl <= 4 and flds:
            self.cur = st
            for k in flds:
                vs = [field_node(so, sa, k).read(Ix(si.lin.add(Lin(i))), self) for i in range(nl)]
                for i, v in enumerate(vs):
                    res = res.with_field(k, Store(field_node(do, res, k), Ix(di.lin.add(Lin(i))), v))
            self.put_arr(st, do, dlo, res)
            return True
        for k in flds:
            snode = field_node(so, sa, k)
            dnode = field_node(do, da, k)

            def fn(ix, ex, snode=snode, delta=delta):
                return snode.read(Ix(ix.lin.add(delta)), ex)
            res = res.with_field(k, Fill(dnode, di, nl, fn))
        # fields not yet known on either side: those come from the base nodes and must be copied as well
        if not flds:
            if so.init in ('sym',) or do.init in ('sym',):
                k = (0, s)
                snode = field_node(so, sa, k)
                res = res.with_field(k, Fill(field_node(do, da, k), di, nl,
                                             lambda ix, ex: snode.read(Ix(ix.lin.add(delta)), ex)))
        self.put_arr(st, do, dlo, res)
        return True

    def div_len(self, n, s):
        """byte length -> element count (32-bit)"""
        if type(n) is int:
            if n % s:
                raise Unsupported('length %d not a multiple of %d' % (n, s))
            return n // s
        if isinstance(n, Lin):
            q = n.div(s)
            if q and q[1] == 0:
                return Ix(q[0]).e
        e = tobv(n, 64)
        if s == 1:
            return simp32(e)
        # x*s or x<<k pattern
        x = unscale(e, s)
        if x is not None:
            return simp32(x)
        raise Unsupported('length not recognisably a multiple of %d' % s)

    def set_bytes(self, st, dst, val, n, fr):
        o = self.resolve(st, dst, fr, 'write')
        if o is None:
            return False
        if not isinstance(n, int):
            n2 = tobv(n, 64)
            if type(n2) is int:
                n = n2
        c = self.content(st, o)
        if isinstance(c, Arr) or self.sub_arr(c, dst.off, dst.win) is not None:
            a, off, lo = self.get_arr(st, dst, o)
            s = self.arr_stride(st, dst, o) or self.guess_stride(o, off, 1)
            nl = self.div_len(n, s)
            di, f = self.arr_index(o, off, s)
            tot = self.nelem(o) if lo is None else (c.sub[lo][0] - lo) // s
            cc = b_and(cmp_op('ule', di.e, tot, 32), cmp_op('ule', nl, bin_op('sub', tot, di.e, 32), 32))
            if not self.oblige(st, cc, 'UB:memset out of bounds of %s' % o.name, fr):
                return False
            flds = set(a.f) or {(0, 1)} if s == 1 else set(a.f)
            if not flds and o.init == 'undef' and type(val) is int and val == 0 and di.key == 0:
                o.init = 'zero'
                return True
            for k in flds:
                v = join_bytes([val] * k[1])
                a = a.with_field(k, Fill(field_node(o, a, k), di, nl, lambda ix, ex, v=v: v))
            self.put_arr(st, o, lo, a)
            return True
        if type(n) is not int or dst.off.t:
            raise Unsupported('memset of symbolic extent on a record')
        if not self.check_bounds(st, dst, o, n, fr, True):
            return False
        d = dict(c.d)
        a = dst.off.c
        for k in list(d):
            sz, v = d[k]
            if k + sz <= a or k >= a + n:
                continue
            del d[k]
            for i in range(sz):
                if not (a <= k + i < a + n):
                    d[k + i] = (1, byte_of(v, sz, i))
        sub = dict(c.sub)
        for lo, (hi, s, ar) in c.sub.items():
            if lo >= a and hi <= a + n:
                ar2 = Arr()
                for k in set(ar.f) | {(0, s)}:
                    ar2 = ar2.with_field(k, Table([join_bytes([val] * k[1])] * ((hi - lo) // s), k[1] * 8))
                sub[lo] = (hi, s, ar2)
        if type(val) is int and val == 0 and a == 0 and n == o.size and o.init == 'undef' and not c.d:
            o.init = 'zero'
            st.mem[o.id] = Rec({}, sub)
            return True
        if type(val) is int and val == 0 and o.init == 'zero':
            st.mem[o.id] = Rec(d, sub)
            return True
        for i in range(a, a + n):
            d[i] = (1, val)
        # 8-byte groups of zero so that pointers/ints can be read back
        if type(val) is int:
            i = a
            while i < a + n:
                if i % 8 == 0 and i + 8 <= a + n:
                    for j in range(i, i + 8):
                        del d[j]
                    d[i] = (8, int.from_bytes(bytes([val] * 8), 'little'))
                    i += 8
                else:
                    i += 1
        st.mem[o.id] = Rec(d, sub)
        return True

    # ------------------------------------------------------------------ gep / casts
    def gep(self, base, bt, ops, st=None, fr=None):
        if isinstance(base, Undef):
            return base
        if not isinstance(base, Ptr):
            if type(base) is int and base == 0:
                base = NULL
            else:
                raise Unsupported('gep on %r' % (base,))
        off = base.off
        win = base.win
        first = True
        t = bt
        for ty, v in ops:
            if first:
                first = False
                l = self.idx_lin(v, ty)
                if l.t or l.c:
                    off = off.add(l.mul(t.size))
                continue
            if t.k == 'struct':
                off = off.add(Lin(t.offs[v]))
                t = t.fields[v]
            elif t.k == 'arr':
                l = self.idx_lin(v, ty)
                if not off.t and t.size and not (win and t.elem.k == 'arr'):
                    win = (off.c, off.c + t.size)
                off = off.add(l.mul(t.elem.size))
                t = t.elem
            else:
                raise Unsupported('gep into %r' % t)
        if base.obj is None:
            if not off.t and off.c == 0:
                return base
            return Ptr(None, off, True)
        if win == (0, None):
            win = None
        return Ptr(base.obj, off, base.null, win)

    def idx_lin(self, v, ty):
        if isinstance(v, Lin):
            return v
        if type(v) is int:
            return Lin(sgn(v, ty.w))
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            raise Unsupported('i1 index')
        if isinstance(v, Undef):
            v = self.fresh(ty.w, 'undef')
        if ty.w == 32:
            return Lin.leaf('s32', v)
        if ty.w == 64:
            if z3.is_app(v):
                k = v.decl().kind()
                if k == z3.Z3_OP_SIGN_EXT and v.arg(0).size() == 32:
                    return Lin.leaf('s32', v.arg(0))
                if k == z3.Z3_OP_ZERO_EXT and v.arg(0).size() == 32:
                    return Lin.leaf('z32', v.arg(0))
            return Lin.of(v)
        return Lin.leaf('s32', z3.SignExt(32 - ty.w, v))

    def do_cast(self, op, a, tf, tt):
        if isinstance(a, Undef):
            if tt.k == 'int':
                return self.fresh(tt.w, 'undef')
            return a
        if op == 'trunc':
            if tt.w == 1:
                if isinstance(a, Lin):
                    a = a.bv(tf.w)
                if type(a) is int:
                    return bool(a & 1)
                if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                    return b_ite(a.arg(0), bool(a.arg(1).as_long() & 1), bool(a.arg(2).as_long() & 1))
                return z3.Extract(0, 0, a) == z3.BitVecVal(1, 1)
            return cast_op('trunc', a, tf.w, tt.w)
        if op in ('zext', 'sext'):
            if tf.w == 1:
                return bool_to_bv(a, tt.w, op == 'sext')
            if tf.w == 32 and tt.w == 64 and type(a) is not int:
                return Lin.leaf('s32' if op == 'sext' else 'z32', a)
            return cast_op(op, a, tf.w, tt.w)
        if op == 'ptrtoint':
            if isinstance(a, Ptr):
                if a.obj is None:
                    return a.off.bv(64)
                base = z3.BitVec('addr@%d' % a.obj, 64)
                r = Lin.of(base).add(a.off)
                return r if tt.w == 64 else r.bv(tt.w)
        if op == 'inttoptr':
            if type(a) is int and a == 0:
                return NULL
            return Ptr(None, Lin.of(a), True)
        if op in ('bitcast', 'addrspacecast') and tf.k == tt.k:
            return a
        if op in ('sitofp', 'uitofp'):
            if type(a) is int:
                return FV('c', float(sgn(a, tf.w) if op == 'sitofp' else a))
            return FV(op, a, tf.w)
        if op in ('fpext', 'fptrunc'):
            return a
        if op in ('fptosi', 'fptoui'):
            if isinstance(a, FV) and a.key[0] == 'c':
                return int(a.key[1]) & MASK[tt.w]
            return self.fresh(tt.w, 'fptoi')
        raise Unsupported('cast %s %r -> %r' % (op, tf, tt))

    # ------------------------------------------------------------------ execution
    def val(self, fr, v, ty):
        k = v[0]
        if k == 'r':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('register %s' % v[1])
        if k == 'c':
            if ty.k == 'int' and ty.w == 1:
                return bool(v[1])
            return v[1]
        return self.const(v, ty, fr.fn.module)

    def ival(self, fr, v, ty):
        x = self.val(fr, v, ty)
        if isinstance(x, Undef):
            return self.fresh(ty.w, 'undef')
        return x

    def call(self, st, fn, args, caller):
        """execute fn; -> list of (retval, state)"""
        if len(self.callstack) > 60:
            raise Unsupported('call depth')
        fr = Frame(fn, (caller.depth + 1) if caller else 0, caller)
        for (t, n), a in zip(fn.params, args):
            fr.regs[n] = a
        fr.va = args[len(fn.params):] if fn.vararg else None
        base = st.pc
        self.callstack.append(fn.name[1:])
        n0 = len(self.obs)
        try:
            outs = self.enter(st, fr, fn.entry, None, frozenset())
        finally:
            self.callstack.pop()
        res = []
        for kind, data, s, f in outs:
            assert kind == 'ret'
            res.append((data, s, f))
        for d, s, f in res:
            for a in f.allocas:
                s.mem.pop(a, None)
                s.freed = s.freed | {a} if not self.pure else s.freed
        if len(res) > 1 and self.may_merge(fn):
            return self.merge_rets(res, base, fn)
        return [(d, s) for d, s, f in res]

    def may_merge(self, fn):
        n = fn.name[1:]
        if self.pure or n.startswith('S_'):
            return True
        if n in self.nomerge or n.startswith('harness'):
            return False
        if self.opts.get('nomerge_all') and fn.module.tag.startswith('s_'):
            return False
        if self.merge_fns is not None and n in self.merge_fns:
            return True
        return len(fn.blocks) <= 40

    # -- merging
    def cond_since(self, s, base):
        cs = []
        facts = []
        has_as = False
        for n in self.suffix(s.pc, base):
            if n.kind == 'fact':
                facts.append(n)
            else:
                cs.append(n.cond)
                has_as = has_as or n.kind == 'as'
        return cs, facts, has_as

    def merge_rets(self, res, base, fn):
        items = [(d, s) for d, s, f in res]
        out = []
        groups = []
        for d, s in items:
            groups.append(([d], s))
        m = self.merge_states(groups, base, [fn.rty])
        return [(vals[0], s) for vals, s in m]

    def merge_states(self, items, base, tys):
        """items: list of (values, state) sharing the pc prefix base; -> shorter list"""
        groups = []
        for vals, s in items:
            for g in groups:
                if self.compatible(g[0], (vals, s), tys):
                    g.append((vals, s))
                    break
            else:
                groups.append([(vals, s)])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            try:
                out.append(self.merge_group(g, base, tys, len(groups) == 1))
                self.stats['merges'] += 1
            except MergeFail:
                out.extend(g)
        return out

    def compatible(self, a, b, tys):
        va, sa = a
        vb, sb = b
        if sa.freed != sb.freed:
            # objects only one side knows about do not matter
            for i in sa.freed ^ sb.freed:
                if i in sa.mem or i in sb.mem:
                    return False
        for x, y in zip(va, vb):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is not None and y.obj is not None and x.obj != y.obj:
                return False
        if sa.mem is sb.mem:
            return True
        ma, mb = sa.mem, sb.mem
        for k, x in ma.items():
            y = mb.get(k)
            if y is None or y is x:
                continue
            if isinstance(x, Rec) and isinstance(y, Rec):
                dx, dy = x.d, y.d
                if dx is dy:
                    continue
                for kk, e in dx.items():
                    f = dy.get(kk)
                    if f is None or f is e:
                        continue
                    if e[0] != f[0]:
                        return False
                    p, q = e[1], f[1]
                    if isinstance(p, Ptr) or isinstance(q, Ptr):
                        if not (isinstance(p, (Ptr, Undef)) and isinstance(q, (Ptr, Undef))):
                            return False
                        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is not None and q.obj is not None \
                                and p.obj != q.obj:
                            return False
        return True

    def merge_group(self, g, base, tys, full):
        conds = []
        facts = []
        any_as = False
        for vals, s in g:
            cs, fs, a = self.cond_since(s, base)
            conds.append(b_and(*cs))
            facts.extend(fs)
            any_as = any_as or a
        n = len(g)
        st = State()
        st.pc = base
        seen = set()
        for f in facts:
            if f.cond.get_id() not in seen:
                seen.add(f.cond.get_id())
                st.pc = PC(st.pc, f.cond, 'fact')
        disj = b_or(*conds)
        if disj is not True and (any_as or not full or self.pure):
            st.pc = PC(st.pc, bl(disj), 'as' if any_as else 'br')
        elif disj is not True:
            # exhaustive unless infeasible paths were pruned; the disjunction is implied by the path condition
            pass
        ref = g[0][1]
        st.freed = frozenset.union(*[s.freed for _, s in g])
        st.touched = {}
        for _, s in g:
            st.touched.update(s.touched)
        pr = []
        for _, s in g:
            for x in s.prods:
                if not any(x[0] is y[0] and x[1] is y[1] for y in pr):
                    pr.append(x)
        st.prods = tuple(pr)
        dv = []
        for _, s in g:
            for x in s.divs:
                if not any(x[0].eq(y[0]) and x[1].eq(y[1]) for y in dv):
                    dv.append(x)
        st.divs = tuple(dv)
        st.ndn = max(s.ndn for _, s in g)
        st.lossy = any(s.lossy for _, s in g)
        longest = max((s for _, s in g), key=lambda s: len(s.nds))
        nds = longest.nds
        ids = {x[0] for x in nds}
        for _, s in g:
            for x in s.nds:
                if x[0] not in ids:
                    nds = nds + (x,)
                    ids.add(x[0])
        st.nds = nds
        # memory
        ids = {}
        for _, s in g:
            for k in s.mem:
                ids[k] = 1
        for k in ids:
            cs = [s.mem.get(k) for _, s in g]
            have = [(c, x) for c, x in zip(conds, cs) if x is not None]
            x0 = have[0][1]
            if all(x is x0 for _, x in have):
                st.mem[k] = x0
                continue
            if k in st.freed and k not in ref.freed:
                continue
            o = self.objs[k]
            if isinstance(x0, Arr):
                r = x0
                r = have[-1][1]
                for c, x in reversed(have[:-1]):
                    r = self.merge_arr(o, c, x, r)
                st.mem[k] = r
            else:
                r = have[-1][1]
                for c, x in reversed(have[:-1]):
                    r = self.merge_rec(st, o, c, x, r)
                st.mem[k] = r
        vals = list(g[-1][0])
        for c, (v, s) in reversed(list(zip(conds, g))[:-1]):
            for i, t in enumerate(tys):
                vals[i] = self.ite_val(c, v[i], vals[i], t.w if t.k == 'int' else 64) if t.k != 'void' else None
        return vals, st

    def merge_arr(self, o, c, a, b):
        if a is b:
            return a
        f = {}
        for k in set(a.f) | set(b.f):
            x, y = field_node(o, a, k), field_node(o, b, k)
            f[k] = x if x is y else IteN(c, x, y)
        return Arr(f)

    def merge_rec(self, st, o, c, a, b):
        if a is b:
            return a
        d = {}
        da, db = a.d, b.d
        for k in set(da) | set(db):
            x, y = da.get(k), db.get(k)
            if x is not None and y is not None:
                if x is y:
                    d[k] = x
                    continue
                if x[0] != y[0]:
                    raise MergeFail()
                d[k] = (x[0], self.ite_val(c, x[1], y[1], x[0] * 8))
                continue
            z = x or y
            if o.init == 'undef':
                d[k] = z
            elif o.init == 'sym':
                # lazily created on one side only: the same initial value unless it was written
                if any(kk < k + z[0] and k < kk + zz[0] for kk, zz in (db if x is not None else da).items()):
                    raise MergeFail()
                v0 = z3.BitVec('%s@%d+%d' % (o.name, o.id, k), z[0] * 8)
                if isinstance(z[1], (Ptr, FV)):
                    raise MergeFail()
                p, q = (z[1], v0) if x is not None else (v0, z[1])
                d[k] = (z[0], self.ite_val(c, p, q, z[0] * 8))
            else:
                zero = NULL if isinstance(z[1], Ptr) else 0
                if any(kk < k + z[0] and k < kk + zz[0] for kk, zz in (db if x is not None else da).items()):
                    raise MergeFail()
                p, q = (z[1], zero) if x is not None else (zero, z[1])
                d[k] = (z[0], self.ite_val(c, p, q, z[0] * 8))
        sub = {}
        for lo in set(a.sub) | set(b.sub):
            x, y = a.sub.get(lo), b.sub.get(lo)
            if x is None or y is None:
                raise MergeFail()
            sub[lo] = x if x is y else (x[0], x[1], self.merge_arr(o, c, x[2], y[2]))
        return Rec(d, sub)

    # -- control flow
    def enter(self, st, fr, blk, prev, stops):
        """control reaches block blk from prev"""
        if blk in stops:
            return [('stop', (blk, prev), st, fr)]
        fn = fr.fn
        if blk in fn.loops:
            body = fn.loops[blk]
            if prev is None or prev not in body:
                from loops import loop_entry
                return loop_entry(self, st, fr, blk, prev, stops)
            k = fr.iters.get(blk, 0) + 1
            fr.iters[blk] = k
            lim = self.unroll_limit(fr, blk)
            if k > lim:
                key = (id(fr.fn), blk)
                for r in fr.rule:
                    if r[0] == key:
                        raise SpecFail(key)
                self.oblige(st, False, 'LIMIT:unrolling of a loop in %s' % fn.name[1:], fr)
                return []
        self.do_phis(st, fr, blk, prev)
        return self.run(st, fr, blk, 0, stops)

    def unroll_limit(self, fr, blk):
        for r in fr.rule:
            if r[0] == (id(fr.fn), blk):
                return r[1]
        return self.opts.get('hard_unroll', 5000)

    def do_phis(self, st, fr, blk, prev):
        b = fr.fn.blocks[blk]
        if not b.phis:
            return
        new = []
        for ph in b.phis:
            for v, pb in ph.a:
                if pb == prev:
                    new.append((ph.res, self.val(fr, v, ph.ty)))
                    break
            else:
                raise Unsupported('phi')
        for r, v in new:
            fr.regs[r] = v

    def run(self, st, fr, blk, idx, stops):
        b = fr.fn.blocks[blk]
        insts = b.insts
        while True:
            ins = insts[idx]
            idx += 1
            self.stats['insts'] += 1
            op = ins.op
            if op == 'br':
                c, t, f = ins.a
                if c is None:
                    return self.enter(st, fr, t, blk, stops)
                cv = self.ival(fr, c, ir.int_t(1))
                return self.branch(st, fr, blk, cv, t, f, stops)
            if op == 'switch':
                return self.switch(st, fr, blk, ins, stops)
            if op == 'ret':
                v = None
                if ins.a[0] is not None:
                    v = self.val(fr, ins.a[0], ins.ty)
                return [('ret', v, st, fr)]
            if op == 'unreachable':
                self.oblige(st, False, 'UB:unreachable code', fr)
                return []
            if op == 'call':
                r = self.do_call(st, fr, ins)
                if r is None:
                    return []
                if type(r) is list:
                    if not r:
                        return []
                    if len(r) == 1:
                        v, st = r[0]
                        if ins.res:
                            fr.regs[ins.res] = v
                        continue
                    outs = []
                    for i, (v, s) in enumerate(r):
                        f2 = fr.fork() if i < len(r) - 1 else fr
                        if ins.res:
                            f2.regs[ins.res] = v
                        outs.extend(self.run(s, f2, blk, idx, stops))
                    return outs
                raise Unsupported('call result')
            if op == 'select':
                r = self.do_select(st, fr, ins)
                if r is not None:      # fork
                    outs = []
                    for cond, v in r:
                        s2 = st.fork()
                        if not self.feasible(s2, cond):
                            continue
                        s2.add(cond, 'br')
                        f2 = fr.fork()
                        f2.regs[ins.res] = v
                        outs.extend(self.run(s2, f2, blk, idx, stops))
                    return outs
                continue
            if not self.step(st, fr, ins):
                return []

    def branch(self, st, fr, blk, cv, t, f, stops):
        if not isinstance(cv, bool):
            cv2 = z3.simplify(cv) if not self.pure else cv
            if z3.is_true(cv2):
                cv = True
            elif z3.is_false(cv2):
                cv = False
        if cv is True:
            return self.enter(st, fr, t, blk, stops)
        if cv is False:
            return self.enter(st, fr, f, blk, stops)
        ncv = b_not(cv)
        ft = self.feasible(st, cv)
        ff = self.feasible(st, ncv) if ft else True
        if ft and not ff:
            st.add(cv, 'br')     # implied; keeps later simplification cheap
            return self.enter(st, fr, t, blk, stops)
        if ff and not ft:
            st.add(ncv, 'br')
            return self.enter(st, fr, f, blk, stops)
        # exit of a speculatively unrolled loop?
        for h, lim, strict in fr.rule:
            if h[0] == id(fr.fn) and strict:
                body = fr.fn.loops[h[1]]
                if blk in body and ((t in body) != (f in body)):
                    raise SpecFail(h)
        j = fr.fn.ipdom.get(blk)
        if j is not None and j not in stops and self.small_region(fr.fn, blk, j):
            return self.diamond(st, fr, blk, [(cv, t), (ncv, f)], j, stops)
        self.stats['paths'] += 1
        s2 = st.fork()
        f2 = fr.fork()
        st.add(cv, 'br')
        outs = self.enter(st, fr, t, blk, stops)
        s2.add(ncv, 'br')
        outs = outs + self.enter(s2, f2, f, blk, stops)
        return outs

    def small_region(self, fn, blk, j):
        key = (blk, j)
        c = getattr(fn, 'regions', None)
        if c is None:
            c = fn.regions = {}
        r = c.get(key)
        if r is None:
            lim = 14
            seen = set()
            wl = list(fn.blocks[blk].succ)
            ok = True
            while wl:
                x = wl.pop()
                if x == j or x in seen:
                    continue
                seen.add(x)
                if len(seen) > lim or x == blk:
                    ok = False
                    break
                wl.extend(fn.blocks[x].succ)
            # the region must be loop free with respect to blk's own loops (no back edge out of it)
            if ok:
                for h, body in fn.loops.items():
                    if h in seen:
                        # inner loop is fine if entirely inside
                        if not body <= seen:
                            ok = False
                    if blk in body and j not in body:
                        ok = False
            r = c[key] = ok
        return r

    def diamond(self, st, fr, blk, arms, j, stops):
        base = st.pc
        stops2 = stops | {j}
        items = []
        others = []
        jb = fr.fn.blocks[j]
        for i, (c, t) in enumerate(arms):
            s2 = st.fork()
            f2 = fr.fork()
            s2.add(c, 'br')
            if t == j:
                outs = [('stop', (j, blk), s2, f2)]
            else:
                outs = self.enter(s2, f2, t, blk, stops2)
            for o in outs:
                if o[0] == 'stop' and o[1][0] == j:
                    _, (bb, pv), s, f = o
                    vals = []
                    for ph in jb.phis:
                        for v, pb in ph.a:
                            if pb == pv:
                                vals.append(self.val(f, v, ph.ty))
                                break
                    items.append((vals, s, f))
                else:
                    others.append(o)
        if len(items) == 0:
            return others
        if len(items) > 1 and not (not self.pure and (
                fr.fn.name[1:] in self.nomerge or self.opts.get('nomerge_all') and fr.fn.module.tag.startswith('s_'))):
            if all(x[2].allocas == items[0][2].allocas for x in items):
                m = self.merge_states([(v, s) for v, s, f in items], base, [ph.ty for ph in jb.phis])
                fmap = {id(s): f for v, s, f in items}
                items = [(v, s, fmap.get(id(s), items[0][2])) for v, s in m]
        res = others
        for vals, s, f in items:
            f2 = fr.fork()
            f2.iters = dict(f.iters)
            f2.allocas = f.allocas
            if len(items) > 1 or True:
                # registers computed inside the region are dead after the join (SSA dominance)
                pass
            for ph, v in zip(jb.phis, vals):
                f2.regs[ph.res] = v
            if j in fr.fn.loops:
                # join is a loop header: only reached from outside when the loop contains no part of the region
                outs = self.enter_header_merged(s, f2, j, blk, stops)
            else:
                outs = self.run(s, f2, j, 0, stops)
            res = res + outs
        return res

    def enter_header_merged(self, s, f, j, prev, stops):
        body = f.fn.loops[j]
        if prev in body:
            # merged back edge
            if j in stops:
                return [('stop', (j, None), s, f)]
            k = f.iters.get(j, 0) + 1
            f.iters[j] = k
            if k > self.unroll_limit(f, j):
                raise SpecFail((id(f.fn), j))
            return self.run(s, f, j, 0, stops)
        from loops import loop_entry_phis
        return loop_entry_phis(self, s, f, j, prev, stops)

    def switch(self, st, fr, blk, ins, stops):
        v, dflt, cases = ins.a
        w = ins.ty.w
        x = self.ival(fr, v, ins.ty)
        x = tobv(x, w)
        if type(x) is int:
            for c, t in cases:
                if c & MASK[w] == x:
                    return self.enter(st, fr, t, blk, stops)
            return self.enter(st, fr, dflt, blk, stops)
        groups = {}
        order = []
        for c, t in cases:
            if t not in groups:
                groups[t] = []
                order.append(t)
            groups[t].append(eq(x, c & MASK[w], w))
        arms = []
        for t in order:
            if t == dflt:
                continue
            arms.append((b_or(*groups[t]), t))
        dc = b_and(*[b_not(c) for c, _ in arms])
        arms.append((dc, dflt))
        live = [(c, t) for c, t in arms if self.feasible(st, c)]
        if not live:
            return []
        j = fr.fn.ipdom.get(blk)
        if len(live) > 1 and (self.pure or fr.fn.name[1:].startswith('S_')) and j is not None and j not in stops:
            return self.diamond(st, fr, blk, live, j, stops)
        if len(live) > 1 and j is not None and j not in stops and self.small_region(fr.fn, blk, j) \
                and len(live) <= 8:
            return self.diamond(st, fr, blk, live, j, stops)
        outs = []
        for i, (c, t) in enumerate(live):
            s2 = st.fork() if i < len(live) - 1 else st
            f2 = fr.fork() if i < len(live) - 1 else fr
            s2.add(c, 'br')
            self.stats['paths'] += 1
            outs.extend(self.enter(s2, f2, t, blk, stops))
        return outs

    def do_select(self, st, fr, ins):
        c, a, b = ins.a
        cv = self.ival(fr, c, ir.int_t(1))
        if not isinstance(cv, bool) and not self.pure and not self.quiet:
            cv2 = z3.simplify(cv)
            if z3.is_true(cv2) or z3.is_false(cv2):
                cv = z3.is_true(cv2)
            elif not self.feasible(st, cv, 100):
                st.add(b_not(cv), 'br')
                cv = False
            elif not self.feasible(st, b_not(cv), 100):
                st.add(cv, 'br')
                cv = True
        if cv is True:
            fr.regs[ins.res] = self.val(fr, a, ins.ty)
            return None
        if cv is False:
            fr.regs[ins.res] = self.val(fr, b, ins.ty)
            return None
        av, bv_ = self.val(fr, a, ins.ty), self.val(fr, b, ins.ty)
        try:
            fr.regs[ins.res] = self.ite_val(cv, av, bv_, ins.ty.w if ins.ty.k == 'int' else 64)
            return None
        except MergeFail:
            return [(cv, av), (b_not(cv), bv_)]

    def step(self, st, fr, ins):
        op = ins.op
        ty = ins.ty
        regs = fr.regs
        if op == 'load':
            v = self.load(st, self.val(fr, ins.a[0], PTR_T), ty, fr)
            if v is None:
                return False
            regs[ins.res] = v
            return True
        if op == 'store':
            return self.store(st, self.val(fr, ins.a[1], PTR_T), self.val(fr, ins.a[0], ty), ty, fr)
        if op == 'gep':
            t0, v0 = ins.a[0]
            base = self.val(fr, v0, PTR_T)
            ops = [(t, self.val(fr, v, t)) for t, v in ins.a[1:]]
            regs[ins.res] = self.gep(base, ty, ops, st, fr)
            return True
        if op == 'bin':
            o, a, b = ins.a
            if ty.k == 'vec':
                raise Unsupported('vector')
            x, y = self.ival(fr, a, ty), self.ival(fr, b, ty)
            if ty.w == 1:
                if o == 'and':
                    r = b_and(x, y)
                elif o == 'or':
                    r = b_or(x, y)
                elif o == 'xor':
                    if x is True:
                        r = b_not(y)
                    elif y is True:
                        r = b_not(x)
                    elif x is False:
                        r = y
                    elif y is False:
                        r = x
                    else:
                        r = z3.Xor(x, y)
                else:
                    raise Unsupported('i1 ' + o)
                regs[ins.res] = r
                return True
            regs[ins.res] = r = self.arith(st, fr, o, x, y, ty.w, ins.fl)
            return r is not None
        if op == 'icmp':
            pred, a, b = ins.a
            if ty.k == 'ptr':
                r = self.ptr_cmp(st, fr, pred, self.val(fr, a, ty), self.val(fr, b, ty))
            elif ty.w == 1:
                x, y = self.ival(fr, a, ty), self.ival(fr, b, ty)
                if pred in ('eq', 'ne'):
                    if isinstance(x, bool) and isinstance(y, bool):
                        r = x == y
                    elif isinstance(y, bool):
                        r = x if y else b_not(x)
                    elif isinstance(x, bool):
                        r = y if x else b_not(y)
                    else:
                        r = x == y
                    if pred == 'ne':
                        r = b_not(r)
                else:
                    r = cmp_op(pred, bool_to_bv(x, 8), bool_to_bv(y, 8), 8)
            else:
                r = cmp_op(pred, self.ival(fr, a, ty), self.ival(fr, b, ty), ty.w)
            regs[ins.res] = r
            return True
        if op == 'cast':
            o, tf, a = ins.a
            regs[ins.res] = self.do_cast(o, self.val(fr, a, tf), tf, ty)
            return True
        if op == 'alloca':
            n = self.val(fr, ins.a[0], ir.int_t(64))
            t = ty
            if type(n) is not int:
                raise Unsupported('variable length array')
            if n != 1:
                t = ir.arr_t(n, t)
            o = self.alloc_typed(st, 'stack:' + fr.fn.name[1:], t)
            fr.allocas = fr.allocas + (o.id,)
            regs[ins.res] = Ptr(o.id)
            return True
        if op == 'freeze':
            v = self.val(fr, ins.a[0], ty)
            if isinstance(v, Undef) and ty.k == 'int':
                v = self.fresh(ty.w, 'undef')
            regs[ins.res] = v
            return True
        if op == 'fbin':
            o, a, b = ins.a
            x, y = self.val(fr, a, ty), self.val(fr, b, ty)
            if x.key[0] == 'c' and y.key[0] == 'c':
                p, q = x.key[1], y.key[1]
                r = p + q if o == 'fadd' else p - q if o == 'fsub' else p * q if o == 'fmul' else (p / q if q else float('nan'))
                regs[ins.res] = FV('c', r)
            else:
                regs[ins.res] = FV(o, x, y)
            return True
        if op == 'fcmp':
            pred, a, b = ins.a
            x, y = self.val(fr, a, ty), self.val(fr, b, ty)
            if x.key[0] == 'c' and y.key[0] == 'c':
                p, q = x.key[1], y.key[1]
                regs[ins.res] = {'oeq': p == q, 'une': p != q, 'olt': p < q, 'ole': p <= q, 'ogt': p > q, 'oge': p >= q}[pred]
            else:
                regs[ins.res] = self.fresh(1, 'fcmp')
            return True
        if op == 'extractvalue':
            raise Unsupported('extractvalue')
        raise Unsupported('instruction %s' % op)

    def alloc_typed(self, st, name, t):
        if t.k == 'arr':
            leaf = t
            while leaf.k == 'arr':
                leaf = leaf.elem
            if t.size > 64 and leaf.k in ('int', 'struct'):
                o = self.new_obj(name, 'arr', t.size)
                o.stride = leaf.size
                st.mem[o.id] = Arr()
                return o
        o = self.new_obj(name, 'rec', t.size)
        sub = {}

        def walk(ty, off):
            if ty.k == 'struct':
                for f, oo in zip(ty.fields, ty.offs):
                    walk(f, off + oo)
            elif ty.k == 'arr' and ty.size > 256:
                leaf = ty
                while leaf.k == 'arr':
                    leaf = leaf.elem
                sub[off] = (off + ty.size, leaf.size, Arr({(0, leaf.size): Base(fresh_name(name + '.sub'), 'undef', leaf.size * 8)}))
        if t.k == 'struct':
            walk(t, 0)
        st.mem[o.id] = Rec({}, sub)
        return o

    def arith(self, st, fr, o, x, y, w, fl):
        if 'nsw' in fl and not (type(x) is int and type(y) is int) and not self.pure:
            if o in ('add', 'sub'):
                if isinstance(x, Lin) or isinstance(y, Lin):
                    pass
                else:
                    if self.want_ub('signed overflow', self.where(fr)) and not self.quiet:
                        X, Y = bv(x, w), bv(y, w)
                        if o == 'add':
                            c = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)) \
                                if not type(y) is int else (z3.BVAddNoOverflow(X, Y, True) if sgn(y, w) >= 0 else z3.BVAddNoUnderflow(X, Y))
                        else:
                            c = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
                        self.oblige_nf(st, c, 'UB:signed overflow', fr)
        if o == 'mul':
            if isinstance(x, Lin) and type(y) is int:
                return norm_lin(x.mul(sgn(y, 64)))
            if isinstance(y, Lin) and type(x) is int:
                return norm_lin(y.mul(sgn(x, 64)))
            x, y = tobv(x, w), tobv(y, w)
            if type(x) is not int and type(y) is not int and self.mode == 'P':
                r = self.scaled_mul(st, fr, x, y, w)
                if r is not None:
                    return r
            if 'nsw' in fl and not self.pure and not (type(x) is int and type(y) is int) \
                    and self.want_ub('signed overflow', self.where(fr)) and not self.quiet:
                X, Y = bv(x, w), bv(y, w)
                self.oblige_nf(st, z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y)), 'UB:signed overflow', fr)
        elif o == 'shl':
            if isinstance(x, Lin) and type(y) is int:
                return norm_lin(x.mul(1 << y))
            x, y = tobv(x, w), tobv(y, w)
            if type(y) is not int and not self.pure:
                self.oblige_nf(st, z3.ULT(y, w), 'UB:shift by too much', fr)
        elif o in ('lshr', 'ashr'):
            x, y = tobv(x, w), tobv(y, w)
            if type(y) is not int and not self.pure:
                self.oblige_nf(st, z3.ULT(y, w), 'UB:shift by too much', fr)
        elif o in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(x, Lin) and o == 'sdiv' and type(y) is int:
                pass
            else:
                x, y = tobv(x, w), tobv(y, w)
                if type(y) is int:
                    if y == 0:
                        self.oblige(st, False, 'UB:division by zero', fr)
                        return None
                elif not self.pure:
                    self.oblige_nf(st, b_not(eq(y, 0, w)), 'UB:division by zero', fr)
                if o in ('sdiv', 'srem') and not self.pure and not (type(y) is int and y != MASK[w]):
                    c = b_not(b_and(eq(x, 1 << (w - 1), w), eq(y, MASK[w], w)))
                    self.oblige_nf(st, c, 'UB:signed overflow', fr)
                if o in ('udiv', 'urem', 'sdiv', 'srem') and self.mode == 'P' and type(y) is not int and w == 32:
                    r = self.scaled_div(st, fr, o, x, y, w)
                    if r is not None:
                        return r
        elif o in ('and', 'or', 'xor'):
            x, y = tobv(x, w), tobv(y, w)
        return bin_op(o, x, y, w)

    def oblige_nf(self, st, c, label, fr):
        """obligation whose condition is cheap to drop when not wanted"""
        if self.quiet or self.pure or not self.want_ub(label[3:], self.where(fr)):
            return
        self.oblige(st, c, label, fr)

    # products with a declared scale factor (the screen width) are uninterpreted; facts are instantiated
    RANGE = 1 << 13

    def scaled_mul(self, st, fr, x, y, w):
        if w != 32 or not self.scales:
            return None
        for s in self.scales:
            if y.eq(s):
                a = x
                break
            if x.eq(s):
                a = y
                break
        else:
            return None
        return self.scaled_prod(st, a, s)

    def scaled_prod(self, st, a, s):
        a = z3.simplify(a)
        if z3.is_bv_value(a):
            k = a.as_long()
            return bin_op('mul', s, k, 32)
        if a.decl().kind() == z3.Z3_OP_BMUL and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and \
                a.arg(0).as_long() == MASK[32]:
            return -self.scaled_prod(st, a.arg(1), s)
        f = z3.Function('mul_%d' % s.get_id(), z3.BitVecSort(32), z3.BitVecSort(32))
        p = f(a)
        for (a2, s2, p2) in st.prods:
            if a2.eq(a) and s2.eq(s):
                return p
        R = self.RANGE
        inr = z3.And(a >= 0, a <= R)
        facts = [z3.Implies(inr, z3.And(p >= 0, p <= R * R, z3.Implies(a == 0, p == 0), z3.Implies(a >= 1, p >= s),
                                        z3.Implies(a == 1, p == s)))]
        la = atomize(a)
        ps = [x for x in st.prods if x[1].eq(s)]
        for (a2, s2, p2) in ps:
            d = la.add(atomize(a2), -1)
            if not d.t:
                # syntactically a constant apart: exact
                facts.append(p == p2 + s * z3.BitVecVal(d.c & MASK[32], 32))
                continue
            inr2 = z3.And(a2 >= 0, a2 <= R)
            facts.append(z3.Implies(z3.And(inr, inr2), z3.And(
                z3.Implies(a < a2, p + s <= p2), z3.Implies(a2 < a, p2 + s <= p),
                z3.Implies(a + 1 == a2, p + s == p2), z3.Implies(a2 + 1 == a, p2 + s == p),
                z3.Implies(a == a2, p == p2))))
        for i, (a2, _, p2) in enumerate(ps):
            l2 = atomize(a2)
            for (a3, _, p3) in ps[i:]:
                l3 = atomize(a3)
                for x, y, z, px, py, pz in ((la, l2, l3, p, p2, p3), (la, l3, l2, p, p3, p2), (l2, l3, la, p2, p3, p)):
                    d = x.add(y).add(z, -1)
                    if not d.t and d.c == 0:
                        facts.append(px + py == pz)
        if len(la.t) > 1:
            # multiplication distributes, in machine arithmetic too
            tot = s * z3.BitVecVal(la.c & MASK[32], 32)
            for k, c, _ in la.t:
                for (a2, _, p2) in ps:
                    l2 = atomize(a2)
                    if l2.c == 0 and len(l2.t) == 1 and l2.t[0][0] == k and l2.t[0][1] == 1:
                        tot = tot + p2 * z3.BitVecVal(c & MASK[32], 32)
                        break
                else:
                    break
            else:
                facts.append(p == z3.simplify(tot))
        st.prods = st.prods + ((a, s, p),)
        for (X, s2, q) in st.divs:
            if s2.eq(s) and not q.eq(a):
                facts.append(self.div_fact(X, q, a, p, s))
        for q in facts:
            st.add(q, 'fact')
        self.stats['lemma'] = self.stats.get('lemma', 0) + len(facts)
        # sums of known factors that come to a single atom: their product is what relates the two
        for (a2, _, p2) in ps:
            t = la.add(atomize(a2))
            if t.c == 0 and len(t.t) == 1 and t.t[0][1] == 1 and (len(la.t) > 1 or len(atomize(a2).t) > 1):
                self.scaled_prod(st, t.bv(32), s)
        return p

    def scaled_div(self, st, fr, o, x, y, w):
        """quotient / remainder of a non-negative dividend by a declared factor: uninterpreted, with the facts that
        relate them to the known products"""
        for s in self.scales:
            if type(y) is not int and y.eq(s):
                break
        else:
            return None
        X = z3.simplify(bv(x, 32))
        q = self.scaled_quot(st, X, s)
        if o in ('sdiv', 'udiv'):
            return q
        return X - self.scaled_prod(st, q, s)

    def scaled_quot(self, st, X, s):
        f = z3.Function('div_%d' % s.get_id(), z3.BitVecSort(32), z3.BitVecSort(32))
        q = f(X)
        for (X2, s2, q2) in st.divs:
            if X2.eq(X) and s2.eq(s):
                return q
        st.divs = st.divs + ((X, s, q),)
        pq = self.scaled_prod(st, q, s)
        fs = [z3.Implies(z3.And(X >= 0, s > 0), z3.And(q >= 0, q <= X, pq >= 0, pq <= X, X - pq < s, z3.Implies(X < s, q == 0)))]
        for (a2, s2, p2) in st.prods:
            if s2.eq(s):
                fs.append(self.div_fact(X, q, a2, p2, s))
        # dividends a known multiple of s apart
        for (X2, s2, q2) in st.divs[:-1]:
            if s2.eq(s):
                d = z3.simplify(X - X2)
                Z, ps = z3.BitVecVal(0, 32), [(z3.BitVecVal(1, 32), s)] + [(a, p) for (a, s3, p) in st.prods if s3.eq(s)]
                cand = [(Z, Z)] + ps
                hit = None
                for (a2, p2) in ps:
                    for (a3, p3) in cand:
                        e = p2 - p3
                        if z3.simplify(d - e).eq(Z) or p3 is Z and z3.simplify(d + e).eq(Z):
                            hit = (a2, p2, a3, p3, 1 if z3.simplify(d - e).eq(Z) else -1)
                            break
                    if hit:
                        break
                if hit:
                    a2, p2, a3, p3, sg = hit
                    pq2 = self.scaled_prod(st, q2, s)
                    fs.append(z3.Implies(z3.And(X >= 0, X2 >= 0, s > 0, a2 >= 0, a3 >= 0, a2 <= self.RANGE, a3 <= self.RANGE),
                                         z3.And(q == q2 + sg * (a2 - a3), pq == pq2 + sg * (p2 - p3))))
        for f in fs:
            st.add(f, 'fact')
        return q

    def div_fact(self, X, q, a, p, s):
        R = self.RANGE
        return z3.Implies(z3.And(X >= 0, s > 0, a >= 0, a <= R), z3.And((X < p) == (q < a), z3.Implies(z3.And(X >= p, X - p < s), q == a)))

    def ptr_cmp(self, st, fr, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh(1, 'undef')
        for x in (a, b):
            if not isinstance(x, Ptr):
                raise Unsupported('pointer comparison with %r' % (x,))
        if pred in ('eq', 'ne'):
            if a.obj is None and b.obj is None:
                r = eq(a.off.bv(64), b.off.bv(64), 64)
            elif a.obj is None:
                r = b.null if not a.off.t and a.off.c == 0 else False
            elif b.obj is None:
                r = a.null if not b.off.t and b.off.c == 0 else False
            elif a.obj != b.obj:
                r = b_and(a.null, b.null)
            else:
                d = a.off.add(b.off, -1)
                e = (d.c == 0) if not d.t else (d.bv(64) == bv(0, 64))
                r = b_and(e, b_not(a.null), b_not(b.null)) if (a.null is not False or b.null is not False) else e
                if a.null is not False and b.null is not False:
                    r = b_or(r, b_and(a.null, b.null))
            return r if pred == 'eq' else b_not(r)
        if a.obj is None or b.obj is None or a.obj != b.obj:
            raise Unsupported('ordering of unrelated pointers')
        d = a.off.add(b.off, -1)
        return cmp_op('s' + pred[1:], d.c & MASK[64] if not d.t else d.bv(64), 0, 64)

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        callee, args = ins.a
        if callee[0] == 'g':
            name = callee[1]
            k, f = self.find_global(name, fr.fn.module)
        else:
            p = self.val(fr, callee, PTR_T)
            o = self.resolve(st, p, fr, 'call')
            if o is None:
                return []
            if o.kind != 'func':
                raise Unsupported('call through a data pointer')
            if isinstance(o.fn, str):
                name, k, f = o.fn, 'x', None
            else:
                f = o.fn
                name, k = f.name, 'f'
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime'):
            return [(None, st)]
        vals = [self.val(fr, v, t) if v is not None else None for t, v in args]
        c = self.contracts.get(name)
        if c is not None and not fr.fn.name.startswith('@contract_') and name not in self.opts.get('nocontract', ()):
            if len(c.params) != len(vals):
                raise Unsupported('the contract of %s does not fit the call' % name[1:])
            self.stats['contracts'][name[1:]] = self.stats['contracts'].get(name[1:], 0) + 1
            return self.call(st, c, vals, fr)
        if k == 'f':
            if not f.name.startswith(('@S_', '@harness', '@contract_', '@stub_', '@spec_')) and not self.pure:
                self.stats['inlined'][name[1:]] = self.stats['inlined'].get(name[1:], 0) + 1
            return self.call(st, f, vals, fr)
        stub = self.funcs.get('@stub_' + name[1:])
        if stub is not None:
            return self.call(st, stub, vals, fr)
        from builtins_ import BUILTINS
        b = BUILTINS.get(name[1:])
        if b is None:
            for pre, fnc in BUILTINS.items():
                if pre.endswith('*') and name[1:].startswith(pre[:-1]):
                    b = fnc
                    break
        if b is None:
            raise Unsupported('external function ' + name)
        return b(self, st, fr, vals, ins)


class StopRun(Exception):
    pass


PTR_T = ir.PTR


def _bases_items():
    import mem
    return mem._bases.items()


def simp32(e):
    """low 32 bits of a 64-bit length"""
    if type(e) is int:
        return e & 0xffffffff
    if z3.is_app(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and e.arg(0).size() == 32:
            return e.arg(0)
    return simp(z3.Extract(31, 0, e))


def unscale(e, s):
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            for i in (0, 1):
                if z3.is_bv_value(e.arg(i)) and e.arg(i).as_long() == s:
                    return e.arg(1 - i)
                if z3.is_bv_value(e.arg(i)) and e.arg(i).as_long() % s == 0:
                    return e.arg(1 - i) * (e.arg(i).as_long() // s)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and 1 << e.arg(1).as_long() == s:
            return e.arg(0)
        if k == z3.Z3_OP_BADD:
            ps = [unscale(e.arg(i), s) for i in range(e.num_args())]
            if all(p is not None for p in ps):
                r = ps[0]
                for p in ps[1:]:
                    r = r + p
                return r
        if z3.is_bv_value(e) and e.as_long() % s == 0:
            return z3.BitVecVal(e.as_long() // s, 64)
    return None
