"""Abstraction of a bit-vector goal to linear integer arithmetic with uninterpreted functions.  Every translated formula is
implied by the original (a term whose operation may wrap around, or that works on bits, becomes an opaque value), so that
unsatisfiability carries over to the machine arithmetic; satisfiability does not."""
import z3

CMP = {z3.Z3_OP_SLEQ: 'le', z3.Z3_OP_SLT: 'lt', z3.Z3_OP_SGEQ: 'ge', z3.Z3_OP_SGT: 'gt', z3.Z3_OP_EQ: 'eq',
       z3.Z3_OP_ULEQ: 'ule', z3.Z3_OP_ULT: 'ult', z3.Z3_OP_UGEQ: 'uge', z3.Z3_OP_UGT: 'ugt'}


class Lia:
    def __init__(self, asserts):
        self.raw = asserts
        self.iv = {}            # term id -> (lo, hi) signed
        self.keep = []
        self.im = {}
        self.bm = {}
        self.nm = {}
        self.n = 0
        self.side = []
        self.ufs = {}
        self.collect()

    # ------------------------------------------------------------ intervals
    def full(self, w):
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)

    @staticmethod
    def sval(e):
        v = e.as_long()
        w = e.size()
        return v - (1 << w) if v >> (w - 1) else v

    def range(self, e):
        i = e.get_id()
        r = self.rc.get(i)
        if r is None:
            r = self.rc[i] = self._range(e)
            self.keep.append(e)
        return r

    def _range(self, e):
        w = e.size()
        F = self.full(w)
        k = e.decl().kind()
        lo, hi = self.iv.get(e.get_id(), F)
        if z3.is_bv_value(e):
            v = self.sval(e)
            return v, v
        r = None
        if k == z3.Z3_OP_BADD:
            rs = [self.range(c) for c in e.children()]
            # constants of value near 2^w count as negative
            r = (sum(a for a, b in rs), sum(b for a, b in rs))
        elif k == z3.Z3_OP_BSUB and e.num_args() == 2:
            a, b = self.range(e.arg(0)), self.range(e.arg(1))
            r = (a[0] - b[1], a[1] - b[0])
        elif k == z3.Z3_OP_BNEG:
            a = self.range(e.arg(0))
            r = (-a[1], -a[0])
        elif k == z3.Z3_OP_BMUL and e.num_args() == 2:
            c, x = e.arg(0), e.arg(1)
            if not z3.is_bv_value(c):
                c, x = x, c
            if z3.is_bv_value(c):
                c = self.sval(c)
                a = self.range(x)
                r = (min(c * a[0], c * a[1]), max(c * a[0], c * a[1]))
        elif k == z3.Z3_OP_ITE:
            a, b = self.range(e.arg(1)), self.range(e.arg(2))
            r = (min(a[0], b[0]), max(a[1], b[1]))
        elif k == z3.Z3_OP_ZERO_EXT:
            a = self.range(e.arg(0))
            w0 = e.arg(0).size()
            r = a if a[0] >= 0 else (0, (1 << w0) - 1)
        elif k == z3.Z3_OP_SIGN_EXT:
            r = self.range(e.arg(0))
        elif k == z3.Z3_OP_EXTRACT:
            h, l = e.params()
            a = self.range(e.arg(0))
            if l == 0 and F[0] <= a[0] and a[1] <= F[1]:
                r = a
        elif k == z3.Z3_OP_BAND:
            for c in e.children():
                if z3.is_bv_value(c) and self.sval(c) >= 0:
                    r = (0, self.sval(c))
        elif k == z3.Z3_OP_CONCAT:
            c = e.arg(0)
            if z3.is_bv_value(c) and c.as_long() == 0:
                r = (0, (1 << (w - c.size())) - 1)
        if r is not None and F[0] <= r[0] and r[1] <= F[1]:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if lo > hi:
            lo, hi = F         # contradictory: the path is infeasible; stay sound
        return lo, hi

    def collect(self):
        """bounds of the atoms from the conjuncts of the path condition"""
        conj = []
        wl = list(self.raw)
        while wl:
            c = wl.pop()
            if z3.is_and(c):
                wl.extend(c.children())
            elif z3.is_not(c) and z3.is_or(c.arg(0)):
                wl.extend(z3.Not(x) for x in c.arg(0).children())
            else:
                conj.append(c)
        self.keep.extend(conj)
        self.cmps = []
        imps = []
        for c in conj:
            self.add_cmp(c, imps)
        for rnd in range(8):
            self.rc = {}
            ch = False
            for u, op, a, b in self.cmps:
                ra, rb = self.range(a), self.range(b)
                d = 1 if op == 'lt' else 0
                if op == 'eq':
                    ch |= self.narrow(a, rb[0], rb[1])
                    ch |= self.narrow(b, ra[0], ra[1])
                    continue
                if u:
                    if rb[0] >= 0:
                        ch |= self.narrow(a, 0, rb[1] - d)
                        if ra[0] >= 0:
                            ch |= self.narrow(b, ra[0] + d, None)
                else:
                    ch |= self.narrow(a, None, rb[1] - d)
                    ch |= self.narrow(b, ra[0] + d, None)
            # implications whose guard the intervals decide
            rest = []
            for g, c in imps:
                v = self.tv(g)
                if v is None:
                    rest.append((g, c))
                elif v:
                    ch = True
                    self.add_cmp(c, rest)
            imps = rest
            if not ch:
                break
        self.rc = {}

    def add_cmp(self, c, imps):
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        k = c.decl().kind()
        if not neg and k == z3.Z3_OP_AND or neg and k == z3.Z3_OP_OR:
            for x in c.children():
                x = z3.Not(x) if neg else x
                self.keep.append(x)
                self.add_cmp(x, imps)
            return
        if not neg and k == z3.Z3_OP_IMPLIES:
            imps.append((c.arg(0), c.arg(1)))
            return
        if c.num_args() != 2 or not z3.is_bv(c.arg(0)):
            return
        a, b = c.arg(0), c.arg(1)
        op = CMP.get(k)
        if op is None:
            return
        u = op[0] == 'u'
        op = op[1:] if u else op
        if neg:
            op = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'eq': None}[op]
        if op in ('ge', 'gt'):
            a, b, op = b, a, {'ge': 'le', 'gt': 'lt'}[op]
        if op:
            self.cmps.append((u, op, a, b))

    def tv(self, c):
        """truth of a condition as far as the intervals decide it"""
        k = c.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_NOT:
            v = self.tv(c.arg(0))
            return None if v is None else not v
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            vs = [self.tv(x) for x in c.children()]
            st = k == z3.Z3_OP_OR
            if st in vs:
                return st
            return None if None in vs else not st
        op = CMP.get(k)
        if op is None or not z3.is_bv(c.arg(0)):
            return None
        a, b = self.range(c.arg(0)), self.range(c.arg(1))
        if op == 'eq':
            if a[1] < b[0] or b[1] < a[0]:
                return False
            return True if a[0] == a[1] == b[0] == b[1] else None
        if op[0] == 'u':
            if a[0] < 0 or b[0] < 0:
                return None
            op = op[1:]
        if op in ('ge', 'gt'):
            a, b, op = b, a, {'ge': 'le', 'gt': 'lt'}[op]
        d = 1 if op == 'lt' else 0
        if a[1] + d <= b[0]:
            return True
        if b[1] < a[0] + d:
            return False
        return None

    def narrow(self, e, lo, hi):
        if z3.is_bv_value(e):
            return False
        l, h = self.range(e)
        nl = l if lo is None else max(l, lo)
        nh = h if hi is None else min(h, hi)
        if nl > nh:
            return False
        if (nl, nh) != (l, h):
            self.iv[e.get_id()] = (nl, nh)
            self.keep.append(e)
            self.rc[e.get_id()] = (nl, nh)
            # x + c narrows x
            if e.decl().kind() == z3.Z3_OP_BADD and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
                c = self.sval(e.arg(0))
                x = e.arg(1)
                rx = self.range(x)
                F = self.full(e.size())
                if F[0] <= rx[0] + c and rx[1] + c <= F[1]:
                    self.narrow(x, nl - c, nh - c)
            return True
        return False

    # ------------------------------------------------------------ translation
    def fresh(self, sort, p='q'):
        self.n += 1
        return z3.Const('%s~%d' % (p, self.n), sort)

    def opaque(self, e, lo, hi):
        v = self.fresh(z3.IntSort())
        self.side.append(z3.And(v >= lo, v <= hi))
        return v

    def uf(self, d, rng):
        k = (d.name(), d.arity(), str(rng))
        f = self.ufs.get(k)
        if f is None:
            f = self.ufs[k] = z3.Function(d.name() + '~i', *([z3.IntSort()] * d.arity() + [rng]))
        return f

    def is_bits(self, e):
        """does a 64-bit term hold bits rather than a number"""
        seen = set()
        wl = [e]
        while wl:
            x = wl.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            k = x.decl().kind()
            if k == z3.Z3_OP_ITE:
                wl.extend(x.children()[1:])
            elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BNOT, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT):
                return True
            elif k == z3.Z3_OP_UNINTERPRETED and x.size() == 64:
                return True
        return False

    def T(self, e):
        """bit-vector term -> Int (signed value)"""
        i = e.get_id()
        r = self.im.get(i)
        if r is None:
            r = self.im[i] = self._T(e)
            self.keep.append(e)
        return r

    def _T(self, e):
        w = e.size()
        lo, hi = self.range(e)
        k = e.decl().kind()
        F = self.full(w)
        if z3.is_bv_value(e):
            return z3.IntVal(self.sval(e))
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                v = z3.Int(e.decl().name() + '~i')
            elif w == 64:
                return self.opaque(e, lo, hi)
            else:
                v = self.uf(e.decl(), z3.IntSort())(*[self.T(c) for c in e.children()])
            self.side.append(z3.And(v >= lo, v <= hi))
            return v
        def exact(rs, v):
            l, h = rs
            if F[0] <= l and h <= F[1]:
                return v
            if F[0] + F[0] <= l and h <= F[1] * 2 + 1:
                # wraps at most once
                M = 1 << w
                if l >= F[0]:
                    return z3.If(v > F[1], v - M, v)
                if h <= F[1]:
                    return z3.If(v < F[0], v + M, v)
                return z3.If(v > F[1], v - M, z3.If(v < F[0], v + M, v))
            return self.opaque(e, lo, hi)
        if k == z3.Z3_OP_BADD:
            rs = [self.range(c) for c in e.children()]
            return exact((sum(a for a, b in rs), sum(b for a, b in rs)), z3.Sum([self.T(c) for c in e.children()]))
        if k == z3.Z3_OP_BSUB and e.num_args() == 2:
            a, b = self.range(e.arg(0)), self.range(e.arg(1))
            return exact((a[0] - b[1], a[1] - b[0]), self.T(e.arg(0)) - self.T(e.arg(1)))
        if k == z3.Z3_OP_BNEG:
            a = self.range(e.arg(0))
            return exact((-a[1], -a[0]), -self.T(e.arg(0)))
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            c, x = e.arg(0), e.arg(1)
            if not z3.is_bv_value(c):
                c, x = x, c
            if z3.is_bv_value(c):
                c = self.sval(c)
                a = self.range(x)
                return exact((min(c * a[0], c * a[1]), max(c * a[0], c * a[1])), c * self.T(x))
            return self.opaque(e, lo, hi)
        if k == z3.Z3_OP_ITE:
            return z3.If(self.B(e.arg(0)), self.T(e.arg(1)), self.T(e.arg(2)))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.T(e.arg(0))
        if k == z3.Z3_OP_ZERO_EXT:
            a = self.range(e.arg(0))
            v = self.T(e.arg(0))
            return v if a[0] >= 0 else z3.If(v < 0, v + (1 << e.arg(0).size()), v)
        if k == z3.Z3_OP_EXTRACT:
            h, l = e.params()
            a = self.range(e.arg(0))
            if l == 0 and F[0] <= a[0] and a[1] <= F[1]:
                return self.T(e.arg(0))
        if k == z3.Z3_OP_BAND and e.num_args() == 2:
            c, x = e.arg(0), e.arg(1)
            if not z3.is_bv_value(c):
                c, x = x, c
            if z3.is_bv_value(c):
                c = c.as_long()
                a = self.range(x)
                if c & (c + 1) == 0:
                    if 0 <= a[0] and a[1] <= c:
                        return self.T(x)
                    if c <= 255:
                        return self.T(x) % (c + 1)
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.num_args() == 2:
            x = e.arg(1)
            if x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[1] == 0:
                m = x.params()[0] + 1
                a = self.range(x.arg(0))
                if 0 <= a[0] and a[1] < 1 << m:
                    return self.T(x.arg(0)) if x.arg(0).size() <= 64 else self.opaque(e, lo, hi)
                if m <= 8:
                    return self.T(x.arg(0)) % (1 << m)
        return self.opaque(e, lo, hi)

    def bits(self, e):
        """64-bit (or narrower field of it) term kept as bits"""
        i = e.get_id()
        r = self.bm.get(i)
        if r is None:
            r = self.bm[i] = self._bits(e)
            self.keep.append(e)
        return r

    def _bits(self, e):
        k = e.decl().kind()
        if z3.is_bv_value(e):
            return e
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                return e
            return self.uf(e.decl(), e.sort())(*[self.T(c) for c in e.children()])
        if k == z3.Z3_OP_ITE:
            return z3.If(self.B(e.arg(0)), self.bits(e.arg(1)), self.bits(e.arg(2)))
        if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BNOT, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT):
            return z3.substitute(e, *[(c, self.bits(c)) for c in e.children() if not z3.is_bv_value(c)]) \
                if len({c.get_id() for c in e.children()}) == e.num_args() and k in (z3.Z3_OP_EXTRACT, z3.Z3_OP_BNOT) \
                else e.decl()(*[self.bits(c) for c in e.children()]) if k != z3.Z3_OP_EXTRACT else z3.Extract(*(e.params() + [self.bits(e.arg(0))]))
        self.keep.append(e)
        return self.fresh(e.sort(), 'b')

    def B(self, e):
        i = e.get_id()
        r = self.nm.get(i)
        if r is None:
            r = self.nm[i] = self._B(e)
            self.keep.append(e)
        return r

    def ucmp(self, a, b, strict):
        ra, rb = self.range(a), self.range(b)
        x, y = self.T(a), self.T(b)
        c = x < y if strict else x <= y
        if ra[0] >= 0 and rb[0] >= 0:
            return c
        if rb[0] >= 0:
            return z3.And(x >= 0, c)
        if ra[0] >= 0:
            return z3.Or(y < 0, c)
        return z3.If((x < 0) == (y < 0), c, y < 0)

    def _B(self, e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return e
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.B(c) for c in e.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.B(c) for c in e.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.B(e.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.B(e.arg(0)), self.B(e.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.B(e.arg(0)), self.B(e.arg(1)), self.B(e.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_bool(a):
                r = self.B(a) == self.B(b)
            elif z3.is_bv(a):
                w = a.size()
                if w == 64 and (self.is_bits(a) or self.is_bits(b)) or w not in (32, 64):
                    r = self.bits(a) == self.bits(b)
                else:
                    r = self.T(a) == self.T(b)
            else:
                return self.fresh(z3.BoolSort())
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        if e.num_args() == 2 and z3.is_bv(e.arg(0)):
            a, b = e.arg(0), e.arg(1)
            if a.size() == 64 and (self.is_bits(a) or self.is_bits(b)):
                return self.fresh(z3.BoolSort())
            if k == z3.Z3_OP_SLEQ: return self.T(a) <= self.T(b)
            if k == z3.Z3_OP_SLT: return self.T(a) < self.T(b)
            if k == z3.Z3_OP_SGEQ: return self.T(a) >= self.T(b)
            if k == z3.Z3_OP_SGT: return self.T(a) > self.T(b)
            if k == z3.Z3_OP_ULEQ: return self.ucmp(a, b, False)
            if k == z3.Z3_OP_ULT: return self.ucmp(a, b, True)
            if k == z3.Z3_OP_UGEQ: return self.ucmp(b, a, False)
            if k == z3.Z3_OP_UGT: return self.ucmp(b, a, True)
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            return e
        return self.fresh(z3.BoolSort())


class Ctx:
    """translations of a path condition, kept for the following goals of the same path (a fact added later only narrows the
    intervals further, so the ones computed earlier stay valid)"""
    def __init__(self):
        self.nodes = []
        self.L = None

    def prepare(self, nodes):
        n = len(self.nodes)
        if self.L is None or n > len(nodes) or n and self.nodes[-1] is not nodes[n - 1] or len(nodes) > self.n0 + 150:
            self.L = Lia([x.cond for x in nodes])
            self.nodes = []
            self.n0 = len(nodes)
            self.out = []
            n = 0
        for x in nodes[n:]:
            self.out.append(self.L.B(x.cond))
        self.nodes = list(nodes)

    def check(self, nodes, cond, timeout_ms):
        """z3.unsat when the path condition contradicts cond; unknown otherwise"""
        self.prepare(nodes)
        c = self.L.B(cond)
        s = z3.Solver()
        s.set('rlimit', timeout_ms * 7000)
        s.set('timeout', timeout_ms * 3)
        s.add(*self.out)
        s.add(*self.L.side)
        s.add(c)
        r = s.check()
        return r if r == z3.unsat else z3.unknown


if __name__ == '__main__':
    import sys, time
    for f in sys.argv[1:]:
        s = z3.Solver()
        s.from_file(f)
        t = time.time()
        A = list(s.assertions())
        L = Lia(A)
        out = [L.B(a) for a in A]
        t1 = time.time()
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(*out)
        s.add(*L.side)
        r = s.check()
        print(f, r, 'translate %.1f' % (t1 - t), 'check %.1f' % (time.time() - t1), 'opaque', L.n, flush=True)
