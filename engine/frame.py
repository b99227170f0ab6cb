"""The frame of a byte loop: f(t, buf, n) is n times one step on the next byte, and nothing of the loop itself is carried from one
step to the next; whatever a step does depends on the state behind the pointers and on its byte alone.  Decided on the SSA form
of the real function, obligation by obligation."""


class No(Exception):
    pass


def affine(fn, hdr, ptr, cnt):
    """SSA names -> (base or None, constant, per-iteration step)"""
    loop = fn.loops[hdr]
    H = fn.blocks[hdr]
    env = {ptr: (ptr, 0, 0), cnt: (cnt, 0, 0)}
    defs = {}
    for b in fn.blocks.values():
        for i in list(b.phis) + list(b.insts):
            if i.res is not None:
                defs[i.res] = (i, b)

    def sg(c):
        c &= 0xffffffffffffffff
        if c >= 1 << 63:
            c -= 1 << 64
        elif c >= 1 << 31 and c < 1 << 32:
            c -= 1 << 32
        return c

    def val(v):
        if v[0] == 'c':
            return (None, sg(v[1]), 0)
        if v[0] == 'r':
            return get(v[1])
        return None

    def add(a, b, k=1):
        if a is None or b is None or b[0] is not None and (k < 0 or a[0] is not None):
            return None
        return (a[0] if b[0] is None else b[0], a[1] + k * b[1], a[2] + k * b[2])
    busy = set()

    def get(n):
        if n in env:
            return env[n]
        if n in busy or n not in defs:
            return None
        busy.add(n)
        i, b = defs[n]
        r = None
        if i.op == 'gep' and len(i.a) == 2 and str(i.ty) in ('i8', 'None') or i.op == 'gep' and len(i.a) == 2:
            r = add(val(i.a[0][1]), val(i.a[1][1]))
        elif i.op == 'bin' and i.a[0] in ('add', 'sub'):
            r = add(val(i.a[1]), val(i.a[2]), 1 if i.a[0] == 'add' else -1)
        elif i.op in ('sext', 'zext', 'cast') and val(i.a[-1]) is not None:
            r = val(i.a[-1])
        elif i.op == 'phi' and b.name != hdr:
            vs = {val(v) for v, _ in i.a}
            r = vs.pop() if len(vs) == 1 else None
        busy.discard(n)
        if r is not None:
            env[n] = r
        return r
    for p in H.phis:
        ini = [v for v, f in p.a if f not in loop]
        back = [v for v, f in p.a if f in loop]
        a = val(ini[0]) if len(ini) == 1 else None
        if a is None:
            raise No('the loop carries %s, which does not start from the buffer or its length' % p.res)
        # the step, found with the phi itself as the base
        env[p.res] = (p.res, 0, 0)
        steps = set()
        for v in back:
            r = val(v)
            if r is None or r[0] != p.res:
                raise No('the loop carries %s, which does not advance by a fixed step' % p.res)
            steps.add(r[1])
        if len(steps) != 1:
            raise No('the loop carries %s, which does not advance by a fixed step' % p.res)
        for k in [k for k, r in env.items() if r[0] == p.res]:
            del env[k]
        env[p.res] = (a[0], a[1], steps.pop())
    for n in list(defs):
        get(n)
    return env, defs


def users(fn):
    u = {}

    def walk(v, i, b):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'r' and isinstance(v[1], str):
                u.setdefault(v[1], []).append((i, b))
            for x in v:
                walk(x, i, b)
        elif isinstance(v, list):
            for x in v:
                walk(x, i, b)
    for b in fn.blocks.values():
        for i in list(b.phis) + list(b.insts):
            if i.op == 'br' and i.a[0] is None:
                continue
            walk(i.a, i, b)
    return u


def check(fn, flush_field, rest):
    """-> [(obligation, ok, why)]"""
    if fn.loops is None:
        fn.analyse()
    out = []

    def ob(label, f):
        try:
            f()
            out.append((label, True, ''))
        except No as e:
            out.append((label, False, str(e)))
    ptr, cnt = fn.params[1][1], fn.params[2][1]
    if not fn.loops:
        return [('T04:a loop over the bytes', False, 'no loop')]
    hdr = max(fn.loops, key=lambda h: len(fn.loops[h]))
    loop = fn.loops[hdr]
    S = {}

    def carried():
        S['env'], S['defs'] = affine(fn, hdr, ptr, cnt)
    ob('T04:nothing but the position in the buffer is carried from one byte to the next', carried)
    # blocks before and after the loop
    after = set()
    wl = [s for n in loop for s in fn.blocks[n].succ if s not in loop]
    while wl:
        n = wl.pop()
        if n not in after:
            after.add(n)
            wl.extend(fn.blocks[n].succ)

    def entry():
        for n, b in fn.blocks.items():
            if n in loop or n in after or n not in fn.rpo:
                continue
            for i in b.insts:
                if i.op not in ('gep', 'bin', 'icmp', 'br', 'sext', 'zext', 'cast'):
                    raise No('%s before the first byte' % i.op)

    def leave():
        for n in after:
            b = fn.blocks[n]
            if b.insts[-1].op == 'unreachable':
                continue
            for i in b.insts:
                if i.op == 'call':
                    c = i.a[0]
                    d = [x for x in b.insts if x.res == c[1]] if c[0] == 'r' else []
                    g = [x for bb in after for x in fn.blocks[bb].insts if d and d[0].op == 'load' and x.res == d[0].a[0][1]]
                    if not g or g[0].op != 'gep' or g[0].a[-1][1] != ('c', flush_field):
                        raise No('a call after the last byte that is not the flush notice')
                elif i.op in ('store', 'call', 'memcpy'):
                    raise No('%s after the last byte' % i.op)
        for n in loop:
            for s in fn.blocks[n].succ:
                if s not in loop and n != hdr and fn.blocks[s].insts[-1].op != 'unreachable':
                    raise No('the loop is left in the middle, at %s' % n)

    def uses():
        env = S.get('env')
        if env is None:
            raise No('undecided')
        us = users(fn)
        tests = 0
        for v, r in env.items():
            if r[0] is None and r[2] == 0:
                continue
            for i, b in us.get(v, []):
                if i.res in env and i.op != 'load':
                    continue
                if i.op == 'phi' and b.name == hdr:
                    continue
                if i.op == 'load' and str(i.ty) == 'i8' and r == (ptr, 0, 1):
                    continue
                if i.op == 'icmp' and b.name == hdr:
                    tests += 1
                    continue
                raise No('the position in the buffer is used by %s in %s' % (i.op, b.name))
        c = fn.blocks[hdr].insts[-1]
        if c.op != 'br' or c.a[0] is None:
            raise No('no test for the end')
        ic = S['defs'][c.a[0][1]][0]
        if ic.op != 'icmp':
            raise No('no test for the end')
        op = ic.a[0]

        def val(v):
            return (None, v[1], 0) if v[0] == 'c' else env.get(v[1])
        a, z = val(ic.a[1]), val(ic.a[2])
        go = c.a[1] in loop     # true edge continues
        if op in ('eq', 'sle', 'ule', 'sge', 'uge'):
            op = {'eq': 'ne', 'sle': 'sgt', 'ule': 'ugt', 'sge': 'slt', 'uge': 'ult'}[op]
            go = not go
        ok = go and (op in ('ne', 'sgt', 'ugt') and a == (cnt, 0, -1) and z == (None, 0, 0) or
                     op in ('ne', 'slt', 'ult') and a == (None, 0, 1) and z == (cnt, 0, 0))
        if not ok:
            raise No('the loop does not run once for each byte')

    def locals_():
        for b in fn.blocks.values():
            for i in b.insts:
                if i.op == 'alloca':
                    raise No('a local variable lives in memory')
    ob('T04:nothing is done before the first byte', entry)
    ob('T04:after the last byte there is only the flush notice', leave)
    ob('T04:each byte is read once, in order, and the position is used for nothing else', uses)
    ob('T04:no local variable outlives a byte', locals_)
    return out
