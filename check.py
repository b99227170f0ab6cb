#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [quick|thorough]   -- decide property ID on /repo's current source
   check.py --replay FILE         -- run a recorded failing input against the real code again
   check.py --setup               -- nothing to build ahead; checks that the tools are there"""
import json, os, pickle, re, shutil, signal, subprocess, sys, tempfile, time, select, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
INCS = [REPO, REPO + '/sys', REPO + '/libtty', REPO + '/libstream', REPO + '/common', HERE + '/contracts']
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class Broken(Exception):
    pass


def defs(p):
    return ['-D' + d for d in p.get('defs', [])]


def compile_ir(p, src, tmp, contract):
    base = os.path.join(tmp, ('c_' if contract else 's_') + re.sub(r'\W', '_', src))
    path = os.path.join(HERE, 'contracts', src) if contract else os.path.join(REPO, src)
    inc = []
    for i in INCS:
        inc += ['-I', i]
    r = sh(['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off'] + inc + defs(p) +
           ['-DHAVE_CONFIG_H', '-std=gnu11', '-emit-llvm', '-S', '-w', path, '-o', base + '.0.ll'])
    if r.returncode:
        raise Broken('compiling %s: %s' % (path, r.stdout[-2000:]))
    r = sh(['opt-18', '-S', '-passes=sroa,mem2reg,simplifycfg,loop-simplify', base + '.0.ll', '-o', base + '.ll'])
    if r.returncode:
        raise Broken('opt on %s: %s' % (src, r.stdout[-2000:]))
    return open(base + '.ll').read(), os.path.basename(base)


def native_build(p, job, tmp):
    """the contract compiled against the real code -> executable or None"""
    key = re.sub(r'\W', '_', job['contract'])
    exe = os.path.join(tmp, 'n_' + key)
    if os.path.exists(exe):
        return exe
    hs = sorted({j['harness'] for j in p['jobs'] if j['contract'] == job['contract']})
    disp = os.path.join(tmp, 'disp_%s.c' % key)
    with open(disp, 'w') as f:
        f.write('#include <string.h>\n' + ''.join('void %s(void);\n' % h for h in hs) + 'void run_harness(const char *n)\n{\n' +
                ''.join('    if (!strcmp(n, "%s")) %s();\n' % (h, h) for h in hs) + '}\n')
    inc = []
    for i in INCS:
        inc += ['-I', i]
    srcs = [os.path.join(HERE, 'contracts', job['contract']), os.path.join(HERE, 'contracts', 'spec_native.c')] + \
        [os.path.join(HERE, 'contracts', s) for s in job.get('native_c', p.get('native_c', []))] + \
        [os.path.join(REPO, s) for s in job.get('native_src', p.get('native_src', job['src']))]
    r = sh(['gcc', '-std=gnu11', '-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-DHAVE_CONFIG_H', '-DSPEC_NATIVE'] + defs(p) + inc +
           ['-o', exe, disp] + srcs + ['-lm', '-lpthread'] + job.get('libs', p.get('libs', [])))
    if r.returncode:
        raise Broken('native build of %s: %s' % (job['contract'], r.stdout[-3000:]))
    return exe


# ------------------------------------------------------------------ tasks
class Task:
    def __init__(self, kind, key, fn, limit):
        self.kind, self.key, self.fn, self.limit = kind, key, fn, limit
        self.result = None
        self.state = 'new'


def run_tasks(tasks, ncpu, deadline, stop=None):
    """run the tasks in forked children; each result is pickled back"""
    pending = list(tasks)
    live = {}
    while pending or live:
        now = time.time()
        while pending and len(live) < ncpu and now < deadline:
            t = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    if t.kind != 'N':
                        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    res = t.fn()
                except Broken as e:
                    res = {'error': str(e), 'broken': True}
                except BaseException as e:
                    res = {'error': '%s: %s' % (type(e).__name__, str(e)[:400]), 'tb': traceback.format_exc()[-1500:]}
                try:
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (t, pid, now, bytearray())
        if not live:
            break
        rs, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in rs:
            t, pid, st, buf = live[fd]
            d = os.read(fd, 1 << 20)
            if d:
                buf += d
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                t.result = pickle.loads(bytes(buf))
            except Exception:
                t.result = {'error': 'the task died (out of memory?)'}
            t.result['wall'] = now - st
            t.state = 'done'
            if stop and stop(t):
                deadline = now
                pending = []
        for fd in list(live):
            t, pid, st, buf = live[fd]
            if now - st > t.limit or now > deadline:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                t.result = {'error': 'time limit', 'wall': now - st}
                t.state = 'done'
    for t in pending:
        t.result = {'error': 'not started: time limit', 'wall': 0}


def frame_obs(mods, job):
    import frame, ir
    t = time.time()
    fn = ff = None
    for m in mods:
        fn = m.funcs.get('@' + job['frame'], fn)
        ff = m.funcs.get('@flush_field', ff)
    stats = {'qtime': 0, 'contracts': {}, 'inlined': {job['frame']: 1}, 'assumed': {}}
    if fn is None:
        return {'obs': [], 'stats': stats, 'covers': {}, 'error': '%s not found' % job['frame'], 'loops': []}
    field = [i for b in ff.blocks.values() for i in b.insts if i.op == 'gep'][0].a[-1][1][1]
    obs = [(l, job['frame'], 'proved' if ok else 'unknown', False, 0.0, None, why) for l, ok, why in frame.check(fn, field, None)]
    stats['qtime'] = time.time() - t
    return {'obs': obs, 'stats': stats, 'covers': {}, 'error': None, 'loops': []}


def symbolic(p, mods, job, case, mode, dims, limit):
    if job.get('frame'):
        return frame_obs(mods, job)
    import exec as X
    opts = dict(job.get('opts', {}))
    pid = p['id']
    ub = job.get('want_ub', p.get('want_ub', False))
    opts.update(mode=mode, case=case, dims=dims, deadline=time.time() + limit,
                want=lambda l: l.startswith(pid + ':'),
                want_ub=(lambda kind, where: True) if ub is True else (lambda kind, where: False) if not ub else ub)
    opts.setdefault('malloc_stride', p.get('malloc_stride', {}))
    opts.setdefault('solver_ms', 600)
    for attempt in (0, 1):
        ex = X.Executor(mods, opts)
        err = None
        try:
            ex.call(X.State(), ex.funcs['@' + job['harness']], [], None)
        except X.Timeout:
            err = 'time limit'
        except X.MergeFail:
            err = 'outside the verifier: a choice between pointers to different objects'
            if not attempt:
                # once more, keeping the paths through the real code apart
                opts['nomerge_all'] = True
                continue
        except (X.Unsupported, X.MemError) as e:
            err = 'outside the verifier: %s' % e
        except X.SpecFail as e:
            err = 'internal: SpecFail'
        except X.StopRun:
            pass
        break
    return {'obs': [(o.label, o.where, o.status, o.lossy, o.time, o.model, o.detail) for o in ex.obs],
            'stats': ex.stats, 'covers': ex.covers, 'error': err,
            'loops': [(a, b, c, d, e) for a, b, c, d, e in ex.loopinfo[:40]]}


def fuzz(exe, job, case, seed, secs, prefix):
    r = sh([exe, job['harness'], str(case), 'fuzz', str(seed), str(secs), prefix], timeout=secs + 60, cwd=os.path.dirname(exe))
    m = re.search(r'FUZZ-PASSED runs=(\d+) discarded=(\d+) checks=(\d+)', r.stdout)
    if m:
        return {'runs': int(m.group(1)), 'checks': int(m.group(3)), 'discarded': int(m.group(2)),
                'covers': re.findall(r'^COVER (.*)$', r.stdout, re.M)}
    it = re.search(r'ITERATION (\d+)', r.stdout)
    return {'fail': r.stdout[-3000:], 'iter': int(it.group(1)) if it else -1, 'seed': seed}


def write_replay(path, p, job, case, model, label, extra):
    with open(path, 'w') as f:
        f.write('# property %s: %s\n# obligation: %s\n' % (p['id'], p['title'], label))
        for l in extra:
            f.write('# %s\n' % l.replace('\n', '\n# '))
        f.write('property %s\nharness %s\ncontract %s\ncase %d\n' % (p['id'], job['harness'], job['contract'], case))
        if model is None:
            return
        if 'seed' in model:
            f.write('fuzz %d %d\n' % (model['seed'], model['iter']))
            return
        for n, v, w in model['nd']:
            f.write('nd %s %d\n' % (n, v))
        for a, d in model['arr'].items():
            for i, fl in d.items():
                for k, v in fl.items():
                    f.write('arr %s %d %s %d\n' % (a, i, k, v))


def run_replay(exe, path, prefix):
    """-> (confirmed, output)"""
    h = c = fz = None
    for l in open(path):
        if l.startswith('harness '):
            h = l.split()[1]
        if l.startswith('case '):
            c = l.split()[1]
        if l.startswith('fuzz '):
            fz = l.split()[1:]
    if fz:
        cmd = [exe, h, c, 'fuzz', fz[0], '5', prefix, fz[1]]
    else:
        cmd = [exe, h, c, 'replay', path, prefix]
    try:
        r = sh(cmd, timeout=90, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return True, 'does not terminate'
    return ('CHECK-FAILED' in r.stdout or r.returncode not in (0, 3, 10)), r.stdout[-3000:]


def main_replay(path):
    from props import PROPS
    txt = open(path).read()
    pid = re.search(r'^property (\S+)', txt, re.M).group(1)
    con = re.search(r'^contract (\S+)', txt, re.M).group(1)
    h = re.search(r'^harness (\S+)', txt, re.M).group(1)
    p = dict(PROPS[pid], id=pid)
    job = [j for j in p['jobs'] if j['contract'] == con and j['harness'] == h][0]
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        exe = native_build(p, job, tmp)
        ok, out = run_replay(exe, os.path.abspath(path), pid + ':')
        print(out)
        print('REPRODUCED' if ok else 'not reproduced')
        return 1 if ok else 0
    finally:
        shutil.rmtree(tmp)


def main(pid, tier):
    from props import PROPS
    import ir
    p = dict(PROPS[pid], id=pid)
    thorough = tier == 'thorough'
    quick_end = T0 + (780 if not thorough else 3 * 3600)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        return decide(p, pid, tier, thorough, quick_end, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(p, pid, tier, thorough, quick_end, tmp):
    import ir
    modsets = {}
    parsed = {}
    for job in p['jobs']:
        if job.get('native_only'):
            continue
        names = [(job['contract'], True)] + [(s, False) for s in job['src']]
        ms = []
        for s, c in names:
            if (s, c) not in parsed:
                txt, tag = compile_ir(p, s, tmp, c)
                parsed[(s, c)] = ir.Module(txt, tag)
            ms.append(parsed[(s, c)])
        modsets[id(job)] = ms
    exes = {}
    for job in p['jobs']:
        if not job.get('proof_only'):
            exes[id(job)] = native_build(p, job, tmp)
    t_setup = time.time() - T0
    # ---- phase 1: proofs, with a native search beside them
    tasks = []
    plimit = (p.get('plimit', 420)) * (6 if thorough else 1)
    fz = p.get('fuzz', 6) * (10 if thorough else 1)
    for job in p['jobs']:
        for case in job.get('cases', [0]):
            if id(job) in exes:
                j = job
                tasks.append(Task('N', (job, case), lambda j=j, c=case: fuzz(exes[id(j)], j, c, SEED, fz, pid + ':'), fz + 80))
    nt = []
    for job in p['jobs']:
        if job.get('native_only'):
            continue
        for case in job.get('cases', [0]):
            if job.get('bounded'):
                # a bounded stand-in: every loop unrolled at each of the stated sizes; never counted as proved
                for d in job['bounded']:
                    nt.append(Task('Q', (job, case), lambda j=job, c=case, d=d: symbolic(p, modsets[id(j)], j, c, 'B', d, plimit), plimit + 40))
                continue
            nt.append(Task('P', (job, case), lambda j=job, c=case: symbolic(p, modsets[id(j)], j, c, 'P', j.get('pdims', {}), plimit), plimit + 40))
    nt.sort(key=lambda t: -t.key[0].get('weight', {}).get(t.key[1], t.key[0].get('w', 0)))
    tasks = nt[:NCPU // 2] + tasks + nt[NCPU // 2:] if len(tasks) > 4 else tasks + nt

    def native_failed(t):
        return t.kind == 'N' and 'fail' in (t.result or {})
    run_tasks(tasks, NCPU, quick_end - 200 if not thorough else quick_end, stop=native_failed)
    broken = [t for t in tasks if t.result and t.result.get('broken')]
    if broken:
        raise Broken(broken[0].result['error'])
    rep = os.path.join(HERE, 'replays')
    os.makedirs(rep, exist_ok=True)
    viol = []

    def report(job, case, model, label, extra, confirmed):
        path = os.path.join(rep, '%s-%s-%d.txt' % (pid, job['harness'].replace('harness_', ''), case))
        write_replay(path, p, job, case, model, label, extra)
        viol.append((path, label, confirmed))

    known = known_findings(pid)
    if os.environ.get('VERIF_NONATIVE'):
        for t in tasks:
            if t.kind == 'N':
                t.result = {}
    # native failures
    for t in tasks:
        if native_failed(t):
            job, case = t.key
            m = re.search(r'CHECK-FAILED (.*)', t.result['fail'])
            label = m.group(1) if m else 'the code crashed or did not terminate'
            report(job, case, t.result, label, ['found by the native run of the contract', t.result['fail'][-1500:]], True)
    P = [t for t in tasks if t.kind in 'PQ' and t.result is not None]
    qob = qdis = 0
    bad = []           # (job, case, ob) refuted or undecided
    undecided = []
    nob = ndis = 0
    solver = 0.0
    stats = {}
    contracts, inlined, assumed, loops = {}, {}, {}, 0
    reached = {}
    for t in tasks:
        if t.kind == 'N' and t.result:
            reached[(id(t.key[0]), t.key[1])] = t.result.get('covers', [])
    for t in P:
        r = t.result
        if 'obs' not in r:
            undecided.append((t, r['error']))
            continue
        if r['error']:
            undecided.append((t, r['error']))
        for c, ok in r['covers'].items():
            if not ok and c not in reached.get((id(t.key[0]), t.key[1]), []):
                undecided.append((t, 'the path to "%s" was not shown reachable' % c))
        checks = [o for o in r['obs'] if o[0].startswith(pid + ':')]
        if not r['error'] and not checks and not t.key[0].get('ub_only'):
            undecided.append((t, 'no obligation was generated'))
        for o in r['obs']:
            good = o[2] in ('proved', 'trivial')
            if t.kind == 'Q':
                qob += 1
                qdis += good
            else:
                nob += 1
                ndis += good
            if not good:
                bad.append((t, o))
        s = r['stats']
        solver += s['qtime']
        for k, d in (('contracts', contracts), ('inlined', inlined), ('assumed', assumed)):
            for n, v in s[k].items():
                d[n] = d.get(n, 0) + v
        for k in ('queries', 'paths', 'loops_rule', 'loops_unrolled', 'loops_lossy', 'lemma', 'heavy'):
            stats[k] = stats.get(k, 0) + s.get(k, 0)
    open_tasks = []
    for t in [b[0] for b in bad] + [u[0] for u in undecided]:
        if t not in open_tasks:
            open_tasks.append(t)
    if not viol and open_tasks and os.environ.get('VERIF_NOB') is None:
        # ---- phase 2: the verifier's own counterexamples against the real code
        for t, o in bad:
            job, case = t.key
            if o[2] != 'failed' or not o[5] or id(job) not in exes:
                continue
            path = os.path.join(tmp, 'm.txt')
            write_replay(path, p, job, case, o[5], o[0], [])
            ok, out = run_replay(exes[id(job)], path, pid + ':')
            if ok:
                report(job, case, o[5], o[0], ['counterexample of the verifier in %s (via %s)' % (o[1], o[6]), out[-1500:]], True)
                break
    bounded_ok = {}
    if not viol and open_tasks and os.environ.get('VERIF_NOB') is None:
        # ---- phase 3: the same contracts re-executed at small fixed sizes (exact: every loop unrolled), and a longer search
        bt = []
        left = max(60, quick_end - time.time() - 30)
        for t in open_tasks:
            job, case = t.key
            for i, dims in enumerate([] if job.get('frame') or job.get('bounded') else job.get('bdims', p.get('bdims', [{}]))):
                bl = min(left, 240 * (4 if thorough else 1))
                bt.append(Task('B', (job, case, i), lambda j=job, c=case, d=dims, bl=bl: symbolic(
                    p, modsets[id(j)], j, c, 'B', d, bl), bl + 20))
            if id(job) in exes:
                bt.append(Task('N', (job, case), lambda j=job, c=case: fuzz(exes[id(j)], j, c, SEED + 1, 30, pid + ':'), 90))
        bt.sort(key=lambda t: t.kind == 'B')
        run_tasks(bt, NCPU, quick_end, stop=native_failed)
        for t in bt:
            if native_failed(t):
                job, case = t.key
                m = re.search(r'CHECK-FAILED (.*)', t.result['fail'])
                report(job, case, t.result, m.group(1) if m else 'the code crashed or did not terminate',
                       ['found by the native run of the contract', t.result['fail'][-1500:]], True)
        for t in bt:
            if t.kind != 'B' or viol:
                continue
            job, case, i = t.key
            r = t.result
            good = not r.get('error') and 'obs' in r and all(o[2] in ('proved', 'trivial') for o in r['obs'])
            bounded_ok[(id(job), case, i)] = good
            for o in r.get('obs', []):
                if o[2] == 'failed' and o[5] and id(job) in exes and not viol:
                    path = os.path.join(tmp, 'm.txt')
                    write_replay(path, p, job, case, o[5], o[0], [])
                    ok, out = run_replay(exes[id(job)], path, pid + ':')
                    if ok:
                        report(job, case, o[5], o[0], ['counterexample of the verifier at fixed sizes in %s' % o[1], out[-1500:]], True)
        if not viol:
            # refuted, but nothing replays
            for t, o in bad:
                job, case = t.key
                if job.get('frame') and o[2] != 'proved':
                    report(job, case, None, o[0], ['obligation failed on the SSA form of %s: %s' % (o[1], o[6])], False)
                    break
                bo = [v for k, v in bounded_ok.items() if k[:2] == (id(job), case)]
                bf = [tt for tt in bt if tt.kind == 'B' and tt.key[:2] == (job, case) and any(x[2] == 'failed' for x in tt.result.get('obs', []))]
                if o[2] == 'failed' and not o[3] and (bf or t.kind == 'Q'):
                    report(job, case, o[5], o[0], ['obligation refuted in %s; the counterexample does not replay' % o[1], str(o[6])], False)
                    break
    wall = time.time() - T0
    level_bounded = [('%s case %d' % (t.key[0]['harness'], t.key[1]), why) for t, why in undecided] + \
        [('%s case %d' % (t.key[0]['harness'], t.key[1]), '%s: %s' % (o[0], o[2])) for t, o in bad]
    nat = [t for t in tasks if t.kind == 'N']
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
        'trusted_base': ['clang-18 (C to LLVM IR, sroa/mem2reg/simplifycfg/loop-simplify)', 'engine/*.py (VC generator, loop contract inference)',
                         'z3 (python3-vt)'] + p.get('trusted', []),
        'functions_under_contract': sorted({x for j in p['jobs'] for x in j.get('functions', [])} | set(inlined)),
        'callee_contracts_used': contracts,
        'back_end': 'z3 QF_UFBV (incremental, then fresh solver per goal)',
        'solver_s': round(solver, 2), 'queries': stats.get('queries', 0), 'paths': stats.get('paths', 0),
        'loop_contracts_inferred_and_checked': stats.get('loops_rule', 0),
        'loops_unrolled_exactly_or_to_a_bound': stats.get('loops_unrolled', 0),
        'lemma_instances': stats.get('lemma', 0),
        'cases': [{'harness': t.key[0]['harness'], 'case': t.key[1], 'wall': round(t.result.get('wall', 0), 1),
                   'obligations': len(t.result.get('obs', [])), 'error': t.result.get('error')} for t in P],
        'assumed_not_proved_here': assumed,
        'bounded_or_undecided': level_bounded,
        'native_search': {'runs': sum(t.result.get('runs', 0) for t in nat if t.result), 'checks': sum(t.result.get('checks', 0) for t in nat if t.result),
                          'note': 'randomised run of the same contracts on the compiled code; supplementary, not counted as proof'},
        'setup_s': round(t_setup, 1),
    }
    if any(j.get('bounded') for j in p['jobs']):
        cov['bounded_obligations'] = qob
        cov['bounded_obligations_holding'] = qdis
        cov['explanation'] = p['note']
    status = 0
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        status = 1
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': p.get('level', 'proof'), 'coverage': cov, 'wall_s': round(wall, 1),
          'assumptions': p.get('assumptions', []) + BASE_ASSUMPTIONS,
          'violations': [{'replay': v[0], 'obligation': v[1], 'confirmed_on_the_real_code': v[2]} for v in viol]}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if qob:
        print('%s: bounded stand-in: %d of %d obligations hold at the stated sizes' % (pid, qdis, qob))
    print('%s: %d obligations, %d discharged, %d cases, %d undecided, solver %.0fs, wall %.0fs; native runs %d' % (
        pid, nob, ndis, len(P), len(level_bounded), solver, wall, cov['native_search']['runs']))
    for w in level_bounded[:12]:
        print('  not proved (bounded check only): %s -- %s' % w)
    for path, label, conf in viol[:3]:
        print('  failed obligation: %s' % label)
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conf else ' no-failing-input-found'))
    return status


BASE_ASSUMPTIONS = [
    'malloc/calloc/realloc never fail (allocation failure paths are not explored)',
    'machine arithmetic is exact: 32/64-bit bit-vectors, no mathematical integers',
    'clang and gcc compile the source to the same behaviour',
]


def known_findings(pid):
    path = os.path.join(HERE, 'known-findings.jsonl')
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        for t in ('clang-18', 'opt-18', 'gcc'):
            if not shutil.which(t):
                print('missing', t)
                sys.exit(2)
        import z3
        sys.exit(0)
    try:
        if a and a[0] == '--replay':
            sys.exit(main_replay(a[1]))
        tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(main(a[0], tier))
    except Broken as e:
        print('CHECK-BROKEN', e)
        sys.exit(2)
