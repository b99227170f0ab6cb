import sys, time, glob, subprocess, os
sys.path.insert(0, os.path.dirname(__file__))
import ir, exec as X
def compile_ir(srcs, out, inc=()):
    res=[]
    for s in srcs:
        b=os.path.join(out, ('c_' if 'contracts' in s else '')+os.path.basename(s)[:-2])
        subprocess.check_call(['/usr/bin/clang-18','-O0','-Xclang','-disable-O0-optnone','-ffp-contract=off','-I/repo','-I/repo/sys','-I/repo/libtty','-I/repo/libstream','-I/repo/common','-I/verif/contracts','-DHAVE_CONFIG_H','-std=gnu11','-emit-llvm','-S','-w',s,'-o',b+'.0.ll'])
        subprocess.check_call(['opt-18','-S','-passes=sroa,mem2reg,simplifycfg,loop-simplify',b+'.0.ll','-o',b+'.ll'])
        res.append(ir.Module(open(b+'.ll').read(), os.path.basename(b)))
    return res
if __name__=='__main__':
    import tempfile; tmpd=tempfile.mkdtemp(dir='/tmp/w')
    mods=compile_ir(sys.argv[2:], tmpd)
    h=sys.argv[1]
    for case in ([int(x) for x in os.environ.get('CASES','0').split(',')]):
        ex=X.Executor(mods, {'mode':os.environ.get('MODE','P'),'case':case, 'dims':eval(os.environ.get('DIMS','{}')), 'malloc_stride':{256:8}, 'solver_ms':int(os.environ.get('SMS','2000')), 'debug':os.environ.get('DBG'), 'slow':os.environ.get('SLOW')})
        t=time.time()
        outs=ex.call(X.State(), ex.funcs['@'+h], [], None)
        st={}
        for o in ex.obs: st[o.status]=st.get(o.status,0)+1
        print('case',case,'outs',len(outs),st,'%.2fs'%(time.time()-t), {k:v for k,v in ex.stats.items() if type(v) in(int,float)}, ex.covers)
        seen=set()
        for o in ex.obs:
            if o.status in('failed','unknown') and (o.label,o.where) not in seen:
                seen.add((o.label,o.where))
                print('   ',o.status,o.label,o.where,o.detail,'lossy' if o.lossy else '', o.model if os.environ.get('M') else '')
        if os.environ.get('V'):
            for l in ex.loopinfo: print(l)
