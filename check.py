#!/usr/bin/env python3
"""Solver-based checks of typelib: compile /repo to bitcode, execute harnesses symbolically, replay natively."""
import sys, os, json, hashlib, subprocess, time, shutil, re, glob, threading
from concurrent.futures import ThreadPoolExecutor
ROOT=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VERIF_REPO','/repo')
BUILD=os.environ.get('VERIF_BUILD',os.path.join(ROOT,'build')); NCPU=int(os.environ.get('VERIF_JOBS','8'))
sys.path.insert(0,ROOT)
CLANG='clang++-18'
BCFLAGS='-std=gnu++11 -O1 -w -fno-vectorize -fno-slp-vectorize -fno-threadsafe-statics -fno-strict-aliasing -gline-tables-only -emit-llvm -c'.split()
NATFLAGS='-std=gnu++11 -O1 -g1 -w -fno-strict-aliasing -fno-omit-frame-pointer -fsanitize=address -c'.split()
INC=['-I'+ROOT+'/rt/shim','-I'+REPO,'-I/usr/include/libxml2','-I'+ROOT+'/rt']
DEFS=['-DTYPELIB_HARDCODED_PLUGIN_PATH="/nonexistent-typelib-plugins"']
SRCS=sorted(os.path.relpath(f,REPO)[:-3] for d in ('typelib','lang') for f in glob.glob(REPO+'/'+d+'/**/*.cc',recursive=True))
# the Ruby extension, compiled against the installed Ruby headers and linked with the stand-in interpreter rt/rbrt.cc for harnesses named rb*.cc
RBSRCS=sorted(os.path.relpath(f,REPO)[:-3] for f in glob.glob(REPO+'/bindings/ruby/ext/*.cc'))
RBINC=['-I'+d for d in sorted(glob.glob('/usr/include/ruby-[0-9]*'))[-1:]+sorted(glob.glob('/usr/include/*/ruby-[0-9]*'))[-1:]]
# the clang importer, compiled against the stand-in for clang's AST in rt/clang for harnesses named cl*.cc (main.cpp, which drives clang, is left out)
CLSRCS=sorted(os.path.relpath(f,REPO) for f in glob.glob(REPO+'/tools/typelib-clang-tlb-importer/*.cpp') if not f.endswith('/main.cpp'))
CLINC=['-I'+ROOT+'/rt/clang','-I'+REPO+'/tools/typelib-clang-tlb-importer']
# every plugin defines an extern "C" registerPlugins(): rename them so that they can be linked together
PLUGDEF={'lang/csupport/plugin':'registerPlugins_csupport','lang/tlb/register':'registerPlugins_tlb','lang/idl/register':'registerPlugins_idl','lang/idl/export':'registerPlugins_idlx'}

def sh(cmd,**kw):
    p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
    if p.returncode!=0: raise RuntimeError('command failed: %s\n%s'%(' '.join(cmd),'\n'.join([l for l in p.stdout.splitlines() if 'error' in l or 'undefined ref' in l][:12] or [p.stdout[-1500:]])))
    return p.stdout
def hfiles(files):
    h=hashlib.sha256()
    for f in sorted(files):
        h.update(os.path.basename(f).encode()); h.update(open(f,'rb').read())
    return h.hexdigest()[:16]
def prune(prefix,keep):
    ds=sorted(glob.glob(os.path.join(BUILD,prefix+'-*')),key=os.path.getmtime,reverse=True)
    for d in ds[keep:]:
        try:
            if os.path.isdir(d): shutil.rmtree(d)
            else: os.remove(d)
        except OSError: pass
def once(path,fn):
    if os.path.exists(path): os.utime(path); return path
    tmp=path+'.tmp%d.%d'%(os.getpid(),threading.get_ident()); fn(tmp); os.replace(tmp,path); return path

def engine():
    files=glob.glob(ROOT+'/engine/*'); out=os.path.join(BUILD,'symex-'+hfiles(files))
    def b(t):
        cf=sh(['llvm-config-18','--cxxflags']).split(); ld=sh(['llvm-config-18','--ldflags','--libs']).split()
        sh([CLANG,'-O2','-w']+cf+['-fexceptions','-frtti',ROOT+'/engine/symex.cpp','-o',t]+ld+['-lz3','-lpthread'])
    r=once(out,b); prune('symex',2); return r

class Bld:
    def __init__(s,pool,harnesses,native=True):
        s.pool=pool; s.t0=time.time(); os.makedirs(BUILD,exist_ok=True)
        srcs=[f for d in ('typelib','lang') for f in glob.glob(REPO+'/'+d+'/**/*',recursive=True) if re.search(r'\.(cc|hh|h|tcc|hpp)$',f) and '/ruby/' not in f]
        srcs+=glob.glob(REPO+'/bindings/ruby/ext/*'); s.ruby=any(h.startswith('rb') for h in harnesses)
        srcs+=glob.glob(REPO+'/tools/typelib-clang-tlb-importer/*.?pp'); s.cl=any(h.startswith('cl') for h in harnesses)
        s.key=hfiles(srcs+[__file__]+[f for f in glob.glob(ROOT+'/rt/clang/**',recursive=True) if os.path.isfile(f)]); s.rdir=os.path.join(BUILD,'repo-'+s.key); os.makedirs(s.rdir,exist_ok=True); os.utime(s.rdir); prune('repo',2)
        s.rtkey=hfiles([f for f in glob.glob(ROOT+'/rt/**',recursive=True) if os.path.isfile(f)]); s.rtdir=os.path.join(BUILD,'rt-'+s.rtkey); os.makedirs(s.rtdir,exist_ok=True); os.utime(s.rtdir); prune('rt',2)
        s.common=hfiles(glob.glob(ROOT+'/harness/*.h'))
        s.eng=pool.submit(engine); s.rt=pool.submit(s.b_rt); s.xml=pool.submit(s.b_xml)
        s.hb={h:pool.submit(s.b_hbc,h) for h in harnesses}
        s.bc=[pool.submit(s.b_bc,f) for f in SRCS]
        s.rbbc=[pool.submit(s.b_bc,f,RBINC) for f in RBSRCS]+[pool.submit(s.b_rbrt)] if s.ruby else []
        s.clbc=[pool.submit(s.b_bc,f,CLINC) for f in CLSRCS] if s.cl else []
        s.nat=[]; s.hn={}
        if native:
            s.nat=[pool.submit(s.b_nat,f) for f in SRCS]; s.rbnat=[pool.submit(s.b_nat,f,RBINC) for f in RBSRCS]+[pool.submit(s.b_rbrtn)] if s.ruby else []
            s.clnat=[pool.submit(s.b_nat,f,CLINC) for f in CLSRCS] if s.cl else []
            s.natrt=pool.submit(s.b_natrt)
            s.hn={h:pool.submit(s.b_hnat,h) for h in harnesses}
        s.lk={}
    def pd(s,f): return ['-DregisterPlugins='+PLUGDEF[f]] if f in PLUGDEF else []
    def b_rt(s): return once(s.rtdir+'/rt.bc',lambda t: sh([CLANG]+BCFLAGS+['-fno-access-control','-fno-builtin']+INC+[ROOT+'/rt/rt.cc','-o',t]))
    def b_xml(s): return once(s.rtdir+'/xml.bc',lambda t: sh([CLANG]+BCFLAGS+INC+[ROOT+'/rt/minixml.cc','-o',t]))
    def b_natrt(s): return once(s.rtdir+'/native.o',lambda t: sh(['g++']+[x for x in NATFLAGS if 'gnu++' not in x]+['-std=gnu++17']+INC+[ROOT+'/rt/native.cc','-o',t]))
    def b_rbrt(s): return once(s.rtdir+'/rbrt.bc',lambda t: sh([CLANG]+BCFLAGS+INC+RBINC+[ROOT+'/rt/rbrt.cc','-o',t]))
    def b_rbrtn(s): return once(s.rtdir+'/rbrt.o',lambda t: sh(['g++']+NATFLAGS+INC+RBINC+[ROOT+'/rt/rbrt.cc','-o',t]))
    def b_bc(s,f,inc=[]): return once(s.rdir+'/'+f.replace('/','_')+'.bc',lambda t: sh([CLANG]+BCFLAGS+INC+inc+DEFS+s.pd(f)+[REPO+'/'+f+('' if f.endswith('.cpp') else '.cc'),'-o',t]))
    def b_nat(s,f,inc=[]): return once(s.rdir+'/'+f.replace('/','_')+'.o',lambda t: sh(['g++']+NATFLAGS+INC+inc+DEFS+s.pd(f)+[REPO+'/'+f+('' if f.endswith('.cpp') else '.cc'),'-o',t]))
    def hk(s,h): return hfiles([ROOT+'/harness/'+h])+s.common+s.rtkey
    def b_hbc(s,h): return once(s.rdir+'/h_%s_%s.bc'%(h,s.hk(h)),lambda t: sh([CLANG]+BCFLAGS+INC+s.hi(h)+['-DSYM_BITCODE',ROOT+'/harness/'+h,'-o',t]))
    def b_hnat(s,h): return once(s.rdir+'/h_%s_%s.o'%(h,s.hk(h)),lambda t: sh(['g++']+NATFLAGS+INC+s.hi(h)+[ROOT+'/harness/'+h,'-o',t]))
    def hi(s,h): return RBINC if h.startswith('rb') else CLINC if h.startswith('cl') else []
    def link(s,h):
        if h in s.lk: return s.lk[h]
        def b(t):
            hb=s.hb[h].result(); mods=[s.rt.result(),s.xml.result(),hb]+[x.result() for x in s.bc]+([x.result() for x in s.clbc] if h.startswith('cl') else []); ov=['--override='+x.result() for x in s.rbbc] if h.startswith('rb') else [] # endianness.hh defines a non-inline function
            sh(['llvm-link-18']+mods+ov+['-o',t+'.l'])
            names=[l.split()[-1] for l in sh(['llvm-nm-18','--defined-only',hb]).splitlines()]; names=[n for n in names if n.startswith('h_')]
            sh(['opt-18','-passes=internalize,globaldce','-internalize-public-api-list='+','.join(names),t+'.l','-o',t]); os.remove(t+'.l')
        s.lk[h]=once(s.rdir+'/l_%s_%s.bc'%(h,s.hk(h)),b); return s.lk[h]
    def native(s,h):
        def b(t):
            sh(['g++','-fsanitize=address','-rdynamic',s.natrt.result(),s.hn[h].result()]+[x.result() for x in s.nat+(s.rbnat if h.startswith('rb') else s.clnat if h.startswith('cl') else [])]+(['-Wl,-z,muldefs,--unresolved-symbols=ignore-all'] if h.startswith('rb') else [])+['-Wl,--wrap=write,--wrap=fwrite,--wrap=malloc,--wrap=getenv,--wrap=dlopen,--wrap=dlsym,--wrap=dlerror,--wrap=dlclose,--wrap=exit','-lxml2','-ldl','-o',t])
        return once(s.rdir+'/n_%s_%s'%(h,s.hk(h)),b)

def run_native(exe,entry,inputs,params,limit,tmp,timeout=20):
    os.makedirs(tmp,exist_ok=True); f=os.path.join(tmp,'in%d_%d'%(threading.get_ident(),time.monotonic_ns()))
    open(f,'w').write('\n'.join(str(v) for v in inputs)+'\n')
    ps=','.join('%s=%d'%kv for kv in params.items())
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=1:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0')
    env.pop('TYPELIB_PLUGIN_PATH',None)
    try:
        p=subprocess.run([exe,entry,f,ps,str(limit)],stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,env=env,cwd=tmp)
        rc=p.returncode; out=p.stdout.decode('latin1'); err=p.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        rc=-999; out=(e.stdout or b'').decode('latin1'); err='timeout'
    os.remove(f)
    return rc,out,err
def confirm(e,exe,entry,params,limit,tmp):
    rc,out,err=run_native(exe,entry,[v for _,v in e['inputs']],params,limit,tmp)
    k=e['kind']
    if k=='check': ok= rc==77 and ('CHECK-FAILED '+e['msg']) in out
    elif k=='nontermination': ok= rc==-999 or (rc!=0 and rc!=78)
    else: ok= rc not in (0,77,78,2)
    if rc==78: ok=False
    m=re.search(r'ERROR: AddressSanitizer: ([^\n]*)',err)
    return ok,rc,(m.group(0) if m else (out[-300:] if rc==77 else (err[-400:] or out[-200:])))

def load_known():
    ks=[]
    p=ROOT+'/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'KNOWN: property=(\S+) entry=(\S+) match=/(.*)/ :: (.*)',l.strip())
            if m: ks.append(dict(property=m.group(1),entry=m.group(2),rx=re.compile(m.group(3)),desc=m.group(4)))
    return ks

def main():
    import props
    args=[a for a in sys.argv[1:] if not a.startswith('--')]; 
    if args and args[0]=='setup':
        with ThreadPoolExecutor(NCPU) as pool:
            hs=sorted({j['h'] for p in props.PROPS.values() for j in p['jobs']})
            b=Bld(pool,hs); b.eng.result(); b.rt.result()
            for h in hs: b.link(h); b.native(h)
        print('setup ok'); return 0
    tier='thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER','quick')
    if tier not in('quick','thorough'): tier='quick'
    seed=int(os.environ.get('VERIF_SEED','1') or 1); pid=args[0]; P=props.PROPS[pid]; t0=time.time()
    only=[a.split('=',1)[1] for a in sys.argv if a.startswith('--only=')]; verbose='-v' in sys.argv or '--verbose' in sys.argv
    jobs=[j for j in P['jobs'] if (tier in j['tiers']) and (not only or j['entry'] in only)]
    total_budget=P.get('budget',{}).get(tier,300 if tier=='quick' else 3600)
    tmp=os.path.join(BUILD,'tmp-%s-%d'%(pid,os.getpid())); os.makedirs(tmp,exist_ok=True)
    results=[]; viol=[]; knownhits={}; unconf=[]; notes=[]
    try:
        bp=ThreadPoolExecutor(NCPU); b=Bld(bp,sorted({j['h'] for j in jobs}))
        eng=b.eng.result(); locks={}
        for j in jobs: b.link(j['h'])
        tb=time.time()
        def runjob(i):
            j=jobs[i]; out=os.path.join(tmp,'r%d.json'%i); bcf=b.link(j['h'])
            left=total_budget-(time.time()-tb); tl=max(5,min(j['time'][tier],left))
            cmd=[eng,bcf,'--entry','h_'+j['entry'],'--out',out,'--time',str(tl),'--steps',str(j['steps']),'--alloc-limit',str(j['alloc']),'--seed',str(seed),'--samples',str(j['samples'])]
            prm=dict(j['params']); prm.setdefault('thorough',1 if tier=='thorough' else 0)
            for k,v in prm.items(): cmd+=['--param','%s=%d'%(k,v)]
            p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=tl+120)
            if not os.path.exists(out): return j,prm,None,p.stderr[-2000:]
            if os.environ.get('SHOWPRINT'): print(p.stderr)
            r=json.load(open(out)); return j,prm,r,p.stderr
        # longest first
        order=sorted(range(len(jobs)),key=lambda i:-jobs[i]['time'][tier]*jobs[i].get('weight',1))
        with ThreadPoolExecutor(NCPU) as jp: res=list(jp.map(runjob,order))
        for h in sorted({j['h'] for j in jobs}): b.native(h)
        known=load_known()
        def post(x):
            j,prm,r,err=x
            if r is None: return x,[],0,['engine failure: '+err]
            exe=b.native(j['h']); ev=[]; seen={}
            for e in r['errors']:
                key=(e['kind'],e['msg'],e['where'])
                if seen.get(key,0)>=1 and all(q[0]==key and q[1] for q in ev if q[0]==key): continue
                seen[key]=seen.get(key,0)+1
                ok,rc,txt=confirm(e,exe,'h_'+j['entry'],prm,j['alloc'],tmp); ev.append((key,ok,e,rc,txt))
            val=0; bad=[]
            for sm in r['samples'][:j['samples']]:
                rc,out,errt=run_native(exe,'h_'+j['entry'],[v for _,v in sm['inputs']],prm,j['alloc'],tmp)
                obs=[int(l[4:]) for l in out.splitlines() if l.startswith('OBS ')]; cov=[l[6:] for l in out.splitlines() if l.startswith('COVER ')]
                if rc==0 and obs==sm['obs'] and sorted(set(cov))==sorted(set(sm['covers'])): val+=1
                else: bad.append('trace mismatch in %s: rc=%d obs=%s/%s cov=%s/%s %s inputs=%s'%(j['entry'],rc,obs[:12],sm['obs'][:12],cov[:8],sm['covers'][:8],(out[-200:]+errt[-300:]) if rc else '',sm['inputs'][:40]))
            return x,ev,val,bad
        with ThreadPoolExecutor(NCPU) as jp: posts=list(jp.map(post,res))
    finally:
        pass
    rdir=os.path.join(ROOT,'evidence','replay',pid); shutil.rmtree(rdir,ignore_errors=True); os.makedirs(rdir,exist_ok=True)
    tot=dict(paths=0,error_paths=0,forks=0,instructions=0,queries=0,z3_calls=0,cache_hits=0,model_hits=0,sat=0,unsat=0,unknown=0,checks=0,checks_symbolic=0,checks_proved=0,assume_kills=0,unsupported=0,step_limit=0,pending=0,stopped=0,concretizations=0); stime=0; funcs=set(); lines={}; traces=0; samples=[]; jl=[]; incomplete=[]; covmiss=[]; broken=[]
    for (x,ev,val,bad) in posts:
        j,prm,r,err=x
        if r is None: broken.append('%s: engine failure: %s'%(j['entry'],err[-500:])); continue
        for k in tot: tot[k]+=r[k]
        stime+=r['solver_time']; funcs|=set(r['functions']); traces+=val
        for f,l in r['lines'].items(): lines.setdefault(f,set()).update(l)
        for m in bad: notes.append(m)
        exh = not r['timeout'] and r['pending']==0 and r['unsupported']==0 and r['step_limit']==0 and r['unknown']==0
        if not exh: incomplete.append('%s%s: timeout=%s pending=%d unsupported=%s step_limit=%d unknown=%d'%(j['entry'],prm,r['timeout'],r['pending'],r['unsupported_msgs'],r['step_limit'],r['unknown']))
        miss=[c for c in j['cover'] if c not in r['covers']]
        if miss and not ev: covmiss.append('%s: cover labels not reached: %s'%(j['entry'],miss))
        jl.append(dict(harness=j['h']+':'+j['entry'],params=prm,bounds=j['bounds'],paths=r['paths'],error_paths=r['error_paths'],forks=r['forks'],instructions=r['instructions'],checks=r['checks'],checks_symbolic=r['checks_symbolic'],queries=r['queries'],z3_calls=r['z3_calls'],sat=r['sat'],unsat=r['unsat'],solver_time_s=r['solver_time'],wall_s=r['wall'],exhaustive_within_bounds=exh,covers=r['covers'],traces_validated=val))
        if verbose: print('  %-28s %s paths=%d err=%d forks=%d insts=%.1fM q=%d z3=%d st=%.1fs wall=%.1fs exh=%s val=%d covers=%s'%(j['entry'],{k:v for k,v in prm.items() if k!='thorough'},r['paths'],r['error_paths'],r['forks'],r['instructions']/1e6,r['queries'],r['z3_calls'],r['solver_time'],r['wall'],exh,val,r['covers']))
        for s in r['samples'][:2]:
            if len(samples)<12: samples.append(dict(harness=j['entry'],inputs=s['inputs'][:64],observed=s['obs'][:16],reached=s['covers'][:12]))
        done=set()
        for key,ok,e,rc,txt in ev:
            if not ok:
                unconf.append('%s: %s (native rc=%d: %s) inputs=%s trace=%s'%(j['entry'],key,rc,txt[:200],e['inputs'][:40],e['trace'][:6])); continue
            txtkey='%s|%s|%s'%key
            kf=[k for k in known if k['property']==pid and k['entry'] in (j['entry'],'*') and k['rx'].search(txtkey)]
            if kf: knownhits[kf[0]['desc']]=knownhits.get(kf[0]['desc'],0)+1; continue
            if (j['entry'],key) in done: continue
            done.add((j['entry'],key))
            path=os.path.join(rdir,'%d.json'%len(viol))
            json.dump(dict(property=pid,harness=j['h'],entry=j['entry'],params=prm,alloc_limit=j['alloc'],kind=e['kind'],message=e['msg'],where=e['where'],trace=e['trace'],inputs=e['inputs'],native_rc=rc,native_output=txt,replay_cmd='python3 check.py replay '+os.path.relpath(path,ROOT)),open(path,'w'),indent=1)
            viol.append((path,j['entry'],e,txt))
    wall=time.time()-t0
    ev=dict(property=pid,tier=tier,seed=seed,level='model_checking',wall_s=round(wall,2),violations=len(viol),assumptions=P.get('assumptions',[])+props.COMMON_ASSUMPTIONS,
      coverage=dict(states=tot['paths']+tot['error_paths']+tot['assume_kills']+tot['stopped']+tot['unsupported']+tot['step_limit'],transitions=tot['forks'],traces_validated_against_impl=traces,samples=samples or [dict(note='no path completed')],exhaustive=(not incomplete and not broken),
        explanation='states = symbolic paths explored to their end; transitions = solver-decided forks between paths; every path stands for all inputs satisfying its path condition',
        totals=tot,solver_time_s=round(stime,3),functions_encoded=sorted(funcs),functions_encoded_count=len(funcs),source_lines_executed={f:len(l) for f,l in sorted(lines.items())},harness_runs=jl,incomplete=incomplete,cover_missing=covmiss,trace_mismatches=notes[:10],unconfirmed_counterexamples=unconf[:20],known_findings=knownhits))
    if os.environ.get('LINESOUT'): json.dump({f:sorted(l) for f,l in lines.items()},open(os.environ['LINESOUT'],'w'))
    os.makedirs(ROOT+'/evidence',exist_ok=True); json.dump(ev,open(ROOT+'/evidence/%s.json'%pid,'w'),indent=1)
    shutil.rmtree(tmp,ignore_errors=True)
    print('%s [%s]: %d runs, %d paths, %d forks, %d queries (%d z3), solver %.1fs, %d/%d symbolic checks, %d traces validated, wall %.1fs%s'%(pid,tier,len(jl),tot['paths'],tot['forks'],tot['queries'],tot['z3_calls'],stime,tot['checks_symbolic'],tot['checks'],traces,wall,'' if not incomplete else ' (incomplete: %d runs)'%len(incomplete)))
    for m in incomplete: print('INCOMPLETE',m[:600])
    for m in covmiss: print('COVER-MISSING',m)
    for m in notes[:5]: print('TRACE-MISMATCH',m[:900])
    for m in unconf[:8]: print('UNCONFIRMED',m[:900])
    for d,n in knownhits.items(): print('KNOWN-FINDING: property=%s %s'%(pid,d))
    for path,en,e,txt in viol:
        print('VIOLATION property=%s replay=%s'%(pid,path)); print('  %s: %s: %s at %s; inputs %s'%(en,e['kind'],e['msg'],e['where'],e['inputs'][:10])); print('  native: '+txt[:160].replace('\n',' | '))
        if '--trace' in sys.argv: print('   '+'\n   '.join(e['trace']))
    if broken:
        for m in broken: print('BROKEN',m)
    if viol: return 1
    if broken and not jl: return 3
    return 0

def replay(path):
    import props
    d=json.load(open(path)); pool=ThreadPoolExecutor(NCPU); b=Bld(pool,[d['harness']]); exe=b.native(d['harness'])
    rc,out,err=run_native(exe,'h_'+d['entry'],[v for _,v in d['inputs']],d['params'],d['alloc_limit'],os.path.join(BUILD,'tmp-replay'))
    print(out); print(err); print('exit',rc); return rc
if __name__=='__main__':
    if len(sys.argv)>2 and sys.argv[1]=='replay': sys.exit(0 if replay(sys.argv[2])==0 else 1)
    try: sys.exit(main())
    except RuntimeError as e: print('BROKEN: '+str(e)); sys.exit(3)
