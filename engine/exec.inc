static void pushCall(FnInfo*fi,const vector<Val>&args,const vector<unsigned>&ws){
  if(!fi->decoded) decode(fi); fi->entered=true;
  if(S->st.size()>=g_maxDepth) fail("stack","call depth limit exceeded (unbounded recursion)");
  S->st.emplace_back(); Frame&f=S->st.back(); f.fn=fi; f.pc=0; f.invInst=0; f.r.assign(fi->nslots,V(0));
  size_t k=0; for(size_t a=0;a<fi->argLanes.size();a++){ auto&L=fi->argLanes[a]; for(size_t j=0;j<L.size();j++){ if(k<args.size()) f.r[fi->argSlots[a]+j]=args[k]; k++; }
    if(fi->byval[a]){ u64 sz=fi->byval[a]; u64 src=conc(args[k-1]); u64 p=allocObj(sz,KStack,0xA5); copyMem(p,src,sz); S->st.back().allocas.push_back(p>>WBITS); f.r[fi->argSlots[a]]=V(p); } }
  for(;k<args.size();k++){ f.va.push_back(args[k]); f.vaw.push_back(ws[k]); } }

static void finishCall(Inst&in,const vector<Val>&ret){ Frame&f=S->st.back(); if(in.dst>=0) for(size_t i=0;i<ret.size()&&i<in.nl;i++) f.r[in.dst+i]=ret[i]; if(in.op==I_INVOKE) takeEdge(f,in.edges[0]); else f.pc++; }

static double asD(u64 c,unsigned w){ if(w==32){ float x; u32 y=c; memcpy(&x,&y,4); return x; } double d; memcpy(&d,&c,8); return d; }
static u64 fromD(double d,unsigned w){ if(w==32){ float x=(float)d; u32 y; memcpy(&y,&x,4); return y; } u64 c; memcpy(&c,&d,8); return c; }
static u64 fpc(const Val&v){ if(v.e) unsup("symbolic floating point"); return v.c; }

static Val binop(unsigned opc,unsigned w,const Val&a,const Val&b){
  Op op; switch(opc){ case Instruction::Add:op=OAdd;break;case Instruction::Sub:op=OSub;break;case Instruction::Mul:op=OMul;break;case Instruction::UDiv:op=OUDiv;break;case Instruction::SDiv:op=OSDiv;break;case Instruction::URem:op=OURem;break;case Instruction::SRem:op=OSRem;break;case Instruction::And:op=OAnd;break;case Instruction::Or:op=OOr;break;case Instruction::Xor:op=OXor;break;case Instruction::Shl:op=OShl;break;case Instruction::LShr:op=OLShr;break;default:op=OAShr; }
  if(op>=OUDiv&&op<=OSRem){ E z=mkBin(OEq,EV(b,w),K(w,0)); if(decide(z)) fail("arith","division by zero"); }
  if(!a.e&&!b.e&&w<=64){ switch(op){ case OAdd: return V((a.c+b.c)&mk64(w)); case OSub: return V((a.c-b.c)&mk64(w)); case OMul: return V((a.c*b.c)&mk64(w)); case OAnd: return V(a.c&b.c); case OOr: return V(a.c|b.c); case OXor: return V(a.c^b.c); default: return V((u64)foldBin(op,w,a.c,b.c)); } }
  return VE(mkBin(op,EV(a,w),EV(b,w))); }
static Val icmp(unsigned p,unsigned w,const Val&a,const Val&b){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.c,y=b.c; i64 sa=(i64)(x<<(64-w))>>(64-w),sb=(i64)(y<<(64-w))>>(64-w); bool r=false; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_SGT:r=sa>sb;break;case CmpInst::ICMP_SGE:r=sa>=sb;break;case CmpInst::ICMP_SLT:r=sa<sb;break;case CmpInst::ICMP_SLE:r=sa<=sb;break; } return V(r); }
  E x=EV(a,w),y=EV(b,w); E r; switch(p){ case CmpInst::ICMP_EQ:r=mkBin(OEq,x,y);break;case CmpInst::ICMP_NE:r=mkNot(mkBin(OEq,x,y));break;case CmpInst::ICMP_UGT:r=mkBin(OUlt,y,x);break;case CmpInst::ICMP_UGE:r=mkBin(OUle,y,x);break;case CmpInst::ICMP_ULT:r=mkBin(OUlt,x,y);break;case CmpInst::ICMP_ULE:r=mkBin(OUle,x,y);break;case CmpInst::ICMP_SGT:r=mkBin(OSlt,y,x);break;case CmpInst::ICMP_SGE:r=mkBin(OSle,y,x);break;case CmpInst::ICMP_SLT:r=mkBin(OSlt,x,y);break;default:r=mkBin(OSle,x,y); }
  return VE(r); }
static u64 resolveAddr(const Val&a,u64 bytes,bool write){
  if(!a.e) return a.c; u64 v=(u64)evalM(a.e,S->m); u64 id=v>>WBITS; Obj*o=S->mem.get(id);
  u64 b=addrOf(id); bool ok=o&&v>=b&&v-b<=o->size&&o->size-(v-b)>=bytes;
  if(ok){ decide(mkBin(OUle,mkBin(OSub,a.e,K(64,b)),K(64,o->size-bytes))); return concretize(a.e); }
  decide(mkBin(OEq,mkExtract(a.e,WBITS,64-WBITS),K(64-WBITS,id))); return v; }
static u64 remaining(u64 a){ u64 id=a>>WBITS; Obj*o=S->mem.get(id); if(!o) return 0; u64 b=addrOf(id); if(a<b||a-b>o->size) return 0; return o->size-(a-b); }
static u64 memLen(const Val&n,u64 a,u64 b){ if(!n.e) return n.c; u64 lim=remaining(a); if(b) lim=std::min(lim,remaining(b)); if(!decide(mkBin(OUle,n.e,K(64,lim)))) return (u64)evalM(n.e,S->m); return concretize(n.e); }
static u32 symIndex(u32 k,unsigned w,const string&name){ static std::map<std::pair<u32,unsigned>,u32> tab; auto it=tab.find({k,w}); if(it!=tab.end()) return it->second; u32 i=g_syms.size(); if(i>=MAXSYM){ fprintf(stderr,"too many symbols\n"); exit(3);} SymInfo s; s.name=name; s.w=w; s.e=nullptr; g_syms.push_back(s); g_syms[i].e=intern(OSym,w,0,0,0,i); tab[{k,w}]=i; return i; }
static bool exitPath=false;
static void doMemset(u64 d,const Val&v,u64 n){ if(!n) return; u64 off; Obj*o=objAt(d,n,true,"write (memset)",&off); if(!v.e){ memset(o->d+off,(int)(v.c&255),n); if(o->s) memset(o->s+off,0,n*sizeof(E)); } else for(u64 i=0;i<n;i++) storeObj(o,off+i,1,8,v); }
static Val doMemcmp(u64 a,u64 b,u64 n,bool eqOnly){ if(!n) return V(0); u64 ao,bo; Obj*x=objAt(a,n,false,"read (memcmp)",&ao),*y=objAt(b,n,false,"read (memcmp)",&bo);
  if(!x->s&&!y->s){ int r=memcmp(x->d+ao,y->d+bo,n); return V((u32)(r<0?-1:r>0?1:0)); }
  E r=K(32,0); for(u64 i=n;i-->0;){ E p=byteAt(x,ao+i),q=byteAt(y,bo+i); E eq=mkBin(OEq,p,q); if(isK(eq,1)) continue; E ne= eqOnly? K(32,1): mkIte(mkBin(OUlt,p,q),K(32,0xffffffffu),K(32,1)); r=mkIte(eq,r,ne); }
  return VE(r); }
struct Restart{};
static void builtin(int b,Inst&in,const vector<Val>&a){
  vector<Val> ret;
  switch(b){
   case B_INT: { string nm=cstr(conc(a[0])); unsigned w=conc(a[1]); u32 i=symIndex(S->nsym,w,nm); S->nsym++; S->symseq.push_back(i); if(S->m.size()<=i) S->m.resize(i+1,0); ret={VE(mkZ(g_syms[i].e,64))}; break; }
   case B_ASSUME: { E c=a[0].e? mkNot(mkBin(OEq,a[0].e,K(a[0].e->w,0))):K(1,a[0].c!=0); if(isK(c)){ if(!c->v){ g_assumeKills++; throw PathEnd(); } break; }
      if(!evalM(c,S->m)){ Model o; int r=solve(S->pc,c,S->m,o); if(r!=1){ if(r<0) g_unknown++; g_assumeKills++; throw PathEnd(); } S->m=o; } addPC(S,c); break; }
   case B_CHECK: { g_checks++; E c=a[0].e? mkNot(mkBin(OEq,a[0].e,K(a[0].e->w,0))):K(1,a[0].c!=0); string msg; 
      if(isK(c)){ if(!c->v) fail("check",cstr(conc(a[1]))); g_checksProved++; break; }
      g_checksSym++;
      if(!evalM(c,S->m)){ recordErr("check",cstr(conc(a[1])),S->m); Model o; int r=solve(S->pc,c,S->m,o); if(r!=1) throw PathEnd(); S->m=o; addPC(S,c); break; }
      Model o; int r=solve(S->pc,mkNot(c),S->m,o); if(r==1){ recordErr("check",cstr(conc(a[1])),o); } else if(r<0) { g_unknown++; } else g_checksProved++; if(r!=0) addPC(S,c); break; }
   case B_OBS: S->obs.push_back(a[0]); break;
   case B_COVER: { string n=cstr(conc(a[0])); auto it=g_coverIdx.find(n); u32 i; if(it==g_coverIdx.end()){ i=g_coverNames.size(); g_coverNames.push_back(n); g_coverIdx[n]=i; } else i=it->second; bool has=false; for(u32 x:S->covers) if(x==i) has=true; if(!has) S->covers.push_back(i); break; }
   case B_LIVE: ret={V(S->live)}; break;
   case B_CONC: ret={V(conc(a[0]))}; break;
   case B_ISSYM: ret={V(a[0].e?1:0)}; break;
   case B_WITNESS: ret={V(a[0].e?(u64)evalM(a[0].e,S->m):a[0].c)}; break;
   case B_PARAM: { string n=cstr(conc(a[0])); auto it=g_params.find(n); ret={it==g_params.end()?a[1]:V(it->second)}; break; }
   case B_MALLOC: { u64 kind=conc(a[1]); u64 n; if(a[0].e){ if(!decide(mkBin(OUle,a[0].e,K(64,g_allocLimit)))){ ret={V(0)}; break; } n=concretize(a[0].e);} else n=a[0].c; if(n>g_allocLimit){ ret={V(0)}; break; } if(kind) S->live++; u64 p=allocObj(n,kind?KNew:KMalloc,0xA5); ret={V(p)}; break; }
   case B_FREE: { u64 p=conc(a[0]); u64 kind=conc(a[1]); if(!p) break; Obj*o=S->mem.get(p>>WBITS); if(!o||addrOf(p>>WBITS)!=p||(o->kind!=KNew&&o->kind!=KMalloc)) fail("memory","invalid or double free"); if((o->kind==KNew)!=(kind!=0)) fail("memory","mismatched allocation/deallocation"); if(o->kind==KNew) S->live--; S->mem.kill(p>>WBITS); break; }
   case B_OBJSIZE: ret={V(remaining(conc(a[0])))}; break;
   case B_READABLE: ret={V(remaining(conc(a[0]))>=conc(a[1]))}; break;
   case B_UNWIND: unwind(conc(a[0])); return;
   case B_FUEL: S->fuel=S->steps+conc(a[0]); break;
   case B_EXIT: g_silent++; throw PathEnd();
   case B_PRINT: { if(g_trace||1) { u64 p=conc(a[0]); fprintf(stderr,"[print] %s",cstr(p).c_str()); if(a.size()>1){ if(a[1].e) fprintf(stderr," <sym w=%u witness %llu>",a[1].e->w,(unsigned long long)evalM(a[1].e,S->m)); else fprintf(stderr," %llu",(unsigned long long)a[1].c);} fprintf(stderr,"\n"); } break; }
   case B_ITE: { E c=a[0].e? mkNot(mkBin(OEq,a[0].e,K(a[0].e->w,0))):K(1,a[0].c!=0); ret={VE(mkIte(c,EV(a[1],64),EV(a[2],64)))}; break; }
   case B_MEMCPY: case B_MEMMOVE: { u64 d=resolveAddr(a[0],1,true),s=resolveAddr(a[1],1,false); u64 n=memLen(a[2],d,s); if(b==B_MEMCPY&&n&&d!=s&&(d<s?d+n>s:s+n>d)) fail("memory","memcpy with overlapping ranges"); copyMem(d,s,n); ret={V(d)}; break; }
   case B_MEMSET: { u64 d=resolveAddr(a[0],1,true); u64 n=memLen(a[2],d,0); Val v=a[1].e?VE(mkExtract(a[1].e,0,8)):V(a[1].c&255); doMemset(d,v,n); ret={V(d)}; break; }
   case B_MEMCMP: case B_BCMP: { u64 p=resolveAddr(a[0],1,false),q=resolveAddr(a[1],1,false); u64 n=memLen(a[2],p,q); ret={doMemcmp(p,q,n,b==B_BCMP)}; break; }
   case B_STRLEN: { u64 p=conc(a[0]); u64 n=0; for(;;n++){ Val v=loadMem(p+n,1,8); if(!v.e){ if(!v.c) break; } else if(decide(mkBin(OEq,v.e,K(8,0)))) break; } ret={V(n)}; break; }
   case B_STRCMP: { u64 p=conc(a[0]),q=conc(a[1]); u32 r=0; for(;;p++,q++){ Val x=loadMem(p,1,8),y=loadMem(q,1,8); E ex=EV(x,8),ey=EV(y,8); if(!decide(mkBin(OEq,ex,ey))){ r=decide(mkBin(OUlt,ex,ey))?-1:1; break; } if(decide(mkBin(OEq,ex,K(8,0)))) break; } ret={V(r)}; break; }
   case B_MEMCHR: { u64 p=conc(a[0]); u64 n=memLen(a[2],p,0); E c=a[1].e?mkExtract(a[1].e,0,8):K(8,a[1].c); u64 r=0; for(u64 i=0;i<n;i++){ Val v=loadMem(p+i,1,8); if(decide(mkBin(OEq,EV(v,8),c))){ r=p+i; break; } } ret={V(r)}; break; }
   case B_DYNCAST: { u64 p=conc(a[0]); u64 dst=conc(a[2]); if(!p){ ret={V(0)}; break; } u64 vt=conc(loadMem(p,8,64)); i64 top=(i64)conc(loadMem(vt-16,8,64)); u64 t=conc(loadMem(vt-8,8,64)); std::set<u64> o; findSub(t,p+top,dst,o); u64 r=0; if(o.size()==1) r=*o.begin(); else if(o.size()>1){ for(u64 q:o){ std::set<u64> z; findSub(dst,q,conc(a[1]),z); if(z.count(p)) r=q; } } ret={V(r)}; break; }
   case B_FMTD: { u64 bits=fpc(a[0]); double d; memcpy(&d,&bits,8); int pr=(int)conc(a[1]); u64 md=conc(a[2]); char b[400]; int n=snprintf(b,400,md==1?"%.*f":md==2?"%.*e":"%.*g",pr,d); if(n>399) n=399; u64 p=conc(a[3]); for(int i=0;i<n;i++) storeMem(p+i,1,8,V((u64)(unsigned char)b[i])); ret={V(n)}; break; }
   case B_STRTOD: { u64 p=conc(a[0]); string t; for(u64 q=p;;q++){ u64 c=conc(loadMem(q,1,8)); if(!c) break; t.push_back((char)c); } char*e; double d=strtod(t.c_str(),&e); u64 ep=conc(a[1]); if(ep) storeMem(ep,8,64,V(p+(e-t.c_str()))); ret={V(fromD(d,64))}; break; }
   case B_ABORT: fail("abort","abort() called"); case B_TERMINATE: fail("abort","std::terminate called"); case B_PUREVIRT: fail("abort","pure virtual call");
   case B_ASSERTFAIL: fail("assert","assertion failed: "+cstr(conc(a[0])));
   case B_ATEXIT: ret={V(0)}; break;
   default: unsup("builtin?"); }
  finishCall(in,ret); }

static void doCall(Inst&in){
  Frame&f=S->st.back(); FnInfo*fi=in.callee; size_t aoff=0;
  if(!fi){ u64 t=conc(rd(f,in.ops[0])); auto it=g_fnByAddr.find(t); if(it==g_fnByAddr.end()) fail("memory",t==0?"call through null function pointer":"call through invalid function pointer"); fi=it->second; }
  static vector<Val> args; static vector<unsigned> ws; vector<Val> la; vector<unsigned> lw; la.reserve(in.copies.size());
  for(auto&c:in.copies){ la.push_back(rd(f,c.first)); lw.push_back(c.second); } (void)aoff;
  if(fi->builtin<0){ auto it=g_builtins.find(fi->name); fi->builtin= it==g_builtins.end()?0:it->second; }
  if(fi->builtin>0){ builtin(fi->builtin,in,la); return; }
  if(fi->F->isDeclaration()) unsup("external function "+fi->name);
  pushCall(fi,la,lw); }

static Val castv(unsigned op,unsigned w,unsigned w2,const Val&v){
  switch(op){
   case Instruction::Trunc: if(!v.e) return V(v.c&mk64(w)); return VE(mkExtract(v.e,0,w));
   case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if(w==w2) return v; if(w<w2){ if(!v.e) return V(v.c&mk64(w)); return VE(mkExtract(v.e,0,w)); } if(!v.e&&w<=64) return v; return VE(mkZ(EV(v,w2),w));
   case Instruction::SExt: if(!v.e&&w<=64){ i64 x=(i64)(v.c<<(64-w2))>>(64-w2); return V((u64)x&mk64(w)); } return VE(mkS(EV(v,w2),w));
   case Instruction::FPTrunc: case Instruction::FPExt: if(w>64||w2>64) unsup("long double"); return V(fromD(asD(fpc(v),w2),w));
   case Instruction::FPToUI: return V((u64)asD(fpc(v),w2)&mk64(w)); case Instruction::FPToSI: return V((u64)(i64)asD(fpc(v),w2)&mk64(w));
   case Instruction::UIToFP: if(w>64) unsup("long double"); { u64 c=fpc(v); return V(w==32?({float x=(float)c;u32 y;memcpy(&y,&x,4);(u64)y;}):fromD((double)c,w)); }
   case Instruction::SIToFP: if(w>64) unsup("long double"); { i64 c=(i64)(fpc(v)<<(64-w2))>>(64-w2); return V(w==32?({float x=(float)c;u32 y;memcpy(&y,&x,4);(u64)y;}):fromD((double)c,w)); }
   default: unsup("cast"); } }

static void intrinsic(Inst&in){
  Frame&f=S->st.back(); auto A=[&](int i)->Val&{ return rd(f,in.ops[i]); }; auto L=[&](int i,unsigned k)->Val&{ int o=in.ops[i]; return rd(f,o>=0?o+(int)k:o-(int)k); };
  unsigned w=in.w; auto set=[&](const Val&v){ f.r[in.dst]=v; };
  switch(in.sub){
   case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { Val n=A(2); if(!n.e&&n.c==0) break; u64 d=resolveAddr(A(0),1,true),s=resolveAddr(A(1),1,false); u64 len=memLen(n,d,s); if(in.sub!=Intrinsic::memmove&&len&&d!=s&&(d<s?d+len>s:s+len>d)) fail("memory","memcpy with overlapping ranges"); copyMem(d,s,len); break; }
   case Intrinsic::memset: { Val n=A(2); if(!n.e&&n.c==0) break; u64 d=resolveAddr(A(0),1,true); u64 len=memLen(n,d,0); doMemset(d,A(1),len); break; }
   case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: if(in.dst>=0) set(V(0)); break;
   case Intrinsic::stacksave: set(V(0)); break;
   case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: set(A(0)); break;
   case Intrinsic::is_constant: set(V(0)); break; case Intrinsic::objectsize: { u64 mn=conc(A(1)); set(V(mn?0:mk64(w))); break; }
   case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: for(unsigned k=0;k<in.nl;k++){ unsigned p=in.sub==Intrinsic::umax?CmpInst::ICMP_UGT:in.sub==Intrinsic::umin?CmpInst::ICMP_ULT:in.sub==Intrinsic::smax?CmpInst::ICMP_SGT:CmpInst::ICMP_SLT; Val a=L(0,k),b=L(1,k); Val c=icmp(p,w,a,b); if(!c.e) f.r[in.dst+k]=c.c?a:b; else f.r[in.dst+k]=VE(mkIte(c.e,EV(a,w),EV(b,w))); } break;
   case Intrinsic::abs: { Val a=A(0); Val c=icmp(CmpInst::ICMP_SLT,w,a,V(0)); Val n=binop(Instruction::Sub,w,V(0),a); if(!c.e) set(c.c?n:a); else set(VE(mkIte(c.e,EV(n,w),EV(a,w)))); break; }
   case Intrinsic::bswap: { Val a=A(0); E e=EV(a,w); E r=nullptr; for(unsigned i=0;i<w/8;i++){ E b=mkExtract(e,8*i,8); r=r?mkConcat(r,b):b; } set(VE(r)); break; }
   case Intrinsic::ctpop: { Val a=A(0); E e=EV(a,w); E r=K(w,0); for(unsigned i=0;i<w;i++) r=mkBin(OAdd,r,mkZ(mkExtract(e,i,1),w)); set(VE(r)); break; }
   case Intrinsic::ctlz: case Intrinsic::cttz: { Val a=A(0); E e=EV(a,w); E r=K(w,w); if(in.sub==Intrinsic::ctlz) for(unsigned i=0;i<w;i++) r=mkIte(mkExtract(e,i,1),K(w,w-1-i),r); else for(unsigned i=w;i-->0;) r=mkIte(mkExtract(e,i,1),K(w,i),r); set(VE(r)); break; }
   case Intrinsic::fshl: case Intrinsic::fshr: { E hi=EV(A(0),w),lo=EV(A(1),w); E n=mkBin(OURem,EV(A(2),w),K(w,w)); E n2=mkBin(OSub,K(w,w),n); E z=mkBin(OEq,n,K(w,0)); E r; if(in.sub==Intrinsic::fshl) r=mkIte(z,hi,mkBin(OOr,mkBin(OShl,hi,n),mkBin(OLShr,lo,n2))); else r=mkIte(z,lo,mkBin(OOr,mkBin(OShl,hi,n2),mkBin(OLShr,lo,n))); set(VE(r)); break; }
   case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned ww=in.imm[0]; E a=EV(A(0),ww),b=EV(A(1),ww); bool sg=in.sub==Intrinsic::sadd_with_overflow||in.sub==Intrinsic::ssub_with_overflow||in.sub==Intrinsic::smul_with_overflow; Op o=in.sub==Intrinsic::uadd_with_overflow||in.sub==Intrinsic::sadd_with_overflow?OAdd:in.sub==Intrinsic::usub_with_overflow||in.sub==Intrinsic::ssub_with_overflow?OSub:OMul; unsigned W=o==OMul?2*ww:ww+1; E r=mkBin(o,a,b); E ov;
       if(o==OMul&&!sg&&isK(b)&&b->v){ ov=mkBin(OUlt,K(ww,maskw(ww)/b->v),a); } else { E x=sg?mkBin(o,mkS(a,W),mkS(b,W)):mkBin(o,mkZ(a,W),mkZ(b,W)); E y=sg?mkS(r,W):mkZ(r,W); ov=mkNot(mkBin(OEq,x,y)); } f.r[in.dst]=VE(r); f.r[in.dst+1]=VE(ov); break; }
   case Intrinsic::usub_sat: { Val a=A(0),b=A(1); E x=EV(a,w),y=EV(b,w); set(VE(mkIte(mkBin(OUlt,x,y),K(w,0),mkBin(OSub,x,y)))); break; }
   case Intrinsic::uadd_sat: { E x=EV(A(0),w),y=EV(A(1),w); E s=mkBin(OAdd,x,y); set(VE(mkIte(mkBin(OUlt,s,x),K(w,maskw(w)),s))); break; }
   case Intrinsic::eh_typeid_for: set(V(typeidFor(conc(A(0))))); break;
   case Intrinsic::load_relative: { u64 p=conc(A(0)); u64 o=conc(A(1)); u64 q; if(relTarget(p,o,q)){ set(V(q)); break; } i64 d=(int)conc(loadMem(p+o,4,32)); set(V(p+d)); break; }
   case Intrinsic::trap: fail("abort","trap"); case Intrinsic::ubsantrap: fail("abort","trap");
   case Intrinsic::vastart: { u64 p=conc(A(0)); u64 n=f.va.size(); u64 o=allocObj(n*8+8,KStack,0); f.allocas.push_back(o>>WBITS); for(u64 i=0;i<n;i++) storeMem(o+8*i,8,64,f.va[i].e?VE(mkZ(f.va[i].e,64)):f.va[i]); storeMem(p,4,32,V(48)); storeMem(p+4,4,32,V(176)); storeMem(p+8,8,64,V(o)); storeMem(p+16,8,64,V(0)); break; }
   case Intrinsic::vaend: break; case Intrinsic::vacopy: copyMem(conc(A(0)),conc(A(1)),24); break;
   case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: { unsigned nn=nlanes(cast<CallInst>(in.I)->getArgOperand(0)->getType()); E r=EV(L(0,0),w); for(unsigned k=1;k<nn;k++) r=mkBin(in.sub==Intrinsic::vector_reduce_add?OAdd:in.sub==Intrinsic::vector_reduce_or?OOr:in.sub==Intrinsic::vector_reduce_and?OAnd:OXor,r,EV(L(0,k),w)); set(VE(r)); break; }
   case Intrinsic::fabs: set(V(fromD(fabs(asD(fpc(A(0)),w)),w))); break; case Intrinsic::floor: set(V(fromD(floor(asD(fpc(A(0)),w)),w))); break; case Intrinsic::ceil: set(V(fromD(ceil(asD(fpc(A(0)),w)),w))); break; case Intrinsic::copysign: set(V(fromD(copysign(asD(fpc(A(0)),w),asD(fpc(A(1)),w)),w))); break; case Intrinsic::fmuladd: set(V(fromD(asD(fpc(A(0)),w)*asD(fpc(A(1)),w)+asD(fpc(A(2)),w),w))); break;
   default: unsup("intrinsic "+cast<CallInst>(in.I)->getCalledFunction()->getName().str()); }
  f.pc++; }

static void step(){
  Frame&f=S->st.back(); Inst&in=f.fn->code[f.pc]; in.hit=true;
  auto L=[&](int i,unsigned k)->Val&{ int o=in.ops[i]; return o>=0?f.r[o+k]:g_consts[-o-1+k]; };
  switch(in.op){
   case I_BIN: for(unsigned k=0;k<in.nl;k++) f.r[in.dst+k]=binop(in.sub,in.w,L(0,k),L(1,k)); f.pc++; return;
   case I_ICMP: for(unsigned k=0;k<in.nl;k++) f.r[in.dst+k]=icmp(in.sub,in.w2,L(0,k),L(1,k)); f.pc++; return;
   case I_CAST: if(in.sub==Instruction::BitCast){ E r=nullptr; for(unsigned k=0;k<in.lanes.size();k++){ E x=EV(L(0,k),in.lanes[k].w); r=r?mkConcat(x,r):x; } unsigned o=0; for(unsigned k=0;k<in.nl;k++){ unsigned w=in.imm[2*k+1]; f.r[in.dst+k]=VE(mkExtract(r,o,w)); o+=w; } f.pc++; return; }
     for(unsigned k=0;k<in.nl;k++) f.r[in.dst+k]=castv(in.sub,in.w,in.w2,L(0,k)); f.pc++; return;
   case I_COPY: { if(in.copies.size()==1){ f.r[in.copies[0].first]=rd(f,in.copies[0].second); } else { vector<Val> t; for(auto&c:in.copies) t.push_back(rd(f,c.second)); for(size_t i=0;i<t.size();i++) f.r[in.copies[i].first]=t[i]; } f.pc++; return; }
   case I_SELECT: for(unsigned k=0;k<in.nl;k++){ Val c=L(0,in.sub?k:0); Val a=L(1,k),b=L(2,k); if(!c.e) f.r[in.dst+k]=c.c?a:b; else if(in.I->getType()->isPointerTy()||in.lanes[k].w>64&&0) { bool t=decide(c.e); f.r[in.dst+k]=t?a:b; } else f.r[in.dst+k]=VE(mkIte(c.e,EV(a,in.lanes[k].w),EV(b,in.lanes[k].w))); } f.pc++; return;
   case I_ALLOCA: { u64 n=conc(L(0,0))*in.imm[0]; if(n>(1u<<22)) unsup("huge alloca"); u64 p=allocObj(n,KStack,0xA5); f.allocas.push_back(p>>WBITS); f.r[in.dst]=V(p); f.pc++; return; }
   case I_LOAD: { Val a=L(0,0); if(a.e&&in.lanes.size()==1){ Val o; if(inBoundsLoad(a.e,in.lanes[0].bytes,in.lanes[0].w,o)){ f.r[in.dst]=o; f.pc++; return; } }
     u64 tot=in.lanes.empty()?0:in.lanes.back().off+in.lanes.back().bytes; u64 p=resolveAddr(a,tot,false); u64 off; Obj*o=objAt(p,tot,false,"read",&off); for(unsigned k=0;k<in.nl;k++) f.r[in.dst+k]=loadObj(o,off+in.lanes[k].off,in.lanes[k].bytes,in.lanes[k].w); f.pc++; return; }
   case I_STORE: { Val a=L(0,0); u64 tot=in.lanes.empty()?0:in.lanes.back().off+in.lanes.back().bytes; u64 p=resolveAddr(a,tot,true); u64 off; Obj*o=objAt(p,tot,true,"write",&off); for(unsigned k=0;k<in.lanes.size();k++) storeObj(o,off+in.lanes[k].off,in.lanes[k].bytes,in.lanes[k].w,L(1,k)); f.pc++; return; }
   case I_GEP: { Val b=L(0,0); if(in.gep.empty()){ f.r[in.dst]= b.e?VE(mkBin(OAdd,b.e,K(64,in.imm[0]))):V(b.c+in.imm[0]); f.pc++; return; }
     Val r=b.e?VE(mkBin(OAdd,b.e,K(64,in.imm[0]))):V(b.c+in.imm[0]); for(size_t i=0;i<in.gep.size();i++){ Val x=rd(f,in.gep[i].first); unsigned iw=in.imm[1+i]; if(!x.e&&!r.e){ i64 sv=iw<64?(i64)(x.c<<(64-iw))>>(64-iw):(i64)x.c; r=V(r.c+(u64)sv*in.gep[i].second); } else { E ix=EV(x,iw); ix=iw<64?mkS(ix,64):iw>64?mkExtract(ix,0,64):ix; r=VE(mkBin(OAdd,EV(r,64),mkBin(OMul,ix,K(64,in.gep[i].second)))); } } f.r[in.dst]=r; f.pc++; return; }
   case I_CALL: case I_INVOKE: doCall(in); return;
   case I_RET: { vector<Val> r; for(unsigned k=0;k<in.lanes.size();k++) r.push_back(L(0,k)); popFrame(); if(S->st.empty()) { exitPath=true; return; } Frame&c=S->st.back(); finishCall(c.fn->code[c.pc],r); return; }
   case I_BR: takeEdge(f,in.edges[0]); return;
   case I_CBR: { Val c=L(0,0); bool t= c.e?decide(c.e):c.c!=0; takeEdge(S->st.back(),in.edges[t?0:1]); return; }
   case I_SWITCH: { Val c=L(0,0); if(c.e){ // multiway: decide per distinct target
       u64 wv=(u64)evalM(c.e,S->m); int t=0; for(size_t i=0;i<in.imm.size();i++) if(in.imm[i]==wv){ t=i+1; break; }
       std::map<int,E> conds; E def=K(1,1); for(size_t i=0;i<in.imm.size();i++){ E e=mkBin(OEq,c.e,K(in.w2,in.imm[i])); int tg=in.edges[i+1].copies.empty()?in.edges[i+1].target:-(int)i-2; auto it=conds.find(tg); if(it==conds.end()) conds[tg]=e; else it->second=mkBin(OOr,it->second,e); def=mkBin(OAnd,def,mkNot(e)); }
       E mine=nullptr; int mytg= t? (in.edges[t].copies.empty()?in.edges[t].target:-(t-1)-2):-1000000;
       if(t==0) mine=def; else mine=conds[mytg];
       for(auto&kv:conds) if(kv.first!=mytg){ Model o; int r=isK(kv.second)?0:solve(S->pc,kv.second,S->m,o); if(r==1) g_work.push_back(forkState(o,kv.second)); if(r<0) g_unknown++; }
       if(t!=0&&!isK(def,0)){ Model o; int r=solve(S->pc,def,S->m,o); if(r==1) g_work.push_back(forkState(o,def)); if(r<0) g_unknown++; }
       addPC(S,mine); takeEdge(S->st.back(),in.edges[t]); return; }
     int t=0; for(size_t i=0;i<in.imm.size();i++) if(in.imm[i]==c.c){ t=i+1; break; } takeEdge(f,in.edges[t]); return; }
   case I_UNREACH: fail("unreachable","unreachable code executed");
   case I_LPAD: unsup("landingpad executed directly");
   case I_RESUME: { u64 exc=conc(L(0,0)); unwind(exc); return; }
   case I_INTR: intrinsic(in); return;
   case I_NOP: f.pc++; return;
   case I_FBIN: for(unsigned k=0;k<in.nl;k++){ if(in.w>64) unsup("long double"); u64 a=fpc(L(0,k)),b=fpc(L(1,k)); if(in.w==32){ float x=asD(a,32),y=asD(b,32),r=0; switch(in.sub){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=fmodf(x,y);} f.r[in.dst+k]=V(fromD(r,32)); } else { double x=asD(a,64),y=asD(b,64),r=0; switch(in.sub){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=fmod(x,y);} f.r[in.dst+k]=V(fromD(r,64)); } } f.pc++; return;
   case I_FNEG: for(unsigned k=0;k<in.nl;k++) f.r[in.dst+k]=V(fromD(-asD(fpc(L(0,k)),in.w),in.w)); f.pc++; return;
   case I_FCMP: for(unsigned k=0;k<in.nl;k++){ double x=asD(fpc(L(0,k)),in.w2),y=asD(fpc(L(1,k)),in.w2); bool uno=std::isnan(x)||std::isnan(y),r=false; switch(in.sub){case CmpInst::FCMP_OEQ:r=x==y;break;case CmpInst::FCMP_OGT:r=x>y;break;case CmpInst::FCMP_OGE:r=x>=y;break;case CmpInst::FCMP_OLT:r=x<y;break;case CmpInst::FCMP_OLE:r=x<=y;break;case CmpInst::FCMP_ONE:r=!uno&&x!=y;break;case CmpInst::FCMP_ORD:r=!uno;break;case CmpInst::FCMP_UNO:r=uno;break;case CmpInst::FCMP_UEQ:r=uno||x==y;break;case CmpInst::FCMP_UGT:r=uno||x>y;break;case CmpInst::FCMP_UGE:r=uno||x>=y;break;case CmpInst::FCMP_ULT:r=uno||x<y;break;case CmpInst::FCMP_ULE:r=uno||x<=y;break;case CmpInst::FCMP_UNE:r=uno||x!=y;break;case CmpInst::FCMP_TRUE:r=true;break;default:;} f.r[in.dst+k]=V(r);} f.pc++; return;
   case I_EXTELT: { u64 i=conc(L(1,0)); for(unsigned k=0;k<in.nl;k++) f.r[in.dst+k]=L(0,i*in.nl+k); f.pc++; return; }
   case I_INSELT: { u64 i=conc(L(2,0)); vector<Val> t; for(unsigned k=0;k<in.nl;k++) t.push_back(L(0,k)); t[i]=L(1,0); for(unsigned k=0;k<in.nl;k++) f.r[in.dst+k]=t[k]; f.pc++; return; }
   case I_RMW: { u64 p=resolveAddr(L(0,0),in.w/8,true); Val old=loadMem(p,in.w/8,in.w),b=L(1,0),n; switch(in.sub){ case AtomicRMWInst::Xchg:n=b;break;case AtomicRMWInst::Add:n=binop(Instruction::Add,in.w,old,b);break;case AtomicRMWInst::Sub:n=binop(Instruction::Sub,in.w,old,b);break;case AtomicRMWInst::And:n=binop(Instruction::And,in.w,old,b);break;case AtomicRMWInst::Or:n=binop(Instruction::Or,in.w,old,b);break;default:unsup("atomicrmw");} storeMem(p,in.w/8,in.w,n); f.r[in.dst]=old; f.pc++; return; }
   case I_CMPX: { u64 p=resolveAddr(L(0,0),in.w/8,true); Val old=loadMem(p,in.w/8,in.w); Val eq=icmp(CmpInst::ICMP_EQ,in.w,old,L(1,0)); bool t=eq.e?decide(eq.e):eq.c; if(t) storeMem(p,in.w/8,in.w,L(2,0)); f.r[in.dst]=old; f.r[in.dst+1]=V(t); f.pc++; return; }
   default: { string s; raw_string_ostream os(s); in.I->print(os); unsup("instruction "+os.str()); } } }

static u64 g_rng=1; static u64 rnd(){ g_rng^=g_rng<<13; g_rng^=g_rng>>7; g_rng^=g_rng<<17; return g_rng; }
static void runState(State*s,bool&timeout){
  S=s; exitPath=false; unsigned cnt=0;
  try{ 
    while(!exitPath){ step(); S->steps++; g_insts++; if((++cnt&1023)==0){ if(S->steps>g_maxSteps){ if(S->fuel) fail("nontermination","does not terminate within the step budget"); g_limit++; throw PathEnd(); } if(S->fuel&&S->steps>S->fuel) fail("nontermination","does not terminate within the step budget"); if(elapsed()>g_timeLimit){ timeout=true; throw PathEnd(); } if(g_objbytes>(6ull<<30)){ unsup("engine memory budget"); } } }
    // normal end
    g_paths++; for(u32 c:S->covers) g_cover[g_coverNames[c]]++;
    g_nsampleSeen++; size_t slot=g_samples.size(); bool take=false; if(g_samples.size()<g_samplesMax){ g_samples.emplace_back(); take=true; } else { u64 j=rnd()%g_nsampleSeen; if(j<g_samplesMax){ slot=j; take=true; } }
    if(take){ PathRec p; p.inputs=inputsOf(S->m,S); for(auto&v:S->obs) p.obs.push_back(v.e?(u64)evalM(v.e,S->m):v.c); for(u32 c:S->covers) p.covers.push_back(g_coverNames[c]); g_samples[slot]=p; }
  } catch(PathEnd&){ }
  delete S; S=nullptr; }

static string js(const string&s){ string o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }

static int realMain(int argc,char**argv){
  string file,entry="main",out; 
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="--entry") entry=nx(); else if(a=="--out") out=nx(); else if(a=="--time") g_timeLimit=atof(nx().c_str()); else if(a=="--steps") g_maxSteps=strtoull(nx().c_str(),0,0); else if(a=="--alloc-limit") g_allocLimit=strtoull(nx().c_str(),0,0); else if(a=="--depth") g_maxDepth=atoi(nx().c_str()); else if(a=="--max-paths") g_maxPaths=strtoull(nx().c_str(),0,0); else if(a=="--samples") g_samplesMax=atoi(nx().c_str()); else if(a=="--seed") g_seed=strtoull(nx().c_str(),0,0); else if(a=="--solver-timeout") g_solver_timeout_ms=atoi(nx().c_str()); else if(a=="--param"){ string p=nx(); size_t e=p.find('='); g_params[p.substr(0,e)]=strtoull(p.substr(e+1).c_str(),0,0); } else if(a=="--trace") g_trace=true; else file=a; }
  g_t0=std::chrono::steady_clock::now(); g_rng=g_seed*0x9E3779B97F4A7C15ull+1; solverInit(); solverTimeout(g_solver_timeout_ms);
  SMDiagnostic err; g_mod=parseIRFile(file,err,g_ctx); if(!g_mod){ err.print("symex",errs()); return 3; } DL=&g_mod->getDataLayout();
  State*init=new State; S=init;
  for(auto&F:*g_mod) fnInfo(&F);
  for(auto&G:g_mod->globals()){ if(G.getName().starts_with("llvm.")) continue; if(G.isDeclaration()&&G.hasExternalWeakLinkage()) continue; u64 sz=DL->getTypeAllocSize(G.getValueType()); if(G.isDeclaration()&&sz<64) sz=64; u64 a=allocObj(sz,KGlobal,0); g_gaddr[&G]=a; string n=G.getName().str(); if(n=="_ZTVN10__cxxabiv117__class_type_infoE") g_vtkind[a]=0; else if(n=="_ZTVN10__cxxabiv120__si_class_type_infoE") g_vtkind[a]=1; else if(n=="_ZTVN10__cxxabiv121__vmi_class_type_infoE") g_vtkind[a]=2; else if(G.isDeclaration()&&n.rfind("_ZTI",0)==0){ string nm=n.substr(4); u64 sa=allocObj(nm.size()+1,KGlobal,0); for(size_t i=0;i<nm.size();i++) storeMem(sa+i,1,8,V((u8)nm[i])); storeMem(a+8,8,64,V(sa)); }
    else if(G.isDeclaration()&&g_trace) fprintf(stderr,"external global %s\n",n.c_str()); }
  for(auto&G:g_mod->globals()) if(!G.isDeclaration()&&g_gaddr.count(&G)){ vector<Val> v; const Constant*C=G.getInitializer(); if(!isa<ConstantAggregateZero>(C)&&!isa<UndefValue>(C)){ vector<Lane> l; flat(C->getType(),0,l); constVals(C,v); for(size_t i=0;i<l.size();i++) storeMem(g_gaddr[&G]+l[i].off,l[i].bytes,l[i].w,v[i]); } if(G.isConstant()){ u64 id=g_gaddr[&G]>>WBITS; init->mem.getW(id)->kind=KConstG; } }
  // constructors: run sequentially as one path
  bool timeout=false; double tInit=0;
  vector<std::pair<u64,Function*>> ctors; if(auto*GC=g_mod->getGlobalVariable("llvm.global_ctors")) if(GC->hasInitializer()) if(auto*CA=dyn_cast<ConstantArray>(GC->getInitializer())) for(unsigned i=0;i<CA->getNumOperands();i++){ auto*cs=cast<ConstantStruct>(CA->getOperand(i)); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){return a.first<b.first;});
  Function*EF=g_mod->getFunction(entry); if(!EF||EF->isDeclaration()){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
  try{ for(auto&c:ctors){ pushCall(fnInfo(c.second),{}, {}); exitPath=false; while(!exitPath){ step(); g_insts++; } } } catch(PathEnd&){ fprintf(stderr,"failure in static initialisation\n"); for(auto&e:g_errs) fprintf(stderr,"%s\n",e.first.c_str()); for(auto&e:g_unsupMsgs) fprintf(stderr,"%s\n",e.first.c_str()); for(auto&t:trace()) fprintf(stderr,"  %s\n",t.c_str()); return 3; }
  if(!g_work.empty()){ fprintf(stderr,"fork during init\n"); return 3; }
  u64 initInsts=g_insts; tInit=elapsed(); for(auto*fi:g_fnList) fi->entered=false;
  init->live=0; pushCall(fnInfo(EF),{},{}); g_work.push_back(init); u64 started=0,pending=0; bool stopFirst=getenv("STOPFIRST")!=nullptr; // development aid
  while(!g_work.empty()){ if(elapsed()>g_timeLimit||started>=g_maxPaths){ timeout=true; break; } State*s=g_work.back(); g_work.pop_back(); started++; runState(s,timeout); if(timeout) { pending++; break; } if(stopFirst&&g_nerr>=3){ timeout=true; break; } }
  pending+=g_work.size();
  // ---- output
  FILE*o=out.empty()?stdout:fopen(out.c_str(),"w"); if(!o){ perror("out"); return 3; }
  fprintf(o,"{\n\"entry\":%s,\"paths\":%llu,\"error_paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"init_instructions\":%llu,\"assume_kills\":%llu,\"unsupported\":%llu,\"step_limit\":%llu,\"stopped\":%llu,\"pending\":%llu,\"timeout\":%s,\"unknown\":%llu,\"concretizations\":%llu,\n",js(entry).c_str(),(unsigned long long)g_paths,(unsigned long long)g_errpaths,(unsigned long long)g_forks,(unsigned long long)g_insts,(unsigned long long)initInsts,(unsigned long long)g_assumeKills,(unsigned long long)g_unsup,(unsigned long long)g_limit,(unsigned long long)g_silent,(unsigned long long)pending,timeout?"true":"false",(unsigned long long)g_unknown,(unsigned long long)g_concretize);
  fprintf(o,"\"checks\":%llu,\"checks_symbolic\":%llu,\"checks_proved\":%llu,\"queries\":%llu,\"z3_calls\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_time\":%.3f,\"solver_max\":%.3f,\"wall\":%.3f,\"init_wall\":%.3f,\n",(unsigned long long)g_checks,(unsigned long long)g_checksSym,(unsigned long long)g_checksProved,(unsigned long long)SS.queries,(unsigned long long)SS.z3calls,(unsigned long long)SS.cachehits,(unsigned long long)SS.modelhits,(unsigned long long)SS.sat,(unsigned long long)SS.unsat,SS.time,SS.maxtime,elapsed(),tInit);
  fprintf(o,"\"covers\":{"); { bool c=false; for(auto&k:g_cover){ fprintf(o,"%s%s:%llu",c?",":"",js(k.first).c_str(),(unsigned long long)k.second); c=true; } } fprintf(o,"},\n\"unsupported_msgs\":{"); { bool c=false; for(auto&k:g_unsupMsgs){ fprintf(o,"%s%s:%llu",c?",":"",js(k.first).c_str(),(unsigned long long)k.second); c=true; } } fprintf(o,"},\n\"functions\":[");
  { bool c=false; for(auto*fi:g_fnList) if(fi->entered&&fi->F->getSubprogram()){ string fl=fi->F->getSubprogram()->getFilename().str(); string dir=fi->F->getSubprogram()->getDirectory().str(); if(fl.empty()) continue; if(fl[0]!='/') fl=dir+"/"+fl; if(fl.find("/repo/")==string::npos) continue; fprintf(o,"%s%s",c?",":"",js(demangle(fi->name)).c_str()); c=true; } } fprintf(o,"],\n\"lines\":{");
  { // source lines of the repository that were executed
    std::map<string,std::set<unsigned>> ln; auto add=[&](const DILocation*L){ for(;L;L=L->getInlinedAt()){ string fl=L->getFilename().str(); if(fl.empty()) continue; if(fl[0]!='/') fl=L->getDirectory().str()+"/"+fl; size_t p=fl.find("/repo/"); if(p!=string::npos&&L->getLine()) ln[fl.substr(p+6)].insert(L->getLine()); } };
    bool all=getenv("COVALL")!=nullptr; if(all){ for(Function&F:*g_mod) for(BasicBlock&B:F) for(Instruction&I:B) if(auto&D=I.getDebugLoc()) add(D.get()); } else for(auto*fi:g_fnList) if(fi->decoded) for(auto&in:fi->code) if(in.hit&&in.I) if(auto&D=in.I->getDebugLoc()) add(D.get());
    bool c=false; for(auto&k:ln){ fprintf(o,"%s%s:[",c?",":"",js(k.first).c_str()); c=true; bool d=false; for(unsigned l:k.second){ fprintf(o,"%s%u",d?",":"",l); d=true; } fprintf(o,"]"); } } fprintf(o,"},\n\"errors\":[");
  { bool c=false; for(auto&k:g_errs) for(size_t i=0;i<k.second.size();i++){ auto&e=k.second[i]; fprintf(o,"%s\n{\"kind\":%s,\"msg\":%s,\"where\":%s,\"count\":%llu,\"trace\":[",c?",":"",js(e.kind).c_str(),js(e.msg).c_str(),js(e.where).c_str(),(unsigned long long)e.count); for(size_t t=0;t<e.trace.size();t++) fprintf(o,"%s%s",t?",":"",js(e.trace[t]).c_str()); fprintf(o,"],\"inputs\":["); for(size_t t=0;t<e.inputs.size();t++) fprintf(o,"%s[%s,%llu]",t?",":"",js(e.inputs[t].first).c_str(),(unsigned long long)e.inputs[t].second); fprintf(o,"]}"); c=true; } } fprintf(o,"],\n\"samples\":[");
  for(size_t i=0;i<g_samples.size();i++){ auto&p=g_samples[i]; fprintf(o,"%s\n{\"inputs\":[",i?",":""); for(size_t t=0;t<p.inputs.size();t++) fprintf(o,"%s[%s,%llu]",t?",":"",js(p.inputs[t].first).c_str(),(unsigned long long)p.inputs[t].second); fprintf(o,"],\"obs\":["); for(size_t t=0;t<p.obs.size();t++) fprintf(o,"%s%llu",t?",":"",(unsigned long long)p.obs[t]); fprintf(o,"],\"covers\":["); for(size_t t=0;t<p.covers.size();t++) fprintf(o,"%s%s",t?",":"",js(p.covers[t]).c_str()); fprintf(o,"]}"); }
  fprintf(o,"]}\n"); if(o!=stdout) fclose(o); fflush(0); _exit(0); }
static int g_argc; static char**g_argv; static void* thr(void*){ int r=realMain(g_argc,g_argv); fflush(0); _exit(r); }
int main(int c,char**v){ g_argc=c; g_argv=v; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,2ull<<30); pthread_t t; pthread_create(&t,&a,thr,0); pthread_join(t,0); return 3; }
