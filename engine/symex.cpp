// A bounded symbolic executor for LLVM-18 bitcode (C++ subset sufficient for libstdc++/boost code).
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <thread>
#include <pthread.h>
#include <set>
#include <cmath>
using namespace llvm;
using std::string; using std::vector;

// ------------------------------------------------------------------ values & memory
struct Val { u64 c; E e; };
static inline Val V(u64 c){ return Val{c,nullptr}; }
static inline Val VE(E e){ if(e->op==OConst&&e->w<=64) return Val{(u64)e->v,nullptr}; return Val{0,e}; }
static inline E EV(const Val&v,unsigned w){ return v.e?v.e:K(w,v.c); }
static inline u64 mk64(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }

static const unsigned WBITS=24; static const u64 OBJOFF=4096; static const u64 FIRSTID=0x10000;
enum Kind : u8 { KGlobal, KConstG, KStack, KMalloc, KNew };
struct Obj { int rc; u32 size; Kind kind; bool freed; u8* d; E* s; const char* who; u32 line; };
static u64 g_objbytes=0;
static Obj* newObj(u32 size,Kind k,u8 fill){ Obj*o=new Obj; o->rc=1;o->size=size;o->kind=k;o->freed=false;o->d=(u8*)malloc(size?size:1);o->s=nullptr;o->who=nullptr;o->line=0; memset(o->d,fill,size); g_objbytes+=size; return o; }
static void relObj(Obj*o){ if(o&&--o->rc==0){ g_objbytes-=o->size; free(o->d); free(o->s); delete o; } }
static Obj* cpObj(Obj*o){ Obj*n=new Obj(*o); n->rc=1; n->d=(u8*)malloc(o->size?o->size:1); memcpy(n->d,o->d,o->size); if(o->s){ n->s=(E*)malloc(sizeof(E)*o->size); memcpy(n->s,o->s,sizeof(E)*o->size);} g_objbytes+=o->size; return n; }
static const unsigned CH=64;
struct Chunk { int rc; Obj* o[CH]; };
struct Mem { vector<Chunk*> c; u64 next;
  Mem():next(FIRSTID){}
  Mem(const Mem&m):c(m.c),next(m.next){ for(auto*x:c) if(x) x->rc++; }
  Mem& operator=(const Mem&)=delete;
  ~Mem(){ for(auto*x:c) drop(x); }
  static void drop(Chunk*x){ if(x&&--x->rc==0){ for(auto*o:x->o) relObj(o); delete x; } }
  Obj* get(u64 id)const{ if(id<FIRSTID||id>=next) return nullptr; u64 i=id-FIRSTID; Chunk*x=c[i/CH]; return x?x->o[i%CH]:nullptr; }
  Chunk* wchunk(u64 ci){ Chunk*&x=c[ci]; if(!x){ x=new Chunk; x->rc=1; memset(x->o,0,sizeof x->o);} else if(x->rc>1){ Chunk*n=new Chunk; n->rc=1; for(unsigned k=0;k<CH;k++){ n->o[k]=x->o[k]; if(n->o[k]) n->o[k]->rc++; } x->rc--; x=n; } return x; }
  u64 add(Obj*o){ u64 id=next++; u64 i=id-FIRSTID; if(i/CH>=c.size()) c.push_back(nullptr); wchunk(i/CH)->o[i%CH]=o; return id; }
  Obj* getW(u64 id){ u64 i=id-FIRSTID; Chunk*x=wchunk(i/CH); Obj*&o=x->o[i%CH]; if(o->rc>1){ Obj*n=cpObj(o); o->rc--; o=n; } return o; }
  void kill(u64 id){ u64 i=id-FIRSTID; Chunk*x=wchunk(i/CH); Obj*o=x->o[i%CH]; if(o){ relObj(o); x->o[i%CH]=nullptr; } // drop fully dead chunks
    if(i/CH+1<c.size()){ bool any=false; for(auto*q:x->o) if(q){any=true;break;} if(!any){ drop(x); c[i/CH]=nullptr; } } }
};
static inline u64 addrOf(u64 id){ return (id<<WBITS)+OBJOFF; }

// ------------------------------------------------------------------ decoded program
struct FnInfo; struct BlockInfo;
struct PhiCopy { int dst; int src; unsigned n; };
struct Edge { int target; vector<PhiCopy> copies; };
struct Lane { u32 off; u32 w; u32 bytes; };
enum IOp : u16 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_CALL, I_INVOKE, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH,
  I_LPAD, I_RESUME, I_COPY, I_INTR, I_RMW, I_CMPX, I_NOP, I_BAD, I_EXTELT, I_INSELT, I_SHUF, I_VAARG };
struct Inst { IOp op; u16 sub; u16 w, w2; int dst; u32 nl; vector<int> ops; vector<Lane> lanes; vector<Edge> edges; vector<u64> imm; vector<std::pair<int,u64>> gep; FnInfo* callee=nullptr; const Instruction* I=nullptr; vector<std::pair<int,int>> copies; bool hit=false; };
struct FnInfo { Function* F=nullptr; string name; bool decoded=false; int nslots=0; vector<Inst> code; vector<vector<Lane>> argLanes; vector<int> argSlots; vector<u64> byval; vector<Lane> retLanes; u64 addr=0; int builtin=-1; std::unordered_map<const BasicBlock*,int> bbStart; bool nounwind=false; bool entered=false; };
static vector<Val> g_consts; // constant pool, referenced with negative indexes -(i+1)

struct Frame { FnInfo* fn; int pc; vector<Val> r; vector<u64> allocas; int invInst; /* index of call inst in caller */ vector<Val> va; vector<unsigned> vaw; };

struct State {
  vector<Frame> st; Mem mem; vector<E> pc; Model m; u64 steps=0; u32 nsym=0; vector<Val> obs; vector<u32> symseq; u64 live=0; int depth=0; u64 fuel=0; bool inInit=false; vector<u32> covers; u64 id=0; u64 brk=0; vector<std::pair<u64,u64>> params;
};

static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout* DL;
static std::unordered_map<const Function*,FnInfo*> g_fn; static std::map<u64,FnInfo*> g_fnByAddr; static vector<FnInfo*> g_fnList;
static std::unordered_map<const GlobalVariable*,u64> g_gaddr;
static vector<State*> g_work;
static std::map<string,u64> g_params;
// results
struct ErrRec { string kind,msg,where; vector<string> trace; vector<std::pair<string,u64>> inputs; u64 count=1; };
static std::map<string,vector<ErrRec>> g_errs; 
struct PathRec { vector<std::pair<string,u64>> inputs; vector<u64> obs; vector<string> covers; };
static vector<PathRec> g_samples; static u64 g_nsampleSeen=0;
static std::map<string,u64> g_cover; static vector<string> g_coverNames; static std::map<string,u32> g_coverIdx;
static u64 g_paths=0,g_forks=0,g_insts=0,g_errpaths=0,g_unsup=0,g_limit=0,g_assumeKills=0,g_checks=0,g_checksSym=0,g_checksProved=0,g_unknown=0,g_concretize=0,g_silent=0; static std::map<string,u64> g_unsupMsgs;
static double g_timeLimit=60; static u64 g_maxSteps=20000000; static u64 g_allocLimit=1<<20; static unsigned g_maxDepth=3000; static u64 g_maxPaths=~0ull; static unsigned g_samplesMax=24; static u64 g_seed=1; static bool g_trace=false; static bool g_descAlloc=false;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-g_t0).count(); }

struct PathEnd{ }; // thrown to end current path
struct ReExec{ };

// ------------------------------------------------------------------ type flattening
static void flat(Type*T,u64 off,vector<Lane>&out){
  if(T->isVoidTy()||T->isMetadataTy()||T->isTokenTy()||T->isLabelTy()) return;
  if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL->getStructLayout(ST); for(unsigned i=0;i<ST->getNumElements();i++) flat(ST->getElementType(i),off+(u64)SL->getElementOffset(i),out); return; }
  if(auto*AT=dyn_cast<ArrayType>(T)){ u64 es=DL->getTypeAllocSize(AT->getElementType()); for(u64 i=0;i<AT->getNumElements();i++) flat(AT->getElementType(),off+i*es,out); return; }
  if(auto*VT=dyn_cast<FixedVectorType>(T)){ u64 eb=DL->getTypeSizeInBits(VT->getElementType()); for(unsigned i=0;i<VT->getNumElements();i++) flat(VT->getElementType(),off+i*((eb+7)/8),out); return; }
  u32 w=(u32)DL->getTypeSizeInBits(T); out.push_back({(u32)off,w,(w+7)/8}); }
static unsigned nlanes(Type*T){ vector<Lane> l; flat(T,0,l); return l.size(); }
static unsigned laneIndex(Type*T,ArrayRef<unsigned> idx){ unsigned base=0; for(unsigned i:idx){ if(auto*ST=dyn_cast<StructType>(T)){ for(unsigned k=0;k<i;k++) base+=nlanes(ST->getElementType(k)); T=ST->getElementType(i);} else { auto*AT=cast<ArrayType>(T); base+=i*nlanes(AT->getElementType()); T=AT->getElementType(); } } return base; }

static u64 globalAddr(const GlobalValue*G);
static void constVals(const Constant*C,vector<Val>&out);
static Val constScalar(const Constant*C){ vector<Val> v; constVals(C,v); return v.at(0); }
static void constVals(const Constant*C,vector<Val>&out){
  Type*T=C->getType();
  if(auto*CI=dyn_cast<ConstantInt>(C)){ unsigned w=CI->getBitWidth(); if(w<=64) out.push_back(V(CI->getZExtValue())); else { u128 v=((u128)CI->getValue().extractBitsAsZExtValue(w-64,64)<<64)|CI->getValue().extractBitsAsZExtValue(64,0); out.push_back(Val{0,K(w,v)}); } return; }
  if(auto*CF=dyn_cast<ConstantFP>(C)){ APInt a=CF->getValueAPF().bitcastToAPInt(); unsigned w=a.getBitWidth(); if(w<=64) out.push_back(V(a.getZExtValue())); else out.push_back(Val{0,K(w,((u128)a.extractBitsAsZExtValue(w-64,64)<<64)|a.extractBitsAsZExtValue(64,0))}); return; }
  if(isa<ConstantPointerNull>(C)){ out.push_back(V(0)); return; }
  if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)){ vector<Lane> l; flat(T,0,l); for(auto&x:l) out.push_back(x.w<=64?V(0):Val{0,K(x.w,0)}); return; }
  if(auto*GV=dyn_cast<GlobalValue>(C)){ out.push_back(V(globalAddr(GV))); return; }
  if(auto*CA=dyn_cast<ConstantAggregate>(C)){ for(unsigned i=0;i<CA->getNumOperands();i++) constVals(CA->getOperand(i),out); return; }
  if(auto*CD=dyn_cast<ConstantDataSequential>(C)){ for(unsigned i=0;i<CD->getNumElements();i++) constVals(CD->getElementAsConstant(i),out); return; }
  if(auto*CE=dyn_cast<ConstantExpr>(C)){
    switch(CE->getOpcode()){
     case Instruction::GetElementPtr: { auto*G=cast<GEPOperator>(CE); APInt off(64,0); if(!G->accumulateConstantOffset(*DL,off)) break; out.push_back(V(constScalar(CE->getOperand(0)).c+off.getZExtValue())); return; }
     case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::AddrSpaceCast: { Val v=constScalar(CE->getOperand(0)); unsigned w=DL->getTypeSizeInBits(T); if(w<64) v.c&=mk64(w); out.push_back(v); return; }
     case Instruction::Trunc: { Val v=constScalar(CE->getOperand(0)); v.c&=mk64(DL->getTypeSizeInBits(T)); out.push_back(v); return; }
     case Instruction::Add: out.push_back(V((constScalar(CE->getOperand(0)).c+constScalar(CE->getOperand(1)).c)&mk64(DL->getTypeSizeInBits(T)))); return;
     case Instruction::Sub: out.push_back(V((constScalar(CE->getOperand(0)).c-constScalar(CE->getOperand(1)).c)&mk64(DL->getTypeSizeInBits(T)))); return;
     case Instruction::ICmp: { u64 a=constScalar(CE->getOperand(0)).c,b=constScalar(CE->getOperand(1)).c; bool r=false; switch(CE->getPredicate()){ case CmpInst::ICMP_EQ:r=a==b;break; case CmpInst::ICMP_NE:r=a!=b;break; case CmpInst::ICMP_ULT:r=a<b;break; case CmpInst::ICMP_UGT:r=a>b;break; case CmpInst::ICMP_ULE:r=a<=b;break; case CmpInst::ICMP_UGE:r=a>=b;break; default:; } out.push_back(V(r)); return; }
     default: break; } }
  string s; raw_string_ostream os(s); C->print(os); fprintf(stderr,"unsupported constant %s\n",os.str().c_str()); exit(3); }

static FnInfo* fnInfo(const Function*F){ auto it=g_fn.find(F); if(it!=g_fn.end()) return it->second; FnInfo*f=new FnInfo; f->F=const_cast<Function*>(F); f->name=F->getName().str(); f->addr=0x400000+16*(g_fnList.size()+1); f->nounwind=F->doesNotThrow(); g_fnList.push_back(f); g_fnByAddr[f->addr]=f; g_fn[F]=f; return f; }
static u64 globalAddr(const GlobalValue*G){
  if(auto*F=dyn_cast<Function>(G)){ if(F->isDeclaration()&&F->hasExternalWeakLinkage()) return 0; return fnInfo(F)->addr; }
  if(auto*A=dyn_cast<GlobalAlias>(G)) return constScalar(A->getAliasee()).c;
  auto*GV=cast<GlobalVariable>(G); if(GV->isDeclaration()&&GV->hasExternalWeakLinkage()) return 0; auto it=g_gaddr.find(GV); if(it==g_gaddr.end()){ fprintf(stderr,"unknown global %s\n",G->getName().str().c_str()); exit(3);} return it->second; }

// entry of a relative lookup table: the target itself, as objects are further apart than its 32-bit offsets can tell
static bool relTarget(u64 p,u64 o,u64&q){ static std::unordered_map<u64,const GlobalVariable*> at; if(at.empty()) for(auto&g:g_gaddr) at[g.second]=g.first; auto it=at.find(p); if(it==at.end()||!it->second->hasInitializer()||!it->second->isConstant()||o%4) return false;
  auto*C=it->second->getInitializer(); if(!isa<ConstantArray>(C)||o/4>=C->getNumOperands()) return false; auto*E0=dyn_cast<ConstantExpr>(C->getOperand((unsigned)(o/4))); if(!E0||E0->getOpcode()!=Instruction::Trunc) return false; auto*E1=dyn_cast<ConstantExpr>(E0->getOperand(0)); if(!E1||E1->getOpcode()!=Instruction::Sub) return false;
  auto*B=dyn_cast<ConstantExpr>(E1->getOperand(1)); if(!B||constScalar(B).c!=p) return false; q=constScalar(cast<Constant>(E1->getOperand(0))).c; return true; }

// ------------------------------------------------------------------ decoding
#include "builtins.inc"
static bool isBuiltinName(const string&n){ return g_builtins.count(n); }

struct Decoder { FnInfo*f; std::unordered_map<const Value*,int> slot; int n=0;
  int slotOf(const Value*v){ auto it=slot.find(v); if(it!=slot.end()) return it->second; int s=n; n+=nlanes(v->getType()); slot[v]=s; return s; }
  int opnd(const Value*v){ if(auto*C=dyn_cast<Constant>(v)){ vector<Val> cv; constVals(C,cv); if(cv.empty()) return 0; int i=g_consts.size(); for(auto&x:cv) g_consts.push_back(x); return -(i+1); } 
    if(isa<MetadataAsValue>(v)) return 0; if(isa<InlineAsm>(v)) return 0; return slotOf(v); }
  static int lane(int base,int k){ return base>=0?base+k:base-k; }
  Edge edge(const BasicBlock*from,const BasicBlock*to){ Edge e; e.target=-1; for(auto&P:to->phis()){ unsigned nl=nlanes(P.getType()); int d=slotOf(&P); int s=opnd(P.getIncomingValueForBlock(from)); e.copies.push_back({d,s,nl}); } return e; }
  void run(){
    Function*F=f->F;
    for(auto&A:F->args()){ vector<Lane> l; flat(A.getType(),0,l); f->argSlots.push_back(slotOf(&A)); f->argLanes.push_back(l); f->byval.push_back(A.hasByValAttr()?(u64)DL->getTypeAllocSize(A.getParamByValType()):0); }
    flat(F->getReturnType(),0,f->retLanes);
    vector<std::tuple<int,int,const BasicBlock*>> fix;
    for(auto&BB:*F){ f->bbStart[&BB]=f->code.size();
      for(auto&I:BB){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue;
        Inst in; in.I=&I; in.dst=-1; in.op=I_BAD; in.sub=0; in.w=in.w2=0; in.nl=1; Type*T=I.getType();
        if(!T->isVoidTy()){ in.dst=slotOf(&I); in.nl=nlanes(T); Type*S=T->getScalarType(); if(S->isSized()&&!S->isAggregateType()) in.w=DL->getTypeSizeInBits(S); }
        auto E1=[&](const BasicBlock*to){ in.edges.push_back(edge(&BB,to)); fix.push_back({(int)f->code.size(),(int)in.edges.size()-1,to}); };
        switch(I.getOpcode()){
         case Instruction::Add:case Instruction::Sub:case Instruction::Mul:case Instruction::UDiv:case Instruction::SDiv:case Instruction::URem:case Instruction::SRem:case Instruction::And:case Instruction::Or:case Instruction::Xor:case Instruction::Shl:case Instruction::LShr:case Instruction::AShr:
          in.op=I_BIN; in.sub=I.getOpcode(); in.ops={opnd(I.getOperand(0)),opnd(I.getOperand(1))}; break;
         case Instruction::FAdd:case Instruction::FSub:case Instruction::FMul:case Instruction::FDiv:case Instruction::FRem: in.op=I_FBIN; in.sub=I.getOpcode(); in.ops={opnd(I.getOperand(0)),opnd(I.getOperand(1))}; break;
         case Instruction::FNeg: in.op=I_FNEG; in.ops={opnd(I.getOperand(0))}; break;
         case Instruction::ICmp: in.op=I_ICMP; in.sub=cast<ICmpInst>(I).getPredicate(); in.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); in.ops={opnd(I.getOperand(0)),opnd(I.getOperand(1))}; break;
         case Instruction::FCmp: in.op=I_FCMP; in.sub=cast<FCmpInst>(I).getPredicate(); in.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); in.ops={opnd(I.getOperand(0)),opnd(I.getOperand(1))}; break;
         case Instruction::BitCast: { vector<Lane> a,b; flat(I.getOperand(0)->getType(),0,a); flat(T,0,b); in.ops={opnd(I.getOperand(0))}; if(a.size()==b.size()){ in.op=I_COPY; for(unsigned k=0;k<b.size();k++) in.copies.push_back({in.dst+k,lane(in.ops[0],k)}); } else { in.op=I_CAST; in.sub=I.getOpcode(); in.lanes=a; for(auto&x:b){ in.imm.push_back(x.off); in.imm.push_back(x.w);} } break; }
         case Instruction::Trunc:case Instruction::ZExt:case Instruction::SExt:case Instruction::PtrToInt:case Instruction::IntToPtr:case Instruction::FPToUI:case Instruction::FPToSI:case Instruction::UIToFP:case Instruction::SIToFP:case Instruction::FPTrunc:case Instruction::FPExt:case Instruction::AddrSpaceCast:
          in.op=I_CAST; in.sub=I.getOpcode(); in.w2=DL->getTypeSizeInBits(I.getOperand(0)->getType()->getScalarType()); in.ops={opnd(I.getOperand(0))}; break;
         case Instruction::Freeze: in.op=I_COPY; in.ops={opnd(I.getOperand(0))}; for(unsigned k=0;k<in.nl;k++) in.copies.push_back({in.dst+k,lane(in.ops[0],k)}); break;
         case Instruction::Select: in.op=I_SELECT; in.ops={opnd(I.getOperand(0)),opnd(I.getOperand(1)),opnd(I.getOperand(2))}; in.sub=I.getOperand(0)->getType()->isVectorTy(); flat(T,0,in.lanes); break;
         case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); in.op=I_ALLOCA; in.imm={(u64)DL->getTypeAllocSize(A.getAllocatedType())}; in.ops={opnd(A.getArraySize())}; break; }
         case Instruction::Load: in.op=I_LOAD; in.ops={opnd(I.getOperand(0))}; flat(T,0,in.lanes); break;
         case Instruction::Store: in.op=I_STORE; in.ops={opnd(I.getOperand(1)),opnd(I.getOperand(0))}; flat(I.getOperand(0)->getType(),0,in.lanes); break;
         case Instruction::GetElementPtr: { in.op=I_GEP; if(T->isVectorTy()) { in.op=I_BAD; break; } auto&G=cast<GetElementPtrInst>(I); in.ops={opnd(G.getPointerOperand())}; u64 off=0; for(auto it=gep_type_begin(G),ie=gep_type_end(G);it!=ie;++it){ Value*ix=it.getOperand(); if(auto*ST=it.getStructTypeOrNull()){ off+=(u64)DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*CI=dyn_cast<ConstantInt>(ix)) off+=(u64)CI->getSExtValue()*sz; else { unsigned iw=DL->getTypeSizeInBits(ix->getType()); in.gep.push_back({opnd(ix),sz}); in.imm.push_back(iw); } } } in.imm.insert(in.imm.begin(),off); break; }
         case Instruction::ExtractValue: { auto&X=cast<ExtractValueInst>(I); in.op=I_COPY; int b=opnd(X.getAggregateOperand()); unsigned k0=laneIndex(X.getAggregateOperand()->getType(),X.getIndices()); for(unsigned k=0;k<in.nl;k++) in.copies.push_back({in.dst+k,lane(b,k0+k)}); break; }
         case Instruction::InsertValue: { auto&X=cast<InsertValueInst>(I); in.op=I_COPY; int b=opnd(X.getAggregateOperand()),v=opnd(X.getInsertedValueOperand()); unsigned k0=laneIndex(X.getAggregateOperand()->getType(),X.getIndices()),nv=nlanes(X.getInsertedValueOperand()->getType()); for(unsigned k=0;k<in.nl;k++) in.copies.push_back({in.dst+k, k>=k0&&k<k0+nv?lane(v,k-k0):lane(b,k)}); break; }
         case Instruction::ExtractElement: { in.ops={opnd(I.getOperand(0)),opnd(I.getOperand(1))}; in.op=I_EXTELT; in.imm={nlanes(I.getOperand(0)->getType())}; break; }
         case Instruction::InsertElement: { in.ops={opnd(I.getOperand(0)),opnd(I.getOperand(1)),opnd(I.getOperand(2))}; in.op=I_INSELT; break; }
         case Instruction::ShuffleVector: { auto&X=cast<ShuffleVectorInst>(I); int a=opnd(X.getOperand(0)),b=opnd(X.getOperand(1)); unsigned na=nlanes(X.getOperand(0)->getType()); in.op=I_COPY; int z=opnd(ConstantInt::get(Type::getInt64Ty(g_ctx),0)); auto M=X.getShuffleMask(); for(unsigned k=0;k<in.nl;k++){ int mm=M[k]; in.copies.push_back({in.dst+k, mm<0?z: (unsigned)mm<na?lane(a,mm):lane(b,mm-na)}); } break; }
         case Instruction::Ret: in.op=I_RET; if(I.getNumOperands()){ in.ops={opnd(I.getOperand(0))}; flat(I.getOperand(0)->getType(),0,in.lanes);} break;
         case Instruction::Br: { auto&B=cast<BranchInst>(I); if(B.isConditional()){ in.op=I_CBR; in.ops={opnd(B.getCondition())}; E1(B.getSuccessor(0)); E1(B.getSuccessor(1)); } else { in.op=I_BR; E1(B.getSuccessor(0)); } break; }
         case Instruction::Switch: { auto&S=cast<SwitchInst>(I); in.op=I_SWITCH; in.w2=DL->getTypeSizeInBits(S.getCondition()->getType()); in.ops={opnd(S.getCondition())}; E1(S.getDefaultDest()); for(auto&c:S.cases()){ in.imm.push_back(c.getCaseValue()->getZExtValue()); E1(c.getCaseSuccessor()); } break; }
         case Instruction::Unreachable: in.op=I_UNREACH; break;
         case Instruction::LandingPad: in.op=I_LPAD; break;
         case Instruction::Resume: in.op=I_RESUME; in.ops={opnd(I.getOperand(0))}; break;
         case Instruction::Fence: in.op=I_NOP; break;
         case Instruction::AtomicRMW: { auto&A=cast<AtomicRMWInst>(I); in.op=I_RMW; in.sub=A.getOperation(); in.ops={opnd(A.getPointerOperand()),opnd(A.getValOperand())}; break; }
         case Instruction::AtomicCmpXchg: { auto&A=cast<AtomicCmpXchgInst>(I); in.op=I_CMPX; in.w=DL->getTypeSizeInBits(A.getNewValOperand()->getType()); in.ops={opnd(A.getPointerOperand()),opnd(A.getCompareOperand()),opnd(A.getNewValOperand())}; break; }
         case Instruction::Call: case Instruction::Invoke: { auto&C=cast<CallBase>(I); in.op=I.getOpcode()==Instruction::Call?I_CALL:I_INVOKE;
            Function*CF=C.getCalledFunction(); if(!CF){ if(auto*ga=dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) CF=dyn_cast<Function>(ga->getAliaseeObject()); else CF=dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts()); }
            if(C.isInlineAsm()){ in.op=I_NOP; if(in.dst>=0) in.op=I_BAD; break; }
            if(CF&&CF->isIntrinsic()&&I.getOpcode()==Instruction::Call){ in.op=I_INTR; in.sub=CF->getIntrinsicID(); for(auto&a:C.args()){ in.ops.push_back(opnd(a)); Type*t=a->getType(); in.imm.push_back(t->isMetadataTy()?0:(u64)DL->getTypeSizeInBits(t->getScalarType())); } 
              if(in.sub==Intrinsic::eh_typeid_for){} break; }
            if(CF) in.callee=fnInfo(CF); else in.ops.push_back(opnd(C.getCalledOperand()));
            // args: flat list of (operand,width)
            for(auto&a:C.args()){ vector<Lane> l; flat(a->getType(),0,l); int o=opnd(a); in.imm.push_back(l.size()); for(unsigned k=0;k<l.size();k++){ in.copies.push_back({lane(o,k),(int)l[k].w}); } }
            if(auto*IV=dyn_cast<InvokeInst>(&I)){ E1(IV->getNormalDest()); E1(IV->getUnwindDest()); }
            in.w2 = C.doesNotThrow()?1:0; break; }
         default: in.op=I_BAD; }
        f->code.push_back(std::move(in)); } }
    for(auto&t:fix) f->code[std::get<0>(t)].edges[std::get<1>(t)].target=f->bbStart[std::get<2>(t)];
    f->nslots=n; f->decoded=true; } };
static void decode(FnInfo*f){ Decoder d; d.f=f; d.run(); }

// ------------------------------------------------------------------ executor
static State* S; // current state
static inline Val& rd(Frame&f,int s){ return s>=0?f.r[s]:g_consts[-s-1]; }
static string whereOf(const Instruction*I){ if(!I) return "?"; if(auto&D=I->getDebugLoc()){ DILocation*L=D.get(); string f=L->getFilename().str(); size_t p=f.rfind('/'); if(p!=string::npos) f=f.substr(p+1); return f+":"+std::to_string(L->getLine()); } return I->getFunction()->getName().str(); }
static vector<string> trace(){ vector<string> t; for(size_t i=S->st.size();i-->0;){ Frame&f=S->st[i]; int pc=f.pc; if(pc>=(int)f.fn->code.size()) pc=f.fn->code.size()-1; const Instruction*I=f.fn->code[pc].I; string d=demangle(f.fn->name); if(d.size()>110) d=d.substr(0,110)+"..."; t.push_back(d+" @ "+whereOf(I)); if(t.size()>24) break; } return t; }
// innermost location in repo / harness code (for keying)
static unsigned g_nerr=0;
static string keyLoc(){ for(size_t i=S->st.size();i-->0;){ Frame&f=S->st[i]; int pc=std::min<int>(f.pc,f.fn->code.size()-1); const Instruction*I=f.fn->code[pc].I; if(auto&D=I->getDebugLoc()){ for(DILocation*L=D.get();L;L=L->getInlinedAt()){ string fn=L->getFilename().str(), dir=L->getDirectory().str(); string full=fn[0]=='/'?fn:dir+"/"+fn; if(full.find("/usr/")==string::npos&&full.find("/rt/")==string::npos){ size_t p=full.rfind('/'); return full.substr(p+1)+":"+std::to_string(L->getLine()); } } } } return "?"; }

static vector<std::pair<string,u64>> inputsOf(const Model&m,State*s){ vector<std::pair<string,u64>> r; for(u32 i:s->symseq) r.push_back({g_syms[i].name, i<m.size()?m[i]&mk64(g_syms[i].w):0}); return r; }
static void recordErr(const string&kind,const string&msg,const Model&m){
  g_errpaths++; string loc=keyLoc(); string key=kind+"|"+msg+"|"+loc; auto&v=g_errs[key]; g_nerr++; if(v.size()>=4){ v[0].count++; return; }
  ErrRec e; e.kind=kind;e.msg=msg;e.where=loc;e.trace=trace();e.inputs=inputsOf(m,S); v.push_back(e); }
[[noreturn]] static void fail(const string&kind,const string&msg){ recordErr(kind,msg,S->m); throw PathEnd(); }
[[noreturn]] static void unsup(const string&msg){ g_unsup++; g_unsupMsgs[msg+" @ "+(S&&!S->st.empty()?trace()[0]:"")]++; throw PathEnd(); }

static bool addPC(State*s,E c){ if(isK(c)) return c->v; for(E x:s->pc) if(x==c) return true; if(c->op==OAnd&&c->w==1){ return addPC(s,c->a)&&addPC(s,c->b);} s->pc.push_back(c); return true; }
static State* forkState(const Model&m,E cond){ State*n=new State(*S); n->m=m; addPC(n,cond); n->id=++g_forks; return n; }
// branch on a 1-bit condition: returns the side the current state follows; pushes other feasible side (re-executing current instruction)
static bool decide(E c){
  if(isK(c)) return c->v;
  for(E x:S->pc){ if(x==c) return true; }
  E nc=mkNot(c); for(E x:S->pc) if(x==nc) return false;
  bool side=evalM(c,S->m); Model out; int r=solve(S->pc,side?nc:c,S->m,out);
  if(r==1){ g_work.push_back(forkState(out,side?nc:c)); addPC(S,side?c:nc); }
  else if(r<0){ g_unknown++; addPC(S,side?c:nc); }
  // r==0: implied
  return side; }
static u64 concretize(E e){
  if(isK(e)) return (u64)e->v;
  u64 v=(u64)evalM(e,S->m); E eq=mkBin(OEq,e,K(e->w,v)); for(E x:S->pc) if(x==eq) return v;
  Model out; int r=solve(S->pc,mkNot(eq),S->m,out); g_concretize++;
  if(r==1) g_work.push_back(forkState(out,mkNot(eq))); if(r<0) g_unknown++;
  if(r!=0) addPC(S,eq); return v; }
static inline u64 conc(const Val&v){ return v.e?concretize(v.e):v.c; }

static Obj* objAt(u64 addr,u64 n,bool write,const char*what,u64*off,u64*idOut=nullptr){
  u64 id=addr>>WBITS; Obj*o=S->mem.get(id);
  if(!o){ if(addr<4096) fail("memory",string("null pointer ")+what); 
    if(id>=FIRSTID&&id<S->mem.next) fail("memory",string("use after free: ")+what); fail("memory",string("invalid pointer ")+what); }
  u64 b=addrOf(id); if(addr<b||addr-b>o->size||o->size-(addr-b)<n){ char buf[128]; snprintf(buf,sizeof buf,"out of bounds %s (%s object)",what,o->kind==KStack?"stack":o->kind==KNew||o->kind==KMalloc?"heap":"global"); fail("memory",buf); }
  if(write&&o->kind==KConstG) fail("memory","write to constant");
  if(write) o=S->mem.getW(id);
  *off=addr-b; if(idOut)*idOut=id; return o; }

static Val loadObj(Obj*o,u64 off,unsigned bytes,unsigned w){
  bool sym=false; if(o->s) for(unsigned i=0;i<bytes;i++) if(o->s[off+i]){ sym=true; break; }
  if(!sym){ if(bytes<=8){ u64 v=0; memcpy(&v,o->d+off,bytes); return V(v&mk64(w)); } u128 v=0; memcpy(&v,o->d+off,bytes>16?16:bytes); return Val{0,K(w,v)}; }
  E r=nullptr; for(unsigned i=0;i<bytes;i++){ E b=o->s[off+i]?o->s[off+i]:K(8,o->d[off+i]); r=r?mkConcat(b,r):b; }
  if(r->w>w) r=mkExtract(r,0,w); return VE(r); }
static void storeObj(Obj*o,u64 off,unsigned bytes,unsigned w,const Val&v){
  if(!v.e){ u64 c=v.c; memcpy(o->d+off,&c,bytes>8?8:bytes); if(bytes>8) memset(o->d+off+8,0,bytes-8); if(o->s) memset(o->s+off,0,sizeof(E)*bytes); return; }
  if(isK(v.e)){ u128 c=v.e->v; memcpy(o->d+off,&c,bytes); if(o->s) memset(o->s+off,0,sizeof(E)*bytes); return; }
  if(!o->s){ o->s=(E*)calloc(o->size,sizeof(E)); }
  E e=v.e; if(e->w<bytes*8) e=mkZ(e,bytes*8);
  for(unsigned i=0;i<bytes;i++){ E b=mkExtract(e,8*i,8); if(isK(b)){ o->d[off+i]=(u8)b->v; o->s[off+i]=nullptr; } else { o->s[off+i]=b; o->d[off+i]=0; } } }
static Val loadMem(u64 addr,unsigned bytes,unsigned w){ u64 off; Obj*o=objAt(addr,bytes,false,"read",&off); return loadObj(o,off,bytes,w); }
static void storeMem(u64 addr,unsigned bytes,unsigned w,const Val&v){ u64 off; Obj*o=objAt(addr,bytes,true,"write",&off); storeObj(o,off,bytes,w,v); }
static string cstr(u64 a){ string s; for(;;){ Val v=loadMem(a,1,8); u64 c=conc(v); if(!c) break; s+=(char)c; a++; if(s.size()>100000) break; } return s; }
static void copyMem(u64 d,u64 s,u64 n){ if(!n) return; u64 so,dof; Obj*o=objAt(s,n,false,"read (memcpy source)",&so); o->rc++; Obj*t; try{ t=objAt(d,n,true,"write (memcpy destination)",&dof);}catch(...){ relObj(o); throw; }
  // overlapping within same object: t may be a COW copy of o; o still holds the old content
  memmove(t->d+dof,o->d+so,n); if(o->s){ bool any=false; for(u64 i=0;i<n;i++) if(o->s[so+i]){any=true;break;} if(any){ if(!t->s) t->s=(E*)calloc(t->size,sizeof(E)); memmove(t->s+dof,o->s+so,n*sizeof(E)); } else if(t->s) memset(t->s+dof,0,n*sizeof(E)); } else if(t->s) memset(t->s+dof,0,n*sizeof(E));
  relObj(o); }
static E byteAt(Obj*o,u64 off){ return o->s&&o->s[off]?o->s[off]:K(8,o->d[off]); }

static bool inBoundsLoad(E a,unsigned bytes,unsigned w,Val&out){ // ITE-chain load through a symbolic address
  u64 v=(u64)evalM(a,S->m); u64 id=v>>WBITS; Obj*o=S->mem.get(id); if(!o||o->size>1024||o->size<bytes) return false;
  u64 b=addrOf(id); u64 last=b+o->size-bytes; if(v<b||v>last) return false;
  E c=mkBin(OUle,mkBin(OSub,a,K(64,b)),K(64,o->size-bytes));
  if(!decide(c)) return false; // witness is in bounds so this is true
  // refine range by witness-based stride: use all offsets
  u64 stride=1; // address = base + stride*x ?
  { E x=a; if(x->op==OAdd&&isK(x->b)) x=x->a; if(x->op==OConcat&&isK(x->b,0)&&x->b->w<12) stride=1ull<<x->b->w; else if(x->op==OZExt&&x->a->op==OConcat&&isK(x->a->b,0)) stride=1ull<<x->a->b->w; }
  u64 first=(v-b)%stride; E r=nullptr; for(u64 off=first;off+bytes<=o->size;off+=stride){ Val l=loadObj(o,off,bytes,w); E le=EV(l,w); r=r?mkIte(mkBin(OEq,a,K(64,b+off)),le,r):le; }
  out=VE(r); return true; }

static u64 allocObj(u64 size,Kind k,u8 fill){ Obj*o=newObj((u32)size,k,fill); return addrOf(S->mem.add(o)); }

// ---- typeinfo helpers
struct TI { int kind; u64 base; vector<std::pair<u64,i64>> bases; }; // kind 0 class 1 si 2 vmi 3 other
static std::unordered_map<u64,TI> g_ti; static std::unordered_map<u64,int> g_vtkind;
static TI& ti(u64 a){ auto it=g_ti.find(a); if(it!=g_ti.end()) return it->second; TI t; t.kind=3; t.base=0; u64 vt=conc(loadMem(a,8,64)); auto k=g_vtkind.find(vt-16); if(k!=g_vtkind.end()){ t.kind=k->second; if(t.kind==1) t.bases.push_back({conc(loadMem(a+16,8,64)),2}); else if(t.kind==2){ u32 n=(u32)conc(loadMem(a+20,4,32)); for(u32 i=0;i<n;i++) t.bases.push_back({conc(loadMem(a+24+16*i,8,64)),(i64)conc(loadMem(a+32+16*i,8,64))}); } }
  return g_ti.emplace(a,t).first->second; }
static bool tiEq(u64 a,u64 b){ return a==b; }
// find all subobjects of type dst within object at `p` (dynamic) of type t
static void findSub(u64 t,u64 p,u64 dst,std::set<u64>&out,bool publicOnly=true){ if(tiEq(t,dst)){ out.insert(p); return; } TI x=ti(t); for(auto&b:x.bases){ if(publicOnly&&!(b.second&2)) continue; u64 q=p; if(b.second&1){ u64 vt=conc(loadMem(p,8,64)); q=p+conc(loadMem(vt+(b.second>>8),8,64)); } else q=p+(b.second>>8); findSub(b.first,q,dst,out,publicOnly); } }
static bool catchMatch(u64 thrown,u64 catchT,u64 obj,u64&adj){ adj=obj; if(tiEq(thrown,catchT)) return true; if(ti(thrown).kind==3||ti(catchT).kind==3) return false; std::set<u64> o; findSub(thrown,obj,catchT,o); if(o.size()==1){ adj=*o.begin(); return true; } return false; }
static std::map<u64,int> g_typeids; static int typeidFor(u64 t){ auto it=g_typeids.find(t); if(it!=g_typeids.end()) return it->second; int k=g_typeids.size()+1; return g_typeids[t]=k; }

static void popFrame(){ Frame&f=S->st.back(); for(u64 id:f.allocas) S->mem.kill(id); S->st.pop_back(); }
static void takeEdge(Frame&f,const Edge&e){ if(!e.copies.empty()){ static vector<Val> tmp; tmp.clear(); for(auto&c:e.copies) for(unsigned k=0;k<c.n;k++) tmp.push_back(rd(f,c.src>=0?c.src+k:c.src-k)); size_t i=0; for(auto&c:e.copies) for(unsigned k=0;k<c.n;k++) f.r[c.dst+k]=tmp[i++]; } f.pc=e.target; }

// Exception header layout in rt.cc: the engine stores {tinfo} at exc-HDR; see rt.cc
static const u64 EXH=64; // header bytes before exception object: [0]=tinfo [8]=dtor [16]=handlerCount [24]=adjusted [32]=next
struct LPMatch{ bool enter; int sel; u64 adj; bool handler; };
static LPMatch matchLP(const LandingPadInst*L,u64 tinfo,u64 obj){
  LPMatch r{false,0,obj,false};
  for(unsigned i=0;i<L->getNumClauses();i++){ if(L->isCatch(i)){ Constant*c=L->getClause(i); u64 t=constScalar(c).c; if(!t){ r.enter=true;r.sel=typeidFor(0);r.adj=obj;r.handler=true; return r; } u64 adj; if(catchMatch(tinfo,t,obj,adj)){ r.enter=true;r.sel=typeidFor(t);r.adj=adj;r.handler=true; return r; } }
    else { Constant*c=L->getClause(i); bool ok=false; if(auto*CA=dyn_cast<ConstantArray>(c)) for(unsigned k=0;k<CA->getNumOperands();k++){ u64 t=constScalar(CA->getOperand(k)).c; u64 adj; if(!t||catchMatch(tinfo,t,obj,adj)) ok=true; } if(!ok){ r.enter=true;r.sel=-1;r.handler=true; return r; } } }
  if(L->isCleanup()){ r.enter=true; r.sel=0; }
  return r; }
static string typeName(u64 tinfo){ string s=cstr(conc(loadMem(tinfo+8,8,64))); if(!s.empty()&&s[0]=='*') s=s.substr(1); return demangle("_Z"+s); }
static void unwind(u64 exc){ // current top frame: the throwing frame (to be popped unless its call is an invoke)
  u64 tinfo=conc(loadMem(exc-EXH,8,64));
  // phase 1
  bool found=false; 
  for(size_t i=S->st.size();i-->0&&!found;){ Frame&f=S->st[i]; Inst&in=f.fn->code[f.pc]; if(in.op==I_INVOKE){ auto*L=cast<InvokeInst>(in.I)->getLandingPadInst(); LPMatch m=matchLP(L,tinfo,exc); if(m.handler){ found=true; break; } } else if((in.op==I_CALL&&(in.w2&1))||(f.fn->nounwind&&i+1<S->st.size())){ break; } }
  if(!found){ string tn=typeName(tinfo); fail("uncaught","uncaught exception (std::terminate) of type "+tn); }
  for(;;){ Frame&f=S->st.back(); Inst&in=f.fn->code[f.pc];
    if(in.op==I_INVOKE){ auto*L=cast<InvokeInst>(in.I)->getLandingPadInst(); LPMatch m=matchLP(L,tinfo,exc); if(m.enter){ storeMem(exc-EXH+24,8,64,V(m.adj)); takeEdge(f,in.edges[1]); // now at landing pad
        Inst&lp=f.fn->code[f.pc]; if(lp.op!=I_LPAD){ unsup("landingpad not first"); } f.r[lp.dst]=V(exc); f.r[lp.dst+1]=V((u32)m.sel); f.pc++; return; } }
    popFrame(); } }

static void pushCall(FnInfo*fi,const vector<Val>&args,const vector<unsigned>&ws);
#include "exec.inc"
