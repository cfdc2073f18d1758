// Hash-consed bit-vector expression DAG + simplifier + evaluation + z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <functional>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <z3.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 s128;

static inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
static inline s128 sx(u128 v, unsigned w){ if(w>=128) return (s128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (s128)((v^m)-m); }

enum Op : u8 { OConst, OSym, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle, OConcat, OExtract, OZExt, OSExt, OIte };

static const unsigned MAXSYM=1024;
struct Bits { u64 b[MAXSYM/64];
  void clear(){ memset(b,0,sizeof b);} void set(unsigned i){ b[i>>6]|=1ull<<(i&63);} bool get(unsigned i)const{return b[i>>6]>>(i&63)&1;}
  void orw(const Bits&o){ for(unsigned i=0;i<MAXSYM/64;i++) b[i]|=o.b[i]; }
  bool inter(const Bits&o)const{ for(unsigned i=0;i<MAXSYM/64;i++) if(b[i]&o.b[i]) return true; return false; }
};

struct Expr { Op op; uint16_t w; uint16_t mb; u32 id; u32 off; Expr *a,*b,*c; u128 v; Bits ss; u64 memoE; u128 memoV; Z3_ast z; u128 kz,ko; /* bits known to be 0, 1 */ };
typedef Expr* E;

struct SymInfo { std::string name; unsigned w; E e; };
extern std::vector<SymInfo> g_syms;
typedef std::vector<u64> Model;

struct EKey { Op op; uint16_t w; u32 off; E a,b,c; u128 v; bool operator==(const EKey&o)const{return op==o.op&&w==o.w&&off==o.off&&a==o.a&&b==o.b&&c==o.c&&v==o.v;} };
struct EHash { size_t operator()(const EKey&k)const{ u64 h=k.op*0x9E3779B97F4A7C15ull; auto mix=[&](u64 x){ h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32;}; mix(k.w);mix(k.off);mix((u64)k.a);mix((u64)k.b);mix((u64)k.c);mix((u64)k.v);mix((u64)(k.v>>64)); return h; } };
std::vector<SymInfo> g_syms;
static std::unordered_map<EKey,E,EHash> g_tab;
static u32 g_nextid=1; static u64 g_epoch=1;

static E intern(Op op,unsigned w,E a=0,E b=0,E c=0,u32 off=0,u128 v=0){
  EKey k{op,(uint16_t)w,off,a,b,c,v}; auto it=g_tab.find(k); if(it!=g_tab.end()) return it->second;
  E e=(E)malloc(sizeof(Expr)); e->op=op;e->w=w;e->id=g_nextid++;e->off=off;e->a=a;e->b=b;e->c=c;e->v=v;e->memoE=0;e->z=0;e->ss.clear();
  // mb: upper bound on the number of significant bits
  { unsigned m=w; switch(op){ case OConst:{ m=0; while(m<w&&(v>>m)) m++; break; } case OZExt: m=a->mb; break; case OAdd: m=std::max(a->mb,b->mb)+1; break; case OMul: m=a->mb+b->mb; break;
      case OAnd: m=std::min(a->mb,b->mb); break; case OOr: case OXor: m=std::max(a->mb,b->mb); break; case OIte: m=std::max(b->mb,c->mb); break; case OUDiv: m=b->op==OConst&&b->v?a->mb:w; break; case OURem: m=b->op==OConst&&b->v?std::min(a->mb,b->mb):a->mb; break;
      case OConcat: m=a->mb?a->mb+b->w:b->mb; break; case OExtract: m=a->mb>off?a->mb-off:0; break; case OLShr: m=a->mb; break; default: break; } e->mb=std::min(m,(unsigned)w); }
  { u128 z=0,o=0,M=maskw(w); switch(op){ case OConst: o=v; z=~v; break; case OZExt: z=a->kz|~maskw(a->w); o=a->ko; break; case OAnd: z=a->kz|b->kz; o=a->ko&b->ko; break; case OOr: z=a->kz&b->kz; o=a->ko|b->ko; break;
      case OXor: z=(a->kz&b->kz)|(a->ko&b->ko); o=(a->kz&b->ko)|(a->ko&b->kz); break; case OIte: z=b->kz&c->kz; o=b->ko&c->ko; break; case OConcat: z=(a->kz<<b->w)|b->kz; o=(a->ko<<b->w)|b->ko; break; case OExtract: z=a->kz>>off; o=a->ko>>off; break; default: break; }
    z|=~maskw(e->mb); e->kz=z&M; e->ko=o&M; }
  if(op==OSym) e->ss.set(off); if(a)e->ss.orw(a->ss); if(b)e->ss.orw(b->ss); if(c)e->ss.orw(c->ss);
  g_tab.emplace(k,e); return e; }
static inline E K(unsigned w,u128 v){ return intern(OConst,w,0,0,0,0,v&maskw(w)); }
static inline bool isK(E e){ return e->op==OConst; }
static inline bool isK(E e,u128 v){ return e->op==OConst && e->v==(v&maskw(e->w)); }
static inline bool allOnes(E e){ return e->op==OConst && e->v==maskw(e->w); }

static u128 foldBin(Op op,unsigned w,u128 a,u128 b){
  u128 m=maskw(w);
  switch(op){
   case OAdd: return (a+b)&m; case OSub: return (a-b)&m; case OMul: return (a*b)&m;
   case OUDiv: return b? (a/b)&m : m; case OURem: return b? (a%b)&m : a;
   case OSDiv: { s128 x=sx(a,w),y=sx(b,w); if(y==0) return x<0? 1: m; if(y==-1) return ((u128)(-x))&m; return (u128)(x/y)&m; }
   case OSRem: { s128 x=sx(a,w),y=sx(b,w); if(y==0) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
   case OAnd: return a&b; case OOr: return a|b; case OXor: return a^b;
   case OShl: return b>=w?0:(a<<(unsigned)b)&m; case OLShr: return b>=w?0:(a>>(unsigned)b);
   case OAShr: { s128 x=sx(a,w); if(b>=w) return x<0?m:0; return (u128)(x>>(unsigned)b)&m; }
   case OEq: return a==b; case OUlt: return a<b; case OUle: return a<=b;
   case OSlt: return sx(a,w)<sx(b,w); case OSle: return sx(a,w)<=sx(b,w);
   default: abort(); } }

static E mkBin(Op op,E a,E b); static E mkIte(E c,E a,E b); static E mkExtract(E a,unsigned lo,unsigned w); static E mkConcat(E hi,E lo); static E mkZ(E a,unsigned w); static E mkS(E a,unsigned w);
static inline E mkNot(E a);
static bool isCmp(Op o){ return o>=OEq&&o<=OSle; }

static E mkZ(E a,unsigned w){ if(a->w==w) return a; if(isK(a)) return K(w,a->v); if(a->op==OZExt) return mkZ(a->a,w); return intern(OZExt,w,a); }
static E mkS(E a,unsigned w){ if(a->w==w) return a; if(isK(a)) return K(w,(u128)sx(a->v,a->w)); if(a->op==OSExt) return mkS(a->a,w); if(a->op==OZExt) return mkZ(a->a,w); return intern(OSExt,w,a); }
static E mkExtract(E a,unsigned lo,unsigned w){
  if(lo==0&&w==a->w) return a;
  if(isK(a)) return K(w,a->v>>lo);
  switch(a->op){
   case OExtract: return mkExtract(a->a,a->off+lo,w);
   case OConcat: { unsigned lw=a->b->w; if(lo+w<=lw) return mkExtract(a->b,lo,w); if(lo>=lw) return mkExtract(a->a,lo-lw,w);
      return mkConcat(mkExtract(a->a,0,lo+w-lw),mkExtract(a->b,lo,lw-lo)); }
   case OZExt: { unsigned iw=a->a->w; if(lo>=iw) return K(w,0); if(lo+w<=iw) return mkExtract(a->a,lo,w); return mkZ(mkExtract(a->a,lo,iw-lo),w); }
   case OSExt: { unsigned iw=a->a->w; if(lo+w<=iw) return mkExtract(a->a,lo,w); if(lo==0) return mkS(a->a,w); if(lo<iw) return mkS(mkExtract(a->a,lo,iw-lo),w); return mkS(mkExtract(a->a,iw-1,1),w); }
   case OIte: if(isK(a->b)||isK(a->c)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
   case OAnd: case OOr: case OXor: return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
   case OAdd: case OSub: case OMul: if(lo==0 && (isK(a->b)||a->a->op==OZExt||a->b->op==OZExt||a->a->op==OSExt||a->b->op==OSExt)) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
   default: break; }
  return intern(OExtract,w,a,0,0,lo); }
static E mkConcat(E hi,E lo){
  unsigned w=hi->w+lo->w;
  if(isK(hi)&&isK(lo)) return K(w,(hi->v<<lo->w)|lo->v);
  if(isK(hi,0)) return mkZ(lo,w);
  if(hi->op==OExtract&&lo->op==OExtract&&hi->a==lo->a&&hi->off==lo->off+lo->w) return mkExtract(hi->a,lo->off,w);
  if(hi->op==OExtract&&hi->off>=lo->w&&lo->op!=OExtract&&!isK(lo)&&(hi->a->op==OAdd||hi->a->op==OSub||hi->a->op==OMul)&&mkExtract(hi->a,hi->off-lo->w,lo->w)==lo) return mkExtract(hi->a,hi->off-lo->w,w);
  if(hi->op==OZExt) return mkZ(mkConcat(hi->a,lo),w);
  if(hi->op==OSExt){ if(hi->a->w==1&&mkExtract(lo,lo->w-1,1)==hi->a) return mkS(lo,w); E t=mkConcat(hi->a,lo); if(t->op!=OConcat) return mkS(t,w); }
  if(lo->op==OConcat){ // right-assoc normal form: try to merge hi with top of lo
    E t=mkConcat(hi,lo->a); if(t->op!=OConcat) return mkConcat(t,lo->b); }
  if(hi->op==OConcat) return mkConcat(hi->a,mkConcat(hi->b,lo));
  // concat(ite(c,k,k'), ite(c,..)) merge
  if(hi->op==OIte&&lo->op==OIte&&hi->a==lo->a) return mkIte(hi->a,mkConcat(hi->b,lo->b),mkConcat(hi->c,lo->c));
  return intern(OConcat,w,hi,lo); }
static E mkIte(E c,E a,E b){
  if(isK(c)) return c->v?a:b; if(a==b) return a;
  if(c->op==OXor&&isK(c->b,1)) return mkIte(c->a,b,a);
  if(a->w==1){
    if(isK(a,1)&&isK(b,0)) return c; if(isK(a,0)&&isK(b,1)) return mkNot(c);
    if(isK(a,1)) return mkBin(OOr,c,b); if(isK(a,0)) return mkBin(OAnd,mkNot(c),b);
    if(isK(b,0)) return mkBin(OAnd,c,a); if(isK(b,1)) return mkBin(OOr,mkNot(c),a);
  }
  if(a->op==OIte&&a->a==c) a=a->b; if(b->op==OIte&&b->a==c) b=b->c; if(a==b) return a;
  return intern(OIte,a->w,c,a,b); }
static inline E mkNot(E a){ return mkBin(OXor,a,K(a->w,maskw(a->w))); }

// known-zero disjointness helper: split e in pieces (low first)
struct Piece{ E e; unsigned lo,w; };
static bool piecesOf(E e,unsigned lo,std::vector<Piece>&out){ // constants zero => e==0
  if(e->op==OConcat){ return piecesOf(e->b,lo,out)&&piecesOf(e->a,lo+e->b->w,out); }
  if(e->op==OZExt){ if(!piecesOf(e->a,lo,out)) return false; out.push_back({0,lo+e->a->w,(unsigned)(e->w-e->a->w)}); return true; }
  if(isK(e)){ if(e->v==0){ out.push_back({0,lo,e->w}); return true; } // split constant at bytes
    unsigned w=e->w; for(unsigned i=0;i<w;){ unsigned n=std::min(8u,w-i); E p=K(n,e->v>>i); out.push_back({p->v?p:0,lo+i,n}); i+=n; } return true; }
  out.push_back({e,lo,e->w}); return true; }
static E orDisjoint(E a,E b){ // both same width; returns 0 if not disjoint
  if(!(a->op==OConcat||a->op==OZExt)||!(b->op==OConcat||b->op==OZExt||isK(b))) return 0;
  std::vector<Piece> pa,pb; piecesOf(a,0,pa); piecesOf(b,0,pb);
  E r=0; unsigned pos=0,w=a->w; size_t i=0,j=0;
  while(pos<w){ while(pa[i].lo+pa[i].w<=pos) i++; while(pb[j].lo+pb[j].w<=pos) j++;
    unsigned n=std::min(pa[i].lo+pa[i].w,pb[j].lo+pb[j].w)-pos; if(pa[i].e&&pb[j].e) return 0;
    E p = pa[i].e? mkExtract(pa[i].e,pos-pa[i].lo,n) : pb[j].e? mkExtract(pb[j].e,pos-pb[j].lo,n) : K(n,0);
    r = r? mkConcat(p,r):p; pos+=n; }
  return r; }

// low n bits of e, pushed towards the leaves
static E narrow(E e,unsigned n){
  if(e->w==n) return e;
  switch(e->op){ case OAdd: case OSub: case OMul: case OAnd: case OOr: case OXor: return mkBin(e->op,narrow(e->a,n),narrow(e->b,n)); case OIte: return mkIte(e->a,narrow(e->b,n),narrow(e->c,n)); default: return mkExtract(e,0,n); } }
// e*k as a sum of terms modulo 2^w; false when there are too many
struct Lin{ E t[14]; u64 c[14]; unsigned n; u64 k; };
static bool linear(E e,u64 k,unsigned w,Lin&l,unsigned depth=0){
  if(isK(e)){ l.k+=k*(u64)e->v; return true; }
  if(depth<10) switch(e->op){
   case OAdd: if(e->w>=w||std::max(e->a->mb,e->b->mb)+1<=(int)e->w) return linear(e->a,k,w,l,depth+1)&&linear(e->b,k,w,l,depth+1); break;
   case OSub: if(e->w>=w) return linear(e->a,k,w,l,depth+1)&&linear(e->b,-k,w,l,depth+1); break;
   case OMul: if(isK(e->b)&&(e->w>=w||e->a->mb+e->b->mb<=(int)e->w)) return linear(e->a,k*(u64)e->b->v,w,l,depth+1); break;
   case OConcat: if(isK(e->b,0)&&e->b->w<64){ unsigned s=e->b->w; if(e->w>=w) return w<=s||linear(e->a,k<<s,w-s,l,depth+1); return linear(e->a,k<<s,w,l,depth+1); } break;
   case OExtract: if(e->off==0&&e->w>=w&&e->a->w<=64) return linear(e->a,k,w,l,depth+1); break;
   case OZExt: return linear(e->a,k,w,l,depth+1);
   default: break; }
  for(unsigned i=0;i<l.n;i++) if(l.t[i]==e){ l.c[i]+=k; return true; }
  if(l.n==14) return false; l.t[l.n]=e; l.c[l.n++]=k; return true; }
static bool arith(E e){ while(e->op==OZExt||(e->op==OConcat&&isK(e->b,0))) e=e->a; return e->op==OAdd||e->op==OSub||e->op==OMul; }
static E mkBin(Op op,E a,E b){
  unsigned w=a->w;
  if(a->w!=b->w){ fprintf(stderr,"width mismatch op %d %u %u\n",op,a->w,b->w); abort(); }
  if(isK(a)&&isK(b)) return K(isCmp(op)?1:w,foldBin(op,w,a->v,b->v));
  bool comm = op==OAdd||op==OMul||op==OAnd||op==OOr||op==OXor||op==OEq;
  if(comm&&(isK(a)||(!isK(b)&&a->id>b->id))) std::swap(a,b);
  if((op==OEq||op==OUlt||op==OUle)&&w>8&&a!=b){ unsigned n=std::max((unsigned)std::max(a->mb,b->mb),1u); if(n<w&&n<=32) return mkBin(op,narrow(a,n),narrow(b,n)); }
  switch(op){
   case OAdd: if(isK(b,0)) return a; if(w==1) return mkBin(OXor,a,b);
     if(isK(b)&&a->op==OAdd&&isK(a->b)) return mkBin(OAdd,a->a,K(w,a->b->v+b->v));
     if(!isK(b)&&a->op==OAdd&&isK(a->b)) return mkBin(OAdd,mkBin(OAdd,a->a,b),a->b);
     if(!isK(b)&&b->op==OAdd&&isK(b->b)) return mkBin(OAdd,mkBin(OAdd,a,b->a),b->b);
     if(!isK(b)&&b->op==OSub&&b->b==a) return b->a; if(a->op==OSub&&a->b==b) return a->a;
     if(isK(b)&&a->op==OIte&&isK(a->b)&&isK(a->c)) return mkIte(a->a,mkBin(OAdd,a->b,b),mkBin(OAdd,a->c,b));
     break;
   case OSub: if(a==b) return K(w,0); if(isK(b)) return mkBin(OAdd,a,K(w,-b->v));
     if(a->op==OAdd){ if(a->a==b) return a->b; if(a->b==b) return a->a; if(isK(a->b)) return mkBin(OAdd,mkBin(OSub,a->a,b),a->b); }
     if(b->op==OAdd&&isK(b->b)) return mkBin(OAdd,mkBin(OSub,a,b->a),K(w,-b->b->v));
     break;
   case OMul: if(isK(b,0)) return b; if(isK(b,1)) return a;
     if(isK(b)&&(b->v&(b->v-1))==0){ unsigned k=0; while(!((b->v>>k)&1)) k++; return mkBin(OShl,a,K(w,k)); }
     if(isK(b)&&a->op==OAdd&&isK(a->b)) return mkBin(OAdd,mkBin(OMul,a->a,b),K(w,a->b->v*b->v));
     break;
   case OUDiv: if(isK(b)&&b->v&&(b->v&(b->v-1))==0){ unsigned k=0; while(!((b->v>>k)&1)) k++; return mkBin(OLShr,a,K(w,k)); }
     if(isK(b)&&b->v&&a->op==OZExt){ if(b->v>maskw(a->a->w)) return K(w,0); return mkZ(mkBin(OUDiv,a->a,K(a->a->w,b->v)),w); } break;
   case OURem: if(isK(b)&&b->v&&(b->v&(b->v-1))==0){ if(b->v==1) return K(w,0); unsigned k=0; while(!((b->v>>k)&1)) k++; return mkZ(mkExtract(a,0,k),w); }
     if(isK(b)&&b->v&&a->op==OZExt){ if(b->v>maskw(a->a->w)) return a; return mkZ(mkBin(OURem,a->a,K(a->a->w,b->v)),w); } break;
   case OSDiv: if(isK(b,1)) return a; break;
   case OAnd: if(isK(b,0)) return b; if(allOnes(b)) return a; if(a==b) return a;
     if(w==1){ if(a->op==OXor&&isK(a->b,1)&&a->a==b) return K(1,0); if(b->op==OXor&&isK(b->b,1)&&b->a==a) return K(1,0); }
     if(isK(b)){ if(a->op==OAnd&&isK(a->b)) return mkBin(OAnd,a->a,K(w,a->b->v&b->v));
       u128 v=b->v; if((v&(v+1))==0){ unsigned k=0; while((v>>k)&1) k++; return mkZ(mkExtract(a,0,k),w); }
       // low zero bits then contiguous ones
       unsigned t=0; while(!((v>>t)&1)) t++; u128 s=v>>t; if((s&(s+1))==0){ unsigned k=0; while((s>>k)&1) k++; E mid=mkExtract(a,t,k); E r=mkConcat(mid,K(t,0)); return mkZ(r,w);} 
       if(a->op==OZExt){ return mkZ(mkBin(OAnd,a->a,K(a->a->w,v)),w);} 
       if(a->op==OConcat) return mkConcat(mkBin(OAnd,a->a,K(a->a->w,v>>a->b->w)),mkBin(OAnd,a->b,K(a->b->w,v)));
       if(a->op==OIte&&isK(a->b)&&isK(a->c)) return mkIte(a->a,mkBin(OAnd,a->b,b),mkBin(OAnd,a->c,b)); }
     break;
   case OOr: if(isK(b,0)) return a; if(allOnes(b)) return b; if(a==b) return a;
     if(w==1){ if(a->op==OXor&&isK(a->b,1)&&a->a==b) return K(1,1); if(b->op==OXor&&isK(b->b,1)&&b->a==a) return K(1,1); }
     { E r=orDisjoint(a,b); if(r) return r; r=orDisjoint(b,a); if(r) return r; }
     if(isK(b)&&a->op==OIte&&isK(a->b)&&isK(a->c)) return mkIte(a->a,mkBin(OOr,a->b,b),mkBin(OOr,a->c,b));
     break;
   case OXor: if(isK(b,0)) return a; if(a==b) return K(w,0);
     if(isK(b)&&a->op==OXor&&isK(a->b)) return mkBin(OXor,a->a,K(w,a->b->v^b->v));
     if(w==1&&isK(b,1)){ switch(a->op){ case OUlt: return mkBin(OUle,a->b,a->a); case OUle: return mkBin(OUlt,a->b,a->a); case OSlt: return mkBin(OSle,a->b,a->a); case OSle: return mkBin(OSlt,a->b,a->a); default:; } 
       if(a->op==OIte) return mkIte(a->a,mkNot(a->b),mkNot(a->c)); }
     if(isK(b)&&a->op==OZExt&&0){}
     break;
   case OShl: if(isK(b,0)) return a; if(isK(b)){ if(b->v>=w) return K(w,0); unsigned k=(unsigned)b->v; return mkConcat(mkExtract(a,0,w-k),K(k,0)); } if(isK(a,0)) return a; break;
   case OLShr: if(isK(b,0)) return a; if(isK(b)){ if(b->v>=w) return K(w,0); unsigned k=(unsigned)b->v; return mkZ(mkExtract(a,k,w-k),w); } if(isK(a,0)) return a; break;
   case OAShr: if(isK(b,0)) return a; if(isK(b)){ unsigned k=b->v>=w?w-1:(unsigned)b->v; return mkS(mkExtract(a,k,w-k),w); } if(isK(a,0)) return a; break;
   case OEq: if(a==b) return K(1,1); if((a->ko&b->kz)|(a->kz&b->ko)) return K(1,0);
     if(w>=16&&w<=64&&!isK(b)&&(arith(a)||arith(b))){ Lin l; l.n=0; l.k=0; if(linear(a,1,w,l)&&linear(b,-1ull,w,l)){ u64 m=(u64)maskw(w); bool z=true; for(unsigned i=0;i<l.n;i++) z&=(l.c[i]&m)==0; if(z) return K(1,(l.k&m)==0); } }
     if(w==1){ if(isK(b,1)) return a; if(isK(b,0)) return mkNot(a); }
     if(isK(b)){ 
       if(a->op==OZExt){ if(b->v>maskw(a->a->w)) return K(1,0); return mkBin(OEq,a->a,K(a->a->w,b->v)); }
       if(a->op==OSExt){ u128 t=b->v&maskw(a->a->w); if(((u128)sx(t,a->a->w)&maskw(w))!=b->v) return K(1,0); return mkBin(OEq,a->a,K(a->a->w,t)); }
       if(a->op==OConcat) return mkBin(OAnd,mkBin(OEq,a->a,K(a->a->w,b->v>>a->b->w)),mkBin(OEq,a->b,K(a->b->w,b->v)));
       if(a->op==OAdd&&isK(a->b)) return mkBin(OEq,a->a,K(w,b->v-a->b->v));
       if(a->op==OXor&&isK(a->b)) return mkBin(OEq,a->a,K(w,b->v^a->b->v));
       if(a->op==OSub&&isK(b,0)) return mkBin(OEq,a->a,a->b);
       if(a->op==OSub&&isK(a->a)) return mkBin(OEq,a->b,K(w,a->a->v-b->v));
       if(a->op==OIte&&(isK(a->b)||isK(a->c))) return mkIte(a->a,mkBin(OEq,a->b,b),mkBin(OEq,a->c,b)); }
     else { if(a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return mkBin(OEq,a->a,b->a);
       if(a->op==OSExt&&b->op==OSExt&&a->a->w==b->a->w) return mkBin(OEq,a->a,b->a);
       if(a->op==OAdd&&b->op==OAdd){ if(a->a==b->a) return mkBin(OEq,a->b,b->b); if(a->b==b->b) return mkBin(OEq,a->a,b->a); if(a->a==b->b) return mkBin(OEq,a->b,b->a); if(a->b==b->a) return mkBin(OEq,a->a,b->b); }
       if(a->op==OConcat&&b->op==OConcat&&a->b->w==b->b->w) return mkBin(OAnd,mkBin(OEq,a->a,b->a),mkBin(OEq,a->b,b->b)); }
     break;
   case OUlt: if(a==b) return K(1,0); if((maskw(w)&~a->kz)<b->ko) return K(1,1); if(a->ko>=(maskw(w)&~b->kz)) return K(1,0); if(isK(b,0)) return K(1,0); if(isK(b,1)) return mkBin(OEq,a,K(w,0)); if(isK(a,0)) return mkNot(mkBin(OEq,b,a)); if(allOnes(a)) return K(1,0);
     if(w==1) return mkBin(OAnd,mkNot(a),b);
     goto cmpz;
   case OUle: if(a==b) return K(1,1); if((maskw(w)&~a->kz)<=b->ko) return K(1,1); if(a->ko>(maskw(w)&~b->kz)) return K(1,0); if(isK(a,0)) return K(1,1); if(allOnes(b)) return K(1,1); if(isK(b,0)) return mkBin(OEq,a,b);
     if(w==1) return mkBin(OOr,mkNot(a),b);
     goto cmpz;
   cmpz: { 
     // comparisons of a quotient with a constant need no division
     if(w<=64&&a->op==OUDiv&&isK(a->b)&&a->b->v&&isK(b)){ u128 t=(op==OUlt?b->v:b->v+1)*a->b->v; return t>maskw(w)?K(1,1):mkBin(OUlt,a->a,K(w,t)); }
     if(w<=64&&b->op==OUDiv&&isK(b->b)&&b->b->v&&isK(a)){ u128 t=(op==OUle?a->v:a->v+1)*b->b->v; return t>maskw(w)?K(1,0):mkBin(OUle,K(w,t),b->a); }
     if(a->op==OZExt&&b->op==OZExt){ unsigned n=std::max(a->a->w,b->a->w); return mkBin(op,mkZ(a->a,n),mkZ(b->a,n)); }
     if(a->op==OZExt&&isK(b)){ unsigned n=a->a->w; if(b->v>maskw(n)) return K(1,1); return mkBin(op,a->a,K(n,b->v)); }
     if(b->op==OZExt&&isK(a)){ unsigned n=b->a->w; if(a->v>maskw(n)) return K(1,0); return mkBin(op,K(n,a->v),b->a); }
     if(a->op==OIte&&isK(b)&&(isK(a->b)||isK(a->c))) return mkIte(a->a,mkBin(op,a->b,b),mkBin(op,a->c,b));
     if(b->op==OIte&&isK(a)&&(isK(b->b)||isK(b->c))) return mkIte(b->a,mkBin(op,a,b->b),mkBin(op,a,b->c));
     break; }
   case OSlt: case OSle: if(a==b) return K(1,op==OSle);
     if(a->op==OZExt&&b->op==OZExt){ unsigned n=std::max(a->a->w,b->a->w); return mkBin(op==OSlt?OUlt:OUle,mkZ(a->a,n),mkZ(b->a,n)); }
     if(a->op==OZExt&&isK(b)){ if(sx(b->v,w)<0) return K(1,0); return mkBin(op==OSlt?OUlt:OUle,a,b); }
     if(b->op==OZExt&&isK(a)){ if(sx(a->v,w)<0) return K(1,1); return mkBin(op==OSlt?OUlt:OUle,a,b); }
     if(a->op==OSExt&&b->op==OSExt&&a->a->w==b->a->w) return mkBin(op,a->a,b->a);
     if(a->op==OSExt&&isK(b)){ unsigned n=a->a->w; s128 k=sx(b->v,w); s128 lo=-((s128)1<<(n-1)),hi=((s128)1<<(n-1))-1; if(k>hi) return K(1,1); if(k<lo) return K(1,0); return mkBin(op,a->a,K(n,(u128)k)); }
     if(b->op==OSExt&&isK(a)){ unsigned n=b->a->w; s128 k=sx(a->v,w); s128 lo=-((s128)1<<(n-1)),hi=((s128)1<<(n-1))-1; if(k>hi) return K(1,0); if(k<lo) return K(1,1); return mkBin(op,K(n,(u128)k),b->a); }
     if(a->op==OIte&&isK(b)&&(isK(a->b)||isK(a->c))) return mkIte(a->a,mkBin(op,a->b,b),mkBin(op,a->c,b));
     if(b->op==OIte&&isK(a)&&(isK(b->b)||isK(b->c))) return mkIte(b->a,mkBin(op,a,b->b),mkBin(op,a,b->c));
     break;
   default: break; }
  return intern(op,isCmp(op)?1:w,a,b); }

static u128 evalRec(E e,const Model&m){
  if(e->op==OConst) return e->v;
  if(e->memoE==g_epoch) return e->memoV;
  u128 r;
  switch(e->op){
   case OSym: r= e->off<m.size()? (u128)m[e->off]&maskw(e->w):0; break;
   case OConcat: r=(evalRec(e->a,m)<<e->b->w)|evalRec(e->b,m); break;
   case OExtract: r=(evalRec(e->a,m)>>e->off)&maskw(e->w); break;
   case OZExt: r=evalRec(e->a,m); break;
   case OSExt: r=(u128)sx(evalRec(e->a,m),e->a->w)&maskw(e->w); break;
   case OIte: r=evalRec(e->a,m)?evalRec(e->b,m):evalRec(e->c,m); break;
   default: r=foldBin(e->op,e->a->w,evalRec(e->a,m),evalRec(e->b,m)); }
  e->memoE=g_epoch; e->memoV=r; return r; }
static u128 evalM(E e,const Model&m){ g_epoch++; return evalRec(e,m); }

// ---------------------------------------------------------------- solver
static Z3_context g_z3; static Z3_solver g_solver;
struct SolverStats { u64 queries=0, z3calls=0, cachehits=0, modelhits=0, sat=0, unsat=0, unknown=0; double time=0, maxtime=0; };
static SolverStats SS; static unsigned g_solver_timeout_ms=20000;
static void solverInit(){
  Z3_config c=Z3_mk_config(); g_z3=Z3_mk_context(c); Z3_del_config(c);
  g_solver=Z3_mk_solver_for_logic(g_z3,Z3_mk_string_symbol(g_z3,"QF_BV")); Z3_solver_inc_ref(g_z3,g_solver);
}
static void solverTimeout(unsigned ms){ g_solver_timeout_ms=ms; Z3_params p=Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3,p);
  Z3_params_set_uint(g_z3,p,Z3_mk_string_symbol(g_z3,"timeout"),ms); Z3_solver_set_params(g_z3,g_solver,p); Z3_params_dec_ref(g_z3,p); }
static Z3_ast toZ(E e);
static Z3_ast zbool(E e){ // 1-bit expr to bool
  switch(e->op){ 
   case OEq: return Z3_mk_eq(g_z3,toZ(e->a),toZ(e->b)); case OUlt: return Z3_mk_bvult(g_z3,toZ(e->a),toZ(e->b)); case OUle: return Z3_mk_bvule(g_z3,toZ(e->a),toZ(e->b));
   case OSlt: return Z3_mk_bvslt(g_z3,toZ(e->a),toZ(e->b)); case OSle: return Z3_mk_bvsle(g_z3,toZ(e->a),toZ(e->b));
   default: break; }
  if(e->w==1){ if(e->op==OAnd){ Z3_ast x[2]={zbool(e->a),zbool(e->b)}; return Z3_mk_and(g_z3,2,x);} if(e->op==OOr){ Z3_ast x[2]={zbool(e->a),zbool(e->b)}; return Z3_mk_or(g_z3,2,x);} 
    if(e->op==OXor&&isK(e->b,1)) return Z3_mk_not(g_z3,zbool(e->a)); if(e->op==OConst) return e->v?Z3_mk_true(g_z3):Z3_mk_false(g_z3);
    if(e->op==OIte) return Z3_mk_ite(g_z3,zbool(e->a),zbool(e->b),zbool(e->c)); }
  return Z3_mk_eq(g_z3,toZ(e),Z3_mk_unsigned_int64(g_z3,1,Z3_mk_bv_sort(g_z3,1))); }
static Z3_ast zb2bv(Z3_ast b){ Z3_sort s=Z3_mk_bv_sort(g_z3,1); return Z3_mk_ite(g_z3,b,Z3_mk_unsigned_int64(g_z3,1,s),Z3_mk_unsigned_int64(g_z3,0,s)); }
static Z3_ast toZ(E e){
  if(e->z) return e->z; Z3_ast r; Z3_context c=g_z3;
  switch(e->op){
   case OConst: { Z3_sort s=Z3_mk_bv_sort(c,e->w); if(e->w<=64) r=Z3_mk_unsigned_int64(c,(u64)e->v,s); else { Z3_ast h=Z3_mk_unsigned_int64(c,(u64)(e->v>>64),Z3_mk_bv_sort(c,e->w-64)); Z3_ast l=Z3_mk_unsigned_int64(c,(u64)e->v,Z3_mk_bv_sort(c,64)); r=Z3_mk_concat(c,h,l);} break; }
   case OSym: { std::string n="s"+std::to_string(e->off); r=Z3_mk_const(c,Z3_mk_string_symbol(c,n.c_str()),Z3_mk_bv_sort(c,e->w)); break; }
   case OAdd: r=Z3_mk_bvadd(c,toZ(e->a),toZ(e->b)); break; case OSub: r=Z3_mk_bvsub(c,toZ(e->a),toZ(e->b)); break; case OMul: r=Z3_mk_bvmul(c,toZ(e->a),toZ(e->b)); break;
   case OUDiv: r=Z3_mk_bvudiv(c,toZ(e->a),toZ(e->b)); break; case OSDiv: r=Z3_mk_bvsdiv(c,toZ(e->a),toZ(e->b)); break; case OURem: r=Z3_mk_bvurem(c,toZ(e->a),toZ(e->b)); break; case OSRem: r=Z3_mk_bvsrem(c,toZ(e->a),toZ(e->b)); break;
   case OAnd: r= e->w==1? zb2bv(zbool(e)) : Z3_mk_bvand(c,toZ(e->a),toZ(e->b)); break;
   case OOr: r= e->w==1? zb2bv(zbool(e)) : Z3_mk_bvor(c,toZ(e->a),toZ(e->b)); break; 
   case OXor: r=Z3_mk_bvxor(c,toZ(e->a),toZ(e->b)); break;
   case OShl: r=Z3_mk_bvshl(c,toZ(e->a),toZ(e->b)); break; case OLShr: r=Z3_mk_bvlshr(c,toZ(e->a),toZ(e->b)); break; case OAShr: r=Z3_mk_bvashr(c,toZ(e->a),toZ(e->b)); break;
   case OEq: case OUlt: case OUle: case OSlt: case OSle: r=zb2bv(zbool(e)); break;
   case OConcat: r=Z3_mk_concat(c,toZ(e->a),toZ(e->b)); break; case OExtract: r=Z3_mk_extract(c,e->off+e->w-1,e->off,toZ(e->a)); break;
   case OZExt: r=Z3_mk_zero_ext(c,e->w-e->a->w,toZ(e->a)); break; case OSExt: r=Z3_mk_sign_ext(c,e->w-e->a->w,toZ(e->a)); break;
   case OIte: r=Z3_mk_ite(c,zbool(e->a),toZ(e->b),toZ(e->c)); break;
   default: abort(); }
  e->z=r; return r; }

struct CEnt { int res; std::vector<std::pair<u32,u64>> model; };
struct VHash { size_t operator()(const std::vector<u32>&v)const{ u64 h=1469598103934665603ull; for(u32 x:v){ h^=x; h*=1099511628211ull; h^=h>>29;} return h; } };
static std::unordered_map<std::vector<u32>,CEnt,VHash> g_qcache;
static std::vector<Model> g_recent; static size_t g_recentPos=0;

// decides sat(PC /\ q). base model m satisfies PC. On sat writes new model in out.  1 sat 0 unsat -1 unknown
static int solve(const std::vector<E>&pc,E q,const Model&m,Model&out){
  if(isK(q)){ if(!q->v) return 0; out=m; return 1; }
  SS.queries++;
  // slice
  Bits s=q->ss; std::vector<char> in(pc.size(),0); bool ch=true; std::vector<E> sl;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]&&pc[i]->ss.inter(s)){ in[i]=1; s.orw(pc[i]->ss); ch=true; sl.push_back(pc[i]); } }
  std::vector<u32> key; for(E e:sl) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end()); key.push_back(q->id);
  auto it=g_qcache.find(key);
  if(it!=g_qcache.end()){ SS.cachehits++; if(it->second.res==1){ out=m; for(auto&p:it->second.model){ if(out.size()<=p.first) out.resize(p.first+1); out[p.first]=p.second; } } return it->second.res; }
  CEnt ent; 
  auto fill=[&](const Model&mm){ out=m; for(u32 i=0;i<g_syms.size();i++) if(s.get(i)){ u64 v= i<mm.size()?mm[i]:0; if(out.size()<=i) out.resize(i+1); out[i]=v; ent.model.push_back({i,v}); } };
  for(size_t k=0;k<g_recent.size();k++){ const Model&r=g_recent[(g_recentPos+g_recent.size()-1-k)%g_recent.size()]; g_epoch++; if(!evalRec(q,r)) continue; bool ok=true; for(E e:sl) if(!evalRec(e,r)){ ok=false; break; } if(ok){ SS.modelhits++; ent.res=1; fill(r); g_qcache.emplace(std::move(key),std::move(ent)); return 1; } }
  auto t0=std::chrono::steady_clock::now(); SS.z3calls++;
  Z3_solver_push(g_z3,g_solver); for(E e:sl) Z3_solver_assert(g_z3,g_solver,zbool(e)); Z3_solver_assert(g_z3,g_solver,zbool(q));
  Z3_lbool r=Z3_solver_check(g_z3,g_solver); int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
  if(res==1){ Z3_model zm=Z3_solver_get_model(g_z3,g_solver); Z3_model_inc_ref(g_z3,zm); Model mm(g_syms.size(),0);
    for(u32 i=0;i<g_syms.size();i++) if(s.get(i)){ Z3_ast v; if(Z3_model_eval(g_z3,zm,toZ(g_syms[i].e),true,&v)){ uint64_t x=0; Z3_get_numeral_uint64(g_z3,v,&x); mm[i]=x; } }
    Z3_model_dec_ref(g_z3,zm);
    g_epoch++; bool ok=evalRec(q,mm); for(E e:sl) ok=ok&&evalRec(e,mm); if(!ok){ fprintf(stderr,"SOLVER MODEL MISMATCH\n"); res=-1; }
    else { fill(mm); if(g_recent.size()<24) g_recent.push_back(mm); else { g_recent[g_recentPos]=mm; g_recentPos=(g_recentPos+1)%g_recent.size(); } } }
  if(getenv("DUMPQ")&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>(getenv("DUMPT")?atof(getenv("DUMPT")):1.0)){ FILE*f=fopen((std::string(getenv("DUMPQ"))+std::to_string(SS.z3calls)+".smt2").c_str(),"w"); fprintf(f,"(set-logic QF_BV)\n%s(check-sat)\n",Z3_solver_to_string(g_z3,g_solver)); fclose(f); }
  Z3_solver_pop(g_z3,g_solver,1);
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); SS.time+=dt; if(dt>SS.maxtime) SS.maxtime=dt;
  if(res==1)SS.sat++; else if(res==0)SS.unsat++; else SS.unknown++;
  ent.res=res; if(res>=0) g_qcache.emplace(std::move(key),std::move(ent));
  return res; }
