#include "common.h"
using namespace MemLayout;
typedef MemoryLayout::const_iterator It;
// Classification of the byte at symbolic offset x, by the layout bytecode and by the type: D data, P padding, C+container, 0 outside
enum { OUT=0, DATA=1, PAD=2, CONT=3 };
struct Cls { uint64_t kind; uint64_t who; };
// interprets one block of layout bytecode; returns the total length; accumulates the classification of byte x (no forks)
static It walk(It it,It end,uint64_t&pos,uint64_t x,Cls&c,bool&ok){
  for(;it!=end && *it!=FLAG_END;++it){
    switch(__sym_concretize(*it)){
      case FLAG_MEMCPY: case FLAG_SKIP:{ uint64_t k= *it==FLAG_MEMCPY?DATA:PAD; uint64_t n=*(++it); uint64_t in=(uint64_t)(x>=pos)&(uint64_t)(x<pos+n); c.kind=__sym_ite(in,k,c.kind); pos+=n; break; }
      case FLAG_ARRAY:{ uint64_t n=__sym_concretize(*(++it)); It b=++it; It e=MemoryLayout::skipBlock(b,end); if(e==end){ ok=false; return end; } for(uint64_t i=0;i<n;i++){ It r=walk(b,end,pos,x,c,ok); if(!ok||r!=e){ ok=false; return end; } } it=e; break; }
      case FLAG_CONTAINER:{ Container const*t=(Container const*)*(++it); uint64_t n=t->getSize(); uint64_t in=(uint64_t)(x>=pos)&(uint64_t)(x<pos+n); c.kind=__sym_ite(in,CONT,c.kind); c.who=__sym_ite(in,(uint64_t)t,c.who); pos+=n; It b=++it; It e=MemoryLayout::skipBlock(b,end); if(e==end){ ok=false; return end; } it=e; break; }
      default: ok=false; return end;
    }
  }
  return it;
}
static void ref_cls(Type const&t,uint64_t pos,uint64_t x,Cls&c){
  uint64_t n=t.getSize();
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); uint64_t d=dim(t); for(uint64_t i=0;i<d;i++) ref_cls(e,pos+i*e.getSize(),x,c); break; }
    case Type::Compound:{ uint64_t in=(uint64_t)(x>=pos)&(uint64_t)(x<pos+n); c.kind=__sym_ite(in,PAD,c.kind); Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_cls(i->getType(),pos+i->getOffset(),x,c); break; }
    case Type::Container:{ uint64_t in=(uint64_t)(x>=pos)&(uint64_t)(x<pos+n); c.kind=__sym_ite(in,CONT,c.kind); c.who=__sym_ite(in,(uint64_t)&t,c.who); break; }
    case Type::Opaque:{ uint64_t in=(uint64_t)(x>=pos)&(uint64_t)(x<pos+n); c.kind=__sym_ite(in,PAD,c.kind); break; }
    default:{ uint64_t in=(uint64_t)(x>=pos)&(uint64_t)(x<pos+n); c.kind=__sym_ite(in,DATA,c.kind); }
  }
}
// blocks nested in containers, paired with the element type they must describe
static void check_blocks(It it,It end,MemoryLayout const&l,bool merge,uint64_t x);
static void check_block(It b,It e,Type const&t,bool merge,bool top,bool rmtrail,uint64_t x){
  Cls a={OUT,0},r={OUT,0}; uint64_t pos=0; bool ok=true; It stop=walk(b,e,pos,x,a,ok);
  CHECK(ok && stop==e,"the layout is well formed"); if(!ok||stop!=e) return;
  ref_cls(t,0,x,r);
  uint64_t size=t.getSize();
  uint64_t inrange=(uint64_t)(x<size);
  uint64_t same=(uint64_t)(a.kind==r.kind)&((uint64_t)(r.kind!=CONT)|(uint64_t)(a.who==r.who));
  uint64_t okpad=(uint64_t)(r.kind==PAD)&((uint64_t)(a.kind==PAD)|((uint64_t)(a.kind==DATA)&merge)|((uint64_t)(a.kind==OUT)&(top&rmtrail)));
  CHECK(!inrange | same | okpad,"every byte of the value is classified as its type says");
  CHECK(pos<=size,"the layout does not extend past the value");
  if(!(top&&rmtrail)) CHECK(pos==size,"the layout spans the whole value");
  // nested container blocks
  for(It it=b;it!=e;++it) switch(__sym_concretize(*it)){
    case FLAG_MEMCPY: case FLAG_SKIP: ++it; break;
    case FLAG_ARRAY: ++it; break;
    case FLAG_END: break;
    case FLAG_CONTAINER:{ Container const*c=(Container const*)*(++it); It cb=it+1; It ce=MemoryLayout::skipBlock(cb,e); check_block(cb,ce,c->getIndirection(),merge,false,rmtrail,x); it=ce; COVER("container"); break; }
  }
}
// trailing bytes that may be left out must all be padding: by `okpad`; and nothing but the tail is left out
static Type const& symshape(Types&T,int depth);
static unsigned g_leaf;
static Type const& leaf(Types&T){
  if(__sym_param("leaves",3)==6) return sym_choice("leaf",2) ? (Type const&)*T.en(-2,5) : (Type const&)*T.u8();
  switch(__sym_param("leaves",3)==1?1:sym_choice("leaf",__sym_param("leaves",3))){
    case 0: return *T.num("/n",1,Numeric::SInt);
    case 1: { Numeric*n=T.num("/n",1,Numeric::UInt); n->setSize(1+__sym_int("size",(unsigned)__sym_param("bits",3))); return *n; }
    case 2: return *T.opq(3);
    case 3: return *T.ptr(*T.i32());
    default: return *T.en(-2,5);
  }
}
static Type const& symshape(Types&T,int depth,unsigned top){
  unsigned k= top!=9?top:depth>0?sym_choice("kind",5):0;
  switch(k){
    case 1:{ Type const&e=symshape(T,depth-1,9); return *T.arr(e,sym_choice("dim",(unsigned)__sym_param("maxdim",2)+1)); }
    case 2:{ Compound*c=T.comp(); unsigned n=sym_choice("nf",(unsigned)__sym_param("maxfields",2)+1); size_t off=0; static const char*nm[]={"a","b","c","d"};
      unsigned deep= __sym_param("narrow",0)&&depth>1&&n ? sym_choice("deep",n) : n;
      for(unsigned i=0;i<n;i++){ Type const&f=symshape(T,deep==n||deep==i?depth-1:0,9); off+=__sym_int("gap",(unsigned)__sym_param("gbits",2)); c->addField(nm[i],f,off); off+=f.getSize(); }
      c->setSize(off+__sym_int("tail",(unsigned)__sym_param("gbits",2))); return *c; }
    case 3: return *T.str();
    case 4:{ Type const&e=symshape(T,depth-1,9); return *T.vec(e); }
    default: return leaf(T);
  }
}
// field sizes, gaps and trailing padding symbolic
HARNESS(layout){
  Types T; Type const&t=symshape(T,(int)__sym_param("depth",2),(unsigned)__sym_param("top",9));
  bool merge=__sym_param("merge",0), rmt=__sym_param("rmt",1), raw=__sym_param("raw",0);
  uint64_t x=__sym_int("x",(unsigned)__sym_param("xbits",8));
  MemoryLayout l= raw? raw_layout_of(t,true,true) : layout_of(t,true,true,merge,rmt);
  l.validate();
  check_block(l.begin(),l.end(),t,merge&&!raw,true,rmt&&!raw,x);
  COVER("layout"); __sym_observe(l.size());
}
// the accept flags: a type with a pointer / an opaque anywhere has a layout exactly when it is accepted
HARNESS(accept){
  Types T; Gen g(T,K_U8|K_PTR|K_OPQ,K_ARR|K_VEC|K_COMP); g.maxdim=1; g.gaps=false;
  Type const&t=g.gen((int)__sym_param("depth",2));
  bool ap=sym_choice("ptr",2), ao=sym_choice("opq",2); bool p=has_kind(t,Type::Pointer), o=has_kind(t,Type::Opaque);
  bool got; try { layout_of(t,ap,ao); got=true; } catch(NoLayout&){ got=false; }
  CHECK(got==((ap||!p)&&(ao||!o)),"a layout exists exactly when every pointer and opaque in the type is accepted");
  COVER(got?"layout":"nolayout"); __sym_observe(got);
}
// init bytecode: what init() writes, byte by byte (x symbolic), for symbolic sizes
struct InitCls { uint64_t kind,val; };
static It iwalk(It it,It end,uint64_t&pos,uint64_t x,InitCls&c,bool&ok){
  for(;it!=end && *it!=FLAG_INIT_END;++it){
    switch(__sym_concretize(*it)){
      case FLAG_INIT:{ uint64_t n=__sym_concretize(*(++it)); if((uint64_t)(end-it)<=n){ ok=false; return end; } for(uint64_t i=0;i<n;i++){ uint64_t v=*(++it); uint64_t in=(uint64_t)(x==pos+i); c.kind=__sym_ite(in,1,c.kind); c.val=__sym_ite(in,v,c.val); } pos+=n; break; }
      case FLAG_INIT_SKIP: pos+=*(++it); break;
      case FLAG_INIT_REPEAT:{ uint64_t n=__sym_concretize(*(++it)); It b=++it; uint64_t p0=pos; It e=b; bool any=false; for(uint64_t i=0;i<n;i++){ e=iwalk(b,end,pos,x,c,ok); any=true; if(!ok||e==end){ ok=false; return end; } } if(!any){ uint64_t pp=pos; InitCls cc=c; e=iwalk(b,end,pp,~0ull,cc,ok); if(!ok||e==end){ ok=false; return end; } } it=e; (void)p0; break; }
      case FLAG_INIT_CONTAINER:{ Container const*t=(Container const*)*(++it); uint64_t in=(uint64_t)(x==pos); c.kind=__sym_ite(in,2,c.kind); c.val=__sym_ite(in,(uint64_t)t,c.val); pos+=t->getSize(); break; }
      default: ok=false; return end;
    }
  }
  return it;
}
static void iref(Type const&t,uint64_t pos,uint64_t x,InitCls&c){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(uint64_t i=0;i<dim(t);i++) iref(e,pos+i*e.getSize(),x,c); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) iref(i->getType(),pos+i->getOffset(),x,c); break; }
    case Type::Container:{ uint64_t in=(uint64_t)(x==pos); c.kind=__sym_ite(in,2,c.kind); c.val=__sym_ite(in,(uint64_t)&t,c.val); break; }
    case Type::Enum:{ Enum const&e=static_cast<Enum const&>(t); if(e.values().empty()) break; int v=e.get(*e.names().begin()); for(uint64_t i=0;i<t.getSize();i++){ uint64_t in=(uint64_t)(x==pos+i); c.kind=__sym_ite(in,1,c.kind); c.val=__sym_ite(in,(uint8_t)(v>>(8*i)),c.val); } break; }
    default: break;
  }
}
HARNESS(initlayout){
  Types T; Type const&t=symshape(T,(int)__sym_param("depth",2),(unsigned)__sym_param("top",9));
  uint64_t x=__sym_int("x",(unsigned)__sym_param("xbits",8)); bool raw=__sym_param("raw",0);
  MemoryLayout l= raw? raw_layout_of(t,true,true): layout_of(t,true,true); l.validate();
  InitCls a={0,0},r={0,0}; uint64_t pos=0; bool ok=true; It e=iwalk(l.init_begin(),l.init_end(),pos,x,a,ok);
  CHECK(ok && e==l.init_end(),"the init bytecode is well formed"); if(!ok) return;
  iref(t,0,x,r);
  CHECK((a.kind==r.kind)&((r.kind==0)|(a.val==r.val)),"init writes exactly the enum defaults and the containers");
  CHECK(pos<=t.getSize(),"the init bytecode stays within the value");
  COVER("init"); __sym_observe(l.init_size());
}
