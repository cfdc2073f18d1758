// Shared by all harnesses: type-shape generator, independent reference semantics of typed values.
#pragma once
#include "sym.h"
#include <typelib/typemodel.hh>
#include <typelib/registry.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/memory_layout.hh>
#include <lang/csupport/containers.hh>
#include <vector>
#include <string>
#include <list>
#include <map>
#include <set>
#include <stdexcept>
#include <new>
#include <stdlib.h>
#include <string.h>
using namespace Typelib;
typedef std::vector<uint8_t> Bytes;

static inline void observe_str(std::string const& s){ uint64_t h=1469598103934665603ull; for(size_t i=0;i<s.size();i++) h=(h^(uint8_t)s[i])*1099511628211ull; __sym_observe(h); }

// owner of standalone types: destroys in reverse order
struct Types {
  std::vector<Type*> all; unsigned n;
  Types():n(0){}
  ~Types(){ for(size_t i=all.size();i>0;i--) delete all[i-1]; }
  template<class T> T* own(T*t){ all.push_back(t); return t; }
  Numeric* num(const char*name,size_t sz,Numeric::NumericCategory c){ return own(new Numeric(name,sz,c)); }
  Numeric* i8(){return num("/int8_t",1,Numeric::SInt);}  Numeric* u8(){return num("/uint8_t",1,Numeric::UInt);}
  Numeric* i16(){return num("/int16_t",2,Numeric::SInt);} Numeric* u16(){return num("/uint16_t",2,Numeric::UInt);}
  Numeric* i32(){return num("/int32_t",4,Numeric::SInt);} Numeric* u32(){return num("/uint32_t",4,Numeric::UInt);}
  Numeric* i64(){return num("/int64_t",8,Numeric::SInt);} Numeric* u64(){return num("/uint64_t",8,Numeric::UInt);}
  Numeric* f64(){return num("/double",8,Numeric::Float);} Numeric* f32(){return num("/float",4,Numeric::Float);}
  std::string uname(const char*p){ std::string s("/"); s+=p; s+=(char)('A'+n%26); if(n>=26) s+=(char)('0'+n/26); n++; return s; }
  Enum* en(int a,int b){ Enum*e=own(new Enum(uname("E"))); e->add("X",a); e->add("Y",b); return e; }
  Array* arr(Type const&t,size_t d){ return own(new Array(t,d)); }
  Pointer* ptr(Type const&t){ return own(new Pointer(t)); }
  Vector* vec(Type const&t){ return own(new Vector(t)); }
  String* str(){ return own(new String(*i8())); }
  OpaqueType* opq(size_t sz){ return own(new OpaqueType(uname("O"),sz)); }
  Compound* comp(){ return own(new Compound(uname("S"))); }
};
static inline size_t align_of(Type const&t){
  switch(t.getCategory()){
    case Type::Array: return align_of(static_cast<Indirect const&>(t).getIndirection());
    case Type::Container: case Type::Pointer: return 8;
    case Type::Compound:{ size_t a=1; Compound::FieldList const&f=static_cast<Compound const&>(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i){ size_t b=align_of(i->getType()); if(b>a)a=b; } return a; }
    case Type::Opaque: return 1;
    default: return t.getSize()?t.getSize():1;
  }
}
// append a field at its natural offset, plus `gap` extra alignment units
static inline void add_field(Compound&c,const char*name,Type const&t,size_t&off,size_t gap=0){ size_t a=align_of(t); off=(off+a-1)/a*a+gap*a; c.addField(name,t,off); off+=t.getSize(); }
// size including natural trailing padding plus `extra` alignment units
static inline void finish(Compound&c,size_t off,size_t extra=0){ size_t a=align_of(c); off=(off+a-1)/a*a+extra*a; c.setSize(off); }

// symbolic bytes while the budget lasts, then a fixed pattern (large values cannot be symbolic throughout)
static unsigned g_symbudget=480, g_pat;
static void sym_data(void*v,size_t n,const char*nm){ uint8_t*p=(uint8_t*)v; for(size_t i=0;i<n;i++,g_pat++) if(g_symbudget && (n<=64||i<4||i+4>=n)){ g_symbudget--; p[i]=(uint8_t)__sym_int(nm,8); } else p[i]=(uint8_t)(g_pat*37+(g_pat>>8)*11+1); }
enum { K_U8=1,K_I32=2,K_I64=4,K_ENUM=8,K_STR=16,K_ARR=32,K_VEC=64,K_COMP=128,K_PTR=256,K_OPQ=512,K_I16=1024,K_F64=2048 };
struct Gen {
  Types&T; unsigned leaf,inner; unsigned maxdim,maxfields; bool gaps; unsigned dimset,gapset,minfields,narrow;
  // dimset 0: dimensions 0..maxdim, 1: always 2, 2: one of 3,17,300; gapset 0: natural padding only, 1: 0, 1 or 300 extra units before later fields, 2: 0 or about 70000 bytes; narrow: only one field of a structure is not a leaf
  Gen(Types&T,unsigned leaf,unsigned inner):T(T),leaf(leaf),inner(inner),maxdim(2),maxfields(2),gaps(true),dimset((unsigned)__sym_param("dimset",0)),gapset((unsigned)__sym_param("gapset",0)),minfields((unsigned)__sym_param("minfields",1)),narrow((unsigned)__sym_param("narrow",0)){}
  unsigned dim(){ static const unsigned big[]={3,17,300}; return dimset==0?sym_choice("dim",maxdim+1):dimset==1?2:big[sym_choice("dim",3)]; }
  size_t gap(unsigned i,size_t a){ static const size_t g[]={0,1,300}; return !gapset||!i?0:gapset==2?(sym_choice("gap",2)?70000/a+1:0):g[sym_choice("gap",3)]; }
  unsigned pick(unsigned mask,const char*n){ unsigned k[16],c=0; for(unsigned b=0;b<16;b++) if(mask&(1u<<b)) k[c++]=1u<<b; return k[c==1?0:sym_choice(n,c)]; }
  Type const& gen(int depth,unsigned top=0){
    unsigned k=pick(top?top:depth>0?(leaf|inner):leaf,"kind");
    switch(k){
      case K_U8: return *T.u8(); case K_I16: return *T.i16(); case K_I32: return *T.i32(); case K_I64: return *T.i64(); case K_F64: return *T.f64();
      case K_ENUM: return *T.en(-2,5);
      case K_STR: return *T.str(); case K_OPQ: return *T.opq(3);
      case K_PTR: return *T.ptr(*T.i32());
      case K_ARR:{ Type const&e=gen(depth-1); unsigned d= dimset==2&&e.getSize()>64 ? 1+sym_choice("dim",2) : dim(); return *T.arr(e,d); }
      case K_VEC:{ Type const&e=gen(depth-1); if(e.getSize()==0) __sym_stop(); return *T.vec(e); }
      case K_COMP:{ Compound*c=T.comp(); size_t off=0; unsigned n=minfields>=maxfields?maxfields:minfields+sym_choice("nf",maxfields-minfields+1); static const char*nm[]={"a","b","c","d"};
        unsigned deep= narrow&&depth>1 ? sym_choice("deep",n) : n;
        for(unsigned i=0;i<n;i++){ Type const&f=gen(deep==n||deep==i?depth-1:0); add_field(*c,nm[i],f,off,gap(i,align_of(f))); }
        finish(*c,off,gaps?sym_choice("tail",2):0); return *c; }
    }
    return *T.u8();
  }
};

// ---- reference semantics -------------------------------------------------------------------------------------------
static inline Compound const& asC(Type const&t){ return static_cast<Compound const&>(t); }
static inline Type const& inner(Type const&t){ return static_cast<Indirect const&>(t).getIndirection(); }
static inline size_t dim(Type const&t){ return static_cast<Array const&>(t).getDimension(); }
static inline bool is_str(Type const&t){ return t.getName()=="/std/string"; }
typedef std::vector<uint8_t> Raw;
static void ref_construct(Type const&t,uint8_t*p){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_construct(e,p+i*e.getSize()); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_construct(i->getType(),p+i->getOffset()); break; }
    case Type::Container: if(is_str(t)) new(p) std::string(); else new(p) Raw(); break;
    default: break;
  }
}
static void ref_destroy(Type const&t,uint8_t*p){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_destroy(e,p+i*e.getSize()); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_destroy(i->getType(),p+i->getOffset()); break; }
    case Type::Container: if(is_str(t)) ((std::string*)p)->~basic_string(); else { Raw*r=(Raw*)p; Type const&e=inner(t); for(size_t i=0;i+e.getSize()<=r->size();i+=e.getSize()) ref_destroy(e,r->data()+i); r->~Raw(); } break;
    default: break;
  }
}
// element counts: 0..maxcount, or one of 1,17,300 for the first container and 1 for the others when maxcount is 1000
static bool g_firstcount;
static unsigned pick_count(unsigned maxcount){ static const unsigned big[]={1,17,300}; if(maxcount!=1000) return sym_choice("count",maxcount+1); if(!g_firstcount) return 1; g_firstcount=false; return big[sym_choice("count",3)]; }
static void ref_fill_(Type const&t,uint8_t*p,unsigned maxcount,const char*nm);
static void ref_fill(Type const&t,uint8_t*p,unsigned maxcount,const char*nm="v"){ g_firstcount=true; g_pat=0; ref_fill_(t,p,maxcount,nm); }
static void ref_fill_(Type const&t,uint8_t*p,unsigned maxcount,const char*nm){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_fill_(e,p+i*e.getSize(),maxcount,nm); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_fill_(i->getType(),p+i->getOffset(),maxcount,nm); break; }
    case Type::Container:{ unsigned n=pick_count(maxcount);
      if(is_str(t)){ std::string*s=(std::string*)p; s->clear(); for(unsigned i=0;i<n;i++) { uint8_t c; sym_data(&c,1,nm); s->push_back((char)c); } }
      else { Raw*r=(Raw*)p; Type const&e=inner(t); size_t es=e.getSize(); r->assign(n*es,0); for(unsigned i=0;i<n;i++){ sym_data(r->data()+i*es,es,"pad"); ref_construct(e,r->data()+i*es); ref_fill_(e,r->data()+i*es,maxcount,nm); } }
      break; }
    case Type::Opaque: break;
    default: sym_data(p,t.getSize(),nm); break;
  }
}
// data equality (padding and opaques ignored); branch-free over symbolic bytes
static bool ref_equal(Type const&t,uint8_t const*a,uint8_t const*b){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); bool r=true; for(size_t i=0;i<dim(t);i++) r&=ref_equal(e,a+i*e.getSize(),b+i*e.getSize()); return r; }
    case Type::Compound:{ bool r=true; Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) r&=ref_equal(i->getType(),a+i->getOffset(),b+i->getOffset()); return r; }
    case Type::Container:
      if(is_str(t)){ std::string const&x=*(std::string const*)a,&y=*(std::string const*)b; if(x.size()!=y.size()) return false; uint8_t d=0; for(size_t i=0;i<x.size();i++) d|=x[i]^y[i]; return d==0; }
      else { Raw const&x=*(Raw const*)a,&y=*(Raw const*)b; if(x.size()!=y.size()) return false; Type const&e=inner(t); bool r=true; for(size_t i=0;i+e.getSize()<=x.size();i+=e.getSize()) r&=ref_equal(e,x.data()+i,y.data()+i); return r; }
    case Type::Opaque: return true;
    default:{ uint8_t d=0; for(size_t i=0;i<t.getSize();i++) d|=a[i]^b[i]; return d==0; }
  }
}
// observation of a value (used to compare symbolic execution with the native build)
static void ref_observe(Type const&t,uint8_t const*p){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_observe(e,p+i*e.getSize()); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_observe(i->getType(),p+i->getOffset()); break; }
    case Type::Container: if(is_str(t)){ std::string const&x=*(std::string const*)p; __sym_observe(x.size()); for(size_t i=0;i<x.size();i++) __sym_observe((uint8_t)x[i]); } else { Raw const&x=*(Raw const*)p; Type const&e=inner(t); __sym_observe(x.size()); for(size_t i=0;i+e.getSize()<=x.size();i+=e.getSize()) ref_observe(e,x.data()+i); } break;
    case Type::Opaque: break;
    default: for(size_t i=0;i<t.getSize();i++) __sym_observe(p[i]);
  }
}
// packed serialisation of the data bytes: what a dump with a non-merged layout has to produce
static void ref_packed(Type const&t,uint8_t const*p,Bytes&o){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_packed(e,p+i*e.getSize(),o); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_packed(i->getType(),p+i->getOffset(),o); break; }
    case Type::Container:{ uint64_t n; if(is_str(t)) n=((std::string const*)p)->size(); else n=((Raw const*)p)->size()/inner(t).getSize();
      for(int i=0;i<8;i++) o.push_back((uint8_t)(n>>(8*i)));
      if(is_str(t)){ std::string const&x=*(std::string const*)p; for(size_t i=0;i<x.size();i++) o.push_back((uint8_t)x[i]); }
      else { Raw const&x=*(Raw const*)p; Type const&e=inner(t); for(size_t i=0;i+e.getSize()<=x.size();i+=e.getSize()) ref_packed(e,x.data()+i,o); } break; }
    case Type::Opaque: break;
    default: o.insert(o.end(),p,p+t.getSize());
  }
}
static inline bool bytes_equal(Bytes const&a,Bytes const&b){ if(a.size()!=b.size()) return false; uint8_t d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
// typed buffer of exactly getSize() bytes, all initially symbolic ("pad"), constructed by the reference walker
struct Buf {
  Type const&t; uint8_t*p;
  Buf(Type const&t,bool construct=true,bool sympad=true):t(t){ size_t n=t.getSize(); p=(uint8_t*)malloc(n?n:1); if(sympad){ g_pat=0; sym_data(p,n,"pad"); } else memset(p,0x5a,n); if(construct) ref_construct(t,p); constructed=construct; }
  ~Buf(){ if(constructed) ref_destroy(t,p); free(p); }
  bool constructed;
  Value v() const { return Value(p,t); }
  operator Value() const { return v(); }
private: Buf(Buf const&);
};
static bool has_kind(Type const&t,Type::Category c){
  if(t.getCategory()==c) return true;
  switch(t.getCategory()){
    case Type::Array: case Type::Container: return has_kind(inner(t),c);
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) if(has_kind(i->getType(),c)) return true; return false; }
    default: return false;
  }
}
