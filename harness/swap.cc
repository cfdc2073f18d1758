#include "common.h"
#define endian_swap header_endian_swap
#include <typelib/endianness.hh>
#undef endian_swap
namespace Typelib { void endian_swap(Value v); }
// V07: byte order conversion
static void ref_swap(Type const&t,uint8_t const*in,uint8_t*out){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_swap(e,in+i*e.getSize(),out+i*e.getSize()); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_swap(i->getType(),in+i->getOffset(),out+i->getOffset()); break; }
    case Type::Container: if(!is_str(t)){ Raw&x=*(Raw*)in,&y=*(Raw*)out; Type const&e=inner(t); for(size_t i=0;i+e.getSize()<=x.size();i+=e.getSize()) ref_swap(e,x.data()+i,y.data()+i); } break;
    case Type::Opaque: break;
    default:{ size_t n=t.getSize(); uint8_t tmp[16]; for(size_t i=0;i<n;i++) tmp[i]=in[n-1-i]; memcpy(out,tmp,n); }
  }
}
static Type const& shape(Types&T,unsigned inn){ Gen g(T,(unsigned)__sym_param("leaf",K_U8|K_I16|K_I32|K_I64|K_ENUM),inn); g.maxdim=(unsigned)__sym_param("maxdim",2); g.maxfields=(unsigned)__sym_param("maxfields",2); return g.gen((int)__sym_param("depth",2),(unsigned)__sym_param("top",0)); }
static Value val(uint8_t*p,Type const&t){ return Value(p,t); }
HARNESS(compiled){
  Types T; Type const&t=shape(T,K_ARR|K_COMP); size_t n=t.getSize();
  CompileEndianSwapVisitor c; c.apply(t);
  Buf in(t),out(t),ref(t),vis(t),back(t); memcpy(ref.p,in.p,n); memcpy(vis.p,in.p,n); Bytes before(in.p,in.p+n);
  c.swap(in.v(),out.v()); ref_swap(t,in.p,ref.p);
  CHECK(n==0 || memcmp(before.data(),in.p,n)==0,"the input of a swap is left alone");
  CHECK(ref_equal(t,out.p,ref.p),"the compiled swap reverses the bytes of every value");
  endian_swap(vis.v()); CHECK(ref_equal(t,vis.p,ref.p),"the in-place swap reverses the bytes of every value");
  { uint8_t d=0; std::vector<uint8_t> mask(n,0),zero(n,0xff); ref_swap(t,zero.data(),mask.data()); for(size_t i=0;i<n;i++) d|= mask[i]?0:(uint8_t)(vis.p[i]^before[i]); CHECK(d==0,"the in-place swap leaves padding alone"); }
  c.swap(out.v(),back.v()); CHECK(ref_equal(t,back.p,in.p),"swapping twice gives the original value");
  endian_swap(vis.v()); CHECK(ref_equal(t,vis.p,in.p),"swapping in place twice gives the original value");
  COVER("swap"); ref_observe(t,out.p);
}
HARNESS(visitor){ // containers are supported by the in-place swap only
  Types T; Type const&t=shape(T,K_ARR|K_COMP|K_VEC); Buf b(t),r(t); ref_fill(t,b.p,(unsigned)__sym_param("maxcount",2)); 
  Typelib::copy(r.v(),b.v()); Buf o(t); Typelib::copy(o.v(),b.v());
  endian_swap(b.v()); ref_swap(t,o.p,r.p); CHECK(ref_equal(t,b.p,r.p),"the in-place swap reverses the bytes of every value");
  endian_swap(b.v()); CHECK(ref_equal(t,b.p,o.p),"swapping in place twice gives the original value"); COVER("swap"); ref_observe(t,b.p);
}
// a compiled swap of a type that has no well-defined swap is refused, whatever surrounds the culprit
HARNESS(unsupported){
  Types T; Gen g(T,K_U8|K_PTR|K_OPQ|K_STR,K_ARR|K_COMP); g.maxdim=1; Type const&t=g.gen(2);
  struct H { static bool bad(Type const&t){ switch(t.getCategory()){ case Type::Pointer: case Type::Opaque: case Type::Container: return true; case Type::Array: return t.getSize()>0 && bad(inner(t)); case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) if(bad(i->getType())) return true; return false; } default: return false; } } };
  bool threw=false; try { CompileEndianSwapVisitor c; c.apply(t); } catch(UnsupportedEndianSwap&){ threw=true; }
  CHECK(threw==H::bad(t),"a swap is compiled exactly for types whose byte order can be changed"); COVER(threw?"refused":"accepted"); __sym_observe(threw);
}
