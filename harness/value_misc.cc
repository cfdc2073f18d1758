#include "common.h"
#include <limits>
#include <boost/mpl/if.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/static_assert.hpp>
#include <typelib/value_cast.hh>
#include <typelib/csvoutput.hh>
#include <sstream>
// V08: the value visitor shows every leaf once, in order, with its type and contents
struct Seen { int cat; size_t size; void*p; };
struct Rec : public ValueVisitor { std::vector<Seen> s; std::vector<std::string> fields;
  template<class X> bool r(int c,X&v){ Seen x={c,sizeof(X),&v}; s.push_back(x); return true; }
  bool visit_(int8_t&v){return r(0,v);} bool visit_(uint8_t&v){return r(1,v);} bool visit_(int16_t&v){return r(0,v);} bool visit_(uint16_t&v){return r(1,v);} bool visit_(int32_t&v){return r(0,v);} bool visit_(uint32_t&v){return r(1,v);} bool visit_(int64_t&v){return r(0,v);} bool visit_(uint64_t&v){return r(1,v);} bool visit_(float&v){return r(2,v);} bool visit_(double&v){return r(2,v);}
  bool visit_(Enum::integral_type&v,Enum const&){ return r(3,v); }
  bool visit_(Value const&v,OpaqueType const&t){ Seen x={4,t.getSize(),v.getData()}; s.push_back(x); return true; }
  bool visit_(Value const&v,Compound const&c,Field const&f){ CHECK(&v.getType()==&f.getType(),"a field is shown with its own type"); fields.push_back(f.getName()); return ValueVisitor::visit_(v,c,f); }
  using ValueVisitor::visit_; };
static void ref_visit(Type const&t,uint8_t*p,std::vector<Seen>&o,std::vector<std::string>&fl){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_visit(e,p+i*e.getSize(),o,fl); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i){ fl.push_back(i->getName()); ref_visit(i->getType(),p+i->getOffset(),o,fl); } break; }
    case Type::Container: if(is_str(t)){ std::string&x=*(std::string*)p; for(size_t i=0;i<x.size();i++){ Seen s={0,1,&x[i]}; o.push_back(s); } } else { Raw&x=*(Raw*)p; Type const&e=inner(t); for(size_t i=0;i+e.getSize()<=x.size();i+=e.getSize()) ref_visit(e,x.data()+i,o,fl); } break;
    case Type::Pointer: ref_visit(inner(t),*(uint8_t**)p,o,fl); break;
    case Type::Enum:{ Seen s={3,t.getSize(),p}; o.push_back(s); break; }
    case Type::Opaque:{ Seen s={4,t.getSize(),p}; o.push_back(s); break; }
    default:{ Numeric const&n=static_cast<Numeric const&>(t); Seen s={n.getNumericCategory()==Numeric::SInt?0:n.getNumericCategory()==Numeric::UInt?1:2,t.getSize(),p}; o.push_back(s); }
  }
}
static void fill_ptrs(Type const&t,uint8_t*p,uint8_t*to){ switch(t.getCategory()){ case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) fill_ptrs(e,p+i*e.getSize(),to); break; } case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) fill_ptrs(i->getType(),p+i->getOffset(),to); break; } case Type::Container: if(!is_str(t)){ Raw&x=*(Raw*)p; Type const&e=inner(t); for(size_t i=0;i+e.getSize()<=x.size();i+=e.getSize()) fill_ptrs(e,x.data()+i,to); } break; case Type::Pointer: *(uint8_t**)p=to; break; default: break; } }
HARNESS(visit){
  Types T; Gen g(T,(unsigned)__sym_param("leaf",K_U8|K_I16|K_ENUM|K_STR|K_PTR|K_OPQ|K_F64),K_ARR|K_COMP|K_VEC); g.maxdim=(unsigned)__sym_param("maxdim",2); g.maxfields=(unsigned)__sym_param("maxfields",2); Type const&t=g.gen((int)__sym_param("depth",2),(unsigned)__sym_param("top",0));
  Buf b(t,true,!__sym_param("gapset",0)); ref_fill(t,b.p,(unsigned)__sym_param("maxcount",2)); uint32_t target=7; fill_ptrs(t,b.p,(uint8_t*)&target);
  Rec r; r.apply(b.v()); std::vector<Seen> w; std::vector<std::string> fl; ref_visit(t,b.p,w,fl);
  CHECK(r.s.size()==w.size(),"every value is shown exactly once"); if(r.s.size()!=w.size()) return;
  for(size_t i=0;i<w.size();i++){ CHECK(r.s[i].p==w[i].p,"values are shown in order, in place"); CHECK(r.s[i].cat==w[i].cat&&r.s[i].size==w[i].size,"values are shown with their own type"); }
  CHECK(r.fields==fl,"fields are shown in order"); COVER("visit"); __sym_observe(w.size());
}
// value_cast gives the value for the matching C type and refuses any other
template<class X> static void castone(Numeric const&t,uint8_t*p,int cat){
  bool match= t.getSize()==sizeof(X) && (int)t.getNumericCategory()==cat; bool ok=false; X got=X();
  try { got=value_cast<X>(Value(p,t)); ok=true; } catch(BadValueCast&){}
  CHECK(ok==match,"value_cast accepts exactly the matching C type"); if(ok){ CHECK(memcmp(&got,p,sizeof(X))==0,"value_cast returns the value"); COVER("cast"); }
}
HARNESS(cast){
  Types T; size_t sz=1u<<sym_choice("sz",4); Numeric::NumericCategory c=sym_bool("u")?Numeric::UInt:Numeric::SInt; Numeric*n=T.num("/n",sz,c); uint8_t b[8]; sym_bytes(b,8,"v");
  castone<int8_t>(*n,b,Numeric::SInt); castone<uint8_t>(*n,b,Numeric::UInt); castone<int16_t>(*n,b,Numeric::SInt); castone<uint16_t>(*n,b,Numeric::UInt); castone<int32_t>(*n,b,Numeric::SInt); castone<uint32_t>(*n,b,Numeric::UInt); castone<int64_t>(*n,b,Numeric::SInt); castone<uint64_t>(*n,b,Numeric::UInt);
  castone<char>(*n,b,Numeric::SInt); castone<long>(*n,b,Numeric::SInt); castone<unsigned long>(*n,b,Numeric::UInt);
  try { value_cast<double>(Value(b,*n)); CHECK(false,"value_cast does not turn integers into floats"); } catch(BadValueCast&){} 
}
// fields by name
HARNESS(getfield){
  Types T; Gen g(T,K_U8|K_I32|K_STR,K_ARR|K_COMP); g.maxfields=1; Compound*c=T.comp(); size_t off=0; unsigned n=sym_choice("n",4); std::vector<std::string> nm; std::vector<size_t> of; std::vector<Type const*> ty;
  static const char*names[]={"a","ab","b",""};
  for(unsigned i=0;i<n;i++){ Type const&f=g.gen(1); add_field(*c,names[i],f,off,sym_choice("gap",2)); nm.push_back(names[i]); of.push_back(c->getFields().back().getOffset()); ty.push_back(&f); }
  finish(*c,off); Buf b(*c); std::string q; unsigned len=sym_choice("len",3); for(unsigned i=0;i<len;i++) q.push_back((char)sym_u8("q"));
  int want=-1; for(unsigned i=0;i<n;i++) if(nm[i]==q){ want=i; break; }
  try { Value v=value_get_field(b.v(),q); CHECK(want>=0,"only existing fields are found"); if(want>=0){ CHECK(v.getData()==b.p+of[want],"a field value is at the field's offset"); CHECK(&v.getType()==ty[want],"a field value has the field's type"); } COVER("found"); }
  catch(FieldNotFound&e){ CHECK(want<0,"existing fields are found"); COVER("notfound"); }
  Field const*f=c->getField(q); CHECK((f!=0)==(want>=0),"getField finds exactly the existing fields"); if(f&&want>=0) CHECK(f->getOffset()==of[want]&&&f->getType()==ty[want]&&f->getName()==q,"getField returns the field of that name");
  __sym_observe(want+1);
}
// structures with many fields at symbolic offsets: only addresses are looked at, so that the offsets may be anything below 2^40
HARNESS(offsets){
  Types T; Compound*c=T.comp(); unsigned n=1+sym_choice("n",2); std::vector<size_t> of; std::vector<std::string> nm; size_t at=0;
  for(unsigned i=0;i<n;i++){ uint64_t g=sym_range("gap",0,(1ull<<38)-1); at+=g; std::string name(1,(char)('a'+i)); c->addField(name,*T.opq(3),at); of.push_back(at); nm.push_back(name); at+=3; }
  Array*ar=0; uint64_t esz=0; size_t tail=sym_u16("tail"); c->setSize(at+tail); esz=at+tail;
  bool arr=sym_choice("arr",2); if(arr) ar=T.arr(*c,3);
  Compound*o=T.comp(); uint64_t oo=sym_range("oo",0,(1ull<<38)-1); o->addField("x",arr?(Type const&)*ar:(Type const&)*c,oo);
  struct R : public ValueVisitor { std::vector<uint64_t> s; bool visit_(Value const&v,OpaqueType const&){ s.push_back((uint64_t)v.getData()); return true; } using ValueVisitor::visit_; } r;
  uint8_t*base=(uint8_t*)0x10000; r.apply(Value(base,*o));
  unsigned reps=arr?3:1; CHECK(r.s.size()==reps*n,"every value is shown exactly once"); if(r.s.size()!=reps*n) return;
  for(unsigned k=0;k<reps;k++) for(unsigned i=0;i<n;i++) CHECK(r.s[k*n+i]==0x10000+oo+k*esz+of[i],"values are shown in place, whatever the offset");
  for(unsigned i=0;i<n;i++){ Value v=value_get_field(base,*c,nm[i]); CHECK((uint64_t)v.getData()==0x10000+of[i],"a field value is at the field's offset"); }
  COVER("offsets"); __sym_observe(n);
}
// V09: enumerations map symbols and values consistently
HARNESS(enums){
  Types T; int32_t init=(int32_t)sym_u8("init"); bool useinit=sym_bool("useinit"); Enum*ep= useinit? T.own(new Enum("/E",init)) : T.own(new Enum("/E")); Enum&e=*ep; if(!useinit) init=0;
  std::vector<std::pair<std::string,int32_t> > M; int64_t last=(int64_t)init-1; unsigned steps=(unsigned)__sym_param("ops",3); static const char*names[]={"A","B","C"};
  for(unsigned s=0;s<steps;s++){ const char*nm=names[sym_choice("name",3)]; int32_t v; unsigned how=sym_choice("how",2); if(how) v=(int32_t)sym_u32("v"); else { v=e.getNextValue(); CHECK(v==(int32_t)(last+1),"the next value is the one after the last that was added"); }
    int at=-1; for(size_t i=0;i<M.size();i++) if(M[i].first==nm) at=(int)i;
    try { e.add(nm,v); if(at<0){ M.push_back(std::make_pair(std::string(nm),v)); COVER("added"); } else { CHECK(M[at].second==v,"a symbol cannot be given a second value"); COVER("again"); } last=v; }
    catch(Enum::AlreadyExists&){ CHECK(at>=0&&M[at].second!=v,"new symbols are accepted"); COVER("conflict"); } }
  CHECK(e.values().size()==M.size(),"every symbol is kept"); CHECK(e.getNextValue()==(int32_t)(last+1),"the next value is the one after the last that was added");
  for(unsigned i=0;i<3;i++){ int at=-1; for(size_t k=0;k<M.size();k++) if(M[k].first==names[i]) at=(int)k; try { int32_t v=e.get(std::string(names[i])); CHECK(at>=0&&M[at].second==v,"a symbol has the value it was given"); __sym_observe((uint32_t)v); } catch(Enum::SymbolNotFound&){ CHECK(at<0,"known symbols are found"); } }
  int32_t q=(int32_t)sym_u32("q"); bool has=false; for(size_t k=0;k<M.size();k++) has|=M[k].second==q;
  try { std::string s=e.get(q); CHECK(has,"only known values have a symbol"); bool ok=false; for(size_t k=0;k<M.size();k++) if(M[k].first==s&&M[k].second==q) ok=true; CHECK(ok,"the symbol of a value has that value"); } catch(Enum::ValueNotFound&){ CHECK(!has,"known values have a symbol"); }
  std::list<std::string> ns=e.names(); CHECK(ns.size()==M.size(),"names() lists every symbol"); for(size_t k=0;k<M.size();k++){ bool f=false; for(std::list<std::string>::iterator i=ns.begin();i!=ns.end();++i) f|=*i==M[k].first; CHECK(f,"names() lists every symbol"); }
  COVER("enum");
}
// V10: a CSV line has the columns its header announces, with the values of those columns
static std::string num(int64_t v){ bool neg=v<0; uint64_t u=neg?0-(uint64_t)v:(uint64_t)v; std::string s; do { s.insert(s.begin(),(char)('0'+u%10)); u/=10; } while(u); if(neg) s.insert(s.begin(),'-'); return s; }
static void ref_csv(Type const&t,uint8_t const*p,std::string pre,std::string post,std::vector<std::string>&h,std::vector<std::string>&l,bool cn){
  Type::Category cat=t.getCategory(); if(!p&&cat!=Type::Array&&cat!=Type::Compound&&cat!=Type::Pointer){ h.push_back(pre+post); l.push_back("NULL"); return; }   // what a NULL pointer points to
  switch(cat){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_csv(e,p?p+i*e.getSize():0,pre,post+"["+num(i)+"]",h,l,cn); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) ref_csv(i->getType(),p?p+i->getOffset():0,pre,post+"."+i->getName(),h,l,cn); break; }
    case Type::Pointer: ref_csv(inner(t),p?*(uint8_t* const*)p:0,"*("+pre,post+")",h,l,cn); break;
    case Type::Opaque: h.push_back(pre+post); l.push_back("<"+t.getName()+">"); break;
    case Type::Enum:{ int32_t v; memcpy(&v,p,4); h.push_back(pre+post); Enum const&e=static_cast<Enum const&>(t); bool f=false; for(Enum::ValueMap::const_iterator i=e.values().begin();i!=e.values().end()&&!f;++i) if(i->second==v){ l.push_back(i->first); f=true; } if(!f) l.push_back(num(v)); break; }
    default:{ Numeric const&n=static_cast<Numeric const&>(t); h.push_back(pre+post); if(n.getNumericCategory()==Numeric::Float){ double d; if(t.getSize()==4){ float f; memcpy(&f,p,4); d=f; } else memcpy(&d,p,8); l.push_back(std::string("\1")+std::string((char const*)&d,8)); break; } bool sg=n.getNumericCategory()==Numeric::SInt; int64_t v=0; switch(t.getSize()){ case 1: v=sg?(int64_t)*(int8_t const*)p:*p; break; case 2:{ int16_t x; memcpy(&x,p,2); v=sg?x:(uint16_t)x; break; } case 4:{ int32_t x; memcpy(&x,p,4); v=sg?(int64_t)x:(int64_t)(uint32_t)x; break; } }
      if(t.getSize()==1&&!cn) l.push_back(std::string(1,(char)*p)); else l.push_back(num(v)); }
  }
}
static std::string joinv(std::vector<std::string> const&v,std::string const&sep){ std::string s; for(size_t i=0;i<v.size();i++){ if(i) s+=sep; s+=v[i]; } return s; }
static bool str_equal(std::string const&a,std::string const&b){ if(a.size()!=b.size()) return false; uint8_t d=0; for(size_t i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
// a line against its columns; a floating point column has to read back as the same number
static bool line_ok(std::string const&s,std::vector<std::string> const&l,std::string const&sep){
  bool fl=false; for(size_t i=0;i<l.size();i++) fl|= l[i].size()==9 && l[i][0]==1; if(!fl) return str_equal(s,joinv(l,sep));
  size_t at=0; for(size_t i=0;i<l.size();i++){ if(i){ if(s.compare(at,sep.size(),sep)!=0) return false; at+=sep.size(); }
    if(l[i].size()==9&&l[i][0]==1){ size_t e=s.find(sep,at); if(e==std::string::npos) e=s.size(); std::string w=s.substr(at,e-at); char*end=0; double d=strtod(w.c_str(),&end); if(w.empty()||*end||memcmp(&d,l[i].data()+1,8)!=0) return false; at=e; }
    else { if(s.compare(at,l[i].size(),l[i])!=0) return false; at+=l[i].size(); } }
  return at==s.size();
}
static void fill_leaves(Type const&t,uint8_t*p,unsigned&k){ switch(t.getCategory()){ case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) fill_leaves(e,p+i*e.getSize(),k); break; } case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) fill_leaves(i->getType(),p+i->getOffset(),k); break; }
  case Type::Enum:{ static const int32_t v[]={5,-2,0,5,77,-2}; int32_t x=v[k++%6]; memcpy(p,&x,4); break; }
  default: if(t.getCategory()==Type::Numeric && static_cast<Numeric const&>(t).getNumericCategory()==Numeric::Float && t.getSize()==8){ static const double v[]={0,-1.5,123456.75,1e9,2.5e-7,3.0000000001,1.0/3}; memcpy(p,&v[k++%7],8); break; } for(size_t i=0;i<t.getSize();i++) p[i]=(uint8_t)(33+k*37+i*11); k++; } }
// pointers that are NULL or lead to further values
static void fill_null(Type const&t,uint8_t*p,unsigned&k){ switch(t.getCategory()){ case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) fill_null(e,p+i*e.getSize(),k); break; } case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) fill_null(i->getType(),p+i->getOffset(),k); break; }
  case Type::Pointer:{ uint8_t*q=0; if(sym_choice("null",2)){ Type const&e=inner(t); q=(uint8_t*)malloc(e.getSize()+1); memset(q,0,e.getSize()+1); fill_leaves(e,q,k); fill_null(e,q,k); } memcpy(p,&q,sizeof q); break; } default: break; } }
HARNESS(csv){
  Types T; Gen g(T,(unsigned)__sym_param("leaf",K_U8|K_ENUM|K_PTR|K_OPQ),(unsigned)__sym_param("inner",K_ARR|K_COMP)); g.maxdim=(unsigned)__sym_param("maxdim",2); g.gaps=false; Type const&gt=g.gen((int)__sym_param("depth",2),(unsigned)__sym_param("top",0)); Type const&t=__sym_param("wrap",0)?*T.ptr(gt):gt; bool cn=__sym_param("num",1);
  bool full=__sym_param("full",0); Buf b(t,true,full); int32_t target; unsigned seed=0; if(full) target=(int32_t)sym_u8("tgt"); else { seed=sym_choice("seed",5); target=(int32_t)(seed*1000003u-2000003u); }
  if(!full){ unsigned k=seed*7; fill_leaves(t,b.p,k); }
  if(__sym_param("null",0)){ unsigned k=seed; fill_null(t,b.p,k); } else fill_ptrs(t,b.p,(uint8_t*)&target);
  std::vector<std::string> h,l; ref_csv(t,b.p,"v","",h,l,cn);
  // pointers wrap the whole name: *(v.f)
  std::ostringstream ho,lo; ho<<csv_header(t,"v",", "); lo<<csv(t,b.p,", ",cn);
  CHECK(ho.str()==joinv(h,", "),"the header names every column");
  CHECK(line_ok(lo.str(),l,", "),"a line holds the value of every column, in header order");
  COVER("csv"); observe_str(lo.str());
}
