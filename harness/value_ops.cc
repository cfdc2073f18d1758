#include "common.h"
// V05: init / zero / destroy / copy / compare on typed values
static unsigned leaves(){ return (unsigned)__sym_param("leaf",K_U8|K_I32|K_ENUM|K_STR); }
static Type const& shape(Types&T){ Gen g(T,leaves(),(unsigned)__sym_param("inner",K_ARR|K_VEC|K_COMP)); g.maxdim=(unsigned)__sym_param("maxdim",2); g.maxfields=(unsigned)__sym_param("maxfields",2); return g.gen((int)__sym_param("depth",2),(unsigned)__sym_param("top",0)); }
static unsigned maxcount(){ return (unsigned)__sym_param("maxcount",2); }
// expected state after init: enums hold the value of their first symbol, containers are empty, all the rest is untouched
static void check_init(Type const&t,uint8_t const*p,uint8_t const*before){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) check_init(e,p+i*e.getSize(),before+i*e.getSize()); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) check_init(i->getType(),p+i->getOffset(),before+i->getOffset()); break; }
    case Type::Container: if(is_str(t)) CHECK(((std::string const*)p)->empty(),"init constructs empty containers"); else CHECK(((Raw const*)p)->empty(),"init constructs empty containers"); break;
    case Type::Enum:{ Enum const&e=static_cast<Enum const&>(t); int v=e.get(*e.names().begin()); int got; memcpy(&got,p,4); CHECK(got==v,"init sets enums to a valid value"); break; }
    default:{ uint8_t d=0; for(size_t i=0;i<t.getSize();i++) d|=p[i]^before[i]; CHECK(d==0,"init leaves plain data untouched"); }
  }
}
HARNESS(init){
  Types T; Type const&t=shape(T); bool withlay=__sym_param("lay",0);
  uint64_t live0;
  { Buf b(t,false); Bytes before(b.p,b.p+t.getSize()); { MemoryLayout l=layout_of(t); }
    live0=__sym_live();
    if(withlay){ MemoryLayout l=layout_of(t); Typelib::init(b.v(),l); } else Typelib::init(b.v());
    check_init(t,b.p,before.data());
    ref_fill(t,b.p,maxcount()); ref_observe(t,b.p); // initialised values are usable
    if(withlay){ MemoryLayout l=layout_of(t); Typelib::destroy(b.v(),l); } else Typelib::destroy(b.v());
    CHECK(__sym_live()==live0,"destroy releases everything the value owned"); }
  COVER("init");
}
// enumerations start out with the value of one of their symbols, whatever the values and the size
HARNESS(initenum){
  Types T; Enum*e=T.own(new Enum(T.uname("E"))); static const unsigned SZ[]={4,1,2,8}; unsigned es=SZ[sym_choice("size",4)]; int v[3]; unsigned n=1+sym_choice("n",3); static const char*N[]={"B","A","C"};
  for(unsigned i=0;i<n;i++){ uint64_t r=__sym_int("v",32); v[i]= es==1?(int)(int8_t)r : es==2?(int)(int16_t)r : (int)(uint32_t)r; for(unsigned j=0;j<i;j++) if(v[j]==v[i]) __sym_stop(); e->add(N[i],v[i]); } e->setSize(es);
  Type const*t=e; size_t off[2]={0,0}; unsigned k=1; switch(sym_choice("shape",4)){ case 0: break; case 1: t=T.arr(*e,2); k=2; off[1]=es; break; case 2:{ Compound*c=T.comp(); c->addField("a",*T.u8(),0); c->addField("e",*e,8); c->addField("s",*T.str(),16); c->addField("f",*e,48); c->setSize(56); t=c; k=2; off[0]=8; off[1]=48; break; } case 3:{ Compound*c=T.comp(); c->addField("e",*e,0); c->addField("f",*e,es); c->setSize(2*es); t=T.arr(*c,1); k=2; off[1]=es; break; } }
  Buf b(*t,false); memset(b.p,0xa5,t->getSize()); if(sym_choice("lay",2)){ MemoryLayout l=layout_of(*t); Typelib::init(b.v(),l); } else Typelib::init(b.v());
  for(unsigned i=0;i<k;i++){ bool any=false; for(unsigned j=0;j<n;j++){ uint64_t w=(uint64_t)(int64_t)v[j]; uint8_t d=0; for(unsigned x=0;x<es;x++) d|=b.p[off[i]+x]^(uint8_t)(w>>(8*x)); any|= d==0; __sym_observe(d); } CHECK(any,"init sets enums to a valid value"); }
  Typelib::destroy(b.v()); COVER("init"); }
HARNESS(zero){
  Types T; Type const&t=shape(T); Buf b(t); ref_fill(t,b.p,maxcount());
  Typelib::zero(b.v());
  struct Z { static void go(Type const&t,uint8_t const*p){ switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) go(e,p+i*e.getSize()); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) go(i->getType(),p+i->getOffset()); break; }
    case Type::Container: if(is_str(t)) CHECK(((std::string const*)p)->empty(),"zero empties containers"); else CHECK(((Raw const*)p)->empty(),"zero empties containers"); break;
    default:{ uint8_t d=0; for(size_t i=0;i<t.getSize();i++) d|=p[i]; CHECK(d==0,"zero clears all the data"); } } } };
  Z::go(t,b.p);
  COVER("zero"); ref_observe(t,b.p);
}
// copy onto a value that already holds data, then the two are independent
HARNESS(copy){
  Types T; Type const&t=shape(T); unsigned mc=maxcount();
  uint64_t live0=__sym_live();
  { Buf src(t),dst(t); ref_fill(t,src.p,mc,"s"); ref_fill(t,dst.p,mc,"d");
    Bytes before,after,d1; ref_packed(t,src.p,before);
    Typelib::copy(dst.v(),src.v());
    ref_packed(t,src.p,after); ref_packed(t,dst.p,d1);
    CHECK(bytes_equal(before,after),"copy leaves the source as it was");
    CHECK(bytes_equal(before,d1),"the copy holds the same data as the source");
    Typelib::copy(dst.v(),dst.v()); Bytes d2; ref_packed(t,dst.p,d2); CHECK(bytes_equal(d1,d2),"copying a value onto itself changes nothing");
    CHECK(Typelib::compare(dst.v(),src.v()),"a copy compares equal to its source");
    Typelib::zero(src.v()); Bytes d3; ref_packed(t,dst.p,d3); CHECK(bytes_equal(d1,d3),"the copy is independent from its source");
    ref_observe(t,dst.p); }
  CHECK(__sym_live()==live0,"copy does not leak"); COVER("copy");
}
HARNESS(compare){
  Types T; Type const&t=shape(T); unsigned mc=maxcount();
  Buf a(t),b(t); ref_fill(t,a.p,mc,"a"); ref_fill(t,b.p,mc,"b");
  Bytes a0,a1; ref_packed(t,a.p,a0);
  bool got=Typelib::compare(a.v(),b.v()), want=ref_equal(t,a.p,b.p);
  CHECK(got==want,"compare says equal exactly for equal data, whatever the padding");
  CHECK(Typelib::compare(b.v(),a.v())==got,"compare is symmetric");
  ref_packed(t,a.p,a1); CHECK(bytes_equal(a0,a1),"compare does not modify the values");
  COVER(got?"equal":"different"); __sym_observe(got);
}
// large values that differ in at most one byte, anywhere
static void data_bytes(Type const&t,uint8_t*p,std::vector<uint8_t*>&o){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) data_bytes(e,p+i*e.getSize(),o); break; }
    case Type::Compound:{ Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i) data_bytes(i->getType(),p+i->getOffset(),o); break; }
    case Type::Container: if(is_str(t)){ std::string&s=*(std::string*)p; for(size_t i=0;i<s.size();i++) o.push_back((uint8_t*)&s[i]); } else { Raw&r=*(Raw*)p; Type const&e=inner(t); for(size_t i=0;i+e.getSize()<=r.size();i+=e.getSize()) data_bytes(e,r.data()+i,o); } break;
    case Type::Opaque: break;
    default: for(size_t i=0;i<t.getSize();i++) o.push_back(p+i);
  }
}
HARNESS(comparebig){
  Types T; Type const&t=shape(T); g_symbudget=0; Buf a(t),b(t); ref_fill(t,a.p,1000); Typelib::copy(b.v(),a.v()); CHECK(ref_equal(t,a.p,b.p),"copy");
  std::vector<uint8_t*> d; data_bytes(t,b.p,d); if(d.empty()) __sym_stop();
  size_t w[]={0,1%d.size(),d.size()/2,d.size()-1,d.size()>255?256%d.size():d.size()/3}; uint8_t*q=d[w[sym_choice("where",5)]]; uint8_t old=*q; *q=sym_u8("new");
  bool got=Typelib::compare(a.v(),b.v()); CHECK(got==(*q==old),"compare says equal exactly for equal data, wherever the difference is"); CHECK(Typelib::compare(b.v(),a.v())==got,"compare is symmetric");
  COVER(got?"equal":"different"); __sym_observe(got);
}
// V06: container operation histories against std::vector / std::string of element snapshots
struct Model { std::vector<Bytes> e; };
static void snapshot(Container const&c,Type const&et,void*p,std::vector<Bytes>&o){ Raw*r=(Raw*)p; o.clear(); for(size_t i=0;i+et.getSize()<=r->size();i+=et.getSize()){ Bytes b; ref_packed(et,r->data()+i,b); o.push_back(b); } }
static bool same(std::vector<Bytes> const&a,std::vector<Bytes> const&b){ if(a.size()!=b.size()) return false; bool r=true; for(size_t i=0;i<a.size();i++) r&=bytes_equal(a[i],b[i]); return r; }
struct Pred { Type const&et; uint8_t k; std::vector<Bytes>*seen; Pred(Type const&t,uint8_t k,std::vector<Bytes>*s):et(t),k(k),seen(s){} 
  static bool drop(Bytes const&b,uint8_t k){ uint8_t s=0; for(size_t i=0;i<b.size();i++) s^=b[i]; return s<k; }
  bool operator()(Value const&v){ Bytes b; ref_packed(et,(uint8_t const*)v.getData(),b); seen->push_back(b); return drop(b,k); } };
struct VisitRec : public ValueVisitor { Type const&et; std::vector<Bytes> seen; VisitRec(Type const&t):et(t){} using ValueVisitor::visit_; void dispatch(Value v){ Bytes b; ref_packed(et,(uint8_t const*)v.getData(),b); seen.push_back(b); } };
static Type const& elem(Types&T,unsigned k){
  switch(k){
    case 0: return *T.u8(); case 1: return *T.i32();
    case 2:{ Compound*c=T.comp(); size_t o=0; add_field(*c,"a",*T.u8(),o); add_field(*c,"b",*T.i32(),o); finish(*c,o); return *c; }
    case 3: return *T.str();
    case 4: return *T.vec(*T.u8());
    case 5:{ Compound*c=T.comp(); size_t o=0; add_field(*c,"a",*T.u8(),o); add_field(*c,"b",*T.str(),o); finish(*c,o); return *c; }
    case 6: return *T.arr(*T.u16(),2);
    case 7: return *T.arr(*T.str(),2);
    case 8: return *T.en(-1,3);
    case 9:{ Compound*c=T.comp(); size_t o=0; add_field(*c,"a",*T.vec(*T.i32()),o); add_field(*c,"b",*T.u8(),o); finish(*c,o); return *c; }
    case 10:{ Compound*c=T.comp(); size_t o=0; add_field(*c,"a",*T.i32(),o); add_field(*c,"b",*T.str(),o); add_field(*c,"c",*T.str(),o); finish(*c,o); return *c; }
    case 11:{ Compound*c=T.comp(); size_t o=0; add_field(*c,"a",*T.arr(*T.str(),2),o); add_field(*c,"b",*T.vec(*T.str()),o); finish(*c,o,1); return *c; }
    case 12: return *T.arr(*T.u8(),300);
    default: return *T.vec(*T.vec(*T.u8()));
  }
}
HARNESS(vector){
  Types T; unsigned ek=(unsigned)__sym_param("elem",99); if(ek==99) ek=sym_choice("elem",10); Type const&et=elem(T,ek); Vector*vt=T.vec(et); unsigned steps=(unsigned)__sym_param("ops",3), mc=(unsigned)__sym_param("mc",1);
  Container const&C=*vt; unsigned start=(unsigned)__sym_param("start",2);
  uint64_t live0=__sym_live();
  { Buf b(*vt,false),o(*vt,false); void*p=b.p,*q=o.p; C.init(p); C.init(q);
    std::vector<Bytes> M,N,S;
    // initial content
    for(unsigned i=0,n=sym_choice("n",start+1);i<n;i++){ Buf v(et); ref_fill(et,v.p,mc,"e"); C.push(p,v.v()); Bytes x; ref_packed(et,v.p,x); M.push_back(x); }
    for(unsigned s=0;s<steps;s++){
      switch(sym_choice("op",(unsigned)__sym_param("own",1)?12:9)){
        case 0:{ Buf v(et); ref_fill(et,v.p,mc,"e"); C.push(p,v.v()); Bytes x; ref_packed(et,v.p,x); M.push_back(x); COVER("push"); break; }
        case 1:{ Buf v(et); ref_fill(et,v.p,mc,"e"); Bytes x; ref_packed(et,v.p,x); bool r=C.erase(p,v.v()); bool f=false; for(size_t i=0;i<M.size();i++) if(bytes_equal(M[i],x)){ M.erase(M.begin()+i); f=true; break; } CHECK(r==f,"erase says whether the element was there"); COVER(f?"erase":"erase-miss"); break; }
        case 2: C.clear(p); M.clear(); COVER("clear"); break;
        case 3:{ if(M.empty()) break; unsigned i=sym_choice("i",(unsigned)M.size()); Buf v(et); ref_fill(et,v.p,mc,"e"); C.setElement(p,i,v.v()); Bytes x; ref_packed(et,v.p,x); M[i]=x; COVER("set"); break; }
        case 4:{ if(M.empty()) break; unsigned i=sym_choice("i",(unsigned)M.size()); Value v=C.getElement(p,i); CHECK(&v.getType()==&et,"elements have the element type"); Bytes x; ref_packed(et,(uint8_t const*)v.getData(),x); CHECK(bytes_equal(x,M[i]),"getElement returns the element at that position"); COVER("get"); break; }
        case 5:{ C.copy(q,p); N=M; snapshot(C,et,q,S); CHECK(same(S,N),"a copied container has the same elements"); COVER("copy"); break; }
        case 6:{ C.copy(p,q); M=N; COVER("copyback"); break; }
        case 7:{ std::vector<Bytes> seen; Pred pr(et,sym_u8("k"),&seen); std::vector<Bytes> R; for(size_t i=0;i<M.size();i++) if(!Pred::drop(M[i],pr.k)) R.push_back(M[i]); C.delete_if(p,pr); CHECK(same(seen,M),"delete_if shows every element once, in order"); M=R; COVER("delete_if"); break; }
        case 9:{ if(M.empty()) break; unsigned i=sym_choice("i",(unsigned)M.size()); C.push(p,C.getElement(p,i)); Bytes x(M[i]); M.push_back(x); COVER("push own"); break; }
        case 10:{ if(M.empty()) break; unsigned i=sym_choice("i",(unsigned)M.size()); unsigned j=sym_choice("j",2)?0:(unsigned)M.size()-1; C.setElement(p,j,C.getElement(p,i)); Bytes x(M[i]); M[j]=x; COVER("set own"); break; }
        case 11:{ if(M.empty()) break; unsigned i=sym_choice("i",(unsigned)M.size()); Bytes x(M[i]); bool r=C.erase(p,C.getElement(p,i)); CHECK(r,"an element of the container is there"); for(size_t k=0;k<M.size();k++) if(bytes_equal(M[k],x)){ M.erase(M.begin()+k); break; } COVER("erase own"); break; }
        case 8:{ bool r=C.compare(p,q); CHECK(r==same(M,N),"containers compare equal exactly when they hold the same elements"); COVER(r?"equal":"different"); break; }
      }
      snapshot(C,et,p,S); CHECK(same(S,M),"the elements are the ones a sequence would hold"); CHECK(C.getElementCount(p)==M.size(),"the element count is the number of elements");
      snapshot(C,et,q,S); CHECK(same(S,N),"operations on a container do not change another");
    }
    VisitRec vr(et); C.visit(p,vr); CHECK(same(vr.seen,M),"visiting a container shows its elements in order");
    for(size_t i=0;i<M.size();i++) for(size_t j=0;j<M[i].size();j++) __sym_observe(M[i][j]);
    C.destroy(p); C.destroy(q); }
  CHECK(__sym_live()==live0,"destroying containers releases everything"); COVER("vector");
}
HARNESS(string){
  Types T; String*st=T.str(); Container const&C=*st; unsigned steps=(unsigned)__sym_param("ops",4);
  uint64_t live0=__sym_live();
  { Buf b(*st,false),o(*st,false); void*p=b.p,*q=o.p; C.init(p); C.init(q); std::string M,N; uint64_t pre=sym_choice("pre",3); for(unsigned i=0;i<pre*14;i++){ Buf v(C.getIndirection()); *v.p=sym_u8("e"); C.push(p,v.v()); M.push_back((char)*v.p); }
    for(unsigned s=0;s<steps;s++) { switch(sym_choice("op",5)){
        case 0:{ Buf v(C.getIndirection()); *v.p=sym_u8("e"); C.push(p,v.v()); M.push_back((char)*v.p); COVER("push"); break; }
        case 1: C.clear(p); M.clear(); COVER("clear"); break;
        case 2: C.copy(q,p); N=M; COVER("copy"); break;
        case 3: C.copy(p,q); M=N; COVER("copyback"); break;
        case 4:{ bool r=C.compare(p,q); bool w= M.size()==N.size(); if(w){ uint8_t d=0; for(size_t i=0;i<M.size();i++) d|=M[i]^N[i]; w=d==0; } CHECK(r==w,"strings compare equal exactly when they hold the same characters"); COVER(r?"equal":"different"); break; }
      }
      std::string&P=*(std::string*)p,&Q=*(std::string*)q; bool ok=P.size()==M.size()&&Q.size()==N.size(); CHECK(ok,"the length is the number of characters"); if(ok){ uint8_t d=0; for(size_t i=0;i<M.size();i++) d|=P[i]^M[i]; for(size_t i=0;i<N.size();i++) d|=Q[i]^N[i]; CHECK(d==0,"the characters are the ones pushed"); }
      CHECK(C.getElementCount(p)==M.size(),"the element count is the number of characters"); }
    struct V : public ValueVisitor { std::string s; void dispatch(Value v){ s.push_back(*(char*)v.getData()); } } vr; C.visit(p,vr); CHECK(vr.s.size()==M.size(),"visiting a string shows every character"); uint8_t d=0; for(size_t i=0;i<M.size();i++) d|=vr.s[i]^M[i]; CHECK(d==0,"visiting a string shows its characters in order");
    C.destroy(p); C.destroy(q); }
  CHECK(__sym_live()==live0,"destroying strings releases everything"); COVER("string");
}
// a value of a type other than the element type is refused and changes nothing; one of an equal type is taken
HARNESS(mismatch){
  Types T; unsigned ek=(unsigned)__sym_param("elem",99); if(ek==99) ek=sym_choice("elem",10); Type const&et=elem(T,ek); Container const&C=*T.vec(et); unsigned vk=sym_choice("value",14); Type const*vt; switch(vk){ case 10: vt=T.i8(); break; case 11: vt=T.num("/f",4,Numeric::Float); break; case 12: vt=T.vec(et); break; case 13: vt=T.arr(et,1); break; default: vt= vk==ek?&et:&elem(T,vk); } bool same_=vk==ek;
  uint64_t live0=__sym_live(); { Buf b(C,false); void*p=b.p; C.init(p); std::vector<Bytes> M,S; for(unsigned i=0,n=sym_choice("n",3);i<n;i++){ Buf v(et); ref_fill(et,v.p,1,"e"); C.push(p,v.v()); Bytes x; ref_packed(et,v.p,x); M.push_back(x); }
    { Buf v(*vt); ref_fill(*vt,v.p,1,"w"); bool ok=false; if(sym_choice("op",2)){ try { C.push(p,v.v()); ok=true; } catch(std::runtime_error&){} if(ok){ Bytes x; ref_packed(et,v.p,x); M.push_back(x); } } else { try { C.erase(p,v.v()); ok=true; } catch(std::runtime_error&){} if(ok&&same_){ Bytes x; ref_packed(et,v.p,x); for(size_t k=0;k<M.size();k++) if(bytes_equal(M[k],x)){ M.erase(M.begin()+k); break; } } } CHECK(ok==same_,"values of another type are refused"); COVER(ok?"taken":"refused"); }
    snapshot(C,et,p,S); CHECK(same(S,M),"the elements are the ones a sequence would hold"); C.destroy(p); }
  CHECK(__sym_live()==live0,"destroying containers releases everything");
  // strings take characters only
  String*st=T.str(); if(vk==10) vt=&st->getIndirection(); Buf c(*st); Buf v(*vt); ref_fill(*vt,v.p,1,"w"); bool ok=false; try { st->push(c.p,v.v()); ok=true; } catch(std::runtime_error&){} CHECK(ok==(vk==10),"values of another type are refused"); std::string&s=*(std::string*)c.p; CHECK(s.size()==(ok?1u:0u)&&(!ok||(uint8_t)s[0]==*v.p),"the characters are the ones pushed"); }
