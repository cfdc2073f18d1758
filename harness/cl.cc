// The clang importer (tools/typelib-clang-tlb-importer) on a stand-in for clang's AST (rt/clang). Layouts, values and names are given by
// the stand-in, so the oracle is what the declarations say.
#include "common.h"
#include <clang/AST/ASTContext.h>
#include "TypelibBuilder.hpp"
#include "NamingConversions.hpp"
#include <typelib/registryiterator.hh>
#include <algorithm>
using namespace clang;
typedef clang::Type CT; typedef Typelib::Type TT;
// what a C++ type must become
struct X { enum K { NO, NUM, ENUM, COMP, ARR, CONT } k; uint64_t size; int cat; std::vector<std::pair<std::string,std::pair<X*,uint64_t> > > f; X*e; uint64_t n; std::vector<std::pair<std::string,int64_t> > v; std::string kind; bool any; X(K k):k(k),size(0),cat(0),e(0),n(0),any(false){} };
struct D { QualType q; X*x; D(){} D(QualType q,X*x):q(q),x(x){} };
struct World {
  ASTContext cx; std::vector<X*> xs; std::map<std::string,X*> names; FileOf file; SourceLocation loc; unsigned line; std::map<unsigned,D> bt; X*str;
  World():line(1),str(0){ file.dir="/sym/include"; file.name="h.hh"; FileEntry e; e.d.n=file.dir; e.n=file.dir+"/"+file.name; cx.sm.files[&file]=e; cx.sm.mainf=&file; cx.spaced=__sym_param("spaced",0); Container::registerContainer("/std/vector",Vector::factory); Container::registerContainer("/std/string",String::factory); }
  ~World(){ for(size_t i=0;i<xs.size();i++) delete xs[i]; }
  X*mk(X::K k){ X*x=new X(k); xs.push_back(x); return x; } X*no(){ return mk(X::NO); } void def(std::string const&n,X*x){ if(x->k!=X::NO) names[n]=x; }
  static std::string tl(std::string s){ size_t i; while((i=s.find("::"))!=std::string::npos) s.replace(i,2,"/"); return "/"+s; }
  // every builtin type clang knows on this machine: {name, size, category or -1}
  D bi(unsigned i){ if(bt.count(i)) return bt[i]; typedef BuiltinType B; struct T { B::Kind k; const char*n; unsigned sz; int cat; }; static const T t[]={{B::Int,"int",4,0},{B::Double,"double",8,2},{B::Char_S,"char",1,0},{B::SChar,"signed char",1,0},{B::UChar,"unsigned char",1,1},{B::Short,"short",2,0},{B::UShort,"unsigned short",2,1},{B::UInt,"unsigned int",4,1},{B::Long,"long",8,0},{B::ULong,"unsigned long",8,1},{B::LongLong,"long long",8,0},{B::ULongLong,"unsigned long long",8,1},{B::Float,"float",4,2},{B::LongDouble,"long double",16,2},{B::Bool,"_Bool",1,1},{B::Char16,"char16_t",2,1},{B::WChar_S,"wchar_t",4,0},{B::Void,"void",0,-1},{B::NullPtr,"nullptr_t",8,-1}};
    T const&b=t[i]; BuiltinType*q=cx.mk(new BuiltinType(&cx,b.k,b.n)); cx.bits[q]=b.sz*8; X*x=mk(b.cat<0?X::NO:X::NUM); x->size=b.sz; x->cat=b.cat; def(std::string("/")+b.n,x); if(b.cat==0||b.cat==1) def(std::string(b.cat?"/uint":"/int")+(b.sz==1?"8":b.sz==2?"16":b.sz==4?"32":"64")+"_t",x); return bt[i]=D(QualType(q,0),x); }
  enum { NBI=19 };
  D arr(D e,uint64_t n){ X*x=mk(e.x->k==X::NO||e.x->k==X::ARR?X::NO:X::ARR); x->e=e.x; x->n=n; x->size=n*e.x->size; x->any=e.x->any; return D(cx.getConstantArray(e.q,n),x); }
  D ptr(D e){ return D(QualType(cx.mk(new PointerType(&cx,e.q)),0),no()); } D ref(D e,bool r){ return D(QualType(cx.mk(new ReferenceType(&cx,e.q,r)),0),no()); } D fun(D r){ return D(QualType(cx.mk(new FunctionProtoType(&cx,r.q)),0),no()); }
  NamespaceDecl*ns(NamedDecl*p,const char*n){ return cx.mkd(new NamespaceDecl(&cx,p,n)); } void at(Decl*d){ d->loc=SourceLocation(&file,++line); }
  TypedefDecl*td(NamedDecl*p,const char*n,D u,std::string const&tln){ TypedefDecl*t=cx.mkd(new TypedefDecl(&cx,p,n,u.q)); at(t); def(tln,u.x); return t; } D use(TypedefDecl*t,X*x){ return D(cx.getTypedefType(t),x); }
  EnumDecl*en(NamedDecl*p,const char*n,D integer){ EnumDecl*e=cx.mkd(new EnumDecl(&cx,p,n)); at(e); e->integer=integer.q; e->type=cx.mk(new EnumType(&cx,e)); cx.bits[e->type]=cx.getTypeSize(integer.q); return e; }
  void val(EnumDecl*e,const char*n,uint64_t v){ e->vals.push_back(cx.mkd(new EnumConstantDecl(&cx,e,n,llvm::APSInt(64,v)))); }
  CXXRecordDecl*rec(NamedDecl*p,const char*n,const char*tag="struct"){ CXXRecordDecl*r=cx.mkd(new CXXRecordDecl(&cx,p,n,tag)); at(r); r->def=r; r->type=cx.mk(new RecordType(&cx,r)); cx.lay[r]=ASTRecordLayout(); cx.lay[r].size=0; return r; }
  ClassTemplateSpecializationDecl*spec(NamedDecl*p,const char*n){ ClassTemplateSpecializationDecl*r=cx.mkd(new ClassTemplateSpecializationDecl(&cx,p,n,"class")); at(r); r->def=r; r->type=cx.mk(new RecordType(&cx,r)); cx.lay[r]=ASTRecordLayout(); cx.lay[r].size=0; return r; }
  FieldDecl*fld(RecordDecl*r,const char*n,D t,uint64_t bits,AccessSpecifier a=AS_public){ FieldDecl*f=cx.mkd(new FieldDecl(&cx,r,n,t.q,(unsigned)r->flds.size())); at(f); f->access=a; r->flds.push_back(f); cx.lay[static_cast<CXXRecordDecl*>(r)].offs.push_back(bits); return f; }
  void base(CXXRecordDecl*r,CXXRecordDecl*b,AccessSpecifier a,bool v,uint64_t off){ CXXBaseSpecifier s; s.t=QualType(b->type,0); s.a=a; s.v=v; r->bs.push_back(s); cx.lay[r].base[b]=off; }
  // std::vector<T,std::allocator<T> > and std::basic_string<char,...>
  NamespaceDecl*m_std=0; NamespaceDecl*std_(){ if(!m_std) m_std=ns(0,"std"); return m_std; }
  D vec(D e){ ClassTemplateSpecializationDecl*a=spec(std_(),"allocator"); a->args.a.push_back(e.q.getCanonicalType()); ClassTemplateSpecializationDecl*v=spec(std_(),"vector"); v->args.a.push_back(e.q.getCanonicalType()); v->args.a.push_back(QualType(a->type,0)); cx.lay[v].size=24; X*x=mk(e.x->k==X::NO?X::NO:X::CONT); x->e=e.x; x->size=sizeof(std::vector<int>); x->kind="/std/vector"; x->any=e.x->any; return D(QualType(v->type,0),x); }
  D string(D ch,bool cxx11){ NamedDecl*n=std_(); if(cxx11){ n=ns(n,"__cxx11"); n->inl=true; } ClassTemplateSpecializationDecl*t=spec(std_(),"char_traits"); t->args.a.push_back(ch.q); ClassTemplateSpecializationDecl*a=spec(std_(),"allocator"); a->args.a.push_back(ch.q); ClassTemplateSpecializationDecl*s=spec(n,"basic_string"); s->args.a.push_back(ch.q); s->args.a.push_back(QualType(t->type,0)); s->args.a.push_back(QualType(a->type,0)); cx.lay[s].size=32; bool c=ch.x==bi(2).x; X*x=mk(c?X::CONT:X::NO); x->e=ch.x; x->size=sizeof(std::string); x->kind="/std/string"; def("/std/string",x); return D(QualType(s->type,0),x); }
  // checks
  void same(TT const&t,X*x){ switch(x->k){
    case X::NO: CHECK(false,"unsupported declarations are not imported"); return;
    case X::NUM: CHECK(t.getCategory()==TT::Numeric&&t.getSize()==x->size&&(int)static_cast<Numeric const&>(t).getNumericCategory()==(x->cat==2?(int)Numeric::Float:x->cat?(int)Numeric::UInt:(int)Numeric::SInt),"numbers have the size and kind of the C++ type"); return;
    case X::ENUM:{ CHECK(t.getCategory()==TT::Enum&&t.getSize()==x->size,"enumerations have the size of the C++ type"); Enum const&e=static_cast<Enum const&>(t); Enum::ValueMap const&m=e.values(); CHECK(m.size()==x->v.size(),"enumerations have the symbols of the C++ type"); for(size_t i=0;i<x->v.size();i++){ Enum::ValueMap::const_iterator it=m.find(x->v[i].first); CHECK(it!=m.end(),"enumerations have the symbols of the C++ type"); CHECK((int32_t)it->second==(int32_t)x->v[i].second,"enumeration symbols have the values of the C++ type"); } return; }
    case X::ARR: CHECK(t.getCategory()==TT::Array&&static_cast<Array const&>(t).getDimension()==x->n,"arrays have the length of the C++ type"); same(static_cast<Indirect const&>(t).getIndirection(),x->e); return;
    case X::CONT: CHECK(t.getCategory()==TT::Container&&static_cast<Container const&>(t).kind()==x->kind&&t.getSize()==x->size,"containers are imported as the container they are"); same(static_cast<Indirect const&>(t).getIndirection(),x->e); return;
    case X::COMP:{ CHECK(t.getCategory()==TT::Compound,"records are imported as compounds"); CHECK(t.getSize()==x->size,"records have the size the compiler gives them"); Compound const&c=static_cast<Compound const&>(t); CHECK(c.getFields().size()==x->f.size(),"records have every member"); std::set<std::string> seen; for(Compound::FieldList::const_iterator i=c.getFields().begin();i!=c.getFields().end();++i){ CHECK(seen.insert(i->getName()).second,"members have different names"); bool ok=false; for(size_t k=0;k<x->f.size();k++) if(x->f[k].first==i->getName()){ ok=true; CHECK(i->getOffset()==x->f[k].second.second,"members are where the compiler puts them"); same(i->getType(),x->f[k].second.first); } CHECK(ok,"records have only their own members"); } return; } } }
  X*find(std::string n){ std::map<std::string,X*>::const_iterator known=names.find(n); if(known!=names.end()) return known->second; if(n.compare(0,7,"/const ")==0) return find("/"+n.substr(7)); if(n.compare(0,10,"/volatile ")==0) return find("/"+n.substr(10)); if(n.size()&&n[n.size()-1]==']'){ size_t i=n.rfind('['); X*e=find(n.substr(0,i)); if(!e) return 0; X*x=mk(X::ARR); x->e=e; x->n=0; for(size_t k=i+1;k+1<n.size();k++) x->n=x->n*10+(n[k]-'0'); return x; } return 0; }
  void all(Registry const&r){ for(RegistryIterator it=r.begin();it!=r.end();++it){ std::string n=it.getName(); if(n.find("std/")!=std::string::npos){ TT const*e=&*it; while(e->getCategory()==TT::Array) e=&static_cast<Indirect const*>(e)->getIndirection(); if(e->getCategory()==TT::Container) continue; CHECK(false,"the parts of containers are not imported"); } X*x=find(n); CHECK(x,"only declared names are imported"); same(*it,x); } }
  void is(Registry const&r,TT const*t,std::string const&n,X*x){ if(x->any) return; TT const*g=r.get(n); if(x->k==X::NO){ CHECK(!t&&!g,"unsupported declarations are not imported"); COVER("unsupported"); } else { CHECK(t,"supported declarations are imported"); CHECK(g==t,"declarations are found under their name"); same(*t,x); COVER("imported"); } } };
#define GUARD(x) try { x; } catch(std::exception&e){ CHECK(false,"the import does not fail"); }
static AccessSpecifier acc(){ static const AccessSpecifier a[]={AS_public,AS_protected,AS_private}; return a[sym_choice("access",3)]; }
// a field type of every kind; tier 0: the leaves
static D anytype(World&w,unsigned nk,unsigned at=0){ std::string sfx; if(at) sfx+=(char)('0'+at); switch(sym_choice("kind",nk)){
  case 0: { unsigned b=sym_choice("builtin",__sym_param("few",0)?3u:(unsigned)World::NBI); return w.bi(b); }
  case 1: return w.ptr(w.bi(0));
  case 2: { bool r=sym_choice("rvalue",2); return w.ref(w.bi(0),r); }
  case 3: { static const uint64_t n[]={1,13,300,70000,3000000000ull}; return w.arr(w.bi(2),n[sym_choice("n",5)]); }
  case 4: return w.arr(w.arr(w.bi(0),2),3);
  case 5: return w.arr(w.ptr(w.bi(0)),2);
  case 6: { unsigned s=sym_choice("enumsize",4); static const unsigned b[]={0,4,6,8}; EnumDecl*e=w.en(0,("EN"+sfx).c_str(),w.bi(b[s])); e->access=acc(); w.val(e,"V",7); X*x=w.mk(s==0&&e->access!=AS_private?X::ENUM:X::NO); if(e->access==AS_protected) x->any=true; x->size=4; x->v.push_back(std::make_pair(std::string("V"),7)); w.def("/EN"+sfx,x); return D(QualType(e->type,0),x); }
  case 7: { std::string nm="IN"+sfx; unsigned how=sym_choice("inner",6); CXXRecordDecl*r=w.rec(how==1?w.ns(0,""):0,how==5?("I"+sfx).c_str():nm.c_str()); if(how!=2) w.fld(r,"z",w.bi(0),0,how==3?AS_private:AS_public); w.cx.lay[r].size=4; r->poly=how==4; X*x=w.mk(how==0||how==5?X::COMP:X::NO); x->size=4; x->f.push_back(std::make_pair(std::string("z"),std::make_pair(w.bi(0).x,(uint64_t)0))); w.def(how==5?"/I"+sfx:"/"+nm,x); return D(QualType(r->type,0),x); }
  case 8: { D u=w.bi(0); if(sym_choice("tdptr",2)) u=w.ptr(u); TypedefDecl*t=w.cx.mkd(new TypedefDecl(&w.cx,0,"TD",u.q)); return w.use(t,u.x); }
  case 9: return w.vec(w.bi(0));
  case 10: { unsigned c=sym_choice("char",2); bool n=sym_choice("abi",2); return w.string(w.bi(c?16:2),n); }
  case 11: return w.vec(w.ptr(w.bi(0)));
  case 12: return w.ptr(w.fun(w.bi(0)));
  case 13: { ClassTemplateSpecializationDecl*s=w.spec(w.ns(0,"n"),"QQ"); s->args.a.push_back(w.bi(0).q); s->args.a.push_back(TemplateArgument((int64_t)(sym_choice("neg",2)?-3:3))); w.fld(s,"q",w.bi(5),0); w.cx.lay[s].size=2; X*x=w.mk(X::COMP); x->size=2; x->f.push_back(std::make_pair(std::string("q"),std::make_pair(w.bi(5).x,(uint64_t)0))); w.def("/n/QQ</int,3>",x); w.def("/n/QQ</int,-3>",x); return D(QualType(s->type,0),x); }
  default: return w.vec(w.string(w.bi(2),true)); } }
// I01: records
HARNESS(clrecord){ World w; TypelibBuilder b; unsigned nf=(unsigned)__sym_param("fields",1),nk=(unsigned)__sym_param("kinds",15); static const char*const FN[]={"a","b","c"};
  bool single=__sym_param("names",0)&&sym_choice("single",2); NamedDecl*p=__sym_param("names",0)&&sym_choice("ns",2)?(NamedDecl*)w.ns(0,"m"):0; std::string tln=p?"/m":""; CXXRecordDecl*r=w.rec(p,single?"S":"Rec",!__sym_param("few",0)&&sym_choice("tag",2)?"class":"struct"); tln+=single?"/S":"/Rec"; uint32_t size=sym_u32("size"); w.cx.lay[r].size=size; uint32_t data=sym_u32("data size"); __sym_assume((data<=size)); w.cx.lay[r].nv=data; w.cx.lay[r].hasnv=true; X*x=w.mk(X::COMP); x->size=size; bool ok=true,any=false; if(!nf) ok=false; unsigned n=nf>1?nf:sym_choice("fields",nf+1); if(!n) ok=false;
  for(unsigned i=0;i<n;i++){ D t=anytype(w,nk,i); bool few=__sym_param("few",0); if(!few&&sym_choice("const",2)) t.q=t.q.withConst(); AccessSpecifier a=acc(); uint64_t bits; if(few){ static const uint64_t o[]={0,3,32,36}; bits=o[sym_choice("bit",4)]; } else bits=sym_u32("offset"); __sym_assume((bits/8+t.x->size<=size)); FieldDecl*f=w.fld(r,FN[i],t,bits,a); if(t.x->k==X::NO||a==AS_private) ok=false; if(t.x->any) any=true; if(!few&&t.x->k==X::COMP&&sym_choice("anonymous member",2)){ f->anon=true; ok=false; any=any||t.x->any; COVER("anonymous"); } if(ok){ if(bits%8!=0){ ok=false; COVER("unaligned"); } } x->f.push_back(std::make_pair(std::string(FN[i]),std::make_pair(t.x,bits/8))); }
  if(sym_choice("poly",2)){ r->poly=true; ok=false; } if(!ok) x->k=X::NO; x->any=any&&ok; w.def(tln,x);
  TT const*t=0; GUARD(t=b.registerTypeDecl(r)); w.is(b.getRegistry(),t,tln,x); w.all(b.getRegistry()); size_t sz=b.getRegistry().size(); TT const*t2=0; GUARD(t2=b.registerTypeDecl(r)); CHECK(t2==t&&b.getRegistry().size()==sz,"declarations seen again are the same type"); __sym_observe(ok); }
// I01: base classes
struct B01 { World&w; std::map<CXXRecordDecl*,X*> xs; B01(World&w):w(w){}
  void flat(CXXRecordDecl*r,uint64_t off,X&x,bool&ok,bool&any,bool direct){ for(size_t i=0;i<r->flds.size();i++){ FieldDecl*f=r->flds[i]; if(f->access==AS_private) ok=false; for(size_t k=0;k<x.f.size();k++) if(x.f[k].first==f->id.n){ ok=false; COVER("duplicate"); } x.f.push_back(std::make_pair(f->id.n,std::make_pair(w.bi(0).x,off+w.cx.lay[r].offs[i]/8))); }
    for(size_t i=0;i<r->bs.size();i++){ CXXBaseSpecifier const&s=r->bs[i]; CXXRecordDecl*b=const_cast<CXXRecordDecl*>(s.t->getAsCXXRecordDecl()); size_t n=x.f.size(); flat(b,s.v?off:off+w.cx.lay[r].base[b],x,ok,any,false); if(x.f.size()!=n){ if(s.v){ ok=false; COVER("virtual"); } if(s.a==AS_private) ok=false; if(ok) COVER("inherited"); } else if(s.a==AS_private){ if(direct) ok=false; else any=true; } } }
  X*make(CXXRecordDecl*r,std::string const&n){ X*x=w.mk(X::COMP); bool ok=true,any=false; flat(r,0,*x,ok,any,true); if(r->poly||x->f.empty()) ok=false; x->size=w.cx.lay[r].size; for(size_t i=0;i<x->f.size();i++) __sym_assume((x->f[i].second.second+4<=x->size)); if(!ok) x->k=X::NO; x->any=any; w.def(n,x); return xs[r]=x; } };
HARNESS(clbases){ World w; TypelibBuilder b; B01 o(w); static const char*const RN[]={"Rec","Ba","Bb"}; static const char*const FN[]={"r","a","b"}; CXXRecordDecl*r[3]; unsigned n=(unsigned)__sym_param("classes",2); unsigned deep=(unsigned)__sym_param("deep",0); unsigned shape=n==3?sym_choice("shape",4):0; unsigned names=sym_choice("names",n);
  for(unsigned i=0;i<n;i++){ r[i]=w.rec(0,RN[i]); uint32_t size=sym_u32("size"); w.cx.lay[r[i]].size=size; uint32_t data=sym_u32("data size"); __sym_assume((data<=size)); w.cx.lay[r[i]].nv=data; w.cx.lay[r[i]].hasnv=true; if(!sym_choice("empty",2)){ uint32_t off=sym_u32("offset"); __sym_assume((off<0x100000u)); unsigned nm=names==1&&i==1?0:names==2&&i==2?1:i; w.fld(r[i],FN[nm],w.bi(0),(uint64_t)off*8,n==3&&!deep?AS_public:acc()); } }
  // shapes: both bases direct; a chain; the second base twice (not virtual) through the first and directly: the same class; virtual diamond
  struct { unsigned d,b; } e[3]; unsigned ne=0; e[ne].d=0; e[ne++].b=1; if(n==3){ if(shape!=1){ e[ne].d=0; e[ne++].b=2; } if(shape!=0){ e[ne].d=1; e[ne++].b=2; } }
  if(shape==2&&!deep) __sym_stop();
  for(unsigned i=0;i<ne;i++){ uint32_t off=sym_u32("base"); __sym_assume((off<0x100000u)); bool v=shape==3&&e[i].b==2?true:sym_choice("virtual",2); w.base(r[e[i].d],r[e[i].b],acc(),v,off); }
  bool poly=(n==2||deep)&&sym_choice("poly",2); unsigned pb=poly?sym_choice("polybase",n):0; if(poly){ r[pb]->poly=true; for(unsigned k=0;k<2;k++) for(unsigned i=0;i<ne;i++) if(r[e[i].b]->poly) r[e[i].d]->poly=true; }
  for(unsigned i=n;i-->0;) o.make(r[i],std::string("/")+RN[i]); TT const*t=0; GUARD(t=b.registerTypeDecl(r[0])); w.is(b.getRegistry(),t,"/Rec",o.xs[r[0]]); w.all(b.getRegistry());
  unsigned also=1+sym_choice("also",n-1); GUARD(t=b.registerTypeDecl(r[also])); w.is(b.getRegistry(),t,std::string("/")+RN[also],o.xs[r[also]]); w.all(b.getRegistry()); }
// I01: enumerations
HARNESS(clenum){ World w; TypelibBuilder b; static const unsigned bt[]={0,7,6,4,8,5}; unsigned ik=sym_choice("integer",6); D in=w.bi(bt[ik]); NamedDecl*p=sym_choice("ns",2)?(NamedDecl*)w.ns(0,"m"):0; bool anon=sym_choice("anonymous",2); EnumDecl*e=w.en(p,anon?"":"E",in); e->access=acc(); e->invalid=sym_choice("invalid",2); X*x=w.mk(X::ENUM); x->size=4; static const char*const N[]={"A","B","CC"}; unsigned n=sym_choice("values",1+(unsigned)__sym_param("values",2));
  for(unsigned i=0;i<n;i++){ uint64_t v=sym_u64("value"); if(in.x->size<8){ unsigned s=64-8*(unsigned)in.x->size; uint64_t ext=in.x->cat==0?(uint64_t)((int64_t)(v<<s)>>s):(v<<s)>>s; __sym_assume((v==ext)); } w.val(e,N[i],v); x->v.push_back(std::make_pair(std::string(N[i]),(int64_t)v)); }
  if(anon||e->access==AS_private||e->invalid||in.x->size!=4) x->k=X::NO; std::string n1=p?"/m/E":"/E"; if(!anon) w.def(n1,x); TT const*t=0; bool td=sym_choice("typedef",2); if(td){ TypedefDecl*d=w.td(0,"TE",D(QualType(e->type,0),x),"/TE"); if(anon) e->tdanon=d; GUARD(t=b.registerTypedefNameDecl(d)); w.is(b.getRegistry(),t,"/TE",x); } else GUARD(t=b.registerTypeDecl(e)); if(!anon) w.is(b.getRegistry(),t,n1,x); else CHECK(!t,"unsupported declarations are not imported"); w.all(b.getRegistry()); }
// I01: declarations in any order, several times: what is imported does not depend on it
struct Prog { struct It { NamedDecl*d; X*x; std::string n; }; std::vector<It> it; World&w; void put(NamedDecl*d,X*x,std::string const&n){ It i; i.d=d; i.x=x; i.n=n; it.push_back(i); }
  D rec1(CXXRecordDecl*r,const char*f,D t,uint64_t size,std::string const&n){ w.fld(r,f,t,0); w.cx.lay[r].size=size; X*x=w.mk(t.x->k==X::NO?X::NO:X::COMP); x->size=size; x->f.push_back(std::make_pair(std::string(f),std::make_pair(t.x,(uint64_t)0))); if(!n.empty()) w.def(n,x); put(r,x,n); return D(QualType(r->type,0),x); }
  D tdef(NamedDecl*p,const char*n,D u,std::string const&tn){ TypedefDecl*t=w.cx.mkd(new TypedefDecl(&w.cx,p,n,u.q)); w.at(t); if(u.x->k!=X::NO&&!tn.empty()) w.names[tn]=u.x; put(t,tn.empty()?w.no():u.x,tn); return w.use(t,u.x); }
  Prog(World&w,unsigned set):w(w){ uint32_t sz=sym_u32("size"); __sym_assume((sz>=4)&(sz<0x10000)); D i=w.bi(0),c=w.bi(2),sc=w.bi(3);
    if(set==0){ // records, typedefs of typedefs, of records, of arrays
      CXXRecordDecl*sd=w.rec(0,"S"); D s=rec1(sd,"a",i,sz,"/S"); D t=tdef(0,"T",s,"/T"); D u=tdef(0,"U",t,"/U"); D I=tdef(0,"I",i,"/I"); D J=tdef(w.ns(0,"n"),"J",I,"/n/J"); tdef(0,"S",s,"/S");
      CXXRecordDecl*v=w.rec(0,"V"); rec1(v,"x",u,(uint64_t)sz*2,"/V"); uint64_t at=sz; w.fld(v,"y",J,at*8); it.back().x->f.push_back(std::make_pair(std::string("y"),std::make_pair(i.x,at)));
      tdef(0,"A3",w.arr(J,3),"/A3"); tdef(0,"B3",w.arr(i,3),"/B3"); D cs=s; cs.q=cs.q.withConst(); tdef(0,"CA",w.arr(cs,2),"/CA"); tdef(0,"CS",cs,"/CS"); D ci=i; ci.q=ci.q.withConst(); tdef(0,"CI",ci,"/CI"); D ct=t; ct.q=ct.q.withConst(); tdef(0,"CT",ct,"/CT");
    } else if(set==1){ // arrays of types with several names, enumerations, containers
      EnumDecl*e=w.en(0,"EN",i); e->access=AS_none; w.val(e,"V",7); X*x=w.mk(X::ENUM); x->size=4; x->v.push_back(std::make_pair(std::string("V"),7)); w.def("/EN",x); put(e,x,"/EN"); D en(QualType(e->type,0),x); D f=tdef(0,"F",en,"/F");
      rec1(w.rec(0,"W"),"e",f,sz+4,"/W"); rec1(w.rec(0,"C1"),"c",w.arr(c,3),sz,"/C1"); rec1(w.rec(0,"C2"),"c",w.arr(sc,3),sz,"/C2"); tdef(0,"C3",w.arr(c,3),"/C3"); tdef(0,"C4",w.arr(sc,3),"/C4"); D v1=w.vec(i); tdef(0,"VI",v1,"/VI"); tdef(0,"VJ",w.vec(w.bi(0)),"/VJ"); D str=w.string(c,true); D st=tdef(w.std_(),"string",str,"/std/string"); tdef(0,"Str",st,"/Str"); tdef(0,"VS",w.vec(str),"/VS"); rec1(w.rec(0,"X1"),"v",v1,(uint64_t)sz+24,"/X1"); tdef(0,"VV",w.vec(v1),"/VV"); tdef(0,"AV",w.arr(v1,2),"/AV");
    } else { // what is not imported, and what uses it
      CXXRecordDecl*fw=w.rec(0,"FW"); fw->def=0; put(fw,w.no(),"/FW"); FunctionDecl*fn=w.cx.mkd(new FunctionDecl(&w.cx,0,"fn")); CXXRecordDecl*l=w.rec(fn,"L"); l->access=AS_none; D ld=rec1(l,"a",i,4,""); it.back().x=w.no(); it.back().n="/L"; tdef(fn,"LT",i,""); it.back().n="/LT"; NamespaceDecl*an=w.ns(0,""); D at=tdef(an,"AT",i,""); tdef(0,"UT",at,"/UT"); CXXRecordDecl*ar=w.rec(an,"AR"); D ard=rec1(ar,"a",i,4,""); it.back().x=w.no(); ard.x=w.no(); it.back().n="/AR"; rec1(w.rec(0,"UA"),"r",ard,4,"/UA"); tdef(0,"TA",ard,"/TA");
      CXXRecordDecl*o=w.rec(0,"O"); rec1(o,"a",i,sz,"/O"); D pt=tdef(o,"P",i,""); static_cast<TypedefDecl*>(it.back().d)->access=AS_private; it.back().n="/O/P"; tdef(o,"Q",pt,"/O/Q"); CXXRecordDecl*pr=w.rec(o,"PR"); pr->access=AS_private; D prd=rec1(pr,"a",i,4,""); it.back().x=w.no(); it.back().n="/O/PR"; prd.x=w.no(); D tp=tdef(o,"TP",prd,"/O/TP"); rec1(w.rec(0,"UP"),"f",tp,4,"/UP"); D p=w.ptr(i); D tpt=tdef(0,"PT",p,"/PT"); tdef(0,"PA",w.arr(tpt,2),"/PA"); rec1(w.rec(0,"UF"),"f",tpt,8,"/UF"); CXXRecordDecl*no=w.rec(0,""); no->id.n=""; w.fld(no,"a",i,0); w.cx.lay[no].size=4; D nod(QualType(no->type,0),w.no()); D ntd=tdef(0,"NT",nod,"/NT"); no->tdanon=static_cast<TypedefDecl*>(it.back().d); put(no,w.no(),""); rec1(w.rec(0,"UN"),"n",ntd,4,"/UN"); (void)ld; } } };
HARNESS(clseq){ World w; TypelibBuilder b; Prog p(w,(unsigned)__sym_param("set",0)); Registry const&r=b.getRegistry(); unsigned ops=(unsigned)__sym_param("ops",2); std::vector<unsigned> done;
  for(unsigned o=0;o<ops;o++){ unsigned i=sym_choice("decl",(unsigned)p.it.size()); Prog::It const&t=p.it[i]; TT const*x=0; if(t.d->kind==Decl::Typedef&&sym_choice("as_typedef",2)) GUARD(x=b.registerTypedefNameDecl(static_cast<TypedefDecl*>(t.d))) else GUARD(x=b.registerTypeDecl(static_cast<TypeDecl*>(t.d)));
    if(t.n.empty()) CHECK(!x,"unsupported declarations are not imported"); else w.is(r,x,t.n,t.x); done.push_back(i);
    for(unsigned k=0;k<done.size();k++){ Prog::It const&q=p.it[done[k]]; if(q.x->k!=X::NO){ TT const*g=r.get(q.n); CHECK(g,"declarations that have been imported stay"); w.same(*g,q.x); } } w.all(r); } }
// I02: names
struct Gn { char c[6]; unsigned nc; Gn():nc(0){} std::string id(){ if(nc++>=(unsigned)__sym_param("symbolic",1)){ static const char*const f[]={"x","std","N2","_y"}; return f[nc%4]; } unsigned n=1+sym_choice("length",2); std::string s; for(unsigned i=0;i<n;i++){ char c; if(i&&sym_choice("number",2)){ c=(char)(0x30|(sym_u8("digit")&7)); } else { c=(char)(0x40|(sym_u8("char")&63)); bool ok=((c>='a')&(c<='z'))|((c>='A')&(c<='Z'))|(c=='_'); __sym_assume(ok); } s+=c; } return s; }
  // C++ as clang prints it (spaced: as up to clang 15), what typelibToCxxName gives, and the Typelib name
  struct N { std::string p,c,t; };
  N name(unsigned depth,unsigned parts){ N r; unsigned n=1+sym_choice("parts",parts); for(unsigned i=0;i<n;i++){ if(i){ r.p+="::"; r.c+="::"; } r.t+="/"; std::string s=id(); r.p+=s; r.c+=s; r.t+=s; if(depth&&sym_choice("template",2)){ unsigned na=__sym_param("exact",0)?(unsigned)__sym_param("args",2):1+sym_choice("args",(unsigned)__sym_param("args",2)); r.p+="<"; r.c+="<"; r.t+="<"; for(unsigned k=0;k<na;k++){ if(k){ r.p+=", "; r.c+=","; r.t+=","; } unsigned arg=sym_choice("arg",5); if(arg<3){ std::string v; if(arg==1) v="-"; char d=(char)(0x30|(sym_u8("digit")&7)); v+=d; if(arg==2) v+="07"; r.p+=v; r.c+=v; r.t+=v; } else { N a=name(depth-1,depth>1?2:1); if(depth>1&&k==0&&sym_choice("const",2)){ a.p="const "+a.p; a.c="const "+a.c; a.t="/const "+a.t.substr(1); } if(arg==4){ a.p+=" [4]"; a.c+="[4]"; a.t+="[4]"; } r.p+=a.p; r.c+=a.c; r.t+=a.t; } } if(r.p[r.p.size()-1]=='>') r.p+=' '; r.p+=">"; r.c+=">"; r.t+=">"; } } return r; } };
HARNESS(clnames){ Gn g; Gn::N n=g.name((unsigned)__sym_param("depth",1),(unsigned)__sym_param("parts",2)); if(sym_choice("array",2)){ bool s=sym_choice("spaced",2); n.p+=s?" [12]":"[12]"; n.c+="[12]"; n.t+="[12]"; } if(sym_choice("global",2)) n.p="::"+n.p; std::string t; GUARD(t=cxxToTypelibName(n.p)); CHECK(t==n.t,"C++ names become the same Typelib name"); CHECK(Typelib::isValidTypename(t,true),"the names of types are valid"); std::string c=typelibToCxxName(t); CHECK(c==n.c,"Typelib names become the same C++ name"); std::string t2; GUARD(t2=cxxToTypelibName(c)); observe_str(t); }
// names of the inline namespaces of the standard libraries
HARNESS(clstd){ static const char*const ns[]={"std::__cxx11::","std::__1::","std::"}; unsigned k=sym_choice("namespace",3); Gn g; std::string s=g.id(); bool str=sym_choice("string",2); std::string in=ns[k]+(str?std::string("basic_string"):s); std::string t; GUARD(t=cxxToTypelibName(in)); if(!str) CHECK(t=="/std/"+s,"inline namespaces of the standard library are no part of names"); else { CHECK(t=="/std/string"||(k<2&&t=="/std/basic_string"),"std::basic_string becomes /std/string"); } std::string u=g.id()+"::"+s; GUARD(t=cxxToTypelibName(u)); observe_str(t); }
// I03: metadata of imported types, and opaques
static std::string meta(TT const&t,const char*k,bool*has=0){ MetaData::Values v=t.getMetaData().get(k); CHECK(v.size()<=1,"metadata have one value"); if(has) *has=!v.empty(); return v.empty()?std::string():*v.begin(); }
struct Doc { World&w; std::string text; bool odd,any; Doc(World&w):w(w),odd(false),any(false){}
  std::string txt(){ std::string s; switch(sym_choice("text",3)){ case 0: s=" "; break; case 1: s=" a"; break; default:{ char c=(char)sym_u8("char"); __sym_assume((c>' ')&(c<127)); s+=c; } } return s; }
  void para(comments::ParagraphComment*p,bool always){ unsigned n=sym_choice("children",3); std::string t; bool line=false; for(unsigned i=0;i<n;i++){ bool nl=line; line=false; if(sym_choice("inline",2)) p->ch.push_back(w.cx.mkc(new comments::InlineCommandComment)); else { std::string s=txt(); if(nl) t+="\n"; line=true; t+=s; p->ch.push_back(w.cx.mkc(new comments::TextComment(s))); } } if(always||!p->isWhitespace()) text+=t; }
  void make(Decl*d,unsigned blocks){ comments::FullComment*f=w.cx.mkc(new comments::FullComment); for(unsigned i=0;i<blocks;i++) switch(sym_choice("block",4)){
      case 0:{ comments::ParagraphComment*p=w.cx.mkc(new comments::ParagraphComment); para(p,false); f->b.push_back(p); break; }
      case 1:{ comments::BlockCommandComment*c=w.cx.mkc(new comments::BlockCommandComment); c->p=w.cx.mkc(new comments::ParagraphComment); para(c->p,true); f->b.push_back(c); break; }
      case 2:{ std::string s=txt(); text+=s; f->b.push_back(w.cx.mkc(new comments::VerbatimLineComment(s))); break; }
      default: odd=true; f->b.push_back(w.cx.mkc(new comments::BlockCommandComment(comments::Comment::VerbatimBlockCommentKind))); } w.cx.docs[d]=f; any=true; }
  void check(TT const&t){ bool has; std::string g=meta(t,"doc",&has); if(odd) return; size_t at=0; for(size_t i=0;i<text.size();i++){ if(text[i]!='\n') while(at<g.size()&&g[at]=='\n') at++; CHECK(at<g.size()&&g[at]==text[i],"the documentation is the text of the comment, line by line"); at++; } while(at<g.size()&&g[at]=='\n') at++; CHECK(at==g.size(),"the documentation is the text of the comment"); if(!any) CHECK(!has,"types without comment have no documentation"); if(text.size()) COVER("doc"); } };
static void file(World&w){ static const char*const fn[]={"/sym/include/h.hh","h.hh","../other/h.hh"}; w.cx.sm.files[&w.file].n=fn[sym_choice("path",3)]; }
static void where(TT const&t,unsigned line){ CHECK(meta(t,"source_file_line")=="/sym/include/h.hh:"+PrintingNames::num(line),"types know the file and the line of their declaration"); }
HARNESS(clmeta){ World w; TypelibBuilder b; file(w); Doc d(w); w.line=sym_choice("line",2)?1233:6; NamedDecl*p=sym_choice("ns",2)?(NamedDecl*)w.ns(0,"m"):0; unsigned k=sym_choice("kind",4); bool docs=sym_choice("comment",2); TypeDecl*t=0; std::string name=p?"/m":"",cxx=p?"m::":""; std::set<std::string> bases;
  if(k<2){ CXXRecordDecl*r=w.rec(p,"Rec",k?"class":"struct"); name+="/Rec"; cxx=(k?"class ":"struct ")+cxx+"Rec"; w.fld(r,"a",w.bi(0),0); w.cx.lay[r].size=4; t=r; unsigned n=docs?0:sym_choice("bases",4); for(unsigned i=0;i<n;i++){ CXXRecordDecl*ba; if(i==2){ ba=w.rec(w.ns(p,"k"),"Bc"); bases.insert(p?"/m/k/Bc":"/k/Bc"); } else if(i){ ClassTemplateSpecializationDecl*s=w.spec(w.ns(0,"n"),"QQ"); s->args.a.push_back(w.bi(0).q); s->args.a.push_back(TemplateArgument((int64_t)3)); ba=s; bases.insert("/n/QQ</int,3>"); } else { ba=w.rec(p,"Ba"); bases.insert(p?"/m/Ba":"/Ba"); } w.cx.lay[ba].size=1; AccessSpecifier ac=sym_choice("protected",2)?AS_protected:AS_public; w.base(r,ba,ac,sym_choice("virtual",2),0); } if(n==2) COVER("bases"); }
  else { EnumDecl*e=w.en(p,"E",w.bi(0)); e->access=AS_none; name+="/E"; cxx="enum "+cxx+"E"; w.val(e,"V",1); t=e; if(k==3){ TypedefDecl*td=w.td(0,"TE",D(QualType(e->type,0),w.no()),"/TE"); TT const*x=0; d.make(t,1); GUARD(x=b.registerTypedefNameDecl(td)); } }
  unsigned line=t->loc.line; if(k!=3&&docs) d.make(t,(unsigned)__sym_param("blocks",1)); TT const*x=0; GUARD(x=b.registerTypeDecl(t)); CHECK(x,"supported declarations are imported"); unsigned again=sym_choice("again",2); if(again) GUARD(b.registerTypeDecl(t)); CHECK(b.getRegistry().get(name)==x,"declarations are found under their name"); where(*x,line); CHECK(meta(*x,"cxxname")==cxx,"types know their C++ name"); MetaData::Values v=x->getMetaData().get("base_classes"); CHECK(std::set<std::string>(v.begin(),v.end())==bases,"types know their base classes"); d.check(*x); }
HARNESS(clopaque){ World w; TypelibBuilder b; file(w); Doc d(w); Registry&r=const_cast<Registry&>(b.getRegistry()); uint32_t size=sym_u32("size"); unsigned k=sym_choice("kind",5); static const char*const on[]={"/Op","/m/Op</int,3>","/Td","/m/Td","/Td"}; bool known=sym_choice("known",2); OpaqueType*op=new OpaqueType(known?on[k]:"/other/Op",size); r.add(op); size_t n0=r.size(); w.line=44; std::string cxx,canon; D ty; TypeDecl*t=0; std::set<std::string> bases; CXXRecordDecl*rec=0;
  switch(k){ case 0: rec=w.rec(0,"Op","class"); cxx="class Op"; break; case 1:{ ClassTemplateSpecializationDecl*s=w.spec(w.ns(0,"m"),"Op"); s->args.a.push_back(w.bi(0).q); s->args.a.push_back(TemplateArgument((int64_t)3)); rec=s; cxx="class m::Op<int, 3>"; break; } default: break; }
  if(rec){ t=rec; bool def=sym_choice("defined",2); if(!def){ rec->def=0; } else { unsigned line=w.line; if(sym_choice("base",2)){ CXXRecordDecl*ba=w.rec(0,"Ba"); w.cx.lay[ba].size=1; AccessSpecifier ac=acc(); w.base(rec,ba,ac,sym_choice("virtual",2),0); bases.insert("/Ba"); } w.line=line; if(sym_choice("poly",2)) rec->poly=true; w.cx.lay[rec].size=size; } ty=D(QualType(rec->type,0),0); }
  else { D u; if(k==4){ u=w.vec(w.bi(1)); canon="/std/vector</double,/std/allocator</double>>"; cxx="typedef Td class std::vector<double, class std::allocator<double> >"; } else { CXXRecordDecl*q=w.rec(w.ns(0,"x"),"Real"); q->poly=true; u=D(QualType(q->type,0),0); canon="/x/Real"; cxx=k==2?"typedef Td x::Real":"typedef m::Td x::Real"; } TypedefDecl*td=w.cx.mkd(new TypedefDecl(&w.cx,k==3?w.ns(0,"m"):0,"Td",u.q)); w.at(td); t=td; ty=w.use(td,0); }
  unsigned line=w.line; if(!canon.empty()||!(rec->def&&rec->bs.size())) if(sym_choice("comment",2)) d.make(t,1); GUARD(b.registerOpaque(t)); TT const*o=r.get(known?on[k]:"/other/Op"); CHECK(o==op&&op->getCategory()==TT::Opaque&&op->getSize()==size,"opaques stay as they are");
  if(!known){ CHECK(r.size()==n0&&meta(*op,"source_file_line").empty(),"declarations that are no opaques change nothing"); COVER("unknown"); return; }
  where(*op,line); d.check(*op); MetaData::Values v=op->getMetaData().get("base_classes"); CHECK(std::set<std::string>(v.begin(),v.end())==bases,"types know their base classes"); std::string cn=meta(*op,"cxxname"); CHECK(cn==cxx||(k==4&&cn.compare(0,23,"typedef Td std::vector<")==0),"types know their C++ name"); if(canon.empty()){ CHECK(r.size()==n0,"opaques add no other types"); CHECK(meta(*op,"opaque_is_typedef").empty(),"only typedefs are marked as such"); } else { CHECK(r.get(canon)==op,"opaque typedefs stand for their type"); CHECK(meta(*op,"opaque_is_typedef")=="1","typedefs are marked as such"); COVER("typedef"); }
  // used by another type, or seen again
  CXXRecordDecl*us=w.rec(0,"Us"); D f=ty; bool arr=sym_choice("array",2); X ox(X::NO); ox.size=size; f.x=&ox; uint32_t off=sym_u32("offset"); __sym_assume((off<0x1000)&(size<0x1000)); if(arr) f.q=w.cx.getConstantArray(f.q,2); FieldDecl*fd=w.cx.mkd(new FieldDecl(&w.cx,us,"o",f.q,0)); fd->access=AS_public; us->flds.push_back(fd); w.cx.lay[us].offs.push_back((uint64_t)off*8); w.cx.lay[us].size=(uint64_t)off+size*2; TT const*x=0; GUARD(x=b.registerTypeDecl(us)); CHECK(x&&x->getCategory()==TT::Compound,"records with opaque members are imported"); TT const*ft=&static_cast<Compound const*>(x)->getFields().front().getType(); if(arr){ CHECK(ft->getCategory()==TT::Array,"arrays of opaques are arrays"); ft=&static_cast<Array const*>(ft)->getIndirection(); } CHECK(ft==op,"members of an opaque type are opaque"); GUARD(x=b.registerTypeDecl(t)); CHECK(x==op,"opaques stay as they are"); COVER("opaque"); }
