#include "common.h"
#include <typelib/registryiterator.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
static void containers(){ Container::registerContainer("/std/vector",Vector::factory); Container::registerContainer("/std/string",String::factory); }
static Numeric* addnum(Registry&r,const char*n,size_t s,Numeric::NumericCategory c=Numeric::SInt){ Numeric*t=new Numeric(n,s,c); r.add(t); return t; }

// T04: resizing types moves and resizes everything that holds them by value, and nothing else
struct RF { unsigned kind; uint64_t off; };
HARNESS(resize){
  containers(); Registry r; uint64_t sa=sym_range("sa",1,15),sb=sym_range("sb",1,15); Numeric*A=addnum(r,"/A",sa),*B=addnum(r,"/B",sb); r.alias("/A","/AliasA");
  Compound*C=new Compound("/C"),*D=new Compound("/D"); 
  uint64_t co[2],doo[3]; unsigned ck=sym_choice("ck",3), dk=sym_choice("dk",4);
  // C: A and B in some order, or an array of A, with gaps
  uint64_t g1=sym_range("g",0,3),g2=sym_range("g",0,3),g3=sym_range("g",0,3),tp=sym_range("tp",0,3);
  Type const*cf[2]; uint64_t cs[2];
  if(ck==0){ cf[0]=A; cf[1]=B; cs[0]=sa; cs[1]=sb; } else if(ck==1){ cf[0]=B; cf[1]=A; cs[0]=sb; cs[1]=sa; } else { Type const*ar=r.build("/A[3]"); CHECK(ar!=0,"arrays can be built"); cf[0]=ar; cf[1]=B; cs[0]=3*sa; cs[1]=sb; }
  co[0]=g1; co[1]=g1+cs[0]+g2; C->addField("x",*cf[0],co[0]); C->addField("y",*cf[1],co[1]); uint64_t csz=co[1]+cs[1]+tp; C->setSize(csz); r.add(C);
  // D: C, something, B; the something is a pointer back to D, a vector of C, an array of C or a plain B
  Type const*mid; uint64_t ms; if(dk==0){ mid=new Pointer(*D); ms=8; } else if(dk==1){ Container const&v=Container::createContainer(r,"/std/vector",*C); mid=&v; ms=24; } else if(dk==2){ mid=r.build("/C[2]"); ms=2*csz; } else { mid=r.build("/AliasA*"); ms=8; }
  doo[0]=0; doo[1]=csz+g3; doo[2]=csz+g3+ms; D->addField("c",*C,doo[0]); D->addField("m",*mid,doo[1]); D->addField("b",*B,doo[2]); uint64_t dsz=doo[2]+sb+tp; D->setSize(dsz); r.add(D); if(dk==0) r.add(const_cast<Type*>(mid));
  Type const*DA=r.build("/D[2]"); Type const*DP=r.build("/D*");
  unsigned which=sym_choice("which",5); uint64_t na=sym_range("na",1,15),nb=sym_range("nb",1,15),nc=sym_range("nc",1,99); std::map<std::string,size_t> m; bool xc=false;
  uint64_t wa=sa,wb=sb; if(which==0||which==2||which==4){ unsigned by=sym_choice("byalias",3); if(by!=1) m["/A"]=na; if(by!=0) m["/AliasA"]=na; wa=na; } if(which==1||which==2){ m["/B"]=nb; wb=nb; } if(which==3||which==4){ m["/C"]=nc; xc=true; }
  r.resize(m);
  uint64_t wcs[2]; wcs[0]= ck==0?wa:ck==1?wb:3*wa; wcs[1]= ck==1?wa:wb; uint64_t wco1= xc?co[1]:co[1]+(wcs[0]-cs[0]); uint64_t wcsz= xc?nc:csz+(wcs[0]-cs[0])+(wcs[1]-cs[1]);
  CHECK(A->getSize()==wa&&B->getSize()==wb,"resized types get the requested size");
  CHECK(C->getFields().front().getOffset()==co[0]&&C->getFields().back().getOffset()==wco1,"fields move by the growth of the fields before them"); CHECK(C->getSize()==wcsz,"a structure grows by the growth of its fields");
  if(ck==2) CHECK(cf[0]->getSize()==3*wa,"an array has the size of its elements");
  uint64_t wms= dk==0||dk==3?8:dk==1?24:2*wcsz; CHECK(mid->getSize()==wms,"pointers and containers keep their size, arrays follow their elements");
  Compound::FieldList::const_iterator i=D->getFields().begin(); CHECK(i->getOffset()==0,"fields move by the growth of the fields before them"); ++i; uint64_t w1=doo[1]+(wcsz-csz); CHECK(i->getOffset()==w1,"fields move by the growth of the fields before them"); ++i; uint64_t w2=doo[2]+(wcsz-csz)+(wms-ms); CHECK(i->getOffset()==w2,"fields move by the growth of the fields before them");
  uint64_t wd=dsz+(wcsz-csz)+(wms-ms)+(wb-sb); CHECK(D->getSize()==wd,"a structure grows by the growth of its fields"); CHECK(DA->getSize()==2*wd,"an array has the size of its elements"); CHECK(DP->getSize()==8,"pointers keep their size");
  COVER("resize"); if(xc) COVER("explicit"); __sym_observe(wd);
}
HARNESS(resizeunknown){
  Registry r; uint64_t sa=sym_range("sa",1,15); addnum(r,"/A",sa); std::string n="/"; n.push_back((char)sym_u8("c")); std::map<std::string,size_t> m; m[n]=4; bool known=n=="/A";
  try { r.resize(m); CHECK(known,"unknown types are refused"); COVER("known"); } catch(Undefined&){ CHECK(!known,"known types are accepted"); COVER("unknown"); }
}
// R02: removing a type removes exactly it and what depends on it, under all names
HARNESS(remove){
  containers(); uint64_t base=__sym_live(); { Registry r; std::vector<Type*> t; std::vector<std::vector<int> > dep; static const char*nm[]={"/A","/B","/ns/C","/D","/ns/E"}; unsigned n=(unsigned)__sym_param("n",4);
  for(unsigned i=0;i<n;i++){ std::vector<int> d; if(i==0){ t.push_back(new Numeric(nm[i],4,Numeric::SInt)); } else { unsigned k=sym_choice("kind",4); int j=k==3?0:(int)sym_choice("dep",i);
      if(k==0||k==3){ Compound*c=new Compound(nm[i]); if(k==0){ c->addField("f",*t[j],0); d.push_back(j); if(i>1&&sym_bool("two")){ int q=(int)sym_choice("dep2",i); c->addField("g",*t[q],64); d.push_back(q); } } t.push_back(c); }
      else { Type*x; if(k==1) x=new Pointer(*t[j]); else x=new Array(*t[j],2); if(r.get(x->getName())){ delete x; __sym_stop(); } t.push_back(x); d.push_back(j); } }
    r.add(t.back()); dep.push_back(d); }
  // a recursive pair: the last structure may point to itself
  unsigned al=sym_choice("alias",n+1); if(al<n) r.alias(t[al]->getName(),"/ns/Alias"); std::vector<std::string> before; size_t size0=r.size();
  unsigned x=sym_choice("x",n); std::vector<bool> dead(n,false); dead[x]=true; for(unsigned it=0;it<n;it++) for(unsigned i=0;i<n;i++) for(size_t q=0;q<dep[i].size();q++) if(dead[dep[i][q]]) dead[i]=true;
  std::set<Type const*> rd=const_cast<Registry const&>(r).reverseDepends(*t[x]); std::map<std::string,bool> names; for(RegistryIterator i=r.begin();i!=r.end();++i){ int id=-1; for(unsigned k=0;k<n;k++) if(&*i==t[k]) id=(int)k; CHECK(id>=0,"every name belongs to a type"); if(id>=0) names[i.getName()]=dead[id]; }
  CHECK(names.size()==size0,"names are unique");
  for(unsigned i=0;i<n;i++) CHECK(rd.count(t[i])==(dead[i]?1u:0u),"the dependents of a type are all types that reach it");
  std::set<Type*> gone=r.remove(*t[x]); unsigned cnt=0; for(unsigned i=0;i<n;i++){ if(dead[i]) cnt++; CHECK(gone.count(t[i])==(dead[i]?1u:0u),"exactly the dependents are removed"); } CHECK(gone.size()==cnt,"exactly the dependents are removed");
  size_t left=0; for(std::map<std::string,bool>::iterator i=names.begin();i!=names.end();++i){ CHECK((r.get(i->first)!=0)==!i->second,"all names of the removed types are gone, the others are kept"); CHECK(r.has(i->first,false)==!i->second,"all names of the removed types are gone, the others are kept"); if(!i->second) left++; }
  CHECK(r.size()==left,"the registry holds what is left"); for(RegistryIterator i=r.begin();i!=r.end();++i) CHECK(names.count(i.getName())&&!names[i.getName()],"the registry holds what is left");
  for(std::set<Type*>::iterator i=gone.begin();i!=gone.end();++i) delete *i; COVER("remove"); __sym_observe(cnt); __sym_observe(left);
  // what was removed can be defined again
  if(x==0){ r.add(new Numeric("/A",2,Numeric::SInt)); CHECK(r.get("/A")&&r.get("/A")->getSize()==2,"a removed name can be used again"); } }
  CHECK(__sym_live()==base,"nothing is leaked"); }
// R01: names resolve to the definition in the innermost namespace, whatever the history of definitions and removals
static const char*const NSN[]={"/","/A","/A/B","/A/B/A","/B"};
struct NModel { std::map<std::string,Type const*> g; std::string ns; 
  Type const* find(std::string const&n) const { if(n.empty()) return 0; if(n[0]=='/'){ std::map<std::string,Type const*>::const_iterator i=g.find(n); return i==g.end()?0:i->second; }
    std::string cur=ns; for(;;){ std::map<std::string,Type const*>::const_iterator i=g.find((cur=="/"?"":cur)+"/"+n); if(i!=g.end()) return i->second; if(cur=="/") return 0; size_t p=cur.rfind('/'); cur= p==0?"/":cur.substr(0,p); } } };
static const char*const UNI[]={"/T","/A/T","/A/B/T","/B/T","/A/A/T","/U","/A/U"};
static const char*const QRY[]={"T","A/T","B/T","A/B/T","A/A/T","U","A/U"};
static void checkresolve(Registry&r,NModel&m,unsigned nq){
  for(unsigned i=0;i<nq;i++){ Type const*w=m.find(QRY[i]); CHECK(r.get(QRY[i])==w,"relative names resolve to the innermost namespace"); CHECK(r.has(QRY[i],false)==(w!=0),"has() agrees with get()"); w=m.find(UNI[i]); CHECK(r.get(UNI[i])==w,"absolute names resolve to what was defined"); CHECK(r.has(UNI[i],false)==(w!=0),"has() agrees with get()"); }
  CHECK(r.size()==m.g.size(),"the registry holds what was defined"); for(RegistryIterator i=r.begin();i!=r.end();++i){ std::map<std::string,Type const*>::iterator q=m.g.find(i.getName()); CHECK(q!=m.g.end()&&q->second==&*i,"iteration shows every name once"); CHECK(i.isAlias()==(i->getName()!=i.getName()),"aliases are the names that differ from the type's own"); }
}
HARNESS(names){
  uint64_t base=__sym_live(); { Registry r; NModel m; m.ns="/"; for(RegistryIterator i=r.begin();i!=r.end();++i) m.g[i.getName()]=&*i; unsigned uni=(unsigned)__sym_param("uni",4),ops=(unsigned)__sym_param("ops",3),kinds=(unsigned)__sym_param("kinds",4); std::list<Type*> grave;
  if(__sym_param("ns",0)){ unsigned k=(unsigned)__sym_param("ns",0); CHECK(r.setDefaultNamespace(NSN[k]),"valid namespaces are accepted"); m.ns=NSN[k]; }
  for(unsigned o=0;o<ops;o++){
    switch(sym_choice("op",kinds)){
      case 0:{ const char*n=UNI[sym_choice("n",uni)]; Numeric*t=new Numeric(n,4,Numeric::SInt); bool ex=m.g.count(n); try { r.add(t); CHECK(!ex,"a name cannot be defined twice"); m.g[n]=t; COVER("add"); } catch(AlreadyDefined&){ CHECK(ex,"free names can be defined"); delete t; COVER("dup"); } break; }
      case 1:{ const char*f=UNI[sym_choice("n",uni)],*n=UNI[sym_choice("n",uni)]; bool ef=m.g.count(f),ex=m.g.count(n); bool same=ef&&ex&&m.g[f]==m.g[n]; try { r.alias(f,n); CHECK(ef&&(!ex||same),"aliases need a known type and a free name"); if(ef) m.g[n]=m.g[f]; COVER("alias"); } catch(Undefined&){ CHECK(!ef,"known types can be aliased"); } catch(AlreadyDefined&){ CHECK(ef&&ex&&!same,"free names can be used for aliases"); } break; }
      case 2:{ const char*n=UNI[sym_choice("n",uni)]; Type const*t=m.find(n); if(!t) __sym_stop(); std::set<Type*> g=r.remove(*t); CHECK(g.size()==1&&*g.begin()==t,"the removed type is returned"); for(std::map<std::string,Type const*>::iterator i=m.g.begin();i!=m.g.end();){ if(i->second==t) m.g.erase(i++); else ++i; } grave.push_back(*g.begin()); COVER("remove"); break; }
      case 3:{ unsigned k=sym_choice("ns",(unsigned)__sym_param("nns",5)); CHECK(r.setDefaultNamespace(NSN[k]),"valid namespaces are accepted"); m.ns=NSN[k]; COVER("ns"); break; }
      case 4:{ const char*n=UNI[sym_choice("n",uni)]; bool ok=m.g.count(n)&&m.g[n]->getName()!=n; try { r.removeAlias(n); CHECK(ok,"only aliases can be removed as such"); m.g.erase(n); COVER("removealias"); } catch(std::runtime_error&){ CHECK(!ok,"aliases can be removed"); } break; }
      case 5:{ r.clearAliases(); for(std::map<std::string,Type const*>::iterator i=m.g.begin();i!=m.g.end();){ if(i->second->getName()!=i->first) m.g.erase(i++); else ++i; } COVER("clearaliases"); break; }
    }
  }
  checkresolve(r,m,uni); COVER("names"); __sym_observe(r.size());
  for(std::list<Type*>::iterator i=grave.begin();i!=grave.end();++i) delete *i; }
  CHECK(__sym_live()==base,"nothing is leaked"); }
// R10 derived names: arrays, pointers and containers are reachable under every alias of their element type
HARNESS(derived){
  containers(); Registry r; addnum(r,"/T",4); static const char*al[]={"/U","/ns/V"}; static const char*suf[]={"*","[2]","[2]*","*[3]"}; std::set<std::string> names; names.insert("/T"); std::set<std::string> wrapped; unsigned ops=(unsigned)__sym_param("ops",4); bool vec=false,vecp=false;
  for(unsigned o=0;o<ops;o++){ switch(sym_choice("op",4)){
    case 0:{ const char*a=al[sym_choice("a",2)]; if(names.count(a)) __sym_stop(); r.alias("/T",a); names.insert(a); COVER("alias"); break; }
    case 1:{ std::string w=suf[sym_choice("s",4)]; if(wrapped.count(w)) __sym_stop(); std::string b="/T"; if(sym_bool("via")&&names.count("/U")) b="/U"; Type const*t=r.build(b+w); CHECK(t!=0&&t->getName()=="/T"+w,"derived types are named after the type itself"); wrapped.insert(w); if(w=="[2]*") wrapped.insert("[2]"); if(w=="*[3]") wrapped.insert("*"); COVER("build"); break; }
    case 2:{ if(vec) __sym_stop(); Container::createContainer(r,"/std/vector",*r.get("/T")); vec=true; COVER("vector"); break; }
    case 3:{ if(!vec||vecp) __sym_stop(); Type const*t=r.build("/std/vector</T>*"); CHECK(t!=0,"pointers to containers can be built"); vecp=true; break; } } }
  for(std::set<std::string>::iterator n=names.begin();n!=names.end();++n){ CHECK(r.get(*n)==r.get("/T"),"an alias is another name of the type");
    for(std::set<std::string>::iterator w=wrapped.begin();w!=wrapped.end();++w){ Type const*t=r.get("/T"+*w); CHECK(t!=0,"built types are in the registry"); CHECK(r.get(*n+*w)==t,"derived types are known under all names of their element type"); }
    if(vec){ Type const*v=r.get("/std/vector</T>"); CHECK(v!=0&&r.get("/std/vector<"+*n+">")==v,"containers are known under all names of their element type"); if(vecp) CHECK(r.get("/std/vector<"+*n+">*")==r.get("/std/vector</T>*"),"containers are known under all names of their element type"); } }
  for(RegistryIterator i=r.begin();i!=r.end();++i) CHECK(r.get(i.getName())==&*i,"every name resolves to its type");
  COVER("derived"); __sym_observe(r.size()); }
// ... also after aliases were removed and given to other types
HARNESS(derivedremove){
  containers(); Registry r; static const char*const ty[]={"/T","/W"}; addnum(r,"/T",4); addnum(r,"/W",2); static const char*al[]={"/U","/ns/V"}; static const char*suf[]={"*","[2]","[2]*"}; std::map<std::string,int> names; std::set<std::string> w[2]; bool vec[2]={false,false}; unsigned ops=(unsigned)__sym_param("ops",4);
  for(unsigned o=0;o<ops;o++){ switch(sym_choice("op",4)){
    case 0:{ unsigned t=sym_choice("t",2); const char*a=al[sym_choice("a",2)]; if(names.count(a)) __sym_stop(); r.alias(ty[t],a); names[a]=t; COVER("alias"); break; }
    case 1:{ unsigned t=sym_choice("t",2); unsigned k=sym_choice("s",3); std::string b=ty[t]; if(sym_choice("via",2)){ bool f=false; for(auto&n:names) if(n.second==(int)t){ b=n.first; f=true; } if(!f) __sym_stop(); } Type const*x=r.build(b+suf[k]); CHECK(x!=0&&x->getName()==std::string(ty[t])+suf[k],"a type derived from an alias is derived from the type that the alias names"); w[t].insert(suf[k]); if(k==2) w[t].insert("[2]"); COVER("build"); break; }
    case 2:{ unsigned t=sym_choice("t",2); if(vec[t]) __sym_stop(); Container::createContainer(r,"/std/vector",*r.get(ty[t])); vec[t]=true; COVER("vector"); break; }
    case 3:{ const char*a=al[sym_choice("a",2)]; if(!names.count(a)) __sym_stop(); r.removeAlias(a); names.erase(a); COVER("remove"); break; } } }
  for(unsigned i=0;i<2;i++){ std::map<std::string,int>::iterator n=names.find(al[i]); int t=n==names.end()?-1:n->second; CHECK(r.get(al[i])==(t<0?0:r.get(ty[t])),"an alias is another name of the type it was given to");
    for(unsigned k=0;k<3;k++){ Type const*x=r.get(std::string(al[i])+suf[k]); if(t>=0&&w[t].count(suf[k])) CHECK(x!=0&&x==r.get(std::string(ty[t])+suf[k]),"derived types are known under all names of their element type"); else CHECK(x==0,"removing an alias removes the names that were derived from it"); }
    Type const*v=r.get("/std/vector<"+std::string(al[i])+">"); if(t>=0&&vec[t]) CHECK(v!=0&&v==r.get("/std/vector<"+std::string(ty[t])+">"),"containers are known under all names of their element type"); else CHECK(v==0,"removing an alias removes the names that were derived from it"); }
  for(RegistryIterator i=r.begin();i!=r.end();++i) CHECK(r.get(i.getName())==&*i,"every name resolves to its type");
  COVER("derivedremove"); __sym_observe(r.size()); }
// R03/R04: merging and extracting registries
struct MSpec { int kind; int dep; uint64_t a; };
// a registry over the names N0..N(n-1): basic types and structures that refer to earlier ones (or, by pointer, to any)
static const char*const MN[]={"/A","/ns/B","/C","/ns/D"};
static unsigned g_vsz;
static Type* mkone(Registry&r,unsigned i,unsigned kind,unsigned dep,uint64_t a,bool own=true){
  switch(kind){
    case 0: return new Numeric(MN[i],a&1?4:2,a&2?Numeric::UInt:Numeric::SInt);
    case 1:{ Enum*e=new Enum(MN[i]); e->add("X",(int)(a&3)); return e; }
    case 2:{ Compound*c=new Compound(MN[i]); c->addField("f",*r.get(MN[dep]),a&1?8:0); c->setSize(16+(a>>1&1)); return c; }
    case 3:{ Compound*c=new Compound(MN[i]); c->addField("p",*r.build(std::string(MN[dep])+"*"),0); c->setSize(8+(a&1)*8); return c; }
    case 4:{ Compound*c=new Compound(MN[i]); Container const&v=Container::createContainer(r,"/std/vector",*r.get(MN[dep])); if(g_vsz) const_cast<Container&>(v).setSize(g_vsz); c->addField("v",v,0); c->setSize(48+(a&1)*8); return c; }
    case 5:{ Compound*c=new Compound(MN[i]); Pointer*p=new Pointer(*c); c->addField("self",*p,0); c->addField("f",*r.get(MN[dep]),8+(a&1)*8); c->setSize(32); r.add(c); r.add(p); return 0; }
    case 6:{ Compound*c=new Compound(MN[i]); c->addField("arr",*r.build(std::string(MN[dep])+"[2]"),0); c->setSize(48+(a&1)*8); return c; }
  }
  return 0;
}
static void mkreg(Registry&r,unsigned n,std::vector<MSpec>&sp,unsigned kinds,bool optional,bool other=false){
  for(unsigned i=0;i<n;i++){ MSpec s; s.kind=-1; s.dep=-1; s.a=0; std::vector<unsigned> ok; for(unsigned j=0;j<i;j++) if(sp[j].kind>=0) ok.push_back(j);
    if(!(optional&&sym_bool("skip"))){ unsigned k[8],c=0; for(unsigned b=0;b<7;b++) if((kinds>>b&1)&&(b<2||!ok.empty())) k[c++]=b; if(c){ s.kind=(int)k[c==1?0:sym_choice("kind",c)]; if(s.kind>=2) s.dep=(int)ok[ok.size()==1?0:sym_choice("dep",(unsigned)ok.size())]; s.a=sym_choice("attr",(unsigned)__sym_param("attrs",2)); Type*t=mkone(r,i,(unsigned)s.kind,s.dep<0?0:(unsigned)s.dep,s.a); if(t) r.add(t,!other?"src":i%2?"":"dsrc"); } }
    sp.push_back(s); } }
// structural equality by name (both registries use the same names)
static bool spec_same(std::vector<MSpec> const&x,std::vector<MSpec> const&y,unsigned i){ MSpec const&a=x[i],&b=y[i]; if(a.kind!=b.kind) return false; uint64_t ma=a.a,mb=b.a; switch(a.kind){ case 0: ma&=3; mb&=3; break; default: break; } if(ma!=mb) return false; if(a.kind<2) return true; bool s=spec_same(x,y,(unsigned)a.dep<4?(unsigned)a.dep:0); return a.dep==b.dep? s : false; }
// every type the registry holds refers only to types of that registry
static void closed(Registry&r){ for(RegistryIterator i=r.begin();i!=r.end();++i){ CHECK(r.get(i.getName())==&*i,"every name resolves to its type"); std::set<Type const*> d=i->dependsOn(); for(std::set<Type const*>::iterator k=d.begin();k!=d.end();++k) CHECK(r.isIncluded(**k),"types refer only to types of their own registry"); } }
static void find_reach(Type const&t,std::set<Type const*>&s){ if(!s.insert(&t).second) return; std::set<Type const*> d=t.dependsOn(); for(std::set<Type const*>::iterator k=d.begin();k!=d.end();++k) find_reach(**k,s); }
HARNESS(merge){
  containers(); unsigned n=(unsigned)__sym_param("n",3),kinds=(unsigned)__sym_param("kinds",0x7f); uint64_t base=__sym_live(); { g_vsz=(kinds&0x10)&&sym_choice("vsz",2)?40:0;
  Registry dst; std::vector<MSpec> ds,ss; mkreg(dst,n,ds,(unsigned)__sym_param("dkinds",kinds),true,true); std::map<std::string,Type const*> had; for(RegistryIterator i=dst.begin();i!=dst.end();++i) had[i.getName()]=&*i;
  { Registry src; mkreg(src,n,ss,kinds,true); bool al=__sym_param("alias",0)!=0; int at=-1; if(al&&ss[0].kind>=0){ at=0; src.alias(MN[0],"/ns/Al","asrc"); }
    int dal=-1; if(al&&sym_bool("dalias")&&ds[1].kind>=0){ dal=1; dst.alias(MN[1],"/ns/Al","bsrc"); had["/ns/Al"]=dst.get(MN[1]); } std::map<std::string,std::string> hads; for(RegistryIterator i=dst.begin();i!=dst.end();++i) hads[i.getName()]=i.getSource();
    for(unsigned i=0;i<n;i++) if(ss[i].kind>=0){ src.get(MN[i])->getMetaData().add("k","s"); src.get(MN[i])->getMetaData().add("o","x"); } for(unsigned i=0;i<n;i++) if(ds[i].kind>=0) dst.get(MN[i])->getMetaData().add("k","d");
    // which names conflict? (dependencies differ in name only if the definitions under these names are the same)
    bool conflict=false; for(unsigned i=0;i<n;i++) if(ss[i].kind>=0&&ds[i].kind>=0) conflict|=!src.get(MN[i])->isSame(*dst.get(MN[i])); for(RegistryIterator i=src.begin();i!=src.end();++i){ Type const*o=dst.get(i.getName()); if(o&&!o->isSame(*i)) conflict=true; }
    for(unsigned i=0;i<n;i++) if(ss[i].kind>=0&&ds[i].kind>=0&&spec_same(ss,ds,i)) CHECK(src.get(MN[i])->isSame(*dst.get(MN[i])),"equal definitions are the same");
    std::map<std::string,std::string> srcn; for(RegistryIterator i=src.begin();i!=src.end();++i) srcn[i.getName()]=i->getName();
    bool ok=false; try { dst.merge(src); ok=true; CHECK(!conflict,"conflicting definitions are refused"); COVER("merged"); } catch(DefinitionMismatch&){ CHECK(conflict,"compatible registries can be merged"); COVER("conflict"); }
    for(std::map<std::string,Type const*>::iterator i=had.begin();i!=had.end();++i) CHECK(dst.get(i->first)==i->second,"existing definitions are kept");
    if(ok){ for(RegistryIterator i=src.begin();i!=src.end();++i){ Type const*t=dst.get(i.getName()); CHECK(t!=0,"all names of the source are defined"); if(!t) continue; CHECK(t->isSame(*i),"merged types have the definition of the source"); CHECK(t!=&*i,"merged types are copies"); RegistryIterator q=dst.find(i.getName()); CHECK(q.getName()==i.getName(),"all names of the source are defined"); if(!had.count(i.getName())){ CHECK(q.isPersistent()==i.isPersistent(),"new entries keep their attributes"); CHECK(q.getSource()==i.getSource(),"new entries keep their attributes"); } else { std::string w=hads[i.getName()]; CHECK(q.getSource()==(w.empty()?i.getSource():w),"existing entries keep their source, and get one if they had none"); } }
      for(RegistryIterator i=dst.begin();i!=dst.end();++i) CHECK(had.count(i.getName())||srcn.count(i.getName())||(i.isAlias()&&i->getCategory()!=Type::Compound&&i->getCategory()!=Type::Numeric&&i->getCategory()!=Type::Enum),"nothing else is added");
      for(unsigned i=0;i<n&&!(at>=0&&dal>=0);i++){ Type const*t=dst.get(MN[i]); if(!t) continue; MetaData::Values v=t->getMetaData("k"); CHECK(v.count("s")==(ss[i].kind>=0?1u:0u)&&v.count("d")==(ds[i].kind>=0?1u:0u)&&t->getMetaData("o").size()==(ss[i].kind>=0?1u:0u),"metadata is merged"); }
      size_t sz=dst.size(); dst.merge(src); CHECK(dst.size()==sz,"merging again changes nothing"); }
    closed(dst); __sym_observe(ok); }
  // the source is gone: the result stands on its own
  closed(dst); uint64_t h=0; for(RegistryIterator i=dst.begin();i!=dst.end();++i) h=h*31+i->getSize(); __sym_observe(h); }
  CHECK(__sym_live()==base||__sym_param("noleak",0),"nothing is leaked"); }
static void check_extract(Registry&src,Registry&res,std::set<std::string> const&want){
  for(RegistryIterator i=res.begin();i!=res.end();++i){ CHECK(want.count(i.getName()),"only what is needed is extracted"); Type const*t=src.get(i.getName()); CHECK(t&&t->isSame(*i),"extracted types have the original definition"); CHECK(t!=&*i,"extracted types are copies"); RegistryIterator q=src.find(i.getName()); CHECK(q.isAlias()==i.isAlias()&&q.isPersistent()==i.isPersistent()&&q.getSource()==i.getSource(),"extracted entries keep their attributes"); if(t){ MetaData::Map a=i->getMetaData().get(),b=t->getMetaData().get(); a.erase("source_id"); b.erase("source_id"); CHECK(a==b,"metadata is kept"); } }
  for(std::set<std::string>::const_iterator i=want.begin();i!=want.end();++i) CHECK(res.get(*i)!=0,"everything needed is extracted"); closed(res); }
HARNESS(minimal){
  containers(); unsigned n=(unsigned)__sym_param("n",4),kinds=(unsigned)__sym_param("kinds",0x7f); uint64_t base=__sym_live(); { Registry*res; { Registry src; std::vector<MSpec> ss; mkreg(src,n,ss,kinds,false); unsigned al=sym_choice("al",n); src.alias(MN[al],"/ns/Al",sym_bool("pers"),"asrc"); for(unsigned i=0;i<n;i++){ src.get(MN[i])->getMetaData().add("k",MN[i]); if(ss[i].kind==2) static_cast<Compound const*>(src.get(MN[i]))->getField("f")->getMetaData().add("fk","1"); }
    unsigned x=sym_choice("x",n); bool wa=sym_bool("aliases"); bool by=al==x&&sym_bool("byalias"); res=src.minimal(by?"/ns/Al":MN[x],wa);
    std::set<Type const*> reach; find_reach(*src.get(MN[x]),reach); std::set<std::string> want; for(RegistryIterator i=src.begin();i!=src.end();++i){ if(!reach.count(&*i)) continue; if(i.isAlias()&&!wa) continue; want.insert(i.getName()); }
    { Registry emp; for(RegistryIterator i=emp.begin();i!=emp.end();++i) want.insert(i.getName()); }
    check_extract(src,*res,want); for(unsigned i=0;i<n;i++) if(ss[i].kind==2&&res->get(MN[i])) CHECK(static_cast<Compound const*>(res->get(MN[i]))->getField("f")->getMetaData("fk").size()==1,"field metadata is kept"); COVER("minimal"); __sym_observe(res->size());
    try { Registry*q=src.minimal("/nope",wa); CHECK(false,"unknown types are refused"); delete q; } catch(std::runtime_error&){} }
  closed(*res); delete res; }
  CHECK(__sym_live()==base,"nothing is leaked"); }
HARNESS(minimalauto){
  containers(); unsigned n=(unsigned)__sym_param("n",3),kinds=(unsigned)__sym_param("kinds",0x7f); uint64_t base=__sym_live(); { Registry*res; { Registry src,aut; std::vector<MSpec> ss; mkreg(src,n,ss,kinds,false); unsigned al=sym_choice("al",n); src.alias(MN[al],"/ns/Al",true,"asrc"); bool isauto[4]; for(unsigned i=0;i<n;i++){ isauto[i]=sym_bool("auto"); if(isauto[i]) src.get(MN[i])->merge(aut); }
    bool aa=sym_bool("autoal"); if(aa&&aut.get(MN[al])) aut.alias(MN[al],"/ns/Al"); else aa=false; bool keep=sym_bool("keep"); res=src.minimal(aut,keep);
    std::set<Type const*> reach; for(RegistryIterator i=src.begin();i!=src.end();++i) if(!i.isAlias()&&!aut.has(i.getName())) find_reach(*i,reach); std::set<std::string> want; for(RegistryIterator i=src.begin();i!=src.end();++i){ if(!reach.count(&*i)) continue; if(i.isAlias()&&!keep&&aut.has(i.getName())) { RegistryIterator q=res->find(i.getName()); if(!(q==res->end())) { want.insert(i.getName()); CHECK(i->getCategory()==Type::Array||i->getCategory()==Type::Pointer||i->getCategory()==Type::Container,"aliases of the given registry are left out"); } continue; } want.insert(i.getName()); }
    { Registry emp; for(RegistryIterator i=emp.begin();i!=emp.end();++i) want.insert(i.getName()); }
    check_extract(src,*res,want); COVER("minimal"); __sym_observe(res->size()); }
  closed(*res); delete res; }
  CHECK(__sym_live()==base,"nothing is leaked"); }
// R06: registries are the same exactly when they define the same types under the same names
HARNESS(regsame){
  containers(); unsigned n=(unsigned)__sym_param("n",2),kinds=(unsigned)__sym_param("kinds",0x7f); Registry a,b; std::vector<MSpec> as,bs; mkreg(a,n,as,kinds,true); mkreg(b,n,bs,kinds,true); bool al=__sym_param("alias",0)!=0; std::string aa,ba;
  if(al){ unsigned x=sym_choice("aal",n+1); if(x<n&&as[x].kind>=0){ a.alias(MN[x],"/ns/Al"); aa=MN[x]; } x=sym_choice("bal",n+1); if(x<n&&bs[x].kind>=0){ b.alias(MN[x],"/ns/Al"); ba=MN[x]; } }
  bool same=aa==ba; for(unsigned i=0;i<n;i++){ if((as[i].kind<0)!=(bs[i].kind<0)) same=false; else if(as[i].kind>=0&&!spec_same(as,bs,i)) same=false; }
  // types under the same names with the same definition: aliases of different but equal types do not count as different
  if(aa!=ba&&!aa.empty()&&!ba.empty()) __sym_stop();
  bool r=a.isSame(b); if(same) CHECK(r,"equal registries are the same"); 
  bool names=a.size()==b.size(); if(names) for(RegistryIterator i=a.begin(),j=b.begin();i!=a.end();++i,++j) if(i.getName()!=j.getName()){ names=false; break; } if(!names) CHECK(!r,"registries with different names differ"); else { bool d=false; for(unsigned i=0;i<n;i++) if(as[i].kind>=0&&!a.get(MN[i])->isSame(*b.get(MN[i]))) d=true; CHECK(r==!d,"registries differ exactly when a definition does"); bool dk=false; for(unsigned i=0;i<n;i++) if(as[i].kind!=bs[i].kind&&(as[i].kind<2||bs[i].kind<2)) dk=true; if(dk) CHECK(!r,"registries differ when a definition does"); for(unsigned i=0;i<n;i++) if(as[i].kind==bs[i].kind&&as[i].kind>=0&&(as[i].kind!=0?as[i].a!=bs[i].a:(as[i].a&3)!=(bs[i].a&3))) dk=true; if(dk) CHECK(!r,"registries differ when a definition does"); }
  CHECK(b.isSame(a)==r,"the comparison is symmetric"); CHECK(a.isSame(a)&&b.isSame(b),"a registry is the same as itself"); if(r) COVER("same"); else COVER("different"); __sym_observe(r); }
// L03: exporters see every persistent definition once, after everything it refers to
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <sstream>
struct RecExporter: public Exporter { std::vector<std::string> order; int state; RecExporter():state(0){}
  void begin(std::ostream&,Registry const&){ CHECK(state==0,"begin comes first"); state=1; } void end(std::ostream&,Registry const&){ CHECK(state==1,"end comes last"); state=2; }
  bool save(std::ostream&,RegistryIterator const&t){ CHECK(state==1,"types are saved between begin and end"); order.push_back(t.getName()); return sel?sym_bool("written"):true; } bool sel; using Exporter::save; };
HARNESS(exporter){
  containers(); unsigned n=(unsigned)__sym_param("n",3),kinds=(unsigned)__sym_param("kinds",0x7f); Registry r; std::vector<MSpec> ss; mkreg(r,n,ss,kinds,false); unsigned al=sym_choice("al",n+2); if(al<n){ bool ns=sym_choice("ns",2)!=0; bool pers=sym_bool("pers"); r.alias(MN[al],ns?"/ns/Al":"/0Al",pers,"asrc"); } if(al==n){ r.build(std::string(MN[n-1])+"[2]"); r.alias(std::string(MN[n-1])+"[2]","/ns/Arr"); }
  bool rec=false; for(unsigned i=0;i<n;i++) if(ss[i].kind==5) rec=true; std::set<std::string> want; for(RegistryIterator i=r.begin();i!=r.end();++i) if(i.isPersistent()) want.insert(i.getName());
  RecExporter e; e.sel=__sym_param("sel",0); std::ostringstream o; utilmm::config_set cfg; bool ok=false; try { static_cast<Exporter&>(e).save(o,cfg,r); ok=true; CHECK(!rec,"recursive types are refused"); COVER("exported"); } catch(ExportError&){ CHECK(rec,"registries without recursive types can be exported"); COVER("recursive"); }
  std::set<std::string> done; for(size_t k=0;k<e.order.size();k++){ std::string const&nm=e.order[k]; CHECK(want.count(nm),"only persistent definitions are saved"); CHECK(done.insert(nm).second,"definitions are saved once"); Type const*t=r.get(nm); std::set<Type const*> reach; find_reach(*t,reach); for(std::set<Type const*>::iterator q=reach.begin();q!=reach.end();++q){ if(*q==t&&t->getName()==nm) continue; if(want.count((*q)->getName())) CHECK(done.count((*q)->getName()),"definitions come after what they refer to"); } }
  if(ok){ CHECK(done.size()==want.size(),"all persistent definitions are saved"); CHECK(e.state==2,"end comes last"); } __sym_observe(e.order.size()); for(size_t k=0;k<e.order.size();k++) observe_str(e.order[k]); }
// R10: containers are created once; strings bring their character type along when it is missing
HARNESS(createcontainers){
  containers(); uint64_t base=__sym_live(); { Registry r; addnum(r,"/T",4); r.alias("/T","/U"); Type const*str=0,*vec=0,*vvec=0,*vstr=0; unsigned ops=(unsigned)__sym_param("ops",4); bool i8=false;
  for(unsigned o=0;o<ops;o++) switch(sym_choice("op",6)){
    case 0:{ if(i8||str) __sym_stop(); r.add(new Numeric("/int8_t",1,Numeric::SInt)); i8=true; break; }
    case 1:{ Type const*on= sym_choice("on",2)&&r.get("/int8_t")?r.get("/int8_t"):r.get("/T"); Type const*s=&Container::createContainer(r,"/std/string",*on); CHECK(!str||s==str,"a container exists once"); str=s; CHECK(s->getName()=="/std/string"&&s->getSize()==sizeof(std::string)&&s->getCategory()==Type::Container,"a string is a string"); CHECK(&inner(*s)==r.get("/int8_t"),"the characters of a string are the ones of the registry"); Type const&c=inner(*s); CHECK(c.getCategory()==Type::Numeric&&c.getSize()==1&&static_cast<Numeric const&>(c).getNumericCategory()==Numeric::SInt,"characters are signed bytes"); COVER("string"); if(!i8) COVER("created"); break; }
    case 2:{ Type const*v=&Container::createContainer(r,"/std/vector",*r.get(sym_choice("via",2)?"/U":"/T")); CHECK(!vec||v==vec,"a container exists once"); vec=v; CHECK(v->getName()=="/std/vector</T>"&&v->getSize()==sizeof(std::vector<char>)&&&inner(*v)==r.get("/T"),"a container knows its elements"); COVER("vector"); break; }
    case 3:{ if(!vec) __sym_stop(); Type const*v=&Container::createContainer(r,"/std/vector",*vec); CHECK(!vvec||v==vvec,"a container exists once"); vvec=v; CHECK(v->getName()=="/std/vector</std/vector</T>>"&&&inner(*v)==vec,"a container knows its elements"); break; }
    case 4:{ if(!str) __sym_stop(); Type const*v=&Container::createContainer(r,"/std/vector",*str); CHECK(!vstr||v==vstr,"a container exists once"); vstr=v; CHECK(v->getName()=="/std/vector</std/string>"&&&inner(*v)==str,"a container knows its elements"); break; }
    case 5:{ size_t n=r.size(); bool ok=false; try { Container::createContainer(r,"/std/list",*r.get("/T")); ok=true; } catch(UnknownContainer&){} CHECK(!ok&&r.size()==n,"unknown containers are refused"); std::list<Type const*> two; two.push_back(r.get("/T")); two.push_back(r.get("/T")); try { Container::createContainer(r,"/std/vector",two); ok=true; } catch(std::runtime_error&){} CHECK(!ok&&r.size()==n,"containers have one element type"); COVER("refused"); break; } }
  size_t want=1+(i8||str?1:0)+(str?1:0)+(vec?1:0)+(vvec?1:0)+(vstr?1:0); size_t got=0; for(RegistryIterator i=r.begin();i!=r.end();++i){ if(!i.isAlias()) got++; CHECK(r.get(i.getName())==&*i,"every name resolves to its type"); CHECK(r.isIncluded(*i),"every name resolves to its type"); std::set<Type const*> d=i->dependsOn(); for(std::set<Type const*>::iterator k=d.begin();k!=d.end();++k) CHECK(r.isIncluded(**k),"types refer only to types of their own registry"); } CHECK(got==want,"nothing else is added"); __sym_observe(got); }
  CHECK(__sym_live()==base,"nothing is leaked"); COVER("create"); }
