#include "common.h"
#include <typelib/registryiterator.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
#include <typelib/utilmm/configset.hh>
#include <typelib/exporter.hh>
#include <typelib/importer.hh>
#include <lang/tlb/export.hh>
#include <lang/tlb/import.hh>
#include <sstream>
static void containers(){ Container::registerContainer("/std/vector",Vector::factory); Container::registerContainer("/std/string",String::factory); }
static std::string dump(Registry const&r){ std::ostringstream o; utilmm::config_set c; TlbExport e; static_cast<Exporter&>(e).save(o,c,r); return o.str(); }
static void load(std::string const&s,Registry&r){ std::istringstream i(s); utilmm::config_set c; TlbImport imp; imp.load(i,c,r); }
static bool meta_same(MetaData const&a,MetaData const&b){ MetaData::Map x=a.get(),y=b.get(); return x==y; }
// the definition stored under one name, compared member by member
static void same_type(Type const&a,Type const&b){
  CHECK(a.getName()==b.getName(),"names survive"); CHECK(a.getCategory()==b.getCategory(),"categories survive"); if(a.getCategory()!=b.getCategory()) return; CHECK(a.getSize()==b.getSize(),"sizes survive");
  switch(a.getCategory()){
    case Type::Numeric: CHECK(static_cast<Numeric const&>(a).getNumericCategory()==static_cast<Numeric const&>(b).getNumericCategory(),"numeric categories survive"); break;
    case Type::Enum: CHECK(static_cast<Enum const&>(a).values()==static_cast<Enum const&>(b).values(),"enum values survive"); break;
    case Type::Array: CHECK(dim(a)==dim(b),"dimensions survive"); CHECK(inner(a).getName()==inner(b).getName(),"element types survive"); break;
    case Type::Pointer: CHECK(inner(a).getName()==inner(b).getName(),"element types survive"); break;
    case Type::Container: CHECK(static_cast<Container const&>(a).kind()==static_cast<Container const&>(b).kind(),"container kinds survive"); CHECK(inner(a).getName()==inner(b).getName(),"element types survive"); break;
    case Type::Compound:{ Compound::FieldList const&x=asC(a).getFields(),&y=asC(b).getFields(); CHECK(x.size()==y.size(),"fields survive"); if(x.size()!=y.size()) return; Compound::FieldList::const_iterator i=x.begin(),j=y.begin(); for(;i!=x.end();++i,++j){ CHECK(i->getName()==j->getName()&&i->getOffset()==j->getOffset()&&i->getType().getName()==j->getType().getName(),"fields survive"); CHECK(meta_same(i->getMetaData(),j->getMetaData()),"field metadata survives"); } break; }
    default: break; } }
static void same_registry(Registry&a,Registry&b,bool meta=true){
  for(RegistryIterator i=a.begin();i!=a.end();++i){ if(!i.isPersistent()) continue; RegistryIterator q=b.find(i.getName()); CHECK(!(q==b.end()),"all names survive"); if(q==b.end()) continue; CHECK(i.isAlias()==q.isAlias(),"aliases survive"); same_type(*i,*q); CHECK(i->isSame(*q),"definitions survive"); if(meta) CHECK(meta_same(i->getMetaData(),q->getMetaData()),"metadata survives"); if(!i.isAlias()&&i->getCategory()!=Type::Container) CHECK(i.getSource()==q.getSource(),"source ids survive"); CHECK(q.isPersistent(),"all names survive"); }
  for(RegistryIterator i=b.begin();i!=b.end();++i){ CHECK(b.get(i.getName())==&*i,"every name resolves to its type"); if(i.isPersistent()){ RegistryIterator q=a.find(i.getName()); CHECK(!(q==a.end())||i.isAlias(),"nothing is added"); } } }
static uint64_t size(){ static const uint64_t z[]={4,12,0,1000}; if(uint64_t m=__sym_param("maxsize",0)) return sym_range("size",0,m); return z[sym_choice("size",(unsigned)__sym_param("sizes",2))]; }
// L01: exporting and importing again gives the same definitions
HARNESS(tlb){
  containers(); unsigned n=(unsigned)__sym_param("n",3),kinds=(unsigned)__sym_param("kinds",0x3ff),nf=(unsigned)__sym_param("nf",1); static const char*nm[]={"/ns/A","/B","/ns/sub/C","/ns/D"}; static const char*sid[]={"","/dir/f.h:12"};
  Registry r; std::vector<Type const*> t; uint64_t off0=sym_range("off",0,__sym_param("maxoff",0));
  for(unsigned i=0;i<n;i++){ unsigned ok=kinds&(i?0x3ff:0x0f); unsigned k[10],c=0; for(unsigned b=0;b<10;b++) if(ok>>b&1) k[c++]=b; unsigned kk=k[c==1?0:sym_choice("kind",c)]; Type const*d=i?t[i==1?0:sym_choice("dep",i)]:0; Type*x=0; bool added=false; std::string s=sid[__sym_param("sids",0)?sym_choice("sid",2):0];
    switch(kk){
      case 0:{ static const Numeric::NumericCategory cat[]={Numeric::SInt,Numeric::UInt,Numeric::Float}; unsigned cc=sym_choice("cat",3); x=new Numeric(nm[i],size(),cat[cc]); break; }
      case 1:{ Enum*e=new Enum(nm[i]); static const int v[]={0,-1,2147483647,(-2147483647-1)}; unsigned q=sym_choice("nsym",3); if(q>0) e->add("B",v[sym_choice("val",4)]); if(q>1) e->add("A",v[sym_choice("val",4)]); x=e; break; }
      case 2: x=new OpaqueType(nm[i],size()); break;
      case 3: x=new NullType(nm[i]); break;
      case 4: case 5: case 6: case 7:{ Compound*co=new Compound(nm[i]); uint64_t off=i==n-1?off0:0; for(unsigned f=0;f<nf;f++){ Type const*ft= f?t[sym_choice("dep",i)]:d; if(!f){ if(kk==5) ft=r.build(d->getName()+"[3]"); if(kk==6) ft=r.build(d->getName()+"*"); if(kk==7) ft=&Container::createContainer(r,"/std/vector",*d); } co->addField(f?"g":"f",*ft,off); off+=ft->getSize(); if(__sym_param("meta",0)&&sym_bool("fmeta")) co->getField(f?"g":"f")->getMetaData().add("fk","v"); } co->setSize(off+sym_choice("tail",2)*5); x=co; break; }
      case 8:{ x=const_cast<Container*>(&Container::createContainer(r,"/std/vector",*d)); if(__sym_param("csize",0)){ static const unsigned cs[]={24,12,40,1}; x->setSize(cs[sym_choice("csize",4)]); } added=true; break; }
      case 9:{ r.alias(d->getName(),nm[i],s); t.push_back(d); continue; } }
    if(!added) r.add(x,s); t.push_back(x); if(__sym_param("meta",0)){ unsigned m=sym_choice("meta",5); if(m==4){ x->getMetaData().add("source_id","/x"); continue; } if(m==1) x->getMetaData().add("k",MetaData::Values()); if(m>=2){ x->getMetaData().add("k","v1"); } if(m==3){ x->getMetaData().add("k","v2"); x->getMetaData().add("j","v1"); } } }
  std::string s=dump(r); Registry q; load(s,q); same_registry(r,q); COVER("tlb"); __sym_observe(s.size()); observe_str(s); __sym_observe(q.size());
  // loading the same definitions again changes nothing
  size_t sz=q.size(); load(s,q); CHECK(q.size()==sz,"loading again changes nothing"); same_registry(r,q,false); }
// L01: every text in a definition survives, whatever its characters
static std::string text(unsigned n,bool name){ std::string s; unsigned l=(unsigned)__sym_param("min",0); l+=sym_choice("len",n+1-l); for(unsigned i=0;i<l;i++){ uint8_t c=sym_u8("c"); __sym_assume((c>=0x20)&(c<0x7f)); s.push_back((char)c); } return s; }
HARNESS(tlbtext){
  containers(); unsigned len=(unsigned)__sym_param("len",2); Registry r; Numeric*I=new Numeric("/int",4,Numeric::SInt); r.add(I); unsigned k=(unsigned)__sym_param("pos",0);
  std::string pre=__sym_param("tpl",0)?"/T</int>/":"/"; std::string s=text(len,k>=4); if(k>=4){ s=pre+s; if(s.find_first_of("*[]")!=s.npos||s[s.size()-1]==' '||s[pre.size()]==' '||!isValidTypename(s,true)||s=="/int") __sym_stop(); }
  switch(k){
    case 0:{ Compound*c=new Compound("/C"); c->addField(s,*I,0); r.add(c); break; }
    case 1:{ I->getMetaData().add(s,"x"); I->getMetaData().add("l",MetaData::Values()); break; }
    case 2:{ I->getMetaData().add("k",s); break; }
    case 3:{ Enum*e=new Enum("/E"); e->add(s,1); r.add(e); break; }
    case 4: r.add(new Numeric(s,2,Numeric::UInt)); break;
    case 5: r.add(new Enum(s)); break;
    case 6: r.add(new NullType(s)); break;
    case 7: r.add(new OpaqueType(s,3)); break;
    case 8:{ Compound*c=new Compound(s); c->addField("f",*I,0); r.add(c); Compound*d=new Compound("/zz/D"); d->addField("f",*c,0); Type const*ptr=r.build(s+"*"); if(!ptr) __sym_stop(); d->addField("p",*ptr,8); d->addField("v",Container::createContainer(r,"/std/vector",*c),16); r.add(d); break; }
    case 9: r.alias("/int",s); break;
  }
  if(__sym_param("sid",0)){ std::string x=text(len,false); Type*q=new Numeric("/q",1,Numeric::SInt); r.add(q,x); }
  std::string o=dump(r); Registry q; load(o,q); same_registry(r,q); COVER("text"); observe_str(s); observe_str(o); }
// L02: importing what others wrote
static void closed(Registry&r){ for(RegistryIterator i=r.begin();i!=r.end();++i){ CHECK(r.get(i.getName())==&*i,"every name resolves to its type"); std::set<Type const*> d=i->dependsOn(); for(std::set<Type const*>::iterator k=d.begin();k!=d.end();++k) CHECK(r.isIncluded(**k),"types refer only to types of their own registry"); } }
static const char*const DOC[]={
 "<typelib><compound name=\"/C\" size=\"8\"><field name=\"x\" type=\"/A[2]\" offset=\"0\"/></compound><numeric name=\"/A\" category=\"sint\" size=\"4\"/></typelib>",
 "<typelib><enum name=\"/E\"><value symbol=\"X\" value=\"-1\"/><value symbol=\"Y\" value=\"2\"/></enum><alias name=\"/F\" source=\"/E*\"/></typelib>",
 "<typelib><container name=\"/std/vector&lt;/E&gt;\" of=\"/O\" kind=\"/std/vector\" size=\"24\"/><opaque name=\"/O\" size=\"7\"><metadata key=\"k\"><![CDATA[v]]></metadata></opaque></typelib>",
 "<typelib><compound name=\"/C\" size=\"16\"><field name=\"x\" type=\"/D\" offset=\"8\"/><field name=\"y\" type=\"/D\" offset=\"0\"/></compound><null name=\"/N\"/><alias name=\"/D\" source=\"/A\"/><numeric name=\"/A\" category=\"uint\" size=\"8\"/></typelib>"};
static const char*const VAL[]={"name=\"","size=\"","type=\"","offset=\"","value=\"","source=\"","of=\"","kind=\"","category=\"","symbol=\""};
static void tryload(std::string const&s){
  Registry r; size_t base=r.size(); std::set<std::string> names; for(RegistryIterator i=r.begin();i!=r.end();++i) names.insert(i.getName());
  bool ok=false; try { load(s,r); ok=true; } catch(std::exception&){ }
  closed(r); for(RegistryIterator i=r.begin();i!=r.end();++i) CHECK(isValidTypename(i.getName(),true),"only valid names are defined"); for(std::set<std::string>::iterator i=names.begin();i!=names.end();++i) CHECK(r.get(*i)!=0,"existing definitions are kept");
  if(ok) COVER("loaded"); else COVER("refused"); __sym_observe(ok); __sym_observe(r.size()); }
HARNESS(tlbmutate){
  containers(); uint64_t base=__sym_live(); { std::string s=DOC[__sym_param("doc",0)]; unsigned w=(unsigned)__sym_param("w",1); unsigned at=sym_choice("at",(unsigned)s.size()-w+1); for(unsigned i=0;i<w;i++) { uint8_t c=sym_u8("c"); __sym_assume(c<0x80); s[at+i]=(char)c; } tryload(s); }
  CHECK(__sym_live()==base,"nothing is leaked"); }
// one attribute value replaced by arbitrary text
HARNESS(tlbattr){
  containers(); uint64_t base=__sym_live(); { std::string s=DOC[__sym_param("doc",0)]; std::vector<std::pair<size_t,size_t> > v; for(size_t i=s.find("=\"");i!=s.npos;i=s.find("=\"",i)){ size_t e=s.find('"',i+2); v.push_back(std::make_pair(i+2,e-i-2)); i=e; } std::pair<size_t,size_t> a=v[sym_choice("at",(unsigned)v.size())];
    std::string x=__sym_param("suffix",0)&&sym_bool("append")?s.substr(a.first,a.second):std::string(__sym_param("slash",0)?"/":""); unsigned l=sym_choice("len",(unsigned)__sym_param("len",2)+1); for(unsigned i=0;i<l;i++) x.push_back((char)sym_u8("c")); s=s.substr(0,a.first)+x+s.substr(a.first+a.second); tryload(s); }
  CHECK(__sym_live()==base,"nothing is leaked"); }
// elements removed, repeated or moved
HARNESS(tlbelements){
  containers(); uint64_t base=__sym_live(); { static const char*const el[]={"<numeric name=\"/A\" category=\"sint\" size=\"4\"/>","<alias name=\"/B\" source=\"/A\"/>","<compound name=\"/C\" size=\"24\"><field name=\"x\" type=\"/B[2]\" offset=\"0\"/><field name=\"y\" type=\"/A*\" offset=\"8\"/></compound>","<container name=\"/std/vector&lt;/B&gt;\" of=\"/B\" kind=\"/std/vector\" size=\"24\"/>","<enum name=\"/A\"><value symbol=\"X\" value=\"1\"/></enum>","<compound name=\"/B\" size=\"8\"><field name=\"x\" type=\"/C\" offset=\"0\"/></compound>","<compound name=\"/D\" size=\"8\"><field name=\"x\" type=\"/D*\" offset=\"0\"/></compound>","<alias name=\"/B\" source=\"/B\"/>","<!-- x -->"};
    static const char*const en[]={"/A","/B","/C","/std/vector</B>","/A","/B","/D","/B",""}; static const char*const ed[]={"","/A","/A/B","/B","","/C","/D","/B",""}; static const Type::Category ec[]={Type::Numeric,Type::NullType,Type::Compound,Type::Container,Type::Enum,Type::Compound,Type::Compound,Type::NullType,Type::NullType};
    std::string s="<typelib>"; unsigned n=(unsigned)__sym_param("n",3); std::map<std::string,unsigned> def; for(unsigned i=0;i<n;i++){ unsigned k=sym_choice("el",9); s+=el[k]; if(k<8&&!def.count(en[k])) def[en[k]]=k; } s+="</typelib>";
    // loadable: every definition refers, directly or not, to definitions only and never to itself
    std::set<std::string> okn; for(unsigned it=0;it<=n;it++) for(std::map<std::string,unsigned>::iterator i=def.begin();i!=def.end();++i){ bool o=true; const char*d=ed[i->second]; for(size_t k=0;d[k];k+=2) o&=okn.count(std::string(d+k,2))!=0; if(o) okn.insert(i->first); }
    bool want=okn.size()==def.size(); { Registry r; bool ok=false; try { load(s,r); ok=true; } catch(std::exception&){} CHECK(ok==want,"files that define all they refer to are loaded, others are refused"); if(ok) for(std::map<std::string,unsigned>::iterator i=def.begin();i!=def.end();++i){ Type const*t=r.get(i->first); CHECK(t!=0,"all definitions are loaded"); unsigned k=i->second; if(k==1) CHECK(t==r.get("/A"),"aliases name their type"); else if(t) CHECK(t->getCategory()==ec[k],"the first definition of a name counts"); } }
    tryload(s); }
  CHECK(__sym_live()==base,"nothing is leaked"); }
// the order of the definitions does not matter
HARNESS(tlborder){
  containers(); static const char*const el[]={"<numeric name=\"/A\" category=\"sint\" size=\"4\"/>","<alias name=\"/ns/B\" source=\"/A\"/>","<compound name=\"/C\" size=\"32\">@</compound>","<container name=\"/std/vector&lt;/A&gt;\" of=\"/A\" kind=\"/std/vector\" size=\"24\"/>","<compound name=\"/0\" size=\"40\"><field name=\"p\" type=\"/C*\" offset=\"0\"/><field name=\"c\" type=\"/C\" offset=\"8\"/></compound>"};
  unsigned n=(unsigned)__sym_param("n",5); std::vector<unsigned> left; for(unsigned i=0;i<n;i++) left.push_back(i); std::string s="<typelib>"; while(!left.empty()){ unsigned k=left.size()==1?0:sym_choice("next",(unsigned)left.size()); std::string d=el[left[k]]; size_t at=d.find('@'); if(at!=d.npos){ static const char*const fd[]={"<field name=\"x\" type=\"/ns/B[2]\" offset=\"0\"/>","<field name=\"y\" type=\"/std/vector&lt;/A&gt;\" offset=\"8\"/>","<field name=\"z\" type=\"/A\" offset=\"8\"/>"}; std::string f; std::vector<unsigned> fl; for(unsigned i=0;i<3;i++) fl.push_back(i); while(!fl.empty()){ unsigned q=fl.size()==1?0:sym_choice("field",(unsigned)fl.size()); f+=fd[fl[q]]; fl.erase(fl.begin()+q); } d=d.substr(0,at)+f+d.substr(at+1); } s+=d; left.erase(left.begin()+k); } s+="</typelib>";
  Registry e; Numeric*A=new Numeric("/A",4,Numeric::SInt); e.add(A); e.alias("/A","/ns/B"); Compound*C=new Compound("/C"); C->addField("x",*e.build("/A[2]"),0); Container const&v=Container::createContainer(e,"/std/vector",*A); C->addField("y",v,8); C->addField("z",*A,8); C->setSize(32); e.add(C); Compound*Z=new Compound("/0"); Z->addField("p",*e.build("/C*"),0); Z->addField("c",*C,8); Z->setSize(40); e.add(Z);
  Registry r; load(s,r); same_registry(e,r); CHECK(r.get("/ns/B[2]")!=0&&r.get("/ns/B[2]")==r.get("/A[2]"),"every name resolves to its type"); COVER("order"); __sym_observe(r.size()); }
