#include "common.h"
#include <typelib/registryiterator.hh>
#include <typelib/typebuilder.hh>
#include <typelib/utilmm/configset.hh>
#include <typelib/exporter.hh>
#include <lang/idl/export.hh>
#include <sstream>
static void containers(){ Container::registerContainer("/std/vector",Vector::factory); Container::registerContainer("/std/string",String::factory); }
static std::vector<std::string> tokens(std::string const&s){ std::vector<std::string> t; for(size_t i=0;i<s.size();){ char c=s[i]; if(c==' '||c=='\n'){ i++; continue; } if(isalnum((unsigned char)c)||c=='_'||c==':'){ size_t b=i; while(i<s.size()&&(isalnum((unsigned char)s[i])||s[i]=='_'||s[i]==':')) i++; { std::string w=s.substr(b,i-b),o; for(size_t k=0;k<w.size();k++) if(!(w[k]=='_'&&(k==0||w[k-1]==':'))) o+=w[k]; t.push_back(o); } } else { t.push_back(std::string(1,c)); i++; } } return t; }
// a reader of the IDL subset the exporter writes; names are resolved where they are used
struct Idl { std::vector<std::string> t; size_t i; std::vector<std::string> mods; std::map<std::string,std::string> decl; std::vector<size_t> count; bool err;
  struct Field { std::string type,name,dim; }; std::map<std::string,std::vector<Field> > structs; std::map<std::string,std::vector<std::string> > enums; std::vector<std::string> order;
  Idl(std::string const&s):t(tokens(s)),i(0),err(false){} std::string tok(){ if(i<t.size()) return t[i++]; err=true; return ""; } bool is(const char*x){ if(i<t.size()&&t[i]==x){ i++; return true; } return false; } void expect(const char*x){ if(!is(x)) err=true; }
  std::string path(std::string const&n){ std::string p; for(size_t k=0;k<mods.size();k++) p+="::"+mods[k]; return p+"::"+n; }
  void declare(std::string const&n,std::string const&what){ std::string p=path(n); CHECK(!decl.count(p),"names are declared once"); decl[p]=what; order.push_back(p); if(!count.empty()) count.back()++; }
  static bool builtin(std::string const&w){ static const char*const b[]={"boolean","octet","short","long","unsigned","float","double","string","any"}; for(unsigned k=0;k<9;k++) if(w==b[k]) return true; return false; }
  std::string type(){ std::string w=tok(); if(w=="sequence"){ expect("<"); std::string e=type(); expect(">"); return "seq:"+e; } if(builtin(w)){ std::string r=w; if(w=="unsigned"){ std::string x=tok(); r+=" "+x; w=x; } if(w=="long"&&is("long")) r+=" long"; return r; } CHECK(decl.count(w),"names are declared before they are used"); return w; }
  void item(){ if(is("module")){ std::string n=tok(); expect("{"); mods.push_back(n); count.push_back(0); while(!err&&!is("}")) item(); expect(";"); CHECK(count.empty()||count.back()>0,"modules are not empty"); mods.pop_back(); count.pop_back(); if(!count.empty()) count.back()++; return; }
    if(is("struct")){ std::string n=tok(); expect("{"); std::vector<Field> f; while(!err&&!is("}")){ Field x; x.type=type(); x.name=tok(); if(is("[")){ x.dim=tok(); expect("]"); } expect(";"); f.push_back(x); } expect(";"); declare(n,"struct"); structs[path(n)]=f; return; }
    if(is("enum")){ std::string n=tok(); expect("{"); std::vector<std::string> v; while(!err&&!is("}")){ v.push_back(tok()); if(!is(",")&&i<t.size()&&t[i]!="}") err=true; } expect(";"); declare(n,"enum"); enums[path(n)]=v; return; }
    if(is("typedef")){ std::string ty=type(); std::string n=tok(); if(is("[")){ ty+="["+tok()+"]"; expect("]"); } expect(";"); declare(n,ty); return; }
    err=true; }
  void parse(){ while(!err&&i<t.size()) item(); CHECK(!err,"the output can be read"); } };
static std::string pre,suf;
static std::string colons(std::string const&ns){ std::string o; for(size_t i=0;i<ns.size();i++) if(ns[i]=='/') o+="::"; else o+=ns[i]; return o; }
static std::string ipath(std::string const&ns){ return colons(pre+ns+suf); }
// the IDL type for a value of type t (arrays give their dimension)
static std::string want(Idl&d,Type const&t,std::string const&used,std::string const&dim_){
  switch(t.getCategory()){
    case Type::Numeric:{ Numeric const&n=static_cast<Numeric const&>(t); CHECK(dim_.empty(),"array dimensions are kept"); if(t.getName()=="/bool") return "boolean"; if(n.getNumericCategory()==Numeric::Float) return n.getSize()==4?"float":"double"; if(n.getSize()==1) return "octet"; std::string u=n.getNumericCategory()==Numeric::UInt?"unsigned ":""; return u+(n.getSize()==2?"short":n.getSize()==4?"long":"long long"); }
    case Type::Opaque: return "any";
    case Type::Compound: case Type::Enum: CHECK(dim_.empty(),"array dimensions are kept"); return ipath(t.getNamespace())+t.getBasename();
    case Type::Container: CHECK(dim_.empty(),"array dimensions are kept"); if(t.getName()=="/std/string") return "string"; { std::string s=d.decl.count(used)?d.decl[used]:""; CHECK(s=="seq:"+want(d,inner(t),s.size()>4?s.substr(4):"",""),"containers are sequences of their elements"); return used; }
    case Type::Array:{ char b[32]; snprintf(b,sizeof b,"%lu",(unsigned long)dim(t)); CHECK(dim_==b,"array dimensions are kept"); return want(d,inner(t),used,""); }
    default: return "?"; } }
static Type* mknum(Registry&r,unsigned k){ switch(k){ case 0: return new Numeric("/int32_t",4,Numeric::SInt); case 1: return new Numeric("/uint16_t",2,Numeric::UInt); case 2: return new Numeric("/uint8_t",1,Numeric::UInt); case 3: return new Numeric("/double",8,Numeric::Float); case 4: return new Numeric("/bool",1,Numeric::UInt); case 5: return new Numeric("/uint64_t",8,Numeric::UInt); default: return new Numeric("/float",4,Numeric::Float); } }
HARNESS(idl){
  containers(); Registry r; unsigned n=(unsigned)__sym_param("n",2); static const char*const NS[]={"/","/a/","/a/b/","/ab/"}; static const char*const BN[]={"X","Y","Z","W"}; unsigned nns=(unsigned)__sym_param("nns",4),kinds=(unsigned)__sym_param("kinds",0xff); std::vector<Type const*> t; bool refuse=false; bool any=false;
  unsigned pk=sym_choice("prefix",(unsigned)__sym_param("opts",1)); pre= pk==1||pk==3?"/P":""; suf= pk>=2?"S/":""; 
  Type*num=mknum(r,sym_choice("num",(unsigned)__sym_param("nums",1))); r.add(num); if(!r.get("/int8_t")) r.add(new Numeric("/int8_t",1,Numeric::SInt)); if(kinds&0x40){ any=sym_bool("any"); r.add(new OpaqueType("/c/O",4)); refuse=!any; }
  for(unsigned i=0;i<n;i++){ std::string nm=std::string(NS[sym_choice("ns",nns)])+BN[i]; unsigned k[8],c=0; for(unsigned b=0;b<8;b++) if(kinds>>b&1) k[c++]=b; unsigned kk=k[sym_choice("kind",c)];
    if(kk==0){ Enum*e=new Enum(nm); e->add("S1",3); e->add("S0",1); r.add(e); t.push_back(e); continue; }
    unsigned dn=sym_choice("dep",i+1); Type const*d= dn==i?num:t[dn]; if(__sym_param("deep",0)){ unsigned w=sym_choice("wrap",3); if(w==1) d=&Container::createContainer(r,"/std/vector",*d); if(w==2) d=&String::createContainer(r,"/std/string",*r.get("/int8_t")); } Type const*f=d;
    if(kk==2) f=r.build(d->getName()+"[3]"); if(kk==3) f=&Container::createContainer(r,"/std/vector",*d); if(kk==4){ f=r.build(d->getName()+"*"); refuse=true; } if(kk==5) f=&String::createContainer(r,"/std/string",*r.get("/int8_t")); if(kk==6) f=r.get("/c/O"); if(kk==7){ f=r.build(d->getName()+(sym_bool("pa")?"*[2]":"[2][3]")); refuse=true; }
    Compound*co=new Compound(nm); co->addField("f",*f,0); co->addField("g",*num,64); r.add(co); t.push_back(co); }
  std::string aln; Type const*alt=0; if(__sym_param("alias",0)){ unsigned a=sym_choice("alias",n+2); aln=std::string(NS[sym_choice("ans",nns)])+"Al"; if(a<n) alt=t[a]; else if(a==n) alt=r.build(t[n-1]->getName()+"[4]"); else alt=&Container::createContainer(r,"/std/vector",*t[n-1]); r.alias(alt->getName(),aln); }
  utilmm::config_set cfg; if(!pre.empty()) cfg.set("namespace_prefix",pre); if(!suf.empty()) cfg.set("namespace_suffix","S"); if(any) cfg.set("opaque_as_any","1");
  static const char*const BT[]={"2","20","40","200","4"}; static const size_t BV[]={2,20,40,200,4}; size_t blob=0; if(__sym_param("blob",0)){ unsigned b=sym_choice("blob",5); blob=BV[b]; cfg.set("blob_threshold",BT[b]); }
  IDLExport e; if(__sym_param("twice",0)==2){ Registry q; Enum*x=new Enum("/a/QE"); x->add("Q",1); q.add(x); q.alias("/a/QE","/c/QA"); Container::createContainer(q,"/std/vector",*x); std::ostringstream o; utilmm::config_set c2; c2.set("namespace_prefix","/Z"); c2.set("blob_threshold","1"); c2.set("opaque_as_any","1"); c2.insert("selected","/a/QE"); c2.insert("selected","/std/vector</a/QE>"); static_cast<Exporter&>(e).save(o,c2,q); } std::ostringstream o; bool ok=false; try { static_cast<Exporter&>(e).save(o,cfg,r); ok=true; CHECK(!refuse,"types IDL cannot express are refused"); } catch(UnsupportedType&){ CHECK(refuse,"types IDL can express are exported"); COVER("refused"); }
  __sym_observe(ok); if(!ok) return; observe_str(o.str());
  Idl d(o.str()); d.parse(); size_t ns=0,ne=0;
  for(unsigned i=0;i<n;i++){ std::string p=ipath(t[i]->getNamespace())+t[i]->getBasename(); if(blob&&t[i]->getSize()>blob){ CHECK(d.decl.count(p)&&d.decl[p]=="seq:octet","large types are sequences of octets"); COVER("blob"); continue; } if(t[i]->getCategory()==Type::Enum){ ne++; CHECK(d.enums.count(p),"all enums are declared"); std::vector<std::string> v=d.enums[p]; CHECK(v.size()==2&&((v[0]=="S0"&&v[1]=="S1")||(v[0]=="S1"&&v[1]=="S0")),"all symbols are declared"); continue; }
    ns++; CHECK(d.structs.count(p),"all structures are declared"); std::vector<Idl::Field> f=d.structs[p]; CHECK(f.size()==2,"all fields are declared"); if(f.size()!=2) continue; CHECK(f[0].name=="f"&&f[1].name=="g","all fields are declared"); Compound::FieldList const&fl=asC(*t[i]).getFields(); CHECK(f[0].type==want(d,fl.front().getType(),f[0].type,f[0].dim),"fields have the type they are declared with"); CHECK(f[1].type==want(d,*num,f[1].type,f[1].dim),"fields have the type they are declared with"); }
  CHECK(d.structs.size()==ns&&d.enums.size()==ne,"nothing else is declared");
  if(alt){ std::string p=ipath(aln.substr(0,aln.size()-2))+"Al"; CHECK(d.decl.count(p),"aliases are declared"); std::string x=d.decl[p]; if(alt->getCategory()==Type::Array) CHECK(x==want(d,inner(*alt),"","")+"[4]","aliases are declared"); else if(alt->getCategory()==Type::Container) CHECK(x=="seq:"+want(d,inner(*alt),"",""),"aliases are declared"); else CHECK(x==want(d,*alt,"",""),"aliases are declared"); COVER("alias"); }
  COVER("exported");
  if(__sym_param("twice",0)){ std::ostringstream o2; static_cast<Exporter&>(e).save(o2,cfg,r); CHECK(o2.str()==o.str(),"exporting again gives the same text"); } }
// typedefs: aliases whose names are those of the sequences the exporter declares itself; opaques; relative names
static std::string seqname(std::string const&elem){ std::string n="vector_"+elem+"_",o; for(size_t i=0;i<n.size();i++) o+= n[i]=='/'||n[i]==' '||n[i]=='<'||n[i]=='>'?'_':n[i]; return o; }
HARNESS(idlalias){
  containers(); Registry r; r.add(new Numeric("/int32_t",4,Numeric::SInt)); r.add(new Numeric("/int8_t",1,Numeric::SInt)); Enum*e=new Enum("/a/X"); e->add("S",1); r.add(e); OpaqueType*op=new OpaqueType("/c/O",4); r.add(op); unsigned pk=sym_choice("prefix",3); pre= pk?"/P":""; suf= pk==2?"S/":"";
  Type const&str=String::createContainer(r,"/std/string",*r.get("/int8_t")); Type const&vi=Container::createContainer(r,"/std/vector",*r.get("/int32_t"));
  Type const*el[]={e,r.get("/int32_t"),&str,&vi}; unsigned ek=sym_choice("elem",4); Type const*v=&Container::createContainer(r,"/std/vector",*el[ek]); std::string vns= ek==0?"/a/":"/"; std::string vn=seqname(el[ek]->getName());
  static const char*const NS[]={"/","/a/","/std/","/c/","/0/"}; std::string ans=NS[sym_choice("ns",4)]; std::string an=sym_bool("reserved")?vn:"Al"; Type const*at[]={v,e,&vi,&str,op,r.build("/a/X[2]")}; Type const*t=at[sym_choice("target",6)]; r.alias(t->getName(),ans+an);
  utilmm::config_set cfg; if(pk) cfg.set("namespace_prefix",pk==1?"P":"/P"); if(pk==2) cfg.set("namespace_suffix","S/"); cfg.set("opaque_as_any","1"); bool clash= an==vn&&ans==vns, refuse= clash&&!t->isSame(*v);
  IDLExport x; std::ostringstream o; bool ok=false; try { static_cast<Exporter&>(x).save(o,cfg,r); ok=true; CHECK(!refuse,"aliases that hide another declaration are refused"); } catch(UnsupportedType&){ CHECK(refuse,"types IDL can express are exported"); COVER("refused"); }
  __sym_observe(ok); if(!ok) return; observe_str(o.str()); Idl d(o.str()); d.parse(); std::string p=ipath(ans)+an; CHECK(d.decl.count(p),"aliases are declared"); std::string q=ipath(vns)+vn; CHECK(d.decl.count(q),"containers are declared"); CHECK(d.decl.count(ipath("/")+seqname("/int32_t")),"containers are declared"); CHECK(d.decl.count("::c::O")==0,"opaques are not declared");
  std::string g=d.decl[p]; if(t==op) CHECK(g=="any","aliases are declared"); else if(t==&str) CHECK(g=="string","aliases are declared"); else if(t==e) CHECK(g==ipath("/a/")+"X","aliases are declared"); else if(t->getCategory()==Type::Array) CHECK(g==ipath("/a/")+"X[2]","aliases are declared"); else { std::string w="seq:"; CHECK(g.substr(0,4)==w,"aliases are declared"); CHECK(g=="seq:"+want(d,inner(*t),g.substr(4),""),"aliases are declared"); }
  CHECK(d.order.size()==(ek==1?2u:3u)+(clash?0u:1u),"nothing else is declared"); COVER("exported"); if(clash) COVER("clash"); }
// names relative to a namespace designate the same declaration as absolute ones
HARNESS(idlrelative){
  containers(); Registry r; static const char*const NS[]={"/","/a/","/a/b/","/ab/","/b/","/b/a/"}; unsigned pk=sym_choice("prefix",4); pre= pk==1||pk==3?"/P":""; suf= pk>=2?"S/":""; Numeric*n=new Numeric("/int32_t",4,Numeric::SInt); r.add(n); std::vector<std::string> full; std::vector<Type const*> t; t.push_back(n);
  unsigned a=sym_choice("ns",6),b=sym_choice("ns2",6); Enum*e=new Enum(std::string(NS[a])+"X"); e->add("S",1); r.add(e); t.push_back(e); Compound*c=new Compound(std::string(NS[b])+"Y"); c->addField("f",*e,0); r.add(c); t.push_back(c); t.push_back(&Container::createContainer(r,"/std/vector",*e)); t.push_back(&Container::createContainer(r,"/std/vector",*n));
  utilmm::config_set cfg; if(!pre.empty()) cfg.set("namespace_prefix",pre); if(!suf.empty()) cfg.set("namespace_suffix","S"); IDLExport x; std::ostringstream o; static_cast<Exporter&>(x).save(o,cfg,r); Idl d(o.str()); d.parse();
  // (what matters are the namespaces of the type and of the place it is used from)
  for(size_t i=0;i<t.size();i++) for(unsigned s=0;s<6;s++){ std::set<std::string> scopes; std::string sn[2]={x.getIDLAbsolute(*t[i]),colons(pre+NS[s]+suf)}; for(int k=0;k<2;k++){ std::string s=sn[k]; for(size_t p=s.rfind("::");p!=std::string::npos&&p>0;p=s.rfind("::",p-1)) scopes.insert(s.substr(0,p)); }
    std::string rel=x.getIDLRelative(*t[i],pre+NS[s]+suf), abs=x.getIDLAbsolute(*t[i]); if(t[i]==n){ CHECK(rel=="long"&&abs=="long","basic types have no namespace"); continue; }
    CHECK(d.decl.count(abs),"absolute names designate declarations"); std::string cur=colons(pre+NS[s]+suf); cur=cur.substr(0,cur.size()-2); std::string got; if(rel.substr(0,2)=="::") got=rel; else { std::string first=rel.substr(0,rel.find("::")); for(;;){ std::string k=cur+"::"+first; if(scopes.count(k)||d.decl.count(k)){ got=cur+"::"+rel; break; } if(cur.empty()) break; cur=cur.substr(0,cur.rfind("::")); } }
    CHECK(got==abs,"relative names designate the same declaration as absolute ones"); observe_str(rel); }
  COVER("relative"); }
// names that start with an underscore (an escape in IDL), wherever they are; sequences of arrays
HARNESS(idlnames){
  containers(); Registry r; pre=suf=""; auto U=[](const char*n){ return std::string(sym_choice("underscore",2)?"_":"")+n; }; Numeric*n=new Numeric("/int32_t",4,Numeric::SInt); r.add(n); std::string ns="/"+U("a")+"/", ns2=ns+U("b")+"/", en=U("X"), s0=U("S"), cn=U("Y"), fn=U("f"), al=U("Al"); bool seqarr=__sym_param("seqarr",0)!=0, refuse=false;
  Enum*e=new Enum(ns+en); e->add(s0,1); e->add("T",2); r.add(e); Type const*v=&Container::createContainer(r,"/std/vector",*e); if(seqarr&&sym_bool("arr")){ Type const&a=*r.build(e->getName()+"[3]"); v=&Container::createContainer(r,"/std/vector",a); refuse=true; if(sym_bool("nested")) v=&Container::createContainer(r,"/std/vector",*v); } Compound*c=new Compound(ns2+cn); c->addField(fn,*e,0); c->addField("v",seqarr&&sym_choice("unused",2)?*n:*v,8); c->addField("w",*r.build(e->getName()+"[2]"),64); r.add(c); r.alias(seqarr&&sym_choice("aliased",2)?v->getName():c->getName(),ns+al);
  utilmm::config_set cfg; if(__sym_param("blob",0)) cfg.set("blob_threshold","40"); IDLExport x; std::ostringstream o; bool ok=false; try { static_cast<Exporter&>(x).save(o,cfg,r); ok=true; CHECK(!refuse,"types IDL cannot express are refused"); } catch(UnsupportedType&){ CHECK(refuse,"types IDL can express are exported"); COVER("refused"); } __sym_observe(ok); if(!ok) return; observe_str(o.str()); Idl d(o.str()); d.parse();
  CHECK(d.decl.count("::a::X")&&d.enums["::a::X"].size()==2,"all enums are declared"); std::vector<std::string> sy=d.enums["::a::X"]; CHECK(std::find(sy.begin(),sy.end(),"S")!=sy.end()&&std::find(sy.begin(),sy.end(),"T")!=sy.end(),"all symbols are declared"); CHECK(d.decl.count("::a::Al"),"aliases are declared"); if(c->getName()==r.get(ns+al)->getName()) CHECK(d.decl["::a::Al"]=="::a::b::Y","aliases are declared");
  CHECK(d.decl.count("::a::b::Y"),"all structures are declared"); if(__sym_param("blob",0)){ CHECK(d.decl["::a::b::Y"]=="seq:octet","large types are sequences of octets"); return; } std::vector<Idl::Field> f=d.structs["::a::b::Y"]; CHECK(f.size()==3&&f[0].name=="f"&&f[0].type=="::a::X"&&f[1].name=="v"&&f[2].name=="w"&&f[2].type=="::a::X"&&f[2].dim=="2","all fields are declared"); if(!seqarr) CHECK(f.size()==3&&d.decl[f[1].type]=="seq:::a::X","containers are sequences of their elements"); COVER("exported"); }
