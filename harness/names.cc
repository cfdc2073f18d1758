#include "common.h"
#include <typelib/registryiterator.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
static std::string symstr(unsigned maxlen,const char*n="c",unsigned minlen=0){ std::string s; unsigned l=minlen+sym_choice("len",maxlen-minlen+1); for(unsigned i=0;i<l;i++) s.push_back((char)sym_u8(n)); return s; }
// R05: the order of the registry
HARNESS(order){
  unsigned L=(unsigned)__sym_param("len",3); std::string a=symstr(L),b=symstr(L); bool ab=nameSort(a,b),ba=nameSort(b,a); bool eq= a.size()==b.size(); if(eq) for(size_t i=0;i<a.size();i++) eq&=a[i]==b[i];
  CHECK(!(ab&&ba),"the order is asymmetric"); CHECK((!ab&&!ba)==eq,"only equal names are equivalent"); CHECK(!nameSort(a,a),"the order is irreflexive");
  // reference: lexicographic with the namespace mark before everything else
  int r=0; for(size_t i=0;i<a.size()&&i<b.size()&&!r;i++) if(a[i]!=b[i]) r= a[i]=='/'?-1:b[i]=='/'?1:a[i]<b[i]?-1:1; if(!r) r= a.size()<b.size()?-1:0; CHECK(ab==(r<0),"nested namespaces come before the names that follow them"); COVER(ab?"less":"notless"); __sym_observe(ab);
}
HARNESS(ordertrans){ unsigned L=(unsigned)__sym_param("len",2); std::string a=symstr(L),b=symstr(L),c=symstr(L); if(!nameSort(a,b)) __sym_stop(); if(!nameSort(b,c)) __sym_stop(); CHECK(nameSort(a,c),"the order is transitive"); COVER("trans"); __sym_observe(a.size()); }
static const char*const RN[]={"/A","/A/B","/A/B/C","/A/BC","/AB","/B/A","/A/C"};
HARNESS(ranges){
  Registry r; unsigned n=(unsigned)__sym_param("n",5); std::set<std::string> present; for(RegistryIterator i=r.begin();i!=r.end();++i) present.insert(i.getName()); for(unsigned i=0;i<n;i++) if(sym_bool("in")){ unsigned k=__sym_param("rev",0)?n-1-i:i; r.add(new Numeric(RN[k],4,Numeric::SInt)); present.insert(RN[k]); }
  std::string p="/"; p+=symstr((unsigned)__sym_param("len",3)); size_t cnt=0; std::set<std::string> seen; RegistryIterator e=r.end(p); for(RegistryIterator i=r.begin(p);i!=e;++i){ std::string nm=i.getName(); CHECK(nm.compare(0,p.size(),p)==0,"a prefix range holds only names with the prefix"); CHECK(seen.insert(nm).second,"iteration shows every name once"); if(++cnt>20){ CHECK(false,"a prefix range ends"); break; } }
  for(std::set<std::string>::iterator i=present.begin();i!=present.end();++i) if(i->compare(0,p.size(),p)==0) CHECK(seen.count(*i),"a prefix range holds all names with the prefix");
  size_t all=0; for(RegistryIterator i=r.begin();i!=r.end();++i) all++; CHECK(all==present.size(),"iteration shows every name once");
  bool here=false; for(std::set<std::string>::iterator i=present.begin();i!=present.end();++i) here|=*i==p; RegistryIterator f=r.find(p); CHECK((f!=r.end())==here,"find() finds exactly the defined names"); if(here) CHECK(f.getName()==p&&f.getBasename()==getTypename(p)&&f.getNamespace()==getNamespace(p),"find() finds the name"); COVER(cnt?"range":"empty"); __sym_observe(cnt);
}
// R07: derived types are built from their names
struct Mod { bool arr; long dim; };
static bool refparse(std::string const&s,std::string&base,std::vector<Mod>&m){
  long e=(long)s.size(); for(;;){ if(e<=1) return false; char c=s[e-1]; if(c==' '){ e--; continue; } if(c=='*'){ Mod x={false,0}; m.insert(m.begin(),x); e--; continue; }
    if(c==']'){ long k=e-2; while(k>=0&&s[k]!='[') k--; if(k<0||k==e-2) return false; long d=0; for(long i=k+1;i<e-1;i++){ if(s[i]<'0'||s[i]>'9') return false; d=d*10+(s[i]-'0'); if(d>2147483647l) return false; } Mod x={true,d}; m.insert(m.begin(),x); e=k; continue; }
    base=s.substr(0,e); return true; } }
static std::string dec(long v){ std::string s; do { s.insert(s.begin(),(char)('0'+v%10)); v/=10; } while(v); return s; }
static void checkbuild(Registry&r,std::string const&q,Type const*T,Type const*S){
  std::string base; std::vector<Mod> m; bool ok=refparse(q,base,m); Type const*bt= ok?(base=="/T"?T:base=="/ns/S"?S:0):0; size_t before=r.size(); std::string qn=q;
  bool has=false; has=r.has(q); CHECK(has==(bt!=0),"has() tells whether a type can be built"); CHECK(r.size()==before,"asking does not build");
  bool zero=false; for(size_t i=0;i<m.size();i++) zero|=m[i].arr&&m[i].dim==0;
  Type const*b=r.build(q); CHECK((b!=0)==(bt!=0),"exactly the derived types of known types can be built"); if(!b||!bt) { COVER("refused"); return; }
  Type const*x=b; std::string nm=bt->getName(); for(size_t i=m.size();i>0;i--){ Mod const&k=m[i-1]; CHECK(x->getCategory()==(k.arr?Type::Array:Type::Pointer),"modifiers apply from left to right"); if(x->getCategory()!=(k.arr?Type::Array:Type::Pointer)) return; if(k.arr){ CHECK((long)dim(*x)==k.dim,"arrays have the requested dimension"); CHECK(x->getSize()==(size_t)k.dim*inner(*x).getSize(),"arrays have the size of their elements"); } else CHECK(x->getSize()==8,"pointers have pointer size"); x=&inner(*x); }
  CHECK(x==bt,"derived types are built on the named type"); for(size_t i=0;i<m.size();i++) nm+= m[i].arr?"["+dec((long)__sym_concretize((uint64_t)m[i].dim))+"]":"*"; CHECK(b->getName()==nm,"derived types have their canonical name"); CHECK(r.get(nm)==b,"derived types are registered under their canonical name"); CHECK(r.build(q)==b&&r.build(nm)==b,"building again gives the same type"); CHECK(r.has(nm,false),"built types are in the registry");
  if(m.size()) COVER("derived"); else COVER("plain"); if(m.size()>1) COVER("nested"); __sym_observe(b->getSize());
}
HARNESS(build){
  Registry r; Numeric*T=new Numeric("/T",4,Numeric::SInt); r.add(T); Compound*S=new Compound("/ns/S"); S->addField("f",*T,0); r.add(S); if(__sym_param("prebuilt",0)){ r.build("/T[2]"); r.build("/T*"); }
  std::string q= sym_choice("base",2)?"/T":"/ns/S"; unsigned L=(unsigned)__sym_param("len",4); q+=symstr(L,"c",(unsigned)__sym_param("min",0)); checkbuild(r,q,T,S); }
HARNESS(buildany){ Registry r; Numeric*T=new Numeric("/T",4,Numeric::SInt); r.add(T); std::string q= "/"; q+=symstr((unsigned)__sym_param("len",4)); checkbuild(r,q,T,0); }
HARNESS(buildmods){ // longer sequences of whole modifiers, also through the default namespace
  Registry r; Numeric*T=new Numeric("/T",4,Numeric::SInt); r.add(T); Compound*S=new Compound("/ns/S"); S->addField("f",*T,0); r.add(S); static const char*mod[]={"*","[3]","[12]"," ","[0]","[2147483648]","[1x]","[]","[-1]"}; unsigned n=sym_choice("n",(unsigned)__sym_param("mods",3)+1); std::string q=sym_choice("base",2)?"/T":"/ns/S"; for(unsigned i=0;i<n;i++) q+=mod[sym_choice("mod",9)]; checkbuild(r,q,T,S);
  // relative names build the same types
  if(q.compare(0,3,"/ns")==0){ Type const*b=r.build(q); r.setDefaultNamespace("/ns"); Type const*c=r.build(q.substr(4)); CHECK(b==c,"relative names build the same types"); } }
// R08: type names
static bool okchar(unsigned char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_'||c==' '||c=='<'||c=='>'||c=='/'||c=='*'||c=='['||c==']'||c==','||c=='-'; }
static std::string joinl(std::list<std::string> const&l){ std::string s; for(std::list<std::string>::const_iterator i=l.begin();i!=l.end();++i) s+="/"+*i; return s; }
static void checkname(std::string const&n){
  bool v=isValidTypename(n,true); COVER(v?"valid":"invalid"); __sym_observe(v); if(!v) return;
  CHECK(!n.empty()&&n[0]=='/',"absolute names start with the namespace mark"); bool ok=true; int ang=0,sq=0; bool bal=true; for(size_t i=0;i<n.size();i++){ ok&=okchar((unsigned char)n[i]); if(n[i]=='<') ang++; if(n[i]=='>') ang--; if(n[i]=='['){ sq++; if(i+1<n.size()) bal&=n[i+1]>='0'&&n[i+1]<='9'; } if(n[i]==']') sq--; bal&=ang>=0&&sq>=0&&sq<=1; if(n[i]==',') bal&=ang>0; }
  CHECK(ok,"valid names hold only valid characters"); CHECK(bal&&ang==0&&sq==0,"valid names have balanced brackets");
  bool same=joinl(splitTypename(n))==n; CHECK(same,"a name is made of its components"); CHECK(getNamespace(n)+getTypename(n)==n,"a name is its namespace followed by its base name"); CHECK(!getTypename(n).empty(),"base names are not empty"); std::string ns=getNamespace(n); CHECK(ns[0]=='/'&&ns[ns.size()-1]=='/',"namespaces are normalised"); CHECK(isInNamespace(n,ns,false)&&isInNamespace(n,ns,true)&&isInNamespace(n,"/",true),"a type is in its namespace"); CHECK(getRelativeName(n,ns)==getTypename(n),"the base name is relative to the namespace"); CHECK(getRelativeName(n,"/")==n.substr(1),"names are relative to the root"); CHECK(isAbsoluteName(n),"valid names are absolute");
  CHECK(isValidTypename(n+"*",true),"names of pointers to valid types are valid"); CHECK(isValidTypename(n+"[2]",true),"names of arrays of valid types are valid"); CHECK(isValidTypename("/std/vector<"+n+">",true),"names of containers of valid types are valid"); CHECK(isValidTypename("/std/map<"+n+",/T>",true)&&isValidTypename("/m</T,"+n+">",true),"names of containers of valid types are valid"); CHECK(splitTypename("/std/vector<"+n+">").size()==2,"the components of arguments are not the components of the name");
}
HARNESS(typenames){ checkname("/"+symstr((unsigned)__sym_param("len",4))); }
HARNESS(typenamesany){ checkname(symstr((unsigned)__sym_param("len",3))); }
HARNESS(typenamestpl){ std::string n="/t<"; n+=symstr((unsigned)__sym_param("len",4),"c"); checkname(n); }
// longer names: '@' is any byte or nothing
HARNESS(typenamesfix){ static const char*sk[]={"/t<@>@@","/t</a>@@@","/n/t</b/c>@@@","/t</a,@>@@","/n@/t@@","/t</u</a>@@>@","/t[2]@@@","/n/@@/t@","/t</a,@>@","/t</a>/@@@","/n@/t</n@/a>","/t</a/b@>*@"}; unsigned lo=(unsigned)__sym_param("lo",0),hi=(unsigned)__sym_param("hi",12); const char*k=sk[lo+sym_choice("sk",hi-lo)]; std::string n; for(;*k;k++) if(*k!='@') n.push_back(*k); else if(sym_choice("any",2)) n.push_back((char)sym_u8("c")); checkname(n); }
HARNESS(namespaces){ std::string n=symstr((unsigned)__sym_param("len",4)); bool v=isValidNamespace(n,true); COVER(v?"valid":"invalid"); __sym_observe(v); std::string k=getNormalizedNamespace(n); CHECK(k.size()&&k[k.size()-1]=='/',"normalised namespaces end with the namespace mark"); CHECK(getNormalizedNamespace(k)==k,"normalising is idempotent"); CHECK(n.empty()?k=="/":(k==n||k==n+"/"),"normalising adds at most a namespace mark"); Registry r; CHECK(r.setDefaultNamespace(n)==v,"exactly valid namespaces can be set"); if(v){ CHECK(n[0]=='/',"absolute namespaces start with the namespace mark"); CHECK(r.getDefaultNamespace()==k,"the default namespace is what was set"); CHECK(r.getFullName("x")==k+"x"&&r.getFullName("/x")=="/x","relative names are completed with the default namespace"); bool has=isValidTypename(k+"T",true); if(has) CHECK(isInNamespace(k+"T",n,false),"types are in the namespaces their names start with"); } else CHECK(r.getDefaultNamespace()=="/","refused namespaces change nothing"); }
// R09: the minimal path to a type
static std::string tok(const char*n){ std::string s; s.push_back((char)sym_range(n,'A','C')); if(sym_choice("tl",(unsigned)__sym_param("toklen",2))) s.push_back((char)sym_range(n,'A','C')); return s; }
HARNESS(minpath){
  unsigned mx=(unsigned)__sym_param("depth",2); std::vector<std::string> a,b; unsigned da=sym_choice("da",mx+1),db=sym_choice("db",mx+1); for(unsigned i=0;i<da;i++) a.push_back(tok("t")); for(unsigned i=0;i<db;i++) b.push_back(tok("n")); std::string tn=tok("b"); std::string tns="/",ns="/"; for(unsigned i=0;i<da;i++) tns+=a[i]+"/"; for(unsigned i=0;i<db;i++) ns+=b[i]+"/"; if(db&&sym_bool("bare")) ns.erase(ns.size()-1);
  std::string p=getMinimalPathTo(tns+tn,ns); __sym_observe(p.size()); CHECK(p.empty()||p[p.size()-1]=='/',"a path ends with the namespace mark"); if(!p.empty()&&p[0]=='/'){ CHECK(p==tns,"an absolute path is the namespace of the type"); COVER("absolute"); return; }
  // relative: searching outwards from the namespace, the first namespace that exists under that path is the one of the type
  bool found=false; for(long k=(long)db;k>=0&&!found;k--){ std::string c="/"; for(long i=0;i<k;i++) c+=b[i]+"/"; std::string full=c+p; if(full==tns){ found=true; break; }
    if(!p.empty()){ std::string nn="/"; for(unsigned i=0;i<db;i++) nn+=b[i]+"/"; std::string q=c+p.substr(0,p.find('/')+1); CHECK(nn.compare(0,full.size(),full)!=0&&nn.compare(0,q.size(),q)!=0,"a relative path does not lead to another namespace first"); } }
  CHECK(found,"the path leads to the type"); COVER(p.empty()?"same":"relative");
  if(isInNamespace(tns+tn,ns,true)) CHECK(p==tns.substr(getNormalizedNamespace(ns).size()),"types below the namespace are reached by the relative path");
}
