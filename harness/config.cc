#include "common.h"
#include <typelib/registryiterator.hh>
#include <typelib/utilmm/configset.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/exporter.hh>
#include <typelib/importer.hh>
#include <typelib/plugins.hh>
#include <lang/csupport/standard_types.hh>
#include <sstream>
#include <algorithm>
#include <map>
#include <set>
#include <vector>
typedef std::list<std::string> SL;
static std::string txt(unsigned n,const char*nm){ std::string s; unsigned l=sym_choice("len",n+1); for(unsigned i=0;i<l;i++) s.push_back((char)sym_u8(nm)); return s; }
// C01: options read back as they were stored
HARNESS(config){
  uint64_t base=__sym_live(); { static const char*const K[]={"a","b","aa"}; utilmm::config_set c; std::map<std::string,std::vector<std::string> > m; std::map<std::string,std::vector<utilmm::config_set const*> > ch; unsigned ops=(unsigned)__sym_param("ops",3);
  for(unsigned o=0;o<ops;o++){ std::string k=K[sym_choice("k",3)]; unsigned op=sym_choice("op",6); std::string v; v.push_back((char)sym_u8("v")); switch(op){
    case 0: c.set(k,v); m[k].assign(1,v); break; case 1: c.insert(k,v); m[k].push_back(v); break;
    case 2: case 3:{ SL l; unsigned n=sym_choice("n",3); for(unsigned i=0;i<n;i++) l.push_back(i?"second":v); if(op==2){ c.set(k,l); m[k].clear(); } else c.insert(k,l); m[k].insert(m[k].end(),l.begin(),l.end()); break; }
    case 4: c.erase(k); m[k].clear(); break;
    case 5:{ utilmm::config_set*x=new utilmm::config_set(&c); x->set("id",v); c.insert(k,x); ch[k].push_back(x); CHECK(x->parent()==&c,"children know their parent"); break; } } }
  bool empty=true; for(unsigned i=0;i<3;i++){ std::string k=K[i]; std::vector<std::string>&w=m[k]; if(!w.empty()||!ch[k].empty()) empty=false; CHECK(c.exists(k)==(!w.empty()||!ch[k].empty()),"stored options exist"); SL l=c.get<SL>(k); CHECK(std::vector<std::string>(l.begin(),l.end())==w,"all values are returned in order"); CHECK(c.get<std::string>(k,"dflt")==(w.empty()?"dflt":w[0]),"the first value is returned"); SL d(1,"d"); CHECK(c.get<SL>(k,d)==(w.empty()?d:SL(w.begin(),w.end())),"defaults are for missing options only");
    std::list<const utilmm::config_set*> q=c.children(k); CHECK(std::vector<utilmm::config_set const*>(q.begin(),q.end())==ch[k],"all children are returned in order"); utilmm::config_set const&f=c.child(k); if(ch[k].empty()) CHECK(f.empty(),"missing children are empty"); else CHECK(&f==ch[k][0],"the first child is returned"); }
  CHECK(c.empty()==empty,"empty() tells if something is stored"); COVER("config"); __sym_observe(empty); }
  CHECK(__sym_live()<=base+1,"nothing is leaked"); }
HARNESS(convert){
  utilmm::config_set c; std::string s=txt((unsigned)__sym_param("len",3),"c"); c.set("k",s); 
  bool num=true; size_t b=0; bool neg=false; if(!s.empty()&&(s[0]=='-'||s[0]=='+')){ neg=s[0]=='-'; b=1; } if(b==s.size()) num=false; long v=0; for(size_t i=b;i<s.size();i++){ unsigned d=(unsigned char)s[i]-'0'; if(d>9) num=false; else v=v*10+d; } if(neg) v=-v;
  try { int x=c.get<int>("k",99); CHECK(num,"values that are not numbers are refused"); CHECK(x==v,"numbers are converted"); COVER("number"); } catch(boost::bad_lexical_cast&){ CHECK(!num,"numbers are converted"); COVER("notnumber"); }
  try { std::list<int> x=c.get<std::list<int> >("k"); CHECK(num&&x.size()==1&&x.front()==v,"numbers are converted"); } catch(boost::bad_lexical_cast&){ CHECK(!num,"numbers are converted"); }
  bool t=s=="1"||s=="true",f=s=="0"||s=="false"; try { bool x=c.get<bool>("k"); CHECK(t||f,"values that are not booleans are refused"); CHECK(x==t,"booleans are converted"); COVER("bool"); } catch(boost::bad_lexical_cast&){ CHECK(!t&&!f,"booleans are converted"); }
  CHECK(c.get<int>("x",7)==7&&c.get<bool>("x",true)&&c.get<int>("x")==0,"defaults are for missing options only"); __sym_observe(num); }
HARNESS(convertbool){ static const char*const w[]={"true","false","1","0"}; utilmm::config_set c; std::string s=w[sym_choice("w",4)]; size_t at=sym_choice("at",(unsigned)s.size()); s[at]=(char)sym_u8("c"); c.set("k",s); bool t=s=="1"||s=="true",f=s=="0"||s=="false"; try { bool x=c.get<bool>("k",false); CHECK(t||f,"values that are not booleans are refused"); CHECK(x==t,"booleans are converted"); COVER("bool"); } catch(boost::bad_lexical_cast&){ CHECK(!t&&!f,"booleans are converted"); COVER("notbool"); } }
// C02: every spelling of a C++ arithmetic type names a type of the right size and signedness
HARNESS(stdtypes){
  Registry r; if(sym_bool("twice")) CXX::addStandardTypes(r); Container::registerContainer("/std/string",String::factory); CXX::addStandardTypes(r); size_t n=r.size(); CXX::addStandardTypes(r); CHECK(r.size()==n,"adding the types again changes nothing");
  unsigned sg=sym_choice("sign",3),ln=sym_choice("len",4); bool in=sym_bool("int"); std::vector<std::string> w; if(sg==1) w.push_back("signed"); if(sg==2) w.push_back("unsigned"); if(ln==1) w.push_back("short"); if(ln>=2) w.push_back("long"); if(ln==3) w.push_back("long"); if(in) w.push_back("int"); if(w.empty()) __sym_stop();
  std::string canon; for(size_t i=0;i<w.size();i++) canon+=(i?" ":"/")+w[i]; std::string name="/"; bool first=true; while(!w.empty()){ unsigned k=w.size()==1?0:sym_choice("next",(unsigned)w.size()); name+=(first?"":" ")+w[k]; first=false; w.erase(w.begin()+k); }
  size_t want= ln==0?sizeof(int):ln==1?sizeof(short):ln==2?sizeof(long):sizeof(long long); Type const*t=r.get(name); if(t){ CHECK(t->getCategory()==Type::Numeric&&t->getSize()==want,"standard types have the size they have in C++"); CHECK(static_cast<Numeric const*>(t)->getNumericCategory()==(sg==2?Numeric::UInt:Numeric::SInt),"standard types have the sign they have in C++"); COVER("spelling"); }
  if(name==canon) CHECK(t!=0,"the usual spelling is known"); else COVER("order");
  static const struct { const char*n; size_t s; int c; } O[]={{"/char",1,(char)-1<0?Numeric::SInt:Numeric::UInt},{"/signed char",1,Numeric::SInt},{"/unsigned char",1,Numeric::UInt},{"/wchar_t",sizeof(wchar_t),(wchar_t)-1<0?Numeric::SInt:Numeric::UInt},{"/float",4,Numeric::Float},{"/double",8,Numeric::Float},{"/bool",1,Numeric::UInt},{"/int8_t",1,Numeric::SInt},{"/uint8_t",1,Numeric::UInt},{"/int16_t",2,Numeric::SInt},{"/uint16_t",2,Numeric::UInt},{"/int32_t",4,Numeric::SInt},{"/uint32_t",4,Numeric::UInt},{"/int64_t",8,Numeric::SInt},{"/uint64_t",8,Numeric::UInt}};
  unsigned o=sym_choice("other",15); t=r.get(O[o].n); CHECK(t&&t->getCategory()==Type::Numeric&&t->getSize()==O[o].s&&(int)static_cast<Numeric const*>(t)->getNumericCategory()==O[o].c,"standard types have the size and sign they have in C++"); t=r.get("/std/string"); CHECK(t&&t->getCategory()==Type::Container&&t->getSize()==sizeof(std::string),"strings are known"); t=r.get("/void"); CHECK(t&&t->getCategory()==Type::NullType,"void is known"); }
// C03: plugins are found under their name, once, as long as somebody uses the plugin manager
static int g_plugins=0; static int g_made=0;
struct NullExp: public Exporter { int id; NullExp(int i):id(i){ g_made++; } ~NullExp(){ g_made--; } bool save(std::ostream&o,RegistryIterator const&t){ o<<id; return true; } using Exporter::save; void begin(std::ostream&o,Registry const&){ o<<"E"; o<<id; } };
struct NullImp: public Importer { int id; NullImp(int i):id(i){ g_made++; } ~NullImp(){ g_made--; } void load(std::istream&s,utilmm::config_set const&c,Registry&r){ if(id==2) throw std::runtime_error("cannot load"); r.add(new Numeric(id?"/One":"/Zero",4,Numeric::SInt)); } using Importer::load; };
struct EP: public ExportPlugin { int id; EP(const char*n,int i):ExportPlugin(n),id(i){ g_plugins++; } ~EP(){ g_plugins--; } Exporter*create(){ return new NullExp(id); } };
struct IP: public ImportPlugin { int id; IP(const char*n,int i):ImportPlugin(n),id(i){ g_plugins++; } ~IP(){ g_plugins--; } Importer*create(){ return new NullImp(id); } };
struct TP: public TypeDefinitionPlugin { const char*n; TP(const char*n):n(n){ g_plugins++; } ~TP(){ g_plugins--; } void registerTypes(Registry&r){ r.add(new Numeric(n,4,Numeric::SInt)); } };
HARNESS(plugins){
  static const char*const N[]={"x","y"}; std::list<PluginManager::self*> uses; std::map<std::string,int> me,mi; std::set<std::string> types; int owned=0; unsigned ops=(unsigned)__sym_param("ops",4); static const char*const TN[]={"/TA","/TB"};
  for(unsigned o=0;o<ops;o++) switch(sym_choice("op",6)){
    case 0: if(uses.size()>=2) __sym_stop(); uses.push_back(new PluginManager::self); break;
    case 1: if(uses.empty()) __sym_stop(); { bool f=uses.size()==2&&sym_bool("first"); PluginManager::self*u=f?uses.front():uses.back(); if(f) uses.pop_front(); else uses.pop_back(); delete u; if(uses.empty()){ CHECK(g_plugins==0,"plugins are deleted with the manager"); me.clear(); mi.clear(); types.clear(); owned=0; COVER("gone"); } } break;
    case 2:{ if(uses.empty()) __sym_stop(); const char*n=N[sym_choice("n",2)]; int id=(int)sym_choice("id",3); bool ex=me.count(n); EP*p=new EP(n,id); bool r=(*uses.front())->add(p); CHECK(r==!ex,"a plugin name is registered once"); if(!r) delete p; else { me[n]=id; owned++; } break; }
    case 3:{ if(uses.empty()) __sym_stop(); const char*n=N[sym_choice("n",2)]; int id=(int)sym_choice("id",3); bool ex=mi.count(n); IP*p=new IP(n,id); bool r=(*uses.back())->add(p); CHECK(r==!ex,"a plugin name is registered once"); if(!r) delete p; else { mi[n]=id; owned++; } break; }
    case 4:{ if(uses.empty()) __sym_stop(); const char*n=TN[sym_choice("n",2)]; if(types.count(n)) __sym_stop(); (*uses.back())->add(new TP(n)); types.insert(n); owned++; break; }
    case 5:{ const char*n=N[sym_choice("n",2)]; Registry r; for(unsigned k=0;k<2;k++) CHECK((r.get(TN[k])!=0)==(types.count(TN[k])!=0),"new registries hold the types of the plugins"); try { std::string s=PluginManager::save(n,r); CHECK(me.count(n),"unknown exporters are refused"); std::string w="E"; w+=(char)('0'+me[n]); for(size_t k=0;k<types.size();k++) w+=(char)('0'+me[n]); CHECK(s.substr(0,2)==w.substr(0,2),"exporters are found by name"); COVER("exporter"); } catch(PluginNotFound&){ CHECK(!me.count(n),"exporters are found by name"); }
      std::istringstream i(""); try { Registry*q=PluginManager::load(n,i); CHECK(mi.count(n)&&mi[n]!=2,"unknown importers are refused"); CHECK((q->get("/One")!=0)==(mi[n]==1)&&(q->get("/Zero")!=0)==(mi[n]==0),"importers are found by name"); delete q; COVER("importer"); } catch(PluginNotFound&){ CHECK(!mi.count(n),"importers are found by name"); } catch(std::runtime_error&){ CHECK(mi.count(n)&&mi[n]==2,"importers are found by name"); COVER("failed"); } CHECK(g_made==0,"exporters and importers are deleted after use"); COVER("lookup"); break; } }
  CHECK(g_plugins==owned,"plugins live as long as the manager"); while(!uses.empty()){ delete uses.front(); uses.pop_front(); } CHECK(g_plugins==0,"plugins are deleted with the manager"); __sym_observe(owned); }

// C04: the plugins of all plugin directories are loaded
namespace { struct Dir { int kind; std::vector<std::string> files; }; std::map<std::string,Dir> g_dirs; std::map<std::string,int> g_libs; std::vector<std::string> g_opened; std::vector<int> g_libids; std::vector<int> g_entered; int g_env; std::string g_envtxt; PluginManager*g_pm; std::vector<PluginManager*> g_pms; bool g_hard;
int g_nfiles=2; static const char*const FN[]={"p.so","q.dylib","p.so.1","so","r.SO",".so"}; 
std::string norm(const char*p){ std::string d=p; while(d.size()>1&&d[d.size()-1]=='/') d.erase(d.size()-1); return d; }
Dir& dirof(std::string const&d){ std::map<std::string,Dir>::iterator it=g_dirs.find(d); if(it!=g_dirs.end()) return it->second; Dir x; x.kind=0; if(d=="a"||d=="b"||(d=="/nonexistent-typelib-plugins"&&g_hard)){ x.kind=d[0]=='/'?2:(int)sym_choice("kind",3); if(x.kind==2){ unsigned n=sym_choice("files",g_nfiles+1); unsigned from=0; for(unsigned i=0;i<n;i++){ if(from>=6) __sym_stop(); unsigned f=from+sym_choice("file",6-from); x.files.push_back(FN[f]); from=f+1; } } } return g_dirs[d]=x; }
int fskind(const char*p){ std::string d=norm(p); size_t i=d.rfind('/'); if(i!=std::string::npos&&i){ Dir&x=dirof(d.substr(0,i)); for(size_t k=0;k<x.files.size();k++) if(x.files[k]==d.substr(i+1)) return 1; return 0; } return dirof(d).kind; }
const char* fsentry(const char*p,unsigned i){ Dir&x=dirof(norm(p)); return i<x.files.size()?x.files[i].c_str():0; }
char* envhook(const char*n){ if(strcmp(n,"TYPELIB_PLUGIN_PATH")||!g_env) return 0; return (char*)g_envtxt.c_str(); }
char g_handles[16];
void* dlhook(const char*p){ std::string f=p; g_opened.push_back(f); if(!g_libs.count(f)) g_libs[f]=(int)sym_choice("lib",3); if(!g_libs[f]) return 0; g_libids.push_back(g_libs[f]); if(g_libids.size()>16) __sym_stop(); return g_handles+g_libids.size()-1; }
template<int I> struct EN { static void enter(PluginManager&m){ g_entered.push_back(I); g_pms.push_back(&m); std::string n="p"; n+=(char)('0'+I); m.add(new EP(n.c_str(),I)); m.add(new IP(n.c_str(),0)); } };
void* symhook(void*h,const char*n){ unsigned i=(unsigned)((char*)h-g_handles); if(i>=g_libids.size()){ CHECK(false,"symbols are looked up in libraries that were loaded"); return 0; } if(strcmp(n,"registerPlugins")||g_libids[i]!=2) return 0; typedef void(*F)(PluginManager&); static const F T[]={&EN<0>::enter,&EN<1>::enter,&EN<2>::enter,&EN<3>::enter,&EN<4>::enter,&EN<5>::enter,&EN<6>::enter,&EN<7>::enter,&EN<8>::enter}; if(i>=9) __sym_stop(); return (void*)T[i]; } }
HARNESS(pluginpath){
  sym_getenv_hook=envhook; sym_dlopen_hook=dlhook; sym_dlsym_hook=symhook; sym_fs_kind=fskind; sym_fs_entry=fsentry; g_nfiles=(int)__sym_param("files",2); unsigned L=(unsigned)__sym_param("len",4);
  std::vector<std::string> dirs; g_env=sym_choice("set",2); if(g_env){ unsigned n=sym_choice("len",L+1); for(unsigned i=0;i<n;i++) g_envtxt+="ab:"[sym_choice("c",3)]; std::string d; for(unsigned i=0;i<=n;i++) if(i==n||g_envtxt[i]==':'){ if(!d.empty()) dirs.push_back(d); d.clear(); } else d+=g_envtxt[i]; } else { g_hard=sym_bool("hard"); if(g_hard) dirs.push_back("/nonexistent-typelib-plugins"); }
  for(unsigned round=0;round<2;round++){ g_opened.clear(); g_libids.clear(); g_entered.clear(); g_pms.clear();
    { PluginManager::self pm; size_t at=0; std::vector<int> want; for(size_t i=0;i<dirs.size();i++){ Dir&x=dirof(dirs[i]); if(x.kind!=2) { COVER("missing"); continue; } std::set<std::string> w; for(size_t k=0;k<x.files.size();k++){ std::string f=x.files[k]; size_t dot=f.rfind('.'); std::string e=dot==std::string::npos?"":f.substr(dot); if(e==".so"||e==".dylib") w.insert(dirs[i]+"/"+f); else COVER("other"); }
      for(;!w.empty();at++){ CHECK(at<g_opened.size(),"every plugin of every directory is loaded"); CHECK(w.erase(norm(g_opened[at].c_str())),"plugins are loaded directory by directory, once, and nothing else is"); COVER("loaded"); } }
    CHECK(at==g_opened.size(),"only plugins of the plugin path are loaded"); int h=0; for(size_t k=0;k<g_opened.size();k++){ int s=g_libs[g_opened[k]]; if(s==0){ COVER("unloadable"); continue; } if(s==1){ COVER("noentry"); } else want.push_back(h); h++; }
    std::vector<int> got(g_entered); std::sort(got.begin(),got.end()); CHECK(got==want,"the entry point of every plugin is called once, whatever happens to others"); for(size_t k=0;k<g_pms.size();k++) CHECK(g_pms[k]==g_pms[0],"plugins register with the plugin manager that is being made");
    for(size_t k=0;k<want.size();k++){ std::string n="p"; n+=(char)('0'+want[k]); try { Importer*i=pm->importer(n); delete i; Exporter*e=pm->exporter(n); delete e; COVER("found"); } catch(PluginNotFound&){ CHECK(false,"what plugins register is found"); } } }
    CHECK(g_plugins==0,"plugins are deleted with the manager"); }
  __sym_observe(g_opened.size()*16+g_entered.size()); }
