#include "common.h"
#include <sstream>
#include <stdio.h>
// ---- dump / load ---------------------------------------------------------------------------------------------------
static Type const& shape(Types&T){
  Gen g(T,(unsigned)__sym_param("leaf",K_U8|K_I32),(unsigned)__sym_param("inner",K_ARR|K_VEC|K_COMP|K_STR));
  g.maxdim=__sym_param("maxdim",2); g.maxfields=__sym_param("maxfields",2); g.gaps=__sym_param("gaps",1);
  return g.gen((int)__sym_param("depth",2),(unsigned)__sym_param("top",0));
}
// expected stream of the default (merged) layout: the object's bytes in order, trailing padding excepted, each container
// replaced by its 64-bit element count followed by its elements (in full, including their padding)
static size_t trailing(Type const&t){ return t.getCategory()==Type::Compound ? t.getTrailingPadding() : 0; }
static bool all_pad(Type const&t){ return t.getSize()==0; }
static void ref_bytes(Type const&t,uint8_t const*p,Bytes&o);
static void ref_range(uint8_t const*p,size_t n,Bytes&o){ o.insert(o.end(),p,p+n); }
static void ref_bytes(Type const&t,uint8_t const*p,Bytes&o){
  switch(t.getCategory()){
    case Type::Array:{ Type const&e=inner(t); for(size_t i=0;i<dim(t);i++) ref_bytes(e,p+i*e.getSize(),o); break; }
    case Type::Compound:{ size_t cur=0; Compound::FieldList const&f=asC(t).getFields(); for(Compound::FieldList::const_iterator i=f.begin();i!=f.end();++i){ ref_range(p+cur,i->getOffset()-cur,o); ref_bytes(i->getType(),p+i->getOffset(),o); cur=i->getOffset()+i->getType().getSize(); } ref_range(p+cur,t.getSize()-cur,o); break; }
    case Type::Container:{ uint64_t n; if(is_str(t)) n=((std::string const*)p)->size(); else n=((Raw const*)p)->size()/inner(t).getSize();
      for(int i=0;i<8;i++) o.push_back((uint8_t)(n>>(8*i)));
      if(is_str(t)){ std::string const&x=*(std::string const*)p; for(size_t i=0;i<x.size();i++) o.push_back((uint8_t)x[i]); }
      else { Raw const&x=*(Raw const*)p; Type const&e=inner(t); for(size_t i=0;i+e.getSize()<=x.size();i+=e.getSize()) ref_bytes(e,x.data()+i,o); } break; }
    default: ref_range(p,t.getSize(),o);
  }
}
// symbolic value of a symbolic type -> dump -> load: same value, every byte accounted for, no leak
HARNESS(roundtrip){
  Types T; Type const&t=shape(T); unsigned mc=__sym_param("maxcount",2);
  uint64_t base=__sym_live();
  {
    Buf a(t),b(t); ref_fill(t,a.p,mc);
    if(__sym_param("dirty",0)) ref_fill(t,b.p,mc==1000?1000:1,"w");
    Bytes buf; dump(a,buf);
    CHECK(getDumpSize(a)==buf.size(),"getDumpSize equals the dumped byte count");
    Bytes exp; ref_bytes(t,a.p,exp);
    CHECK(buf.size()<=exp.size(),"no more bytes than the value holds are dumped");
    CHECK(buf.size()+t.getSize()>=exp.size(),"only trailing padding may be left out of a dump");
    { Bytes pk; ref_packed(t,a.p,pk); CHECK(pk.size()<=buf.size(),"every data byte is dumped"); }
    exp.resize(buf.size()); CHECK(bytes_equal(exp,buf),"the dump is the value's bytes in order");
    load(b,buf);
    CHECK(ref_equal(t,a.p,b.p),"load(dump(v)) restores the value");
    __sym_observe(buf.size()); ref_observe(t,b.p);
    Bytes buf2; dump(b,buf2); CHECK(buf2.size()==buf.size(),"dump of the loaded value has the same size");
    COVER("roundtrip");
  }
  CHECK(__sym_live()==base,"dump/load leak no memory");
}
// every layout mode round-trips; the modes that keep padding apart produce exactly the packed data bytes
HARNESS(modes){
  Types T; Type const&t=shape(T); unsigned mc=__sym_param("maxcount",2);
  unsigned mode=sym_choice("mode",5);
  {
    Buf a(t),b(t); ref_fill(t,a.p,mc);
    MemoryLayout l = mode==4 ? raw_layout_of(t) : layout_of(t,false,false,mode&1,mode&2);
    Bytes buf; dump(a,buf,l);
    CHECK(getDumpSize(a,l)==buf.size(),"getDumpSize(layout) equals the dumped byte count");
    if(mode==4 || !(mode&1)){ Bytes pk; ref_packed(t,a.p,pk); CHECK(bytes_equal(pk,buf),"a layout that keeps padding apart dumps exactly the data bytes"); COVER("packed"); }
    load(b,buf,l);
    CHECK(ref_equal(t,a.p,b.p),"load(dump(v)) restores the value in every layout mode");
    ref_observe(t,b.p); COVER("modes");
  }
}
struct Collect : OutputStream { Bytes o; void write(uint8_t const*d,size_t n){ o.insert(o.end(),d,d+n); } };
struct Feed : InputStream { Bytes const&b; size_t i; Feed(Bytes const&b):b(b),i(0){} void read(uint8_t*d,size_t n){ if(n>b.size()-i) throw std::runtime_error("short"); for(size_t k=0;k<n;k++) d[k]=b[i++]; } };
static Bytes g_fd; static int g_fdno;
static ssize_t cap_write(int fd,const void*p,size_t n){ CHECK(fd==77,"write goes to the given descriptor"); g_fd.insert(g_fd.end(),(uint8_t const*)p,(uint8_t const*)p+n); return (ssize_t)n; }
static FILE*g_file;
static size_t cap_fwrite(const void*p,size_t sz,size_t n,FILE*f){ CHECK(f==g_file,"fwrite goes to the given file"); g_fd.insert(g_fd.end(),(uint8_t const*)p,(uint8_t const*)p+sz*n); return n; }
// all sinks and sources agree
HARNESS(sinks){
  Types T; Type const&t=shape(T); unsigned mc=__sym_param("maxcount",2);
  Buf a(t); ref_fill(t,a.p,mc); MemoryLayout l=layout_of(t);
  Bytes buf; dump(a,buf);
  Bytes pre(3,0xEE); dump(a,pre); CHECK(pre.size()==buf.size()+3 && pre[0]==0xEE && pre[2]==0xEE,"dump appends to a vector");
  { Bytes tail(pre.begin()+3,pre.end()); CHECK(bytes_equal(tail,buf),"appended bytes are the dump"); }
  CHECK(bytes_equal(dump(a),buf),"by-value dump agrees");
  { Collect c; dump(a,c); CHECK(bytes_equal(c.o,buf),"OutputStream dump agrees"); Collect c2; dump(a.p,c2,l); CHECK(bytes_equal(c2.o,buf),"raw pointer dump agrees"); }
  { std::ostringstream s; dump(a,s); std::string r=s.str(); CHECK(r.size()==buf.size() && bytes_equal(Bytes(r.begin(),r.end()),buf),"ostream dump agrees"); }
  { sym_write_hook=cap_write; g_fd.clear(); dump(a,77); Bytes c; c.swap(g_fd); g_fd.clear(); sym_write_hook=0; CHECK(bytes_equal(c,buf),"fd dump agrees"); }
  { g_file=(FILE*)&g_fdno; sym_fwrite_hook=cap_fwrite; g_fd.clear(); dump(a,g_file); Bytes c; c.swap(g_fd); sym_fwrite_hook=0; CHECK(bytes_equal(c,buf),"FILE dump agrees"); }
  { size_t n=buf.size(); uint8_t*o=(uint8_t*)malloc(n?n:1); int r=dump(a,o,(unsigned)n); CHECK((size_t)r==n,"buffer dump returns the byte count"); CHECK(bytes_equal(Bytes(o,o+n),buf),"buffer dump agrees"); free(o); }
  { Buf b(t); load(b,buf.data(),(unsigned)buf.size()); CHECK(ref_equal(t,a.p,b.p),"load from a pointer agrees"); }
  { Buf b(t); Feed f(buf); load(b,f); CHECK(ref_equal(t,a.p,b.p)&&f.i==buf.size(),"load from an InputStream agrees"); }
  { Buf b(t); load(b.p,t,buf,l); CHECK(ref_equal(t,a.p,b.p),"load with a layout agrees"); }
  COVER("sinks"); __sym_observe(buf.size());
}
// ---- untrusted input -----------------------------------------------------------------------------------------------
HARNESS(untrusted){
  Types T; Type const&t=shape(T); unsigned maxlen=__sym_param("maxlen",12);
  uint64_t base=__sym_live();
  {
    Buf b(t); if(__sym_param("dirty",0)) ref_fill(t,b.p,1,"w");
    unsigned n=sym_choice("len",maxlen+1); bool vecsrc=__sym_param("vecsrc",0);
    uint8_t*in=(uint8_t*)malloc(n?n:1); sym_bytes(in,n,"in");
    bool ok=false;
    try { if(vecsrc){ Bytes v(in,in+n); load(b,v); } else load(b,in,n); ok=true; } catch(std::exception&){ COVER("rejected"); }
    if(ok){
      COVER("accepted"); Bytes o; dump(b,o);
      CHECK(o.size()==n || o.size()+t.getTrailingPadding()==n,"an accepted stream is consumed entirely");
      CHECK(bytes_equal(o,Bytes(in,in+o.size())),"dump reproduces the accepted stream");
    }
    free(in); __sym_observe(ok);
    // whatever happened, the value is still a valid one
    try { Bytes o2; dump(b,o2); } catch(std::bad_alloc&){}
  }
  CHECK(__sym_live()==base,"load leaks no memory, even when it rejects its input");
}
// a valid stream cut or extended by any number of bytes is rejected (trailing padding excepted)
HARNESS(truncated){
  Types T; Type const&t=shape(T); unsigned mc=__sym_param("maxcount",1);
  uint64_t base=__sym_live();
  {
    Buf a(t),b(t); ref_fill(t,a.p,mc); Bytes buf; dump(a,buf);
    unsigned full=buf.size(); unsigned n=sym_choice("cut",full+12); __sym_assume(n!=full);
    if(n<full) buf.resize(n); else while(buf.size()<n) buf.push_back(sym_u8("extra"));
    bool ok=false;
    try { if(__sym_param("vecsrc",0)) load(b,buf); else { uint8_t*q=(uint8_t*)malloc(n?n:1); memcpy(q,buf.data(),n); struct F{uint8_t*q;~F(){free(q);}} f={q}; load(b,q,n); } ok=true; } catch(std::runtime_error&){}
    CHECK(!ok || n==full+t.getTrailingPadding(),"a stream with missing or left over bytes is rejected");
    COVER(ok?"padded":"rejected"); __sym_observe(ok);
    Bytes o2; dump(b,o2);
  }
  CHECK(__sym_live()==base,"no leak");
}
// ---- bounded and failing sinks -------------------------------------------------------------------------------------
HARNESS(bounded){
  Types T; Type const&t=shape(T); unsigned mc=__sym_param("maxcount",1);
  Buf a(t); ref_fill(t,a.p,mc); Bytes buf; dump(a,buf); unsigned full=buf.size();
  unsigned n=sym_choice("cap",full+3);
  uint8_t*o=(uint8_t*)malloc(n+4); for(unsigned i=0;i<n+4;i++) o[i]=0xC3;
  int r=dump(a,o,n);
  if(n>=full){ CHECK(r==(int)full,"a large enough buffer receives the whole dump"); CHECK(bytes_equal(Bytes(o,o+full),buf),"buffer content is the dump"); for(unsigned i=full;i<n+4;i++) CHECK(o[i]==0xC3,"bytes after the dump are untouched"); COVER("fits"); }
  else { CHECK(r==0,"a too small buffer is reported by returning 0"); for(unsigned i=n;i<n+4;i++) CHECK(o[i]==0xC3,"nothing is written past the buffer"); COVER("overrun"); }
  __sym_observe(r); free(o);
}
// every write may be complete, short (symbolic length, at least one byte) or fail; a dump may retry after a short write, but
// unless it throws every byte has to arrive, in order
static unsigned g_fail; static unsigned g_writes;
static ssize_t fail_write(int fd,const void*p,size_t n){
  if(++g_writes>64) return -1;
  unsigned k=sym_choice("wres",3);
  if(k==1){ g_fail=1; return -1; }
  if(k==2){ if(n==0) return 0; g_fail=2; size_t s=n>1?(size_t)sym_range("short",0,n-1):0; s=(size_t)__sym_concretize(s); if(s==0){ g_fail=1; return -1; } g_fd.insert(g_fd.end(),(uint8_t const*)p,(uint8_t const*)p+s); return (ssize_t)s; }
  g_fd.insert(g_fd.end(),(uint8_t const*)p,(uint8_t const*)p+n); return (ssize_t)n;
}
static size_t fail_fwrite(const void*p,size_t sz,size_t n,FILE*f){
  CHECK(f==g_file,"fwrite goes to the given file"); if(sz==0||n==0||++g_writes>64) return 0;
  if(sym_choice("fres",2)==0){ g_fd.insert(g_fd.end(),(uint8_t const*)p,(uint8_t const*)p+sz*n); return n; }
  g_fail=1; size_t s=(size_t)__sym_concretize(sym_range("short",0,sz*n-1)); g_fd.insert(g_fd.end(),(uint8_t const*)p,(uint8_t const*)p+s); return s/sz;
}
static void failing(bool file){
  Types T; Type const&t=shape(T); unsigned mc=__sym_param("maxcount",1);
  Buf a(t); ref_fill(t,a.p,mc); Bytes buf; dump(a,buf);
  g_fd.clear(); g_fail=0; g_writes=0; g_file=(FILE*)&g_fdno; if(file) sym_fwrite_hook=fail_fwrite; else sym_write_hook=fail_write; bool thrown=false;
  try { if(file) dump(a,g_file); else dump(a,77); } catch(std::runtime_error&){ thrown=true; }
  sym_write_hook=0; sym_fwrite_hook=0;
  CHECK(thrown || g_fd.size()==buf.size(),"unless every byte was delivered a failure is reported");
  CHECK(!thrown || g_fail,"no failure is reported when every write succeeds");
  CHECK(g_fd.size()<=buf.size(),"no extra byte"); Bytes pre(buf); pre.resize(g_fd.size()); CHECK(bytes_equal(pre,g_fd),"what was written is a prefix of the dump");
  { Bytes x; x.swap(g_fd); } COVER(thrown?"failed":"complete"); __sym_observe(g_fail);
}
HARNESS(fdfail){ failing(false); }
HARNESS(filefail){ failing(true); }
// types larger than 4 GiB against small inputs and small buffers: nothing may be read or written beyond them
static Type const& huge(Types&T){
  static const uint64_t dims[]={0x7fffffff,0x80000000ull,0xffffffffull,0x100000000ull,0x100000001ull,0x100000004ull,0x200000000ull,0x7fffffffffffffffull,0x8000000000000000ull};
  uint64_t d=dims[sym_choice("hd",9)]; unsigned k=sym_choice("hk",4); Type const&e= k==1 && d<0x1000000000000000ull ? (Type const&)*T.u32() : (Type const&)*T.u8(); Array*a=T.arr(e,(size_t)d);
  if(k<2) return *a;
  Compound*c=T.comp(); if(k==2){ c->addField("a",*T.u32(),0); c->addField("b",*a,4); } else { c->addField("a",*T.str(),0); c->addField("b",*a,sizeof(std::string)); } return *c;
}
HARNESS(huge){
  Types T; Type const&t=huge(T); bool str=t.getCategory()==Type::Compound && asC(t).getFields().front().getType().getCategory()==Type::Container;
  size_t n=sym_choice("len",20); uint8_t*in=(uint8_t*)malloc(n?n:1); sym_bytes(in,n,"in"); uint8_t mem[64]; memset(mem,0,64); if(str) new(mem) std::string();
  if(sym_choice("way",2)==0){ bool ok=false; try { load(Value(mem,t),in,n); ok=true; } catch(std::exception&){} CHECK(!ok,"a stream that is too short for its type is rejected"); COVER("load"); }
  else { uint8_t*o=(uint8_t*)malloc(24); for(int i=0;i<24;i++) o[i]=0xC3; int r=-1; try { r=dump(Value(mem,t),o,(unsigned)n); } catch(std::exception&){ r=0; } CHECK(r==0,"a too small buffer is reported"); for(size_t i=n;i<24;i++) CHECK(o[i]==0xC3,"nothing is written past the buffer"); free(o); COVER("dump"); }
  if(str) ((std::string*)mem)->~basic_string(); free(in); __sym_observe(n);
}
