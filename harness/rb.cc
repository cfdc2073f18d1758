// The Ruby extension (bindings/ruby/ext), driven through the methods it registers on a stand-in interpreter.
#include "common.h"
#include "../rt/rbrt.h"
#include <functional>
#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/csvoutput.hh>
#include <typelib/typename.hh>
#include <typelib/registryiterator.hh>
#include <sstream>
Typelib::Value typelib_get(VALUE value);
static VALUE g_reg,g_t;
static void up(){ Init_typelib_ruby(); g_reg=rt_call(rt_const("Registry"),"new"); rt_pin(g_reg); g_t=rt_const("Type"); }
static VALUE S(const char*s){ return rt_str(s); }
static VALUE R(const char*m,int n=0,VALUE a=0,VALUE b=0,VALUE c=0){ return rt_call(g_reg,m,n,a,b,c); }
static VALUE num(const char*n,unsigned sz,unsigned cat){ return R("do_create_numeric",3,S(n),rt_int(sz),rt_int(cat)); }
static VALUE mknew(VALUE t){ return rt_call(t,"value_new",1,Qfalse); }
static uint8_t* mem(VALUE v){ return (uint8_t*)typelib_get(v).getData(); }
static bool isnum(VALUE r,bool un,uint64_t x,unsigned bits){ if(!rt_isint(r)) return false; x=x<<(64-bits); int64_t sx=(int64_t)x>>(64-bits); x>>=64-bits; return (rt_neg(r)==(!un&&sx<0))&(rt_mag(r)==(un?x:sx<0?0-(uint64_t)sx:(uint64_t)sx)); }
static bool isi32(VALUE r,int32_t v){ return isnum(r,false,(uint32_t)v,32); }
static VALUE rbn(bool un,uint64_t x,unsigned bits){ int64_t sx=(int64_t)(x<<(64-bits))>>(64-bits); return un?rt_uint(x):rt_int(sx); }
static bool raised(VALUE k){ return rt_rc==1&&rt_err==k; }
#define ERR(n) rb_e##n##Error
extern "C" VALUE rb_eRangeError;
// ---- numbers, symbols and strings
HARNESS(rbint){ up(); unsigned lg=sym_choice("size",4),un=sym_choice("unsigned",2); unsigned bits=8u<<lg;
  VALUE t=num("/n",1u<<lg,un); CHECK(isi32(rt_call(t,"size"),bits/8),"a number has the size it was given"); CHECK(rt_call(t,"integer?")==Qtrue&&rt_call(t,"unsigned?")==(un?Qtrue:Qfalse),"integers are integers, signed or not"); VALUE v=mknew(t); uint64_t x=__sym_int("v",bits);
  rt_try(v,"typelib_from_ruby",1,rbn(un,x,bits)); CHECK(rt_rc==0,"an integer that the type can represent is accepted");
  CHECK(!memcmp(mem(v),&x,bits/8),"the stored bytes are those of the integer");
  VALUE g=rt_try(t,"to_ruby",1,v); CHECK(rt_rc==0,"integers are readable"); CHECK(isnum(g,un,x,bits),"an integer reads back as it was written"); COVER("read"); }
HARNESS(rbintbad){ up(); unsigned lg=2+sym_choice("size",2),un=sym_choice("unsigned",2); unsigned bits=8u<<lg; VALUE t=num("/n",1u<<lg,un); VALUE v=mknew(t); uint64_t old=__sym_int("old",bits); memcpy(mem(v),&old,bits/8);
  VALUE r; switch(sym_choice("what",6)){
    case 0:{ uint64_t m=sym_u64("m"); if(bits==64){ if(un) __sym_stop(); __sym_assume(m>=0x8000000000000000ull); } else __sym_assume(m>(un?0xffffffffull:0x7fffffffull)); r=rt_uint(m); COVER("big"); break; }
    case 1:{ int64_t m=(int64_t)sym_u64("m"); if(bits==64||un) __sym_stop(); __sym_assume(m<-0x80000000ll); r=rt_int(m); COVER("negative"); break; }
    case 2: r=Qnil; break; case 3: r=S("1"); break; case 4: r=rt_sym("X"); break; default: r=Qtrue; }
  rt_try(v,"typelib_from_ruby",1,r); CHECK(rt_rc==1,"what the type cannot represent is refused"); CHECK(!memcmp(mem(v),&old,bits/8),"a refused assignment changes nothing"); COVER("refused"); }
HARNESS(rbfloat){ up(); bool dbl=sym_choice("double",2); VALUE t=num("/f",dbl?8:4,2); CHECK(isi32(rt_call(t,"size"),dbl?8:4)&&rt_call(t,"integer?")==Qfalse,"floating point types are no integers"); rt_try(t,"unsigned?"); CHECK(raised(ERR(Arg)),"only integers are unsigned or not"); VALUE v=mknew(t);
  static const double c[]={0.0,-0.0,1.5,-3.25,1e30,-1e-30,1e300,0.1,16777217.0,1.0/0.0,-1.0/0.0}; double d=c[sym_choice("value",11)]; VALUE r; bool in=sym_choice("int",2); int64_t i=0;
  if(in){ static const int64_t k[]={0,-1,7,(1ll<<24)+1,(1ll<<53)+1,-(1ll<<62),(1ll<<62)}; i=k[sym_choice("ivalue",7)]; r=rt_int(i); d=(double)i; } else r=rt_flt(d);
  rt_try(v,"typelib_from_ruby",1,r); CHECK(rt_rc==0,"a number is accepted by floating point types");
  VALUE g=rt_try(t,"to_ruby",1,v); CHECK(rt_rc==0&&rt_is(g,T_FLOAT),"a floating point type reads as a Float"); double e=dbl?d:(double)(float)d, x=rt_dbl(g); CHECK(!memcmp(&e,&x,8),"a number reads back as the nearest value of the type"); COVER("read");
  rt_try(v,"typelib_from_ruby",1,Qnil); CHECK(raised(ERR(Type)),"what is not a number is refused"); g=rt_call(t,"to_ruby",1,v); x=rt_dbl(g); CHECK(!memcmp(&e,&x,8),"a refused assignment changes nothing"); }
HARNESS(rbdouble){ up(); VALUE t=num("/f",8,2); VALUE v=mknew(t); uint64_t b=sym_u64("bits"); memcpy(mem(v),&b,8); VALUE g=rt_try(t,"to_ruby",1,v); CHECK(rt_rc==0&&rt_is(g,T_FLOAT),"a double reads as a Float"); double x=rt_dbl(g); CHECK(!memcmp(&b,&x,8),"a double reads as it is stored");
  VALUE w=mknew(t); rt_call(w,"typelib_from_ruby",1,g); CHECK(!memcmp(mem(w),&b,8),"a double is stored as it was read"); COVER("read"); }
// any value, but few different lengths of its decimal text, which the messages contain
static void lengths(uint32_t x){ int32_t s=(int32_t)x; __sym_assume(((s>=0)&(s<10))|(s>=1000000000)|(s<=-1000000000)); }
HARNESS(rbenum){ up(); uint32_t a=sym_u32("a"),b=sym_u32("b"); __sym_assume(a!=b); VALUE t=rt_try(g_reg,"do_create_enum",3,S("/E"),rt_ary(2,rt_ary(2,S("AA"),rt_int((int32_t)a)),rt_ary(2,S("B"),rt_int((int32_t)b))),rt_int(0)); CHECK(rt_rc==0,"enumerations can be created");
  VALUE v=mknew(t); uint32_t q=sym_u32("q"); lengths(q); memcpy(mem(v),&q,4);
  VALUE g=rt_try(t,"to_ruby",1,v); CHECK(rt_rc==0,"enumerations are readable"); if(q==a) CHECK(g==rt_sym("AA"),"a value of an enumeration reads as its symbol"); else if(q==b) CHECK(g==rt_sym("B"),"a value of an enumeration reads as its symbol"); else CHECK(g==Qnil,"a value that has no symbol reads as nil");
  VALUE n=rt_try(t,"name_of",1,rt_int((int32_t)q)); if(q==a||q==b){ CHECK(rt_rc==0&&!strcmp(rt_cstr(n),q==a?"AA":"B"),"name_of gives the symbol of a value"); } else CHECK(raised(ERR(Arg)),"name_of refuses values without symbol");
  uint32_t k; VALUE r; bool ok; uint32_t want=0;
  switch(sym_choice("how",3)){ case 0: k=sym_u32("set"); lengths(k); r=rt_int((int32_t)k); ok=(k==a)|(k==b); want=k; break;
    default:{ static const char*nm[]={"AA","B","A","BB",""}; unsigned i=sym_choice("name",5); ok=i<2; want=i?b:a; r=sym_choice("sym",2)?rt_sym(nm[i]):S(nm[i]);
      VALUE w=rt_try(t,"value_of",1,S(nm[i])); if(ok) CHECK(rt_rc==0&&isi32(w,(int32_t)want),"value_of gives the value of a symbol"); else CHECK(raised(ERR(Arg)),"value_of refuses unknown symbols"); break; }
    case 2:{ unsigned o=sym_choice("other",3); if(o==2){ uint32_t lo=sym_u32("low"),hi=sym_u32("high"); __sym_assume(((int32_t)hi!=((int32_t)lo>>31))); lengths(lo); int64_t big=(int64_t)((uint64_t)hi<<32|lo); r=rt_int(big); } else r=o?Qnil:rt_flt(1.0); ok=false; break; } }
  rt_try(v,"typelib_from_ruby",1,r); uint32_t now; memcpy(&now,mem(v),4);
  if(ok){ CHECK(rt_rc==0,"values and symbols of the enumeration are accepted"); CHECK(now==want,"the enumeration holds the assigned value"); COVER("set"); } else { CHECK(rt_rc==1,"what is not in the enumeration is refused"); CHECK(now==q,"a refused assignment changes nothing"); COVER("refused"); }
  VALUE h=rt_call(t,"keys"); VALUE p=rb_iv_get(h,"pairs"); CHECK(rt_len(p)==2,"keys lists every symbol once"); for(long i=0;i<2;i++){ VALUE e=rt_at(p,i); bool A=!strcmp(rt_cstr(rt_at(e,0)),"AA"); CHECK(isi32(rt_at(e,1),(int32_t)(A?a:b)),"keys gives the values"); } CHECK(rt_call(t,"keys")==h,"keys are computed once"); CHECK(rt_len(rb_iv_get(rt_call(rt_const("EnumType"),"keys"),"pairs"))==0,"only enumerations have keys"); }
// character arrays, embedded between two other fields
HARNESS(rbchars){ up(); unsigned D=1+sym_choice("dim",3); VALUE ch=num("/char",1,0); char nm[16]; strcpy(nm,"/char[0]"); nm[6]='0'+D; VALUE at=R("build",1,S(nm)); (void)ch;
  VALUE st=R("do_create_compound",3,S("/S"),rt_ary(3,rt_ary(3,S("p"),ch,rt_int(0)),rt_ary(3,S("s"),at,rt_int(1)),rt_ary(3,S("q"),ch,rt_int(1+D))),rt_int(0));
  VALUE v=mknew(st); uint8_t before[8]; sym_bytes(before,D+2,"old"); memcpy(mem(v),before,D+2);
  VALUE f=rt_call(v,"typelib_get_field",2,S("s"),Qtrue); CHECK(mem(f)==mem(v)+1,"a field is accessed in place"); CHECK(rt_call(f,"string_handler?")==Qtrue,"arrays of characters handle strings");
  unsigned n=sym_choice("len",D+3); char txt[8]; for(unsigned i=0;i<n;i++){ txt[i]=(char)sym_u8("c"); } txt[n]=0; bool nul=false; for(unsigned i=0;i<n;i++) if(!txt[i]) nul=true;
  unsigned how=sym_choice("how",3); VALUE s=rt_str(txt,n);
  if(how==2) rt_try(v,"typelib_set_field",2,S("s"),s); else rt_try(g_t,"from_string",3,f,s,how?Qtrue:Qfalse);
  CHECK(mem(v)[0]==before[0]&&mem(v)[D+1]==before[D+1],"assigning a string stays within the array");
  if(n<D&&!nul){ CHECK(rt_rc==0,"a string that fits with its terminator is accepted"); VALUE g=rt_try(g_t,"to_string",2,f,how?Qtrue:Qfalse); CHECK(rt_rc==0&&rt_len(g)==(long)n&&!memcmp(rt_cstr(g),txt,n),"a string reads back as it was written"); COVER("fits"); }
  else if(n>=D&&!nul){ CHECK(rt_rc==1,"a string that does not fit is refused"); CHECK(!memcmp(mem(v),before,D+2),"a refused assignment changes nothing"); COVER("long"); } }
HARNESS(rbchars_read){ up(); unsigned D=1+sym_choice("dim",3); VALUE ch=num("/char",1,0); num("/other",1,0); char nm[16]; strcpy(nm,"/char[0]"); nm[6]='0'+D; VALUE at=R("build",1,S(nm)); VALUE v=mknew(at); uint8_t b[4]; sym_bytes(b,D,"c"); memcpy(mem(v),b,D);
  VALUE g=rt_try(g_t,"to_string",2,v,Qfalse); unsigned n=0; while(n<D&&b[n]) n++; CHECK(rt_rc==0&&rt_len(g)==(long)n&&!memcmp(rt_cstr(g),b,n),"an array of characters reads up to its first zero or its end"); COVER("array");
  VALUE pt=R("build",1,S("/char*")); VALUE p=mknew(pt); char txt[4]; memcpy(txt,b,D); txt[D]=0; *(char**)mem(p)=txt; g=rt_try(g_t,"to_string",2,p,Qfalse); CHECK(rt_rc==0&&rt_len(g)==(long)n&&!memcmp(rt_cstr(g),b,n),"a pointer to characters reads up to the first zero"); COVER("pointer"); *(char**)mem(p)=0; rt_try(g_t,"to_string",2,p,sym_choice("known",2)?Qtrue:Qfalse); CHECK(raised(ERR(Arg)),"a null pointer is no string");
  rt_try(g_t,"from_string",3,p,S("a"),Qfalse); CHECK(raised(ERR(Type)),"strings are not assigned through pointers");
  VALUE o=mknew(sym_choice("o",2)?R("build",1,S("/other[2]")):ch); rt_try(g_t,"from_string",3,o,S("a"),Qfalse); CHECK(raised(ERR(Type)),"only arrays of characters take strings"); rt_try(g_t,"to_string",2,o,Qfalse); CHECK(rt_rc==1,"only arrays of characters read as strings"); CHECK(rt_call(o,"string_handler?")==Qfalse,"only arrays of characters handle strings"); }
// ---- element access
static VALUE g_seen[16]; static unsigned g_nseen; static uint64_t g_mask;
static VALUE seen(VALUE a,VALUE b){ CHECK(g_nseen<16,"a block is called once per element"); g_seen[g_nseen]=a; return (g_mask>>g_nseen++)&1?Qtrue:Qnil; }
HARNESS(rbarray){ up(); VALUE i32=num("/i",4,0); unsigned D=1+sym_choice("dim",3); char nm[8]; strcpy(nm,"/i[0]"); nm[3]='0'+D; VALUE at=R("build",1,S(nm)); VALUE v=mknew(at); int32_t x[4]; for(unsigned i=0;i<D;i++){ x[i]=(int32_t)sym_u32("x"); memcpy(mem(v)+4*i,&x[i],4); }
  CHECK(isi32(rt_call(v,"size"),D)&&isi32(rt_call(at,"length"),D),"an array has its dimension as size");
  unsigned op=sym_choice("op",4); int64_t ix=(int64_t)sym_u64("index"); VALUE rix=rt_int(ix); bool in=ix>=0&&ix<(int64_t)D;
  if(op==0){ VALUE g=rt_try(v,"do_get",1,rix); if(in){ CHECK(rt_rc==0,"elements within bounds are readable"); CHECK(mem(g)==mem(v)+4*ix,"an element is accessed in place"); COVER("get"); } else { CHECK(rt_rc==1,"indexes out of bounds are refused"); COVER("out"); } }
  else if(op==1){ int64_t n=(int64_t)sym_u8("n"); VALUE g=rt_try(v,"do_get",2,rix,rt_int(n)); if(in&&ix+n<=(int64_t)D){ CHECK(rt_rc==0&&rt_len(g)==n,"a range within bounds gives that many elements"); for(int64_t i=0;i<n;i++) CHECK(mem(rt_at(g,i))==mem(v)+4*(ix+i),"a range gives its elements in order"); COVER("range"); } else { CHECK(rt_rc==1,"ranges out of bounds are refused"); COVER("rangeout"); } }
  else if(op==2){ int32_t n=(int32_t)sym_u32("new"); rt_try(v,"do_set",2,rix,rt_int(n)); CHECK((rt_rc==0)==in,"elements are assigned exactly within bounds"); for(unsigned i=0;i<D;i++){ int32_t w=in&&ix==(int64_t)i?n:x[i]; CHECK(!memcmp(mem(v)+4*i,&w,4),"assigning an element changes that one only"); } COVER("set"); }
  else { g_nseen=0; g_mask=0; rt_block=seen; rt_try(v,"do_each"); CHECK(rt_rc==0&&g_nseen==D,"iteration visits every element"); for(unsigned i=0;i<D;i++) CHECK(mem(g_seen[i])==mem(v)+4*i,"iteration visits the elements in order"); COVER("each"); } }
HARNESS(rbfields){ up(); VALUE i32=num("/i",4,0),i16=num("/h",2,1); VALUE at=R("build",1,S("/h[2]")); VALUE in=R("do_create_compound",3,S("/In"),rt_ary(2,rt_ary(3,S("x"),i16,rt_int(0)),rt_ary(3,S("y"),i16,rt_int(2))),rt_int(0)); unsigned g=sym_choice("gap",2)*4;
  VALUE pt=R("build",1,S("/i*")); VALUE st=R("do_create_compound",3,S("/S"),rt_ary(4,rt_ary(3,S("a"),i32,rt_int(0)),rt_ary(3,S("b"),in,rt_int(4+g)),rt_ary(3,S("ab"),at,rt_int(8+g)),rt_ary(3,S("p"),pt,rt_int(16+g))),rt_int(0));
  VALUE none=rt_try(rt_const("CompoundType"),"get_fields"); CHECK(rt_rc==0&&rt_len(none)==0,"only compounds have fields"); VALUE fs=rt_call(st,"get_fields"); CHECK(rt_len(fs)==4,"get_fields lists every field"); VALUE ft[]={i32,in,at,pt}; unsigned of[]={0,4+g,8+g,16+g}; for(unsigned i=0;i<4;i++){ VALUE f=rt_at(fs,i); static const char*n[]={"a","b","ab","p"}; CHECK(!strcmp(rt_cstr(rt_at(f,0)),n[i])&&isi32(rt_at(f,1),of[i])&&rt_at(f,2)==ft[i],"get_fields gives names, offsets and types"); }
  VALUE v=mknew(st); unsigned sz=24+g; uint8_t old[32]; sym_bytes(old,16+g,"old"); memset(old+16+g,0,8); memcpy(mem(v),old,sz);
  char q[4]; unsigned n=sym_choice("n",3); for(unsigned i=0;i<n;i++){ q[i]=(char)sym_u8("q"); __sym_assume(q[i]!=0); } q[n]=0; int f= n==1&&q[0]=='a'?0:n==1&&q[0]=='b'?1:n==2&&q[0]=='a'&&q[1]=='b'?2:n==1&&q[0]=='p'?3:-1;
  if(sym_choice("set",2)==0){ bool raw=sym_choice("raw",2); VALUE r=rt_try(v,"typelib_get_field",2,S(q),raw?Qtrue:Qfalse); if(f<0){ CHECK(raised(ERR(Arg)),"unknown fields are refused"); return; } CHECK(rt_rc==0,"fields are readable"); COVER("get");
    if(f==0&&!raw){ int32_t x; memcpy(&x,old,4); CHECK(isi32(r,x),"a numeric field reads as its value"); } else { CHECK(mem(r)==mem(v)+of[f],"a field is accessed in place"); CHECK(rt_call(r,"class")==ft[f],"a field has its type"); } return; }
  unsigned what=sym_choice("what",4); VALUE nv; int32_t k=(int32_t)sym_u32("k"); uint8_t nb[4]; bool ok=false;
  if(what==0){ nv=rt_int(k); memcpy(nb,&k,4); ok=f==0; } else if(what==1){ nv=mknew(in); memcpy(mem(nv),&k,4); memcpy(nb,&k,4); ok=f==1; } else if(what==2){ nv=mknew(at); memcpy(mem(nv),&k,4); memcpy(nb,&k,4); ok=f==2; } else { nv=mknew(i32); memcpy(mem(nv),&k,4); memcpy(nb,&k,4); ok=f==0; }
  rt_try(v,"typelib_set_field",2,S(q),nv); if(f<0) CHECK(raised(ERR(Arg)),"unknown fields are refused"); else if(ok){ CHECK(rt_rc==0,"a value of the type of the field is accepted"); memcpy(old+of[f],nb,4); COVER("set"); } else { CHECK(rt_rc==1,"a value of another type is refused"); COVER("mismatch"); }
  CHECK(!memcmp(mem(v),old,sz),"assigning a field changes that field only"); VALUE z=rt_call(st,"value_new",1,Qtrue); for(unsigned i=0;i<sz;i++) CHECK(mem(z)[i]==0,"values that are asked to be zero are"); VALUE e=rt_call(v,"typelib_get_field",2,S("b"),Qtrue); rt_try(e,"do_invalidate"); CHECK(rt_rc==0&&mem(e)==0,"parts of values can be invalidated"); rt_try(v,"do_invalidate"); CHECK(raised(ERR(Arg))&&!memcmp(mem(v),old,sz),"only parts of values can be invalidated"); CHECK(rt_try(e,"typelib_get_field",2,S("x"),sym_choice("raw",2)?Qtrue:Qfalse)==Qnil&&rt_rc==0,"invalidated values have no fields"); VALUE op=R("create_opaque",2,S("/O"),rt_int(4)); VALUE so=R("do_create_compound",3,S("/SO"),rt_ary(2,rt_ary(3,S("a"),i32,rt_int(0)),rt_ary(3,S("o"),op,rt_int(4))),rt_int(0)); rt_try(so,"value_new",1,Qfalse); CHECK(rt_rc==1,"values with opaques are not created"); uint8_t foreign[8]={0}; VALUE vo=rt_try(so,"from_address",1,rt_uint((uint64_t)foreign)); CHECK(rt_rc==0,"memory of others can be wrapped"); VALUE x=rt_try(vo,"typelib_get_field",2,S("o"),sym_choice("rawo",2)?Qtrue:Qfalse); CHECK(rt_rc==0&&rt_call(x,"class")==op&&mem(x)==mem(vo)+4,"opaque fields are accessed in place"); COVER("invalid"); }
static void containers(){ Container::registerContainer("/std/vector",Vector::factory); Container::registerContainer("/std/string",String::factory); }
HARNESS(rbvector){ up(); containers(); VALUE i32=num("/i",4,0),i16=num("/h",2,0); (void)i16; VALUE vt=R("define_container",3,S("/std/vector"),i32,rt_int(0)); CHECK(!strcmp(rt_cstr(rt_call(vt,"container_kind")),"/std/vector")&&rt_call(vt,"random_access?")==Qtrue&&rt_call(vt,"deference")==i32,"a container type has its kind and element type"); CHECK(isi32(rt_call(vt,"natural_size"),sizeof(std::vector<int32_t>))&&isi32(rt_call(vt,"size"),sizeof(std::vector<int32_t>)),"a container type has the size of the container"); rt_include(vt,rt_const("ContainerType"),"StdVector"); VALUE v=mknew(vt); std::vector<int32_t> ref; unsigned ops=(unsigned)__sym_param("ops",3);
  for(unsigned o=0;o<ops;o++){ unsigned op=sym_choice("op",8); int32_t x=(int32_t)sym_u32("x");
    switch(op){
      case 0: case 1:{ VALUE e=rt_int(x); if(op==1){ e=mknew(i32); memcpy(mem(e),&x,4); } rt_try(v,"do_push",1,e); CHECK(rt_rc==0,"elements can be added"); ref.push_back(x); COVER("push"); break; }
      case 2:{ if(ref.empty()) __sym_stop(); unsigned i=sym_choice("i",ref.size()); rt_try(v,"do_set",2,rt_int(i),rt_int(x)); CHECK(rt_rc==0,"elements can be assigned"); ref[i]=x; COVER("set"); break; }
      case 3:{ VALUE r=rt_try(v,"do_erase",1,rt_int(x)); bool found=false; for(unsigned i=0;i<ref.size();i++) if(ref[i]==x){ ref.erase(ref.begin()+i); found=true; break; } CHECK(rt_rc==0&&r==(found?Qtrue:Qfalse),"erase tells whether the element was found"); COVER("erase"); break; }
      case 4:{ g_nseen=0; g_mask=sym_u8("mask"); rt_block=seen; rt_try(v,"do_delete_if"); CHECK(rt_rc==0&&g_nseen==ref.size(),"delete_if visits every element once"); std::vector<int32_t> n; for(unsigned i=0;i<ref.size();i++) if(!((g_mask>>i)&1)) n.push_back(ref[i]); ref=n; COVER("delete_if"); break; }
      case 5: rt_try(v,"do_clear"); CHECK(rt_rc==0,"containers can be cleared"); ref.clear(); COVER("clear"); break;
      case 6:{ VALUE e; if(sym_choice("bad",2)) e=S("x"); else { e=mknew(i16); } if(sym_choice("m",2)) rt_try(v,"do_push",1,e); else rt_try(v,"do_erase",1,e); CHECK(rt_rc==1,"elements of other types are refused"); COVER("refused"); break; }
      default:{ VALUE id=rt_call(v,"contained_memory_id"); if(ref.empty()) CHECK(id==Qnil,"an empty container holds no memory"); else CHECK(rt_mag(id)==(uint64_t)mem(rt_call(v,"do_get",2,rt_int(0),Qtrue)),"the memory of a container is that of its elements"); }
    }
    CHECK(isi32(rt_call(v,"length"),ref.size())&&isi32(rt_call(v,"size"),ref.size()),"a container has the expected length");
    for(unsigned i=0;i<ref.size();i++){ CHECK(isi32(rt_call(v,"do_get",2,rt_int(i),Qfalse),ref[i]),"a container holds the expected elements"); VALUE w=rt_call(v,"do_get",2,rt_int(i),Qtrue); CHECK(!memcmp(mem(w),&ref[i],4),"elements are accessed in place"); rt_pin(w); rt_unpin(w); rb_iv_set(w,"@x",Qnil); rt_call(w,"do_invalidate"); }
    g_nseen=0; g_mask=0; rt_block=seen; rt_call(v,"do_each",1,Qfalse); CHECK(g_nseen==ref.size(),"iteration visits every element"); for(unsigned i=0;i<ref.size();i++) CHECK(isi32(g_seen[i],ref[i]),"iteration gives the elements in order");
  } }
// ---- memory shared between Ruby objects
struct Root { uint8_t*p; uint8_t want[16]; unsigned size; };
struct Held { VALUE v; unsigned root,off,size,kind; bool child,valid; };   // kind: 0 array, 1 compound, 2 number, 3 vector
HARNESS(rbmem){ up(); containers(); VALUE i32=num("/i",4,0); VALUE S_=R("do_create_compound",3,S("/S"),rt_ary(2,rt_ary(3,S("x"),i32,rt_int(0)),rt_ary(3,S("y"),i32,rt_int(4))),rt_int(0)); VALUE at=R("build",1,S("/S[2]")),vt=R("define_container",3,S("/std/vector"),i32,rt_int(0)),pt[3]={R("build",1,S("/S[2]*")),R("build",1,S("/S*")),R("build",1,S("/i*"))};
  rt_pin(vt); rt_include(vt,rt_const("ContainerType"),"StdVector"); std::vector<Root> roots; std::vector<Held> held; bool reg=true; unsigned ops=(unsigned)__sym_param("ops",4),kinds=(unsigned)__sym_param("kinds",3),any=(unsigned)__sym_param("any",1);
  auto hold=[&](VALUE v,unsigned root,unsigned off,unsigned size,unsigned kind,bool child){ rt_pin(v); Held h={v,root,off,size,kind,child,true}; held.push_back(h); };
  auto fresh=[&](unsigned k){ Root r; VALUE v; if(k==0){ v=mknew(at); r.p=mem(v); r.size=16; sym_bytes(r.want,16,"content"); memcpy(r.p,r.want,16); hold(v,roots.size(),0,16,0,false); }
    else { v=mknew(vt); r.size=8; sym_bytes(r.want,8,"content"); for(unsigned i=0;i<2;i++){ int32_t x; memcpy(&x,r.want+4*i,4); rt_call(v,"do_push",1,rt_int(x)); } r.p=(uint8_t*)&(*(std::vector<int32_t>*)mem(v))[0]; hold(v,roots.size(),0,8,3,false); } roots.push_back(r); };
  fresh(kinds==3?sym_choice("kind",2):kinds==2?1:0); rt_mark(); rt_sweep(0);
  for(unsigned o=0;o<ops;o++){ unsigned op=sym_choice("op",9); unsigned k=0; bool needs=op>=1&&op<=5; if(needs){ if(held.empty()) __sym_stop(); k=sym_choice("held",held.size()); if(!held[k].valid&&op!=2) __sym_stop(); }
    switch(op){
      case 0: if(!reg||roots.size()>=2) __sym_stop(); fresh(kinds==3?sym_choice("kind",2):kinds==2?1:0); COVER("new"); break;
      case 1:{ Held h=held[k]; if(held.size()>=4) __sym_stop(); if(h.kind==2) __sym_stop(); unsigned i=sym_choice("child",2); VALUE c; switch(h.kind){ case 0: c=rt_try(h.v,"do_get",1,rt_int(i)); CHECK(rt_rc==0,"elements are accessible"); hold(c,h.root,h.off+8*i,8,1,true); break; case 1: c=rt_try(h.v,"typelib_get_field",2,S(i?"y":"x"),Qtrue); CHECK(rt_rc==0,"fields are accessible"); hold(c,h.root,h.off+4*i,4,2,true); break; default: c=rt_try(h.v,"do_get",2,rt_int(i),Qtrue); CHECK(rt_rc==0,"elements are accessible"); hold(c,h.root,h.off+4*i,4,2,true); } COVER("child"); break; }
      case 2: rt_unpin(held[k].v); held.erase(held.begin()+k); COVER("drop"); break;
      case 3:{ if(!held[k].child) { rt_try(held[k].v,"do_invalidate"); CHECK(rt_rc==1,"a toplevel value cannot be invalidated"); break; } rt_try(held[k].v,"do_invalidate"); CHECK(rt_rc==0&&!mem(held[k].v),"an invalidated value refers to no memory"); held[k].valid=false; COVER("invalidate"); break; }
      case 4:{ Held h=held[k]; if(held.size()>=4||h.kind!=1) __sym_stop(); VALUE c=rt_try(h.v,"do_cast",1,i32); CHECK(rt_rc==0,"values can be cast"); hold(c,h.root,h.off,4,2,true); COVER("cast"); break; }
      case 5:{ Held h=held[k]; if(held.size()>=4||h.kind==3) __sym_stop(); VALUE z=rt_call(rb_iv_get(h.v,"@ptr"),"to_ptr"); VALUE p=rt_call(pt[h.kind],"wrap",1,z); CHECK(rt_call(p,"null?")==Qfalse,"a pointer to a value is not NULL"); VALUE d=rt_try(p,"deference"); CHECK(rt_rc==0,"pointers can be followed"); hold(d,h.root,h.off,h.size,h.kind,false); COVER("pointer"); break; }
      case 6: rt_mark(); COVER("mark"); break;
      case 7: if(!rt_sweep1(any?2:sym_choice("order",2))) __sym_stop(); COVER("sweep"); break;
      default: if(!reg) __sym_stop(); rt_unpin(g_reg); reg=false; COVER("noreg"); break;
    }
    for(unsigned i=0;i<held.size();i++) if(held[i].valid){ Held&h=held[i]; Root&r=roots[h.root]; uint8_t*q=h.kind==3?(uint8_t*)&(*(std::vector<int32_t>*)mem(h.v))[0]:mem(h.v); CHECK(q==r.p+h.off,"a value refers to the memory it was created for"); CHECK(!memcmp(q,r.want+h.off,h.size),"the memory of a value that is in use keeps its contents"); }
  }
  unsigned end=sym_choice("end",3); if(end==2){ for(unsigned i=0;i<held.size();i++) rt_unpin(held[i].v); rt_gc(sym_choice("order",2)); CHECK(rt_xlive==0,"memory that is not used any more is freed"); COVER("collected"); }
  rt_exit(end&1); CHECK(rt_xlive==0,"everything is freed exactly once"); }
// zones of parts of a value that are held without the value, and nested ones
HARNESS(rbzone){ up(); containers(); VALUE i32=num("/i",4,0); VALUE ia=R("build",1,S("/i[2]")); VALUE S_=R("do_create_compound",3,S("/S"),rt_ary(2,rt_ary(3,S("x"),i32,rt_int(0)),rt_ary(3,S("a"),ia,rt_int(4))),rt_int(0)); VALUE at=R("build",1,S("/S[2]")); rt_pin(at); VALUE v=mknew(at); rt_pin(v); uint8_t want[24]; sym_bytes(want,24,"content"); uint8_t*p=mem(v); memcpy(p,want,24); (void)S_;
  VALUE h[4]={v}; unsigned off[4]={0},size[4]={24},n=1; unsigned depth=1+sym_choice("depth",3);
  for(unsigned d=0;d<depth;d++){ unsigned i=sym_choice("child",2); VALUE c; switch(d){ case 0: c=rt_try(h[0],"do_get",1,rt_int(i)); off[n]=12*i; size[n]=12; break; case 1: c=rt_try(h[1],"typelib_get_field",2,S(i?"a":"x"),Qtrue); off[n]=off[1]+4*i; size[n]=i?8:4; break; default: if(size[2]!=8) __sym_stop(); c=rt_try(h[2],"do_get",1,rt_int(i)); off[n]=off[2]+4*i; size[n]=4; } CHECK(rt_rc==0,"parts of values are accessible"); rt_pin(c); h[n++]=c; }
  // keep one of them as a zone only
  unsigned k=sym_choice("kept",n); VALUE z=rb_iv_get(h[k],"@ptr"); rt_pin(z); bool inval=sym_choice("invalidate",2); if(inval){ if(k==0) __sym_stop(); unsigned j=sym_choice("which",n); if(j==0||j==k) __sym_stop(); rt_try(h[j],"do_invalidate"); CHECK(rt_rc==0,"parts of values can be invalidated"); COVER("invalidate"); }
  for(unsigned j=0;j<n;j++) rt_unpin(h[j]);
  for(unsigned g=0;g<2;g++){ rt_gc(sym_choice("order",2)); uint64_t a=rt_mag(rt_call(z,"zone_address")); CHECK((uint8_t*)a==p+off[k],"a zone refers to the memory it was created for"); CHECK(!memcmp((void*)a,want+off[k],size[k]),"memory that a zone refers to is kept"); }
  if(sym_choice("end",2)){ rt_unpin(z); rt_gc(sym_choice("order",2)); CHECK(rt_xlive==0,"memory that is not used any more is freed"); COVER("collected"); }
  rt_exit(sym_choice("order",2)); CHECK(rt_xlive==0,"everything is freed exactly once"); }
// ---- the registry as Ruby sees it

static VALUE g_rt[16],g_rn[16]; static unsigned g_nr; static VALUE each1(VALUE a,VALUE){ CHECK(g_nr<16,"each_type yields every type once"); g_rt[g_nr++]=a; return Qnil; } static VALUE each2(VALUE a,VALUE b){ CHECK(g_nr<16,"each_type yields every name once"); g_rn[g_nr]=a; g_rt[g_nr++]=b; return Qnil; }
struct RT { std::string name; VALUE cls; unsigned size; std::vector<unsigned> deps; bool removed; std::string suf; };
static VALUE tname(VALUE c){ return rb_iv_get(c,"@name"); }
static std::set<std::string> strs(VALUE a){ std::set<std::string> r; for(long i=0;i<rt_len(a);i++) r.insert(rt_cstr(rt_at(a,i))); CHECK((long)r.size()==rt_len(a),"a list of names has no duplicates"); return r; }
HARNESS(rbreg){ up(); static const char*const N[]={"/A","/n/B","/n/C"}; static const char*const ALL[]={"/A","/n/B","/n/C","/A*","/n/B[2]","/x"}; std::vector<RT> T; std::map<std::string,unsigned> M; unsigned ops=(unsigned)__sym_param("ops",3); bool wide=__sym_param("wide",0);
  auto rdeps=[&](unsigned i){ std::set<VALUE> r; std::vector<unsigned> w(1,i); while(!w.empty()){ unsigned k=w.back(); w.pop_back(); if(!r.insert(T[k].cls).second) continue; for(unsigned j=0;j<T.size();j++) if(!T[j].removed) for(unsigned d:T[j].deps) if(d==k) w.push_back(j); } return r; };
  // names derived from aliases
  std::function<void(unsigned)> derive=[&](unsigned i){ for(unsigned j=0;j<T.size();j++) if(!T[j].removed&&!T[j].suf.empty()&&T[j].deps[0]==i){ bool n=false; std::vector<std::string> a; for(auto&m:M) if(m.second==i) a.push_back(m.first+T[j].suf); for(auto&x:a) if(!M.count(x)){ M[x]=j; n=true; } if(n) derive(j); } };
  std::function<void(std::string)> underive=[&](std::string n){ unsigned i=M[n]; M.erase(n); for(unsigned j=0;j<T.size();j++) if(!T[j].removed&&!T[j].suf.empty()&&T[j].deps[0]==i&&M.count(n+T[j].suf)&&T[j].name!=n+T[j].suf) underive(n+T[j].suf); };
  auto created=[&](VALUE c,const char*n,unsigned size,std::vector<unsigned> const&deps,const char*suf){ CHECK(rt_rc==0,"a type with a new name can be created"); CHECK(!strcmp(rt_cstr(tname(c)),n),"a type has the name it was created with"); CHECK(isi32(rt_call(c,"size"),size),"a type has the size it was created with"); for(RT&t:T) CHECK(t.cls!=c,"different types have different classes"); RT t={n,c,size,deps,false,suf?suf:""}; M[n]=T.size(); T.push_back(t); rt_pin(c); if(suf) derive(deps[0]); };
  for(unsigned o=0;o<ops;o++){ unsigned op=sym_choice("op",8);
    switch(op){
      case 0:{ const char*n=N[sym_choice("name",3)]; unsigned kind=sym_choice("kind",wide?5:3); if(!wide&&kind==2) kind=4; bool fresh=!M.count(n); VALUE c; unsigned size=0; std::vector<unsigned> deps;
        switch(kind){ case 0: size=wide?1u<<sym_choice("size",4):2; c=rt_try(g_reg,"do_create_numeric",3,S(n),rt_int(size),rt_int(wide?sym_choice("cat",2):0)); break; case 1: size=4; c=rt_try(g_reg,"do_create_enum",3,S(n),rt_ary(1,rt_ary(2,S("V"),rt_int(3))),rt_int(0)); break; case 2: size=7; c=rt_try(g_reg,"create_opaque",2,S(n),rt_int(7)); break; case 3: c=rt_try(g_reg,"create_null",1,S(n)); break;
          default:{ int d=-1; for(unsigned i=0;i<T.size();i++) if(!T[i].removed&&T[i].size){ d=i; if(sym_choice("this",2)) break; } if(d<0) __sym_stop(); deps.push_back(d); size=T[d].size+8; c=rt_try(g_reg,"do_create_compound",3,S(n),rt_ary(1,rt_ary(3,S("f"),T[d].cls,rt_int(8))),rt_int(0)); COVER("compound"); } }
        if(fresh) created(c,n,size,deps,0); else { CHECK(raised(ERR(Arg)),"a name is defined once"); COVER("duplicate"); } break; }
      case 1:{ const char*n=N[sym_choice("name",3)]; if(!M.count(n)) __sym_stop(); bool arr=sym_choice("array",2); const std::string el=T[M[n]].name; if(T[M[n]].size==0||el.size()>5) __sym_stop(); std::string full=el+(arr?"[2]":"*"); bool fresh=!M.count(full); std::string q=std::string(n)+(arr?"[2]":"*"); VALUE c=rt_try(g_reg,"build",1,S(q.c_str())); CHECK(rt_rc==0,"types can be derived from types of the registry"); if(fresh) created(c,full.c_str(),arr?2*T[M[n]].size:8,std::vector<unsigned>(1,M[n]),arr?"[2]":"*"); else CHECK(c==T[M[full]].cls,"building a type that exists gives that type"); COVER("build"); break; }
      case 2:{ const char*n=N[sym_choice("name",3)],*b=ALL[sym_choice("base",6)]; rt_try(g_reg,"alias",2,S(n),S(b)); if(!M.count(b)) CHECK(raised(rt_const("NotFound")),"an alias needs an existing type"); else if(M.count(n)&&M[n]!=M[b]) CHECK(raised(ERR(Arg)),"an alias needs a new name"); else { CHECK(rt_rc==0,"types can be aliased"); M[n]=M[b]; derive(M[n]); COVER("alias"); } break; }
      case 3:{ const char*n=N[sym_choice("name",3)]; rt_try(g_reg,"remove_alias",1,S(n)); if(M.count(n)&&T[M[n]].name!=n){ CHECK(rt_rc==0,"aliases can be removed"); underive(n); COVER("remove_alias"); } else CHECK(raised(ERR(Arg)),"only aliases can be removed"); break; }
      case 4: rt_try(g_reg,"clear_aliases"); CHECK(rt_rc==0,"aliases can be removed"); for(auto i=M.begin();i!=M.end();) if(T[i->second].name!=i->first) M.erase(i++); else ++i; COVER("clear_aliases"); break;
      case 5:{ if(T.empty()) __sym_stop(); unsigned i=sym_choice("type",T.size()); if(T[i].removed) __sym_stop(); std::set<VALUE> e=rdeps(i),g; VALUE r=rt_try(g_reg,"remove",1,T[i].cls); CHECK(rt_rc==0,"types can be removed"); for(long k=0;k<rt_len(r);k++) g.insert(rt_at(r,k)); CHECK(g==e&&(long)g.size()==rt_len(r),"removing a type removes it and what depends on it"); for(RT&t:T) if(e.count(t.cls)) t.removed=true; for(auto k=M.begin();k!=M.end();) if(T[k->second].removed) M.erase(k++); else ++k; COVER("remove"); break; }
      case 6:{ if(T.empty()) __sym_stop(); unsigned i=sym_choice("type",T.size()); if(T[i].removed) __sym_stop(); std::set<VALUE> e=rdeps(i),g; VALUE r=rt_try(g_reg,"reverse_depends",1,T[i].cls); CHECK(rt_rc==0,"reverse dependencies can be queried"); for(long k=0;k<rt_len(r);k++) g.insert(rt_at(r,k)); CHECK(g==e&&(long)g.size()==rt_len(r),"reverse_depends lists the type and what depends on it"); COVER("reverse_depends"); break; }
      default: rt_gc(o&1); COVER("gc");
    }
    CHECK(isi32(rt_call(g_reg,"size"),M.size()),"the registry has as many names as were defined");
    for(unsigned i=0;i<6;i++){ bool in=M.count(ALL[i]); CHECK((rt_call(g_reg,"includes?",1,S(ALL[i]))==Qtrue)==in,"a registry includes exactly the defined names"); VALUE c=rt_try(g_reg,"get",1,S(ALL[i])); if(in) CHECK(rt_rc==0&&c==T[M[ALL[i]]].cls,"a name always gives the same type object"); else CHECK(raised(rt_const("NotFound")),"undefined names raise NotFound"); }
    g_nr=0; rt_block=each1; rt_call(g_reg,"each_type",2,Qnil,Qfalse); std::set<VALUE> g(g_rt,g_rt+g_nr),e; for(auto&i:M) e.insert(T[i.second].cls); CHECK(g==e&&g.size()==g_nr,"each_type yields every type once");
    for(int pp=0;pp<2;pp++){ const char*pre=pp?"/n/":0; g_nr=0; rt_block=each2; rt_call(g_reg,"each_type",2,pre?S(pre):Qnil,Qtrue); unsigned k=0; for(auto&i:M) if(!pre||i.first.compare(0,3,"/n/")==0){ bool f=false; for(unsigned j=0;j<g_nr;j++) f|=i.first==rt_cstr(g_rn[j])&&g_rt[j]==T[i.second].cls; CHECK(f,"each_type yields the names with their types"); k++; } CHECK(k==g_nr,"each_type yields the names that were asked for"); }
    for(unsigned i=0;i<T.size();i++){ RT&t=T[i]; CHECK(isi32(rt_call(t.cls,"size"),t.size),"types are usable even after they were removed"); if(t.removed) continue; std::set<std::string> a; for(auto&m:M) if(m.second==i&&m.first!=t.name) a.insert(m.first); CHECK(strs(rt_call(g_reg,"aliases_of",1,t.cls))==a,"aliases_of lists the aliases of a type"); }
  }
  unsigned end=sym_choice("end",2); if(end){ rt_unpin(g_reg); rt_gc(1); for(RT&t:T) CHECK(isi32(rt_call(t.cls,"size"),t.size),"types keep their registry alive"); COVER("kept"); }
  rt_exit(end); }
static std::set<std::string> names(VALUE reg){ g_nr=0; rt_block=each2; rt_call(reg,"each_type",2,Qnil,Qtrue); std::set<std::string> r; for(unsigned i=0;i<g_nr;i++) r.insert(rt_cstr(g_rn[i])); return r; }
static std::set<std::string> SS(std::initializer_list<const char*> l){ std::set<std::string> r; for(const char*x:l) r.insert(x); return r; }
static VALUE get(VALUE reg,const char*n){ VALUE t=rt_try(reg,"get",1,S(n)); CHECK(rt_rc==0,"the type is in the registry"); return t; }
// whole registries: merging, extracting, resizing, and types of other registries
HARNESS(rbregs){ up(); containers(); VALUE i=num("/i",4,0); VALUE s=R("do_create_compound",3,S("/n/S"),rt_ary(1,rt_ary(3,S("f"),i,rt_int(0))),rt_int(0)); rt_pin(i); rt_pin(s); R("alias",2,S("/A"),S("/n/S")); VALUE p=R("build",1,S("/n/S*")),v=R("define_container",3,S("/std/vector"),i,rt_int(0)); rt_pin(p); rt_pin(v); std::set<std::string> N=names(g_reg); CHECK(N==SS({"/i","/n/S","/A","/n/S*","/A*","/std/vector</i>"}),"a registry holds what was defined");
  VALUE o=rt_call(rt_const("Registry"),"new"); rt_pin(o); unsigned isz=sym_choice("osize",2)?4:2; VALUE oi=rt_call(o,"do_create_numeric",3,S("/i"),rt_int(isz),rt_int(0)); VALUE os=rt_call(o,"do_create_compound",3,S("/n/T"),rt_ary(1,rt_ary(3,S("g"),oi,rt_int(4))),rt_int(0)); rt_call(o,"alias",2,S("/B"),S("/n/T")); std::set<std::string> ON=names(o);
  switch(sym_choice("what",10)){
    case 8:{ unsigned bs=sym_choice("size",2)?32:0; VALUE w=rt_try(g_reg,"build",2,S("/i[4]"),rt_int(bs)); CHECK(rt_rc==0&&isi32(rt_call(w,"size"),bs?bs:16)&&isi32(rt_call(w,"length"),4)&&get(g_reg,"/i[4]")==w,"arrays can be built"); N.insert("/i[4]"); CHECK(names(g_reg)==N,"building adds the built type only"); rt_try(g_reg,"build",0); CHECK(raised(ERR(Arg)),"build takes one or two arguments"); rt_try(g_reg,"build",3,S("/i[2]"),rt_int(8),rt_int(8)); CHECK(raised(ERR(Arg)),"build takes one or two arguments"); CHECK(names(g_reg)==N,"a refused operation changes nothing"); COVER("build"); break; }
    case 0:{ VALUE m=rt_try(g_reg,"merge",1,o); if(isz!=4){ CHECK(raised(ERR(Runtime)),"merging different definitions is refused"); CHECK(get(g_reg,"/i")==i&&isi32(rt_call(i,"size"),4),"a refused merge keeps the definitions"); COVER("conflict"); break; }
      CHECK(rt_rc==0&&m==g_reg,"compatible registries can be merged"); std::set<std::string> e=N; e.insert(ON.begin(),ON.end()); CHECK(names(g_reg)==e,"merging adds the missing names"); CHECK(get(g_reg,"/i")==i,"merging keeps the types that were there"); VALUE t=get(g_reg,"/n/T"); CHECK(t!=os&&get(g_reg,"/B")==t,"merging copies types"); CHECK(names(o)==ON&&get(o,"/n/T")==os,"merging does not change the source"); rt_pin(t); rt_unpin(o); rt_gc(0); VALUE f=rt_at(rt_call(t,"get_fields"),0); CHECK(rt_at(f,2)==i&&isi32(rt_at(f,1),4),"merged types are made of types of the target"); COVER("merge"); break; }
    case 1:{ static const char*const q[]={"/n/S","/A","/n/S*","/std/vector</i>","/i"}; unsigned k=sym_choice("of",5); bool al=sym_choice("aliases",2); VALUE m=rt_try(g_reg,"do_minimal",2,S(q[k]),al?Qtrue:Qfalse); CHECK(rt_rc==0,"a minimal registry can be extracted"); std::set<std::string> e=k==4?SS({"/i"}):k==3?SS({"/std/vector</i>","/i"}):SS({"/i","/n/S"}); if(k==2) e.insert("/n/S*"); if(k<=2&&al) e.insert("/A"); if(k==2&&al) e.insert("/A*");
      CHECK(names(m)==e,"a minimal registry holds the type and what it needs"); VALUE t=get(m,"/i"); CHECK(t!=i,"a minimal registry has its own types"); rt_pin(m); rt_pin(t); rt_unpin(g_reg); rt_unpin(i); rt_unpin(s); rt_unpin(p); rt_unpin(v); rt_gc(1); CHECK(isi32(rt_call(t,"size"),4)&&names(m)==e,"a minimal registry is independent"); COVER("minimal"); break; }
    case 2:{ VALUE m=rt_try(g_reg,"do_minimal",2,o,sym_choice("aliases",2)?Qtrue:Qfalse); CHECK(rt_rc==0,"a minimal registry can be extracted"); std::set<std::string> n=names(m); CHECK(n.count("/n/S")&&n.count("/n/S*")&&n.count("/std/vector</i>"),"what the other registry lacks is kept"); COVER("minimal2"); break; }
    case 3:{ rt_try(g_reg,"do_minimal",2,S("/none"),Qfalse); CHECK(raised(ERR(Runtime)),"unknown types are refused"); rt_try(g_reg,"do_minimal",2,rt_int(3),Qfalse); CHECK(rt_rc==1,"only names and registries are accepted"); CHECK(names(g_reg)==N,"a refused operation changes nothing"); break; }
    case 4:{ unsigned ns=sym_choice("size",3); static const unsigned z[]={2,8,16}; rt_try(g_reg,"do_resize",1,rt_ary(1,rt_ary(2,S("/i"),rt_int(z[ns])))); CHECK(rt_rc==0,"types can be resized"); CHECK(isi32(rt_call(i,"size"),z[ns]),"a resized type has its new size"); CHECK(names(g_reg)==N&&get(g_reg,"/i")==i&&get(g_reg,"/n/S")==s,"resizing keeps the types"); VALUE x; CHECK(rt_mag(rt_call(s,"size"))>=z[ns],"resizing adapts what contains the type"); (void)x; COVER("resize"); break; }
    case 5:{ VALUE r; switch(sym_choice("op",5)){ case 0: r=rt_try(g_reg,"remove",1,oi); break; case 1: r=rt_try(g_reg,"reverse_depends",1,os); break; case 2: r=rt_try(g_reg,"define_container",3,S("/std/vector"),oi,rt_int(0)); break; case 3: r=rt_try(g_reg,"do_create_compound",3,S("/Q"),rt_ary(2,rt_ary(3,S("a"),i,rt_int(0)),rt_ary(3,S("b"),os,rt_int(8))),rt_int(0)); break; default: rt_unpin(o); r=rt_try(g_reg,"define_container",3,S("/std/vector"),i,rt_int(0)); CHECK(rt_rc==0&&r==v,"a container exists once"); return; }
      CHECK(raised(ERR(Arg)),"types of other registries are refused"); CHECK(names(g_reg)==N&&names(o)==ON,"a refused operation changes nothing"); rt_unpin(g_reg); rt_unpin(i); rt_unpin(s); rt_unpin(p); rt_unpin(v); rt_gc(0); CHECK(isi32(rt_call(oi,"size"),isz),"types of other registries stay with them"); COVER("foreign"); break; }
    case 6:{ unsigned k=sym_choice("bad",8); bool nf=false; if(k==1) __sym_stop(); switch(k){ case 0: rt_try(g_reg,"define_container",3,S("/std/none"),i,rt_int(0)); nf=true; break; case 2: rt_try(g_reg,"build",1,S("/none*")); nf=true; break; case 3: rt_try(g_reg,"build",1,S("/i[x]")); break; case 4: rt_try(g_reg,"do_create_enum",3,S("/E"),rt_ary(2,rt_ary(2,S("X"),rt_int(0)),rt_ary(2,S("X"),rt_int(1))),rt_int(0)); break; case 5: rt_try(g_reg,"do_create_numeric",3,S("/z"),rt_int(4),rt_int(3)); break; case 6: rt_try(g_reg,"source_id_of",1,os); break; default: rt_try(g_reg,"alias",2,S("bad name/"),S("/i")); break; }
      CHECK(rt_rc==1,"what cannot be done raises"); if(nf) CHECK(raised(rt_const("NotFound")),"what does not exist raises NotFound"); CHECK(names(g_reg)==N,"a refused operation changes nothing"); COVER("bad"); break; }
    case 7:{ unsigned cs=sym_choice("size",2)?40:0; VALUE w=R("define_container",3,S("/std/vector"),s,rt_int(cs)); CHECK(isi32(rt_call(w,"size"),cs?cs:sizeof(std::vector<int>))&&isi32(rt_call(w,"natural_size"),sizeof(std::vector<int>)),"a container has the size it was given"); CHECK(w!=v&&!strcmp(rt_cstr(tname(w)),"/std/vector</n/S>"),"a container is named after its kind and element"); CHECK(get(g_reg,"/std/vector</A>")==w,"a container is known under the aliases of its element"); CHECK(rt_call(w,"deference")==s,"a container knows its element type"); COVER("container"); break; }
    default:{ VALUE d=rt_call(p,"do_dependencies"); CHECK(rt_len(d)==1&&rt_at(d,0)==s,"dependencies are types of the registry"); CHECK(rt_call(s,"do_dependencies")!=Qnil&&rt_at(rt_call(s,"do_dependencies"),0)==i,"dependencies are types of the registry"); CHECK(rt_call(p,"deference")==s,"a pointer knows what it points to"); CHECK(rt_call(i,"==",1,oi)==(isz==4?Qtrue:Qfalse)&&rt_call(i,"==",1,i)==Qtrue&&rt_call(i,"==",1,s)==Qfalse&&rt_call(i,"==",1,rt_int(1))==Qfalse,"types are equal if they have the same definition"); CHECK(rt_call(i,"casts_to?",1,oi)==(isz==4?Qtrue:Qfalse),"types can be cast to equal types"); CHECK(strs(R("aliases_of",1,s))==SS({"/A"})&&R("source_id_of",1,s)==Qnil,"type attributes are readable"); R("clear_aliases"); CHECK(names(g_reg)==SS({"/i","/n/S","/n/S*","/std/vector</i>"}),"aliases can be removed"); COVER("query"); }
  }
  rt_exit(sym_choice("exit",2)); }

// ---- whole values
static const char* const WT[]={"/i","/S","/i[2]","/std/vector</i>","/V","/std/vector</S>","/E","/std/string","/S[2]"};
struct World { VALUE reg,t[9]; };
static World world(VALUE reg,bool first){ World w; w.reg=reg; rt_pin(reg); auto C=[&](const char*m,VALUE a,VALUE b,VALUE c){ VALUE r=rt_call(reg,m,3,a,b,c); rt_pin(r); return r; };
  VALUE c8=C("do_create_numeric",S("/char"),rt_int(1),rt_int(0)),i=C("do_create_numeric",S("/i"),rt_int(4),rt_int(0)); w.t[0]=i; w.t[1]=C("do_create_compound",S("/S"),rt_ary(2,rt_ary(3,S("a"),c8,rt_int(0)),rt_ary(3,S("b"),i,rt_int(4))),rt_int(0)); w.t[2]=rt_call(reg,"build",1,S("/i[2]")); rt_pin(w.t[2]);
  w.t[3]=C("define_container",S("/std/vector"),i,rt_int(0)); w.t[4]=C("do_create_compound",S("/V"),rt_ary(2,rt_ary(3,S("a"),i,rt_int(0)),rt_ary(3,S("v"),w.t[3],rt_int(8))),rt_int(0)); w.t[5]=C("define_container",S("/std/vector"),w.t[1],rt_int(0));
  w.t[6]=C("do_create_enum",S("/E"),first?rt_ary(2,rt_ary(2,S("A"),rt_int(1)),rt_ary(2,S("B"),rt_int(9))):rt_ary(2,rt_ary(2,S("B"),rt_int(9)),rt_ary(2,S("A"),rt_int(1))),rt_int(0)); w.t[7]=C("define_container",S("/std/string"),c8,rt_int(0)); w.t[8]=rt_call(reg,"build",1,S("/S[2]")); rt_pin(w.t[8]); return w; }
typedef std::vector<uint8_t> By;
static void le(By&b,uint64_t x,unsigned n){ for(unsigned i=0;i<n;i++) b.push_back((uint8_t)(x>>(8*i))); }
static void be(By&b,uint64_t x,unsigned n){ for(unsigned i=n;i>0;i--) b.push_back((uint8_t)(x>>(8*(i-1)))); }
// the value of type k with the scalars x, its wire format (w; sw: with every scalar byte-swapped), the zero value (z)
struct Val { unsigned k,n; uint32_t x[4]; uint8_t pad[6]; };
static Val anyval(unsigned k,unsigned n){ Val v; v.k=k; v.n=n; for(unsigned i=0;i<4;i++) v.x[i]=sym_u32("x"); sym_bytes(v.pad,6,"pad"); if(k==6) v.x[0]=sym_choice("symbol",2)?1:9; return v; }
static unsigned ncount(unsigned k){ return k==3||k==4||k==5||k==7?sym_choice("count",3):2; }
static void putS(uint8_t*p,Val const&v,unsigned i){ p[0]=(uint8_t)v.x[2*i]; memcpy(p+1,v.pad+3*i,3); memcpy(p+4,&v.x[2*i+1],4); }
static void store(World const&w,VALUE o,Val const&v){ uint8_t*p=mem(o); switch(v.k){ case 0: case 6: memcpy(p,&v.x[0],4); break; case 1: putS(p,v,0); break; case 2: memcpy(p,v.x,8); break; case 8: putS(p,v,0); putS(p+8,v,1); break;
  case 3: for(unsigned i=0;i<v.n;i++) rt_call(o,"do_push",1,rt_int((int32_t)v.x[i])); break; case 4: memcpy(p,&v.x[2],4); memcpy(p+4,v.pad,4); ((std::vector<int32_t>*)(p+8))->assign((int32_t const*)v.x,(int32_t const*)v.x+v.n); break;
  case 5: for(unsigned i=0;i<v.n;i++){ VALUE e=mknew(w.t[1]); putS(mem(e),v,i); rt_call(o,"do_push",1,e); } break; case 7: for(unsigned i=0;i<v.n;i++) rt_call(o,"do_push",1,rt_int((int8_t)v.x[i])); break; } }
static void wireS(By&b,Val const&v,unsigned i,bool pad,bool swap){ b.push_back((uint8_t)v.x[2*i]); if(pad) b.insert(b.end(),v.pad+3*i,v.pad+3*i+3); if(swap) be(b,v.x[2*i+1],4); else le(b,v.x[2*i+1],4); }
static By wire(Val const&v,bool pad,bool swap){ By b; switch(v.k){ case 0: case 6: if(swap) be(b,v.x[0],4); else le(b,v.x[0],4); break; case 1: wireS(b,v,0,pad,swap); break; case 8: wireS(b,v,0,pad,swap); wireS(b,v,1,pad,swap); break; case 2: for(unsigned i=0;i<2;i++) if(swap) be(b,v.x[i],4); else le(b,v.x[i],4); break;
  case 4: if(swap) be(b,v.x[2],4); else le(b,v.x[2],4); if(pad) b.insert(b.end(),v.pad,v.pad+4); /* fall through */ case 3: le(b,v.n,8); for(unsigned i=0;i<v.n;i++) if(swap) be(b,v.x[i],4); else le(b,v.x[i],4); break; case 5: le(b,v.n,8); for(unsigned i=0;i<v.n;i++) wireS(b,v,i,pad,swap); break; case 7: le(b,v.n,8); for(unsigned i=0;i<v.n;i++) b.push_back((uint8_t)v.x[i]); break; } return b; }
static VALUE dumped(VALUE o,bool merge){ return rt_try(o,"do_byte_array",4,Qfalse,Qfalse,merge?Qtrue:Qfalse,Qtrue); }
static void same_bytes(VALUE s,By const&b,const char*what){ CHECK(rt_rc==0&&rt_len(s)==(long)b.size(),what); CHECK(b.empty()||!memcmp(rt_cstr(s),&b[0],b.size()),what); }
static bool eqval(Val const&a,Val const&b){ if(a.n!=b.n) return false; unsigned sc=a.k==0||a.k==6?1:a.k==1||a.k==2?2:a.k==8?4:a.k==5?2*a.n:a.k==4?3:a.n; bool r=true; for(unsigned i=0;i<sc;i++){ bool by=a.k==7||((a.k==1||a.k==5||a.k==8)&&i%2==0); if(a.k==4&&i<2&&i>=a.n) continue; r=r&(by?(uint8_t)a.x[i]==(uint8_t)b.x[i]:a.x[i]==b.x[i]); } return r; }
HARNESS(rbwhole){ up(); containers(); World w=world(g_reg,true); unsigned k=sym_choice("type",9); Val v=anyval(k,ncount(k)); VALUE o=mknew(w.t[k]); store(w,o,v);
  switch(sym_choice("what",6)){
    case 0:{ bool merge=sym_choice("merge",2); VALUE s=dumped(o,merge); By b=wire(v,merge,false); same_bytes(s,b,"a value is dumped as the C++ library does"); VALUE sz=rt_try(o,"marshalling_size"); CHECK(rt_rc==0&&isi32(sz,wire(v,true,false).size()),"marshalling_size is the size of the dumped value");
      VALUE q=mknew(w.t[k]); Val old=anyval(k,ncount(k)); store(w,q,old); rt_try(q,"do_from_buffer",5,s,Qfalse,Qfalse,merge?Qtrue:Qfalse,Qtrue); CHECK(rt_rc==0,"what was dumped can be loaded"); same_bytes(dumped(q,false),wire(v,false,false),"a value that was dumped and loaded is unchanged"); same_bytes(dumped(o,merge),b,"dumping does not change a value"); COVER("roundtrip"); break; }
    case 1:{ By b=wire(v,true,false); unsigned cut=sym_choice("cut",b.size()); VALUE q=mknew(w.t[k]); rt_try(q,"do_from_buffer",5,rt_str(cut?(char*)&b[0]:"",cut),Qfalse,Qfalse,Qtrue,Qtrue); CHECK(raised(ERR(Arg)),"a buffer that is too short is refused"); b.push_back(0); rt_try(q,"do_from_buffer",5,rt_str((char*)&b[0],b.size()),Qfalse,Qfalse,Qtrue,Qtrue); CHECK(raised(ERR(Arg)),"a buffer that is too long is refused"); COVER("refused"); break; }
    case 2:{ bool other=sym_choice("other",2); World w2=w; if(other) w2=world(rt_call(rt_const("Registry"),"new"),false); VALUE q=mknew(w2.t[k]); Val old=anyval(k,ncount(k)); store(w2,q,old); VALUE r=rt_try(g_t,"class"); (void)r; VALUE T=rt_mod(); VALUE c=rt_try(T,"do_compare",2,q,o); CHECK(rt_rc==0,"values of equal types can be compared"); CHECK((c==Qtrue)==eqval(v,old),"comparison tells whether two values are equal"); c=rt_try(T,"do_compare",2,o,q); CHECK(rt_rc==0&&(c==Qtrue)==eqval(v,old),"comparison is symmetric");
      rt_try(T,"do_copy",2,q,o); CHECK(rt_rc==0,"values of equal types can be copied"); same_bytes(dumped(q,false),wire(v,false,false),"a copy has the value of its source"); same_bytes(dumped(o,true),wire(v,true,false),"copying does not change the source"); CHECK(rt_call(T,"do_compare",2,q,o)==Qtrue,"a copy equals its source"); bool ind=k==3&&v.n; if(ind){ int32_t was=(int32_t)v.x[0]; rt_call(q,"do_set",2,rt_int(0),rt_int(5)); same_bytes(dumped(o,true),wire(v,true,false),"a copy is independent of its source"); rt_call(q,"do_set",2,rt_int(0),rt_int(was)); } if(other){ rt_pin(q); rt_unpin(g_reg); rt_gc(0); same_bytes(dumped(q,false),wire(v,false,false),"a copy outlives its source"); } COVER(other?"other":"copy"); break; }
    case 3:{ unsigned j=sym_choice("target",9); if(j==k||(k==2&&j==0)||(k==8&&j==1)) __sym_stop(); VALUE q=mknew(w.t[j]); Val old=anyval(j,2); store(w,q,old); VALUE T=rt_mod(); rt_try(T,"do_copy",2,q,o); CHECK(raised(ERR(Arg)),"values of different types are not copied"); rt_try(T,"do_compare",2,q,o); CHECK(raised(ERR(Arg)),"values of different types are not compared"); same_bytes(dumped(q,true),wire(old,true,false),"a refused copy changes nothing"); COVER("mismatch"); break; }
    case 4:{ bool cont=k==3||k==4||k==5||k==7; if(sym_choice("inplace",2)){ VALUE r=rt_try(o,"endian_swap!"); CHECK(rt_rc==0&&r==o,"values can be swapped in place"); same_bytes(dumped(o,false),wire(v,false,true),"swapping reverses every number"); COVER("swap!"); }
      else { VALUE q=rt_try(o,"endian_swap"); if(cont) CHECK(raised(ERR(Arg)),"values with containers are not swapped into new ones"); else { CHECK(rt_rc==0&&q!=o&&rt_call(q,"class")==w.t[k],"swapping creates a value of the type"); same_bytes(dumped(q,false),wire(v,false,true),"swapping reverses every number"); COVER("swap"); } same_bytes(dumped(o,true),wire(v,true,false),"swapping into a new value keeps the old one"); } break; }
    default:{ VALUE q=mknew(w.t[k]); Val old=anyval(k,ncount(k)); store(w,q,old); if(k<3||k==6||k==8) CHECK((rt_call(o,"memory_eql?",1,q)==Qtrue)==!memcmp(mem(o),mem(q),k==0||k==6?4:k==8?16:8),"memory_eql? compares the memory of values"); CHECK(rt_call(o,"memory_eql?",1,o)==Qtrue,"a value has its own memory");
      VALUE r=rt_try(o,"zero!"); CHECK(rt_rc==0&&r==o,"values can be zeroed"); Val z=v; memset(z.x,0,sizeof z.x); memset(z.pad,0,6); z.n=k==3||k==4||k==5||k==7?0:2; VALUE s=dumped(o,false); if(k!=6) same_bytes(s,wire(z,false,false),"zeroing sets every number to zero and empties containers"); else { CHECK(rt_rc==0&&rt_len(s)==4,"zeroed enumerations are valid"); } same_bytes(dumped(q,true),wire(old,true,false),"zeroing changes that value only"); COVER("zero"); } }
  rt_gc(0); rt_exit(sym_choice("exit",2)); CHECK(rt_xlive==0,"everything is freed exactly once"); }

// ---- memory that does not belong to Ruby, and addresses that are used again
HARNESS(rbstale){ up(); containers(); VALUE i32=num("/i",4,0); VALUE st=R("do_create_compound",3,S("/S"),rt_ary(2,rt_ary(3,S("x"),i32,rt_int(0)),rt_ary(3,S("y"),i32,rt_int(4))),rt_int(0)),vt=R("define_container",3,S("/std/vector"),i32,rt_int(0)); rt_pin(st); rt_pin(vt); rt_pin(i32); size_t vs=sizeof(std::vector<int32_t>);
  uint8_t*F=(uint8_t*)malloc(vs); uint8_t c[8]; sym_bytes(c,8,"foreign"); memcpy(F,c,8); bool foreign=true,again=false; VALUE own=0; bool ovec=false; int32_t ox[2]; struct H { VALUE v; unsigned off; }; std::vector<H> held; unsigned ops=(unsigned)__sym_param("ops",4),any=(unsigned)__sym_param("any",1); bool inv=__sym_param("buffer",0)!=0; VALUE V=0; if(inv){ V=mknew(vt); rt_pin(V); uint8_t*tr[3]={F,F+8,F+8}; memcpy(mem(V),tr,vs); }
  for(unsigned o=0;o<ops;o++) switch(sym_choice("op",inv?7:6)){
    case 6: if(!V||foreign) __sym_stop(); rt_unpin(V); V=0; COVER("dropvector"); break;
    case 0:{ if(!foreign||held.size()>=3) __sym_stop(); unsigned e=inv?sym_choice("element",2):0; VALUE v=inv?rt_try(V,"do_get",2,rt_int(e),Qtrue):rt_try(st,"from_address",1,rt_uint((uint64_t)F)); CHECK(rt_rc==0,"memory of others can be wrapped"); CHECK(mem(v)==F+4*e,"a value refers to the address it was given"); rt_pin(v); H h={v,4*e}; held.push_back(h); COVER("wrap"); break; }
    case 1:{ if(!foreign||held.empty()||held.size()>=3) __sym_stop(); unsigned k=sym_choice("held",held.size()); if(rt_call(held[k].v,"class")!=st) __sym_stop(); unsigned y=sym_choice("y",2); VALUE v=rt_try(held[k].v,"typelib_get_field",2,S(y?"y":"x"),Qtrue); CHECK(rt_rc==0,"fields are accessible"); rt_pin(v); H h={v,4*y}; held.push_back(h); COVER("child"); break; }
    case 2:{ if(held.empty()) __sym_stop(); unsigned k=sym_choice("held",held.size()); rt_unpin(held[k].v); held.erase(held.begin()+k); COVER("drop"); break; }
    case 3:{ if(foreign){ foreign=false; if(inv) memset(mem(V),0,vs); rt_next=F; COVER(held.empty()?"reuse":"stale"); } else { if(own||again) __sym_stop(); again=true; COVER("again"); } ovec=sym_choice("vector",2); own=rt_try(ovec?vt:st,"value_new",1,Qfalse); CHECK(rt_rc==0,"values can be created"); rt_pin(own); for(unsigned i=0;i<2;i++){ ox[i]=(int32_t)sym_u32("own"); if(ovec) rt_call(own,"do_push",1,rt_int(ox[i])); else rt_call(own,"typelib_set_field",2,S(i?"y":"x"),rt_int(ox[i])); } break; }
    case 4: if(!own) __sym_stop(); rt_unpin(own); own=0; COVER("dropown"); break;
    default: if(sym_choice("mark",2)) rt_mark(); else if(!rt_sweep1(any?2:0)) __sym_stop(); COVER("gc"); }
  if(foreign){ CHECK(!memcmp(F,c,8),"memory of others is left alone"); for(unsigned i=0;i<held.size();i++) CHECK(mem(held[i].v)==F+held[i].off,"a value refers to the memory it was created for"); }
  if(own) for(unsigned i=0;i<2;i++){ VALUE g=ovec?rt_call(own,"do_get",2,rt_int(i),Qfalse):rt_call(own,"typelib_get_field",2,S(i?"y":"x"),Qfalse); CHECK(isi32(g,ox[i]),"a value that is in use keeps its contents"); }
  for(unsigned i=0;i<held.size();i++) rt_unpin(held[i].v); if(own) rt_unpin(own); if(V){ memset(mem(V),0,vs); rt_unpin(V); } if(sym_choice("exit",2)) rt_exit(sym_choice("order",2)); else rt_gc(sym_choice("order",2)); CHECK(rt_xlive==0,"memory that is not used any more is freed"); if(foreign){ F[0]=1; free(F); } }
HARNESS(rbptr){ up(); VALUE i32=num("/i",4,0); VALUE st=R("do_create_compound",3,S("/S"),rt_ary(2,rt_ary(3,S("x"),i32,rt_int(0)),rt_ary(3,S("y"),i32,rt_int(4))),rt_int(0)),st2=R("do_create_compound",3,S("/S2"),rt_ary(2,rt_ary(3,S("x"),i32,rt_int(0)),rt_ary(3,S("y"),i32,rt_int(4))),rt_int(0)),pt=R("build",1,S("/S*")); rt_pin(st); rt_pin(st2); rt_pin(pt); char*s0=(char*)"01234567"; VALUE p,src=0; uint8_t b[8]; sym_bytes(b,8,"content");
  switch(sym_choice("from",3)){
    case 0:{ p=mknew(pt); memset(mem(p),0,8); CHECK(rt_call(p,"null?")==Qtrue,"a NULL pointer is null"); rt_try(p,"deference"); CHECK(raised(ERR(Arg)),"a NULL pointer is not followed"); COVER("null"); return; }
    case 1:{ src=rt_str(s0,8); rt_pin(src); VALUE z=rt_try(src,"to_memory_ptr"); CHECK(rt_rc==0,"the buffer of a string can be used as memory"); VALUE v=rt_try(st,"wrap",1,z); CHECK(rt_rc==0&&(char*)mem(v)==rt_cstr(src),"a value wraps the buffer of a string"); memcpy((void*)rt_cstr(src),b,8); rt_unpin(src); rt_pin(v); rt_gc(0); CHECK(!memcmp(mem(v),b,8),"a wrapped string buffer stays alive"); rt_unpin(v); rt_gc(0); CHECK(rt_xlive==0,"string buffers are not freed by typelib"); COVER("string"); return; }
    default:{ src=mknew(st); memcpy(mem(src),b,8); VALUE z=rt_try(rb_iv_get(src,"@ptr"),"to_ptr"); CHECK(rt_rc==0,"pointers to memory can be made"); p=rt_call(pt,"wrap",1,z); CHECK(rt_call(p,"null?")==Qfalse,"a pointer to a value is not NULL"); CHECK(rt_mag(rt_call(rb_iv_get(src,"@ptr"),"zone_address"))==(uint64_t)mem(src)&&rt_mag(rt_call(src,"zone_address"))==(uint64_t)mem(src),"addresses are those of the memory"); rt_pin(p); rt_gc(0); VALUE d=rt_try(p,"deference"); CHECK(rt_rc==0&&rt_call(d,"class")==st&&!memcmp(mem(d),b,8),"a pointer keeps the memory it points to alive"); VALUE dd=rt_try(d,"do_cast",1,st); CHECK(rt_rc==0&&dd==d,"casting to the type of a value changes nothing"); dd=rt_try(d,"do_cast",1,st2); CHECK(rt_rc==0&&rt_call(dd,"class")==st2&&mem(dd)==mem(d),"casting gives a value of the other type at the same place"); dd=0; rt_unpin(p); rt_gc(1); CHECK(rt_xlive==0,"memory that is not used any more is freed"); COVER("pointer"); } } }
HARNESS(rbraw){ up(); containers(); VALUE i8=num("/c",1,0),i32=num("/i",4,0); (void)i32; unsigned k=sym_choice("element",8); VALUE e; unsigned es=4; bool ok=true;
  switch(k){ case 0: e=i32; break; case 1: e=i8; es=1; break; case 2: e=R("do_create_compound",3,S("/S"),rt_ary(2,rt_ary(3,S("x"),i32,rt_int(0)),rt_ary(3,S("y"),i8,rt_int(4))),rt_int(8)); es=8; break; case 3: e=R("do_create_compound",3,S("/S"),rt_ary(2,rt_ary(3,S("x"),i8,rt_int(0)),rt_ary(3,S("y"),i32,rt_int(4))),rt_int(0)); es=8; break;
    case 4: e=R("define_container",3,S("/std/vector"),i32,rt_int(0)); ok=false; es=24; break; case 5: e=R("build",1,S("/i*")); ok=false; es=8; break; case 6: e=R("build",1,S("/i[2]")); es=8; break; default: e=R("create_opaque",2,S("/O"),rt_int(4)); ok=false; }
  VALUE vt=R("define_container",3,S("/std/vector"),e,rt_int(0)); rt_include(vt,rt_const("ContainerType"),"StdVector"); VALUE v=rt_try(vt,"value_new",1,Qfalse); if(k==7){ CHECK(raised(ERR(Arg)),"values of types that have no layout are not created"); return; } unsigned n=sym_choice("bytes",18); uint8_t b[18]; if(n) sym_bytes(b,n,"b"); rt_try(v,"raw_memcpy",2,rt_uint((uint64_t)b),rt_int(n)); bool good=ok&&n%es==0; CHECK((rt_rc==0)==good,"raw_memcpy takes whole elements that are plain memory"); if(!good){ CHECK(rt_rc==1,"a refused copy raises"); COVER("refused"); n=0; }
  std::vector<uint8_t>*raw=(std::vector<uint8_t>*)mem(v); CHECK(raw->size()==n&&(!n||!memcmp(&(*raw)[0],b,n)),"raw_memcpy gives the elements of its source"); if(ok) CHECK(isi32(rt_call(v,"length"),n/es),"a container has the expected length"); if(good){ VALUE s=rt_call(v,"contained_memory_id"); CHECK(n?rt_mag(s)==(uint64_t)&(*raw)[0]:s==Qnil,"the memory of a container is that of its elements"); COVER("copied"); } rt_gc(0); CHECK(rt_xlive==0,"everything is freed"); }
// ---- metadata
HARNESS(rbmeta){ up(); VALUE i=num("/i",4,0); VALUE st=R("do_create_compound",3,S("/S"),rt_ary(1,rt_ary(3,S("f"),i,rt_int(0))),rt_int(0)); rt_pin(st); VALUE M[3]={rb_iv_get(st,"@metadata"),rt_at(rt_at(rt_call(st,"get_fields"),0),3),rt_call(rt_const("MetaData"),"new")}; for(unsigned k=0;k<3;k++) rt_pin(M[k]); typedef std::map<std::string,std::set<std::string> > Ref; Ref ref[3]; static const char*const K[]={"k","K2"},*const V[]={"v","","w w"}; unsigned ops=(unsigned)__sym_param("ops",3); bool reg=true;
  for(unsigned o=0;o<ops;o++){ unsigned op=sym_choice("op",6),m=op==5?0:sym_choice("of",3); Ref&r=ref[m]; const char*k=op<4&&op!=3?K[sym_choice("key",2)]:K[0];
    switch(op){
      case 0: case 1:{ const char*v=V[sym_choice("value",3)]; if(op) rt_try(M[m],"add",3,S(k),S(v),S("2nd")); else rt_try(M[m],"add",2,S(k),S(v)); CHECK(rt_rc==0,"metadata can be added"); r[k].insert(v); if(op) r[k].insert("2nd"); COVER("add"); break; }
      case 2: rt_try(M[m],sym_choice("delete",2)?"delete":"clear",1,S(k)); CHECK(rt_rc==0,"keys can be removed"); r.erase(k); COVER("delete"); break;
      case 3: rt_try(M[m],"clear"); CHECK(rt_rc==0,"metadata can be cleared"); r.clear(); COVER("clear"); break;
      case 4: rt_try(M[m],"add",2,rt_int(1),S("v")); CHECK(raised(ERR(Type)),"keys are strings"); break;
      default: if(!reg) __sym_stop(); reg=false; rt_unpin(g_reg); rt_unpin(st); rt_gc(sym_choice("order",2)); COVER("noreg"); }
    for(unsigned j=0;j<3;j++){ std::set<std::string> ks; for(Ref::iterator i=ref[j].begin();i!=ref[j].end();++i) ks.insert(i->first); CHECK(strs(rt_call(M[j],"keys"))==ks,"metadata has the keys that were added"); for(unsigned q=0;q<2;q++){ CHECK((rt_call(M[j],"include?",1,S(K[q]))==Qtrue)==(ks.count(K[q])!=0),"include? tells whether a key has values"); CHECK(strs(rt_call(M[j],"get",1,S(K[q])))==(ks.count(K[q])?ref[j][K[q]]:std::set<std::string>()),"a key has the values that were added"); } }
    if(reg){ Compound const&c=static_cast<Compound const&>(*(Type*)DATA_PTR(rb_iv_get(st,"@type"))); CHECK(c.getMetaData().get("k").size()==(ref[0].count("k")?ref[0]["k"].size():0)&&c.getFields().front().getMetaData().get("k").size()==(ref[1].count("k")?ref[1]["k"].size():0),"metadata is that of the type"); } }
  rt_exit(sym_choice("exit",2)); }
// ---- the rest of the interface of types
HARNESS(rbnames){ up(); VALUE T=rt_mod(); unsigned n=sym_choice("n",(unsigned)__sym_param("len",3)+1); char q[8]; for(unsigned i=0;i<n;i++){ q[i]=(char)sym_u8("q"); __sym_assume(q[i]!=0); } q[n]=0; VALUE s=S(q);
  VALUE b=rt_try(T,"do_basename",1,s); CHECK(rt_rc==0,"any text has a base name"); CHECK(getTypename(std::string(q))==std::string(rt_cstr(b),rt_len(b)),"the base name is that of the C++ library"); b=rt_try(T,"do_namespace",1,s); CHECK(rt_rc==0&&getNamespace(std::string(q))==std::string(rt_cstr(b),rt_len(b)),"the namespace is that of the C++ library");
  b=rt_try(T,"split_typename",1,s); CHECK(rt_rc==0,"any text can be split"); std::list<std::string> l=splitTypename(q); CHECK(rt_len(b)==(long)l.size(),"the components are those of the C++ library"); long k=0; for(std::list<std::string>::iterator i=l.begin();i!=l.end();++i,++k) CHECK(*i==std::string(rt_cstr(rt_at(b,k)),rt_len(rt_at(b,k))),"the components are those of the C++ library"); COVER("names"); rt_try(T,"do_basename",1,Qnil); CHECK(raised(ERR(Type)),"only strings are names"); }
HARNESS(rblayout){ up(); containers(); World w=world(g_reg,true); unsigned k=sym_choice("type",13); VALUE t=k<9?w.t[k]:k==12?R("build",1,S("/V[2]")):k==11?R("build",1,S("/E[2]")):k==9?R("build",1,S("/i*")):R("create_opaque",2,S("/O"),rt_int(4)); bool f[4]; VALUE a[4]; for(unsigned i=0;i<4;i++){ f[i]=sym_choice("flag",2); a[i]=f[i]?Qtrue:Qfalse; } Type const&T=*(Type*)DATA_PTR(rb_iv_get(t,"@type"));
  VALUE r=rt_try(t,"do_memory_layout",4,a[0],a[1],a[2],a[3]); MemoryLayout l; bool ok=true; try { l=layout_of(T,f[0],f[1],f[2],f[3]); } catch(std::exception&){ ok=false; } CHECK(ok?rt_rc==0:raised(ERR(Arg)),"a type has a layout as in the C++ library"); if(!ok){ COVER("nolayout"); return; } static const char*const N[]={"FLAG_MEMCPY","FLAG_ARRAY","FLAG_CONTAINER","FLAG_SKIP","FLAG_END"};
  for(int init=0;init<2;init++){ VALUE x=rt_at(r,init); long i=0; MemoryLayout::const_iterator it=init?l.init_begin():l.begin(),end=init?l.init_end():l.end(); 
    for(;it!=end;++it){ std::string nm; bool arg=true,cont=false; unsigned more=0; if(!init) switch(*it){ case MemLayout::FLAG_MEMCPY: nm="FLAG_MEMCPY"; break; case MemLayout::FLAG_ARRAY: nm="FLAG_ARRAY"; break; case MemLayout::FLAG_CONTAINER: nm="FLAG_CONTAINER"; cont=true; break; case MemLayout::FLAG_SKIP: nm="FLAG_SKIP"; break; default: nm="FLAG_END"; arg=false; }
      else switch(*it){ case MemLayout::FLAG_INIT: nm="FLAG_INIT"; more=1; break; case MemLayout::FLAG_INIT_REPEAT: nm="FLAG_INIT_REPEAT"; break; case MemLayout::FLAG_INIT_CONTAINER: nm="FLAG_INIT_CONTAINER"; cont=true; break; case MemLayout::FLAG_INIT_SKIP: nm="FLAG_INIT_SKIP"; break; default: nm="FLAG_INIT_END"; arg=false; }
      CHECK(rt_at(x,i++)==rt_sym(nm.c_str()),"a layout has the operations of the C++ library"); if(!arg) continue; ++it; VALUE v=rt_at(x,i++); if(cont){ CHECK((Type*)DATA_PTR(rb_iv_get(v,"@type"))==(Type*)*it,"a container of a layout is the type object"); COVER("container"); } else CHECK(rt_mag(v)==*it,"a layout has the sizes of the C++ library"); if(more){ unsigned n=*it; for(unsigned j=0;j<n;j++){ ++it; CHECK(rt_mag(rt_at(x,i++))==*it,"a layout has the initial values of the C++ library"); } COVER("init"); } }
    CHECK(i==rt_len(x),"a layout has the operations of the C++ library"); } COVER("layout");
  if(k<3){ VALUE v=mknew(t); memset(mem(v),0,k?8:4); *(uint8_t*)mem(v)=(uint8_t)(3+sym_choice("x",3)); bool sep=sym_choice("sep",2); VALUE s=sep?rt_try(v,"to_csv",1,S(",")):rt_try(v,"to_csv"); std::ostringstream o; o<<csv(T,mem(v),sep?",":" "); CHECK(rt_rc==0&&o.str()==std::string(rt_cstr(s),rt_len(s)),"values print as in the C++ library"); s=sep?rt_try(t,"to_csv",2,S("b"),S(",")):rt_try(t,"to_csv"); std::ostringstream h; h<<csv_header(T,sep?"b":"",sep?",":" "); CHECK(rt_rc==0&&h.str()==std::string(rt_cstr(s),rt_len(s)),"headers print as in the C++ library"); COVER("csv"); } }
// ---- import and export
static std::string g_cfg,g_src; static int g_mode;
static void show(std::string&o,utilmm::config_set const&c,const char*const*keys,unsigned n){ for(unsigned i=0;i<n;i++){ std::list<std::string> l=c.get<std::list<std::string> >(keys[i],std::list<std::string>()); for(std::list<std::string>::iterator j=l.begin();j!=l.end();++j){ o+=keys[i]; o+='='; o+=*j; o+=';'; } std::list<utilmm::config_set const*> s=c.children(keys[i]); for(std::list<utilmm::config_set const*>::iterator j=s.begin();j!=s.end();++j){ o+=keys[i]; o+='{'; show(o,**j,keys,n); o+='}'; } } }
static const char*const g_keys[]={"a","b"};
struct RExp: public Exporter { void begin(std::ostream&,Registry const&){} bool save(std::ostream&o,RegistryIterator const&t){ if(g_mode==1) throw std::runtime_error("failed"); o<<t.getName(); return true; } void save(std::ostream&s,utilmm::config_set const&c,Registry const&r){ show(g_cfg,c,g_keys,2); Exporter::save(s,c,r); } };
struct RImp: public Importer { void load(std::istream&s,utilmm::config_set const&c,Registry&r){ char b[8]; s.read(b,7); g_src=std::string(b,s.gcount()); both(c,r); } void load(std::string const&f,utilmm::config_set const&c,Registry&r){ g_src=f; both(c,r); } void both(utilmm::config_set const&c,Registry&r){ show(g_cfg,c,g_keys,2); r.add(new Numeric("/New",4,Numeric::SInt),"h.tlb"); if(g_mode==1) throw std::runtime_error("failed"); r.add(new Numeric("/i",g_mode==2?2:4,Numeric::SInt)); } };
struct REP: public ExportPlugin { REP():ExportPlugin("x"){} Exporter*create(){ return new RExp; } };
struct RIP: public ImportPlugin { RIP(const char*n):ImportPlugin(n){} Importer*create(){ return new RImp; } };
static VALUE options(std::string&want){ VALUE o=rt_ary(0); unsigned n=sym_choice("options",3); for(unsigned i=0;i<n;i++){ const char*k=g_keys[i]; VALUE v; std::string key(k); switch(sym_choice("option",5)){ case 0: v=S("text"); want+=key+"=text;"; break; case 1:{ bool t=sym_choice("true",2); v=t?Qtrue:Qfalse; want+=key+(t?"=true;":"=false;"); break; } case 2: v=rt_ary(2,S("1"),S("2")); want+=key+"=1;"+key+"=2;"; break; case 3: v=rt_ary(0); break;
  default: v=rt_ary(2,rt_ary(2,rt_ary(2,S("a"),S("x")),rt_ary(2,S("b"),Qtrue)),rt_ary(1,rt_ary(2,S("a"),rt_ary(1,S("y"))))); want+=key+"{a=x;b=true;}"+key+"{a=y;}"; COVER("nested"); } rb_ary_push(o,rt_ary(2,S(k),v)); } return o; }
HARNESS(rbio){ up(); containers(); PluginManager::self m; m->add(new REP); m->add(new RIP("x")); m->add(new RIP("tlb")); VALUE i=num("/i",4,0); rt_pin(i); g_cfg=g_src=std::string(); g_mode=sym_choice("mode",3); std::string want; std::set<std::string> N=SS({"/i"}),A=SS({"/i","/New"});
  switch(sym_choice("what",4)){
    case 0:{ VALUE o=options(want); VALUE s=rt_try(g_reg,"do_export",2,S("x"),o); CHECK(g_cfg==want,"options are given to the exporter"); if(g_mode==1) CHECK(raised(ERR(Runtime)),"errors of the exporter are raised"); else { CHECK(rt_rc==0&&!strcmp(rt_cstr(s),"/i"),"the text of the exporter is returned"); COVER("export"); } CHECK(names(g_reg)==N,"exporting does not change the registry"); break; }
    case 1:{ VALUE o=options(want); bool merge=sym_choice("merge",2); if(!merge&&g_mode==2) __sym_stop(); rt_try(g_reg,"do_import",4,S("file"),S("x"),merge?Qtrue:Qfalse,o); CHECK(g_cfg==want&&g_src=="file","file and options are given to the importer"); if(g_mode==0&&!merge){ CHECK(raised(ERR(Runtime))&&names(g_reg)==A&&get(g_reg,"/i")==i,"without merging, importers see the types of the registry"); COVER("direct"); VALUE id=rt_try(g_reg,"source_id_of",1,get(g_reg,"/New")); CHECK(rt_rc==0&&id!=Qnil&&!strcmp(rt_cstr(id),"h.tlb"),"types know the file they come from"); } else if(g_mode==0){ CHECK(rt_rc==0&&names(g_reg)==A&&get(g_reg,"/i")==i,"imported types are merged"); VALUE id=rt_try(g_reg,"source_id_of",1,get(g_reg,"/New")); CHECK(rt_rc==0&&id!=Qnil&&!strcmp(rt_cstr(id),"h.tlb"),"types know the file they come from"); CHECK(rt_call(g_reg,"source_id_of",1,i)==Qnil,"types know the file they come from"); COVER("import"); } else { CHECK(raised(ERR(Runtime)),"errors of the importer are raised"); CHECK(get(g_reg,"/i")==i&&isi32(rt_call(i,"size"),4),"a failed import keeps the definitions"); if(merge&&g_mode==1) CHECK(names(g_reg)==N,"a failed import adds nothing"); COVER("failed"); } break; }
    case 2:{ g_mode=1; VALUE r=rt_try(g_reg,"merge_xml",1,S("<a/>")); CHECK(raised(ERR(Arg))&&g_src=="<a/>","documents are given to the tlb importer, and its errors raised"); (void)r; COVER("xml"); break; }
    default:{ rt_try(g_reg,"do_import",4,S("file"),S("none"),Qtrue,rt_ary(0)); CHECK(raised(ERR(Runtime)),"unknown importers are refused"); rt_try(g_reg,"do_export",2,S("none"),rt_ary(0)); CHECK(raised(ERR(Runtime)),"unknown exporters are refused"); CHECK(names(g_reg)==N,"a refused operation changes nothing");
      VALUE n=rt_call(rt_const("Registry"),"new"); rt_pin(n); VALUE r=rt_try(rt_const("Registry"),"add_standard_cxx_types",1,n); CHECK(rt_rc==0&&r==n&&rt_call(n,"includes?",1,S("/int32_t"))==Qtrue&&rt_call(n,"includes?",1,S("/std/string"))==Qtrue,"standard types can be added"); VALUE l=rt_call(rt_const("Registry"),"available_containers"); std::set<std::string> c=strs(l); CHECK(c.count("/std/string")&&c.count("/std/vector"),"the known containers are listed"); COVER("standard"); } }
  rt_exit(0); }
