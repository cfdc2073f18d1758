// Stand-in for the part of the Ruby 3.2 C API that bindings/ruby/ext uses: objects have the layout of the real headers.
#include "rbrt.h"
#include <ruby/encoding.h>
#undef rb_intern
#undef rb_str_new
#undef rb_str_new_cstr
#undef rb_str_new_static
#undef rb_enc_str_new
#undef rb_enc_str_new_static
#undef rb_enc_str_new_cstr
#include <stdlib.h>
#include <string.h>
struct Iv { ID id; VALUE v; Iv*next; };
struct Meth { ID id; void*fn; int arity; bool single; Meth*next; };
struct Obj { union { RBasic basic; RString str; RArray arr; RData data; struct { RBasic b; bool neg; uint64_t mag; } big; struct { RBasic b; double d; } flt; char room[64]; } u; Iv*iv; Meth*meth; VALUE super,mixin; void*alloc; const char*name; Obj*next; bool mark,perm; };
static Obj*g_objs,*g_last; static const char*g_ids[512]; static unsigned g_nids; static VALUE g_mod; struct Pin { VALUE v; Pin*next; }; static Pin*g_pins;
VALUE rt_err; int rt_rc; VALUE (*rt_block)(VALUE,VALUE); long rt_xlive; void* rt_next;
static Obj* O(VALUE v){ return (Obj*)v; }
static VALUE mk(VALUE type,VALUE klass){ Obj*o=(Obj*)malloc(sizeof(Obj)); memset(o,0,sizeof *o); o->u.basic.flags=type; *(VALUE*)&o->u.basic.klass=klass; if(g_last) g_last->next=o; else g_objs=o; g_last=o; return (VALUE)o; }
extern "C" {
VALUE rb_cObject,rb_cClass,rb_cArray,rb_cString,rb_mKernel,rb_eArgError,rb_eIndexError,rb_eRuntimeError,rb_eTypeError,rb_eRangeError,rb_cInteger,rb_cFloat,rb_cSymbol,rb_cNilClass,rb_cTrueClass,rb_cFalseClass,rb_cHash,rb_eStandardError; }
static VALUE mkclass(const char*n,VALUE super){ VALUE c=mk(T_CLASS,rb_cClass); O(c)->super=super; O(c)->name=n; O(c)->perm=true; return c; }
static bool g_init;
static void init(){ if(g_init) return; g_init=true; rb_cClass=mk(T_CLASS,0); *(VALUE*)&O(rb_cClass)->u.basic.klass=rb_cClass; O(rb_cClass)->perm=true; O(rb_cClass)->name="Class";
  rb_cObject=mkclass("Object",0); O(rb_cClass)->super=rb_cObject;
#define C(v,n) v=mkclass(n,rb_cObject);
  C(rb_cArray,"Array") C(rb_cString,"String") C(rb_mKernel,"Kernel") C(rb_cInteger,"Integer") C(rb_cFloat,"Float") C(rb_cSymbol,"Symbol") C(rb_cNilClass,"NilClass") C(rb_cTrueClass,"TrueClass") C(rb_cFalseClass,"FalseClass") C(rb_cHash,"Hash")
  rb_eStandardError=mkclass("StandardError",rb_cObject); rb_eArgError=mkclass("ArgumentError",rb_eStandardError); rb_eIndexError=mkclass("IndexError",rb_eStandardError); rb_eRuntimeError=mkclass("RuntimeError",rb_eStandardError); rb_eTypeError=mkclass("TypeError",rb_eStandardError); rb_eRangeError=mkclass("RangeError",rb_eStandardError);
}
static void raise_(VALUE k) __attribute__((noreturn)); static void raise_(VALUE k){ RbError e; e.klass=k; throw e; }
static VALUE klass_of(VALUE v){ if(FIXNUM_P(v)) return rb_cInteger; if(v==Qnil) return rb_cNilClass; if(v==Qtrue) return rb_cTrueClass; if(v==Qfalse) return rb_cFalseClass; if((v&0xff)==RUBY_SYMBOL_FLAG) return rb_cSymbol; return O(v)->u.basic.klass; }
static unsigned type_of(VALUE v){ if(FIXNUM_P(v)) return T_FIXNUM; if(v==Qnil) return T_NIL; if(v==Qtrue) return T_TRUE; if(v==Qfalse) return T_FALSE; if((v&0xff)==RUBY_SYMBOL_FLAG) return T_SYMBOL; return O(v)->u.basic.flags&RUBY_T_MASK; }
static ID intern(const char*s,long n){ init(); for(unsigned i=0;i<g_nids;i++) if(strlen(g_ids[i])==(size_t)n&&!memcmp(g_ids[i],s,n)) return i+1; char*c=(char*)malloc(n+1); memcpy(c,s,n); c[n]=0; g_ids[g_nids++]=c; return g_nids; }
static VALUE newstr(const char*p,long n){ init(); VALUE v=mk(T_STRING|RSTRING_NOEMBED,rb_cString); char*c=(char*)malloc(n+1); if(p) memcpy(c,p,n); c[n]=0; O(v)->u.str.as.heap.len=n; O(v)->u.str.as.heap.ptr=c; return v; }
static VALUE big(bool neg,uint64_t mag){ VALUE v=mk(T_BIGNUM,rb_cInteger); O(v)->u.big.neg=neg; O(v)->u.big.mag=mag; return v; }
static VALUE fromll(long long v){ return v>=FIXNUM_MIN&&v<=FIXNUM_MAX ? (VALUE)(((uint64_t)v<<1)|1) : big(v<0,v<0?0-(uint64_t)v:(uint64_t)v); }
static bool isint(VALUE v){ return FIXNUM_P(v)||(!SPECIAL_CONST_P(v)&&type_of(v)==T_BIGNUM); }
// integer value of anything Ruby converts implicitly: sign and magnitude
static void num(VALUE v,bool&neg,uint64_t&mag){ if(FIXNUM_P(v)){ long l=FIX2LONG(v); neg=l<0; mag=l<0?0-(uint64_t)l:(uint64_t)l; return; } if(SPECIAL_CONST_P(v)) raise_(rb_eTypeError); unsigned t=type_of(v); if(t==T_BIGNUM){ neg=O(v)->u.big.neg; mag=O(v)->u.big.mag; return; } if(t==T_FLOAT){ double d=O(v)->u.flt.d; if(!(d>-9223372036854775808.0&&d<18446744073709551616.0)) raise_(rb_eRangeError); neg=d<0; mag=neg?(uint64_t)(-d):(uint64_t)d; return; } raise_(rb_eTypeError); }
static Iv* iv(VALUE o,ID id){ for(Iv*i=O(o)->iv;i;i=i->next) if(i->id==id) return i; return 0; }
static VALUE aryn(){ init(); VALUE v=mk(T_ARRAY,rb_cArray); O(v)->u.arr.as.heap.len=0; O(v)->u.arr.as.heap.aux.capa=0; O(v)->u.arr.as.heap.ptr=0; return v; }
static void arystore(VALUE a,long i,VALUE x){ RArray&r=O(a)->u.arr; if(i>=r.as.heap.aux.capa){ long c=i+1<8?8:(i+1)*2; VALUE*n=(VALUE*)malloc(c*sizeof(VALUE)); for(long k=0;k<c;k++) n[k]=k<r.as.heap.len?r.as.heap.ptr[k]:Qnil; free((void*)r.as.heap.ptr); r.as.heap.ptr=n; r.as.heap.aux.capa=c; } ((VALUE*)r.as.heap.ptr)[i]=x; if(i>=r.as.heap.len) r.as.heap.len=i+1; }
static void def(VALUE k,const char*n,void*fn,int ar,bool single){ init(); ID id=intern(n,strlen(n)); for(Meth*m=O(k)->meth;m;m=m->next) if(m->id==id&&m->single==single){ m->fn=fn; m->arity=ar; return; } Meth*m=(Meth*)malloc(sizeof(Meth)); m->id=id; m->fn=fn; m->arity=ar; m->single=single; m->next=O(k)->meth; O(k)->meth=m; }
static Meth* find(VALUE recv,ID id){ bool cl=!SPECIAL_CONST_P(recv)&&(type_of(recv)==T_CLASS||type_of(recv)==T_MODULE); if(cl) for(VALUE k=recv;k;k=O(k)->super) for(Meth*m=O(k)->meth;m;m=m->next) if(m->id==id&&m->single) return m; for(VALUE k=klass_of(recv);k;k=O(k)->super){ for(Meth*m=O(k)->meth;m;m=m->next) if(m->id==id&&!m->single) return m; if(O(k)->mixin) for(Meth*m=O(O(k)->mixin)->meth;m;m=m->next) if(m->id==id&&!m->single) return m; } return 0; }
static bool inherits(VALUE k,VALUE c){ for(;k;k=O(k)->super) if(k==c) return true; return false; }
typedef VALUE (*F0)(VALUE); typedef VALUE (*F1)(VALUE,VALUE); typedef VALUE (*F2)(VALUE,VALUE,VALUE); typedef VALUE (*F3)(VALUE,VALUE,VALUE,VALUE); typedef VALUE (*F4)(VALUE,VALUE,VALUE,VALUE,VALUE); typedef VALUE (*F5)(VALUE,VALUE,VALUE,VALUE,VALUE,VALUE); typedef VALUE (*FV)(int,VALUE*,VALUE);
static bool eq(ID id,const char*s){ return !strcmp(g_ids[id-1],s); }
static VALUE call(VALUE r,ID id,int n,VALUE*a){ Meth*m=find(r,id);
  if(m){ if(m->arity>=0&&m->arity!=n) raise_(rb_eArgError);
    switch(m->arity){ case -1: return ((FV)m->fn)(n,a,r); case 0: return ((F0)m->fn)(r); case 1: return ((F1)m->fn)(r,a[0]); case 2: return ((F2)m->fn)(r,a[0],a[1]); case 3: return ((F3)m->fn)(r,a[0],a[1],a[2]); case 4: return ((F4)m->fn)(r,a[0],a[1],a[2],a[3]); case 5: return ((F5)m->fn)(r,a[0],a[1],a[2],a[3],a[4]); } }
  // the Ruby half of the bindings (bindings/ruby/lib/typelib/type.rb), as far as the extension calls back into it
  if(eq(id,"class")) return klass_of(r);
  if(eq(id,"typelib_initialize")) return Qnil;
  if(eq(id,"<")) return inherits(O(r)->super,a[0])?Qtrue:inherits(a[0],r)?Qfalse:Qnil;
  if(eq(id,"new")&&r==rb_cClass){ VALUE c=mkclass("anonymous",a[0]); O(c)->perm=false; return c; }
  if(eq(id,"new")&&!SPECIAL_CONST_P(r)&&type_of(r)==T_CLASS){ for(VALUE k=r;k;k=O(k)->super) if(O(k)->alloc) return ((F0)O(k)->alloc)(r); }
  if(eq(id,"wrap")){ if(RTEST(rb_iv_get(r,"@null"))) raise_(rb_eTypeError); if(!inherits(klass_of(a[0]),rt_const("MemoryZone"))) raise_(rb_eArgError); VALUE v=rt_call(r,"from_memory_zone",1,a[0]); rt_call(v,"marshalling_size"); return v; }
  CHECK(false,"stand-in Ruby: a method that is not defined was called"); raise_(rb_eArgError); }
extern "C" {
long __sym_dummy_rb;
// objects and classes
VALUE rb_define_module(const char*n){ init(); if(!g_mod){ g_mod=mk(T_MODULE,rb_cObject); O(g_mod)->perm=true; O(g_mod)->name="Typelib"; } return g_mod; }
VALUE rb_define_class_under(VALUE o,const char*n,VALUE s){ ID id=intern(n,strlen(n)); if(Iv*i=iv(o,id)) return i->v; VALUE c=mkclass(n,s); Iv*i=(Iv*)malloc(sizeof(Iv)); i->id=id; i->v=c; i->next=O(o)->iv; O(o)->iv=i; return c; }
VALUE rb_define_module_under(VALUE o,const char*n){ VALUE c=rb_define_class_under(o,n,0); O(c)->u.basic.flags=T_MODULE; return c; }
void rt_def_method(VALUE k,const char*n,void*f,int a) __asm__("rb_define_method"); void rt_def_method(VALUE k,const char*n,void*f,int a){ def(k,n,f,a,false); }
void rt_def_single(VALUE k,const char*n,void*f,int a) __asm__("rb_define_singleton_method"); void rt_def_single(VALUE k,const char*n,void*f,int a){ def(k,n,f,a,true); }
void rb_define_alloc_func(VALUE k,rb_alloc_func_t f){ O(k)->alloc=(void*)f; }
VALUE rb_obj_is_kind_of(VALUE v,VALUE k){ return inherits(klass_of(v),k)?Qtrue:Qfalse; }
const char* rb_class2name(VALUE){ return "class"; } const char* rb_obj_classname(VALUE){ return "class"; } VALUE rb_obj_id(VALUE v){ return LONG2FIX((long)v>>3); }
VALUE rb_iv_get(VALUE o,const char*n){ Iv*i=iv(o,intern(n,strlen(n))); return i?i->v:Qnil; }
VALUE rb_iv_set(VALUE o,const char*n,VALUE v){ ID id=intern(n,strlen(n)); Iv*i=iv(o,id); if(!i){ i=(Iv*)malloc(sizeof(Iv)); i->id=id; i->next=O(o)->iv; O(o)->iv=i; } i->v=v; return v; }
VALUE rb_data_object_wrap(VALUE k,void*p,RUBY_DATA_FUNC m,RUBY_DATA_FUNC f){ init(); VALUE v=mk(T_DATA,k); O(v)->u.data.dmark=m; O(v)->u.data.dfree=f; O(v)->u.data.data=p; return v; }
int rb_respond_to(VALUE o,ID id){ return find(o,id)!=0; }
VALUE rt_funcall(VALUE r,ID id,int n,VALUE a) __asm__("rb_funcall"); VALUE rt_funcall(VALUE r,ID id,int n,VALUE a){ VALUE v[1]; if(n) v[0]=a; else v[0]=0; return call(r,id,n,v); }
VALUE rb_funcallv(VALUE r,ID id,int n,const VALUE*a){ VALUE v[1]={0}; if(n) v[0]=a[0]; return call(r,id,n,v); }
int rt_scan_args(int argc,VALUE*argv,const char*f,VALUE*a,VALUE*b) __asm__("rb_scan_args"); int rt_scan_args(int argc,VALUE*argv,const char*f,VALUE*a,VALUE*b){
  if(f[0]=='1'){ if(argc<1) raise_(rb_eArgError); *a=argv[0]; VALUE r=aryn(); for(int i=1;i<argc;i++) arystore(r,i-1,argv[i]); *b=r; return argc; }
  int max=f[1]-'0'; if(argc>max) raise_(rb_eArgError); *a=argc>0?argv[0]:Qnil; if(max>1) *b=argc>1?argv[1]:Qnil; return argc; }
void rt_raise(VALUE k,const char*) __asm__("rb_raise"); void rt_raise(VALUE k,const char*){ raise_(k); }
void rt_bug(const char*) __asm__("rb_bug"); void rt_bug(const char*){ CHECK(false,"the extension reports an internal error (rb_bug)"); raise_(rb_eArgError); }
void rb_unexpected_type(VALUE,int){ raise_(rb_eTypeError); }
VALUE rb_yield(VALUE v){ CHECK(rt_block!=0,"a block is called only if one was given"); return rt_block(v,Qnil); }
VALUE rt_yieldv(int n,VALUE a,VALUE b) __asm__("rb_yield_values"); VALUE rt_yieldv(int n,VALUE a,VALUE b){ CHECK(rt_block!=0,"a block is called only if one was given"); return rt_block(a,b); }
VALUE rb_yield_values2(int n,const VALUE*v){ CHECK(rt_block!=0,"a block is called only if one was given"); return rt_block(v[0],n>1?v[1]:Qnil); }
// symbols
ID rb_intern(const char*s){ return intern(s,strlen(s)); } ID rb_intern2(const char*s,long n){ return intern(s,n); }
VALUE rb_id2sym(ID i){ return (VALUE)((i<<8)|RUBY_SYMBOL_FLAG); } ID rb_sym2id(VALUE v){ return (ID)(v>>8); } const char* rb_id2name(ID i){ return g_ids[i-1]; }
// numbers
VALUE rb_int2big(intptr_t v){ return fromll(v); } VALUE rb_uint2big(uintptr_t v){ return v<=FIXNUM_MAX?(VALUE)((v<<1)|1):big(false,v); } VALUE rb_ll2inum(long long v){ return fromll(v); } VALUE rb_ull2inum(unsigned long long v){ return rb_uint2big(v); } VALUE rb_float_new(double d){ init(); VALUE v=mk(T_FLOAT,rb_cFloat); O(v)->u.flt.d=d; return v; }
VALUE rb_int2inum(intptr_t v){ return fromll(v); } VALUE rb_uint2inum(uintptr_t v){ return rb_uint2big(v); }
double rb_num2dbl(VALUE v){ if(FIXNUM_P(v)) return (double)FIX2LONG(v); if(SPECIAL_CONST_P(v)) raise_(rb_eTypeError); unsigned t=type_of(v); if(t==T_FLOAT) return O(v)->u.flt.d; if(t==T_BIGNUM) return O(v)->u.big.neg?-(double)O(v)->u.big.mag:(double)O(v)->u.big.mag; raise_(rb_eTypeError); }
static long long tosigned(VALUE v,uint64_t maxpos,uint64_t maxneg){ bool n; uint64_t m; num(v,n,m); if(n?m>maxneg:m>maxpos) raise_(rb_eRangeError); return n?(long long)(0-m):(long long)m; }
long rb_num2int(VALUE v){ return (long)(int)tosigned(v,0x7fffffffull,0x80000000ull); } long rb_fix2int(VALUE v){ return rb_num2int(v); }
unsigned long rb_num2uint(VALUE v){ return (unsigned long)(unsigned)tosigned(v,0xffffffffull,0x80000000ull); } unsigned long rb_fix2uint(VALUE v){ return rb_num2uint(v); }
long rb_num2long(VALUE v){ return tosigned(v,0x7fffffffffffffffull,0x8000000000000000ull); } unsigned long rb_num2ulong(VALUE v){ return (unsigned long)tosigned(v,~0ull,0x8000000000000000ull); }
long long rb_num2ll(VALUE v){ return rb_num2long(v); } unsigned long long rb_num2ull(VALUE v){ return rb_num2ulong(v); }
short rb_num2short(VALUE v){ return (short)tosigned(v,0x7fff,0x8000); } short rb_fix2short(VALUE v){ return rb_num2short(v); }
unsigned short rb_num2ushort(VALUE v){ return (unsigned short)tosigned(v,0xffff,0x8000); } void rb_out_of_int(SIGNED_VALUE){ raise_(rb_eRangeError); }
// strings, arrays, hashes
VALUE rb_str_new(const char*p,long n){ return newstr(p,n); } VALUE rb_str_new_cstr(const char*p){ return newstr(p,strlen(p)); } VALUE rb_enc_str_new(const char*p,long n,rb_encoding*){ return newstr(p,n); } rb_encoding* rb_enc_find(const char*){ return 0; } void rb_str_modify(VALUE){}
VALUE rb_str_new_static(const char*p,long n){ return newstr(p,n); } VALUE rb_enc_str_new_static(const char*p,long n,rb_encoding*){ return newstr(p,n); } VALUE rb_enc_str_new_cstr(const char*p,rb_encoding*){ return newstr(p,strlen(p)); }
VALUE rb_string_value(volatile VALUE*p){ if(SPECIAL_CONST_P(*p)||type_of(*p)!=T_STRING) raise_(rb_eTypeError); return *p; }
char* rb_string_value_ptr(volatile VALUE*p){ return O(rb_string_value(p))->u.str.as.heap.ptr; }
char* rb_string_value_cstr(volatile VALUE*p){ RString&s=O(rb_string_value(p))->u.str; for(long i=0;i<s.as.heap.len;i++) if(!s.as.heap.ptr[i]) raise_(rb_eArgError); return s.as.heap.ptr; }
VALUE rb_ary_new(void){ return aryn(); } VALUE rb_ary_new_capa(long){ return aryn(); } VALUE rb_ary_push(VALUE a,VALUE x){ arystore(a,O(a)->u.arr.as.heap.len,x); return a; } void rb_ary_store(VALUE a,long i,VALUE x){ arystore(a,i,x); }
VALUE rb_ary_entry(VALUE a,long i){ RArray&r=O(a)->u.arr; if(i<0) i+=r.as.heap.len; return i<0||i>=r.as.heap.len?Qnil:r.as.heap.ptr[i]; } void rb_ary_detransient(VALUE){} void rb_gc_writebarrier_unprotect(VALUE){} VALUE* rb_ary_ptr_use_start(VALUE a){ return (VALUE*)O(a)->u.arr.as.heap.ptr; } void rb_ary_ptr_use_end(VALUE){}
VALUE rb_hash_new(void){ init(); VALUE h=mk(T_HASH,rb_cHash); rb_iv_set(h,"pairs",aryn()); return h; }
VALUE rb_hash_aset(VALUE h,VALUE k,VALUE v){ VALUE p=rb_iv_get(h,"pairs"); for(long i=0;i<O(p)->u.arr.as.heap.len;i++){ VALUE e=rb_ary_entry(p,i); if(!strcmp(rt_cstr(rb_ary_entry(e,0)),rt_cstr(k))){ arystore(e,1,v); return v; } } VALUE e=aryn(); arystore(e,0,k); arystore(e,1,v); rb_ary_push(p,e); return v; }
// memory
void* ruby_xmalloc(size_t n) noexcept(noexcept(malloc(n))) { void*p=rt_next?rt_next:malloc(n?n:1); rt_next=0; rt_xlive++; return p; } void ruby_xfree(void*p) noexcept(noexcept(free(p))) { if(p) rt_xlive--; free(p); }
struct StE { st_data_t k,v; StE*next; };
st_table* rb_st_init_table(const struct st_hash_type*t){ st_table*s=(st_table*)malloc(sizeof(st_table)); memset(s,0,sizeof *s); s->type=t; return s; }
static StE* stf(st_table*t,st_data_t k){ for(StE*e=(StE*)t->entries;e;e=e->next) if(e->k==k) return e; return 0; }
int rb_st_lookup(st_table*t,st_data_t k,st_data_t*v){ StE*e=stf(t,k); if(!e) return 0; if(v) *v=e->v; return 1; }
int rb_st_insert(st_table*t,st_data_t k,st_data_t v){ StE*e=stf(t,k); if(e){ e->v=v; return 1; } e=(StE*)malloc(sizeof(StE)); e->k=k; e->v=v; e->next=(StE*)t->entries; t->entries=(st_table_entry*)e; t->num_entries++; return 0; }
int rb_st_delete(st_table*t,st_data_t*k,st_data_t*v){ StE*p=0; for(StE*e=(StE*)t->entries;e;p=e,e=e->next) if(e->k==*k){ if(v) *v=e->v; if(p) p->next=e->next; else t->entries=(st_table_entry*)e->next; t->num_entries--; free(e); return 1; } if(v) *v=0; return 0; }
// not used by the extension today, but what a change to it would likely use
VALUE rt_ary_args(long n,VALUE a,VALUE b,VALUE c,VALUE d) __asm__("rb_ary_new_from_args"); VALUE rt_ary_args(long n,VALUE a,VALUE b,VALUE c,VALUE d){ CHECK(n<=4,"stand-in Ruby: too many arguments"); VALUE r=aryn(); if(n>0) arystore(r,0,a); if(n>1) arystore(r,1,b); if(n>2) arystore(r,2,c); if(n>3) arystore(r,3,d); return r; }
VALUE rb_ary_new_from_values(long n,const VALUE*v){ VALUE r=aryn(); for(long i=0;i<n;i++) arystore(r,i,v[i]); return r; } VALUE rb_assoc_new(VALUE a,VALUE b){ VALUE r=aryn(); arystore(r,0,a); arystore(r,1,b); return r; }
VALUE rb_ary_concat(VALUE a,VALUE b){ long n=O(b)->u.arr.as.heap.len; for(long i=0;i<n;i++) arystore(a,O(a)->u.arr.as.heap.len,O(b)->u.arr.as.heap.ptr[i]); return a; } VALUE rb_ary_dup(VALUE a){ return rb_ary_concat(aryn(),a); } VALUE rb_ary_clear(VALUE a){ O(a)->u.arr.as.heap.len=0; return a; }
VALUE rb_str_cat(VALUE s,const char*p,long n){ RString&r=O(s)->u.str; VALUE t=newstr(0,r.as.heap.len+n); char*q=O(t)->u.str.as.heap.ptr; memcpy(q,r.as.heap.ptr,r.as.heap.len); memcpy(q+r.as.heap.len,p,n); RString&x=O(t)->u.str; char*old=r.as.heap.ptr; r.as.heap.ptr=x.as.heap.ptr; r.as.heap.len=x.as.heap.len; x.as.heap.ptr=old; return s; }
VALUE rb_str_append(VALUE s,VALUE t){ return rb_str_cat(s,O(t)->u.str.as.heap.ptr,O(t)->u.str.as.heap.len); } VALUE rb_str_dup(VALUE s){ return newstr(O(s)->u.str.as.heap.ptr,O(s)->u.str.as.heap.len); }
VALUE rb_obj_class(VALUE o){ return klass_of(o); } VALUE rb_ivar_get(VALUE o,ID id){ Iv*i=iv(o,id); return i?i->v:Qnil; } VALUE rb_ivar_set(VALUE o,ID id,VALUE v){ return rb_iv_set(o,g_ids[id-1],v); } VALUE rb_ivar_defined(VALUE o,ID id){ return iv(o,id)?Qtrue:Qfalse; }
void rb_check_type(VALUE v,int t){ unsigned k=SPECIAL_CONST_P(v)?(FIXNUM_P(v)?T_FIXNUM:NIL_P(v)?T_NIL:v==Qtrue?T_TRUE:v==Qfalse?T_FALSE:T_SYMBOL):type_of(v); if(k!=(unsigned)t) raise_(rb_eTypeError); }
VALUE rb_sym2str(VALUE v){ return rb_str_new_cstr(g_ids[(v>>8)-1]); } VALUE rb_str_intern(VALUE s){ return rb_id2sym(intern(O(s)->u.str.as.heap.ptr,O(s)->u.str.as.heap.len)); } VALUE rb_sym_to_s(VALUE v){ return rb_sym2str(v); } ID rb_intern_str(VALUE s){ return intern(O(s)->u.str.as.heap.ptr,O(s)->u.str.as.heap.len); } ID rb_intern3(const char*s,long n,rb_encoding*){ return intern(s,n); } ID rb_to_id(VALUE v){ return SPECIAL_CONST_P(v)?rb_sym2id(v):rb_intern_str(v); } VALUE rb_to_symbol(VALUE v){ return rb_id2sym(rb_to_id(v)); }
VALUE rb_class_inherited_p(VALUE a,VALUE b){ return inherits(a,b)?Qtrue:inherits(b,a)?Qfalse:Qnil; } VALUE rb_obj_is_instance_of(VALUE o,VALUE k){ return klass_of(o)==k?Qtrue:Qfalse; } int rb_obj_respond_to(VALUE o,ID id,int){ return find(o,id)!=0; }
VALUE rb_class_new(VALUE super){ VALUE c=mkclass("anonymous",super); O(c)->perm=false; return c; } int rb_block_given_p(void){ return rt_block!=0; } void rb_need_block(void){ CHECK(rt_block!=0,"a block is called only if one was given"); }
VALUE rt_yield_ary(VALUE a) __asm__("rb_yield_splat"); VALUE rt_yield_ary(VALUE a){ return rb_yield_values2((int)O(a)->u.arr.as.heap.len,O(a)->u.arr.as.heap.ptr); }
void rb_gc_register_address(VALUE*p){ } void rb_gc_register_mark_object(VALUE v){ if(!SPECIAL_CONST_P(v)) O(v)->perm=true; } void rb_gc_mark_movable(VALUE v){ rb_gc_mark(v); } VALUE rb_gc_location(VALUE v){ return v; } void rb_gc_mark_maybe(VALUE v){ rb_gc_mark(v); }
VALUE rb_ensure(VALUE(*b)(VALUE),VALUE x,VALUE(*e)(VALUE),VALUE y){ VALUE r; try { r=b(x); } catch(...){ e(y); throw; } e(y); return r; }
void* ruby_xcalloc(size_t n,size_t m) noexcept(noexcept(calloc(n,m))){ void*p=ruby_xmalloc(n*m); memset(p,0,n*m); return p; } void* ruby_xmalloc2(size_t n,size_t m) noexcept(noexcept(malloc(n))){ return ruby_xmalloc(n*m); }
VALUE rb_string_value_checked(VALUE v){ return rb_string_value(&v); } VALUE rb_check_string_type(VALUE v){ return SPECIAL_CONST_P(v)||type_of(v)!=T_STRING?Qnil:v; } VALUE rb_check_array_type(VALUE v){ return SPECIAL_CONST_P(v)||type_of(v)!=T_ARRAY?Qnil:v; }
VALUE rb_hash_aref(VALUE h,VALUE k){ VALUE p=rb_iv_get(h,"pairs"); for(long i=0;i<O(p)->u.arr.as.heap.len;i++){ VALUE e=rb_ary_entry(p,i); if(!strcmp(rt_cstr(rb_ary_entry(e,0)),rt_cstr(k))) return rb_ary_entry(e,1); } return Qnil; }
// garbage collection
void rb_gc_mark(VALUE v){ if(!v||SPECIAL_CONST_P(v)) return; Obj*o=O(v); if(o->mark) return; o->mark=true; rb_gc_mark(o->u.basic.klass); if(o->super) rb_gc_mark(o->super); for(Iv*i=o->iv;i;i=i->next) rb_gc_mark(i->v); unsigned t=type_of(v); if(t==T_ARRAY) for(long i=0;i<o->u.arr.as.heap.len;i++) rb_gc_mark(o->u.arr.as.heap.ptr[i]); if(t==T_DATA&&o->u.data.dmark) o->u.data.dmark(o->u.data.data); }
}
static void drop(Obj*o){ unsigned t=o->u.basic.flags&RUBY_T_MASK; if(t==T_STRING) free(o->u.str.as.heap.ptr); if(t==T_ARRAY) free((void*)o->u.arr.as.heap.ptr); for(Iv*i=o->iv;i;){ Iv*n=i->next; free(i); i=n; } for(Meth*m=o->meth;m;){ Meth*n=m->next; free(m); m=n; } free(o); }
// collection is lazy, as in Ruby: marking decides what is garbage, the objects are finalised one by one some time later
static Obj*g_pend[96]; static unsigned g_npend; static Obj*g_dead;
bool rt_sweep1(unsigned order){ if(!g_npend){ while(g_dead){ Obj*x=g_dead->next; drop(g_dead); g_dead=x; } return false; }
  unsigned i=order==0?0:order==1?g_npend-1:sym_choice("sweep",g_npend); Obj*o=g_pend[i]; for(unsigned k=i+1;k<g_npend;k++) g_pend[k-1]=g_pend[k]; g_npend--; o->u.data.dfree(o->u.data.data); drop(o); return true; }
void rt_sweep(unsigned order){ while(rt_sweep1(order)) {} }
static void condemn(){ Obj*keep=0,*klast=0; for(Obj*o=g_objs;o;){ Obj*x=o->next; if(!o->mark&&!o->perm){ if((o->u.basic.flags&RUBY_T_MASK)==T_DATA&&o->u.data.dfree){ CHECK(g_npend<96,"stand-in Ruby: too many objects"); g_pend[g_npend++]=o; } else { o->next=g_dead; g_dead=o; } } else { o->mark=false; o->next=0; if(klast) klast->next=o; else keep=o; klast=o; } o=x; } g_objs=keep; g_last=klast; }
void rt_mark(){ rt_sweep(0); for(Pin*p=g_pins;p;p=p->next) rb_gc_mark(p->v); for(Obj*o=g_objs;o;o=o->next) if(o->perm) rb_gc_mark((VALUE)o); condemn(); }
void rt_gc(unsigned order){ rt_mark(); rt_sweep(order); }
// at exit every object that has a free function is finalised, whatever refers to it
void rt_exit(unsigned order){ for(Obj*o=g_objs;o;o=o->next){ unsigned t=o->u.basic.flags&RUBY_T_MASK; o->mark=t!=T_DATA; } condemn(); rt_sweep(order); }
void rt_pin(VALUE v){ Pin*p=(Pin*)malloc(sizeof(Pin)); p->v=v; p->next=g_pins; g_pins=p; } void rt_unpin(VALUE v){ for(Pin**p=&g_pins;*p;p=&(*p)->next) if((*p)->v==v){ Pin*x=*p; *p=x->next; free(x); return; } }
VALUE rt_mod(){ return g_mod; }
VALUE rt_const(const char*n){ Iv*i=iv(g_mod,intern(n,strlen(n))); CHECK(i!=0,"the class is defined"); return i->v; }
void rt_include(VALUE k,VALUE under,const char*module){ Iv*i=iv(under,intern(module,strlen(module))); CHECK(i!=0,"the module is defined"); O(k)->mixin=i->v; }
VALUE rt_call(VALUE r,const char*m,int n,VALUE a,VALUE b,VALUE c,VALUE d,VALUE e){ VALUE v[5]={a,b,c,d,e}; return call(r,intern(m,strlen(m)),n,v); }
VALUE rt_try(VALUE r,const char*m,int n,VALUE a,VALUE b,VALUE c,VALUE d,VALUE e){ rt_rc=0; rt_err=0; try { return rt_call(r,m,n,a,b,c,d,e); } catch(RbError const&x){ rt_rc=1; rt_err=x.klass; } catch(...){ rt_rc=2; CHECK(false,"a C++ exception escapes into the Ruby interpreter"); } return Qnil; }
VALUE rt_str(const char*p,long n){ return newstr(p,n<0?(long)strlen(p):n); } VALUE rt_int(int64_t v){ init(); return fromll(v); } VALUE rt_uint(uint64_t v){ init(); return rb_uint2big(v); } VALUE rt_flt(double d){ return rb_float_new(d); } VALUE rt_sym(const char*n){ return rb_id2sym(intern(n,strlen(n))); }
VALUE rt_ary(int n,VALUE a,VALUE b,VALUE c,VALUE d){ VALUE v[4]={a,b,c,d}; VALUE r=aryn(); for(int i=0;i<n;i++) arystore(r,i,v[i]); return r; }
bool rt_isint(VALUE v){ return isint(v); } bool rt_neg(VALUE v){ bool n; uint64_t m; num(v,n,m); return n; } uint64_t rt_mag(VALUE v){ bool n; uint64_t m; num(v,n,m); return m; } double rt_dbl(VALUE v){ return O(v)->u.flt.d; } bool rt_is(VALUE v,unsigned t){ return type_of(v)==t; }
const char* rt_symname(VALUE v){ return g_ids[(v>>8)-1]; } long rt_len(VALUE v){ return type_of(v)==T_STRING?O(v)->u.str.as.heap.len:O(v)->u.arr.as.heap.len; } VALUE rt_at(VALUE v,long i){ return rb_ary_entry(v,i); } const char* rt_cstr(VALUE v){ return O(v)->u.str.as.heap.ptr; }
