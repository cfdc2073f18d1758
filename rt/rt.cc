// Source-level model of the compiled part of libstdc++/libc used by the code under test.
// Compiled to bitcode with clang -fno-access-control; templates come from the real libstdc++ headers.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "sym.h"
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <locale>
#include <string>
#include <map>
#include <list>
#include <ostream>
#include <istream>
#include <sstream>
#include <iostream>
#include <cstdarg>
#include <cstring>
#include <cerrno>
#include <cstdio>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <strings.h>
#include <limits>
#include <unordered_map>

extern "C" { long __sym_fmtd(uint64_t bits,long prec,long mode,char*buf); double __sym_strtod(const char*s,char**e); void* __sym_malloc(size_t n, uint64_t kind); void __sym_free(void*p, uint64_t kind); size_t __sym_objsize(const void*); void __sym_unwind(void*) __attribute__((noreturn)); }

// ---- allocation
void* operator new(size_t n){ void*p=__sym_malloc(n,1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ void*p=__sym_malloc(n,1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return __sym_malloc(n,1); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return __sym_malloc(n,1); }
void operator delete(void*p) noexcept { __sym_free(p,1); }
void operator delete[](void*p) noexcept { __sym_free(p,1); }
void operator delete(void*p,size_t) noexcept { __sym_free(p,1); }
void operator delete[](void*p,size_t) noexcept { __sym_free(p,1); }
void operator delete(void*p,const std::nothrow_t&) noexcept { __sym_free(p,1); }
namespace std { const nothrow_t nothrow = nothrow_t(); }
extern "C" {
void* malloc(size_t n) { return __sym_malloc(n,0); }
void free(void*p) { __sym_free(p,0); }
void* calloc(size_t a,size_t b) { void*p=__sym_malloc(a*b,0); if(p) memset(p,0,a*b); return p; }
void* realloc(void*p,size_t n) { void*q=__sym_malloc(n,0); if(!q) return 0; if(p){ size_t o=__sym_objsize(p); memcpy(q,p,o<n?o:n); __sym_free(p,0);} return q; }

// ---- exceptions
struct ExcHdr { void* tinfo; void (*dtor)(void*); long count; void* adjusted; ExcHdr* next; char pad[24]; };
static ExcHdr* g_caught; static int g_uncaught;
static ExcHdr* hdr(void*o){ return (ExcHdr*)((char*)o-64); }
void* __cxa_allocate_exception(size_t n) noexcept { char*p=(char*)__sym_malloc(n+64,0); memset(p,0,64); return p+64; }
void __cxa_free_exception(void*o) noexcept { __sym_free((char*)o-64,0); }
void __cxa_throw(void*o,std::type_info*t,void(*d)(void*)) { ExcHdr*h=hdr(o); h->tinfo=t; h->dtor=d; h->count=0; h->adjusted=o; g_uncaught++; __sym_unwind(o); }
void* __cxa_begin_catch(void*o) noexcept { ExcHdr*h=hdr(o); h->count=(h->count<0?-h->count:h->count)+1; g_uncaught--; if(g_caught!=h){ h->next=g_caught; g_caught=h; } return h->adjusted; }
void __cxa_end_catch() { ExcHdr*h=g_caught; if(!h) return; if(h->count<0){ if(++h->count==0) g_caught=h->next; return; } if(--h->count==0){ g_caught=h->next; if(h->dtor) h->dtor((char*)h+64); __sym_free(h,0); } }
void __cxa_rethrow() { ExcHdr*h=g_caught; if(!h) std::terminate(); h->count=-h->count; g_uncaught++; __sym_unwind((char*)h+64); }
void* __cxa_get_exception_ptr(void*o) noexcept { return hdr(o)->adjusted; }
void __cxa_bad_cast(){ throw std::bad_cast(); }
void __cxa_bad_typeid(){ throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length(){ throw std::bad_array_new_length(); }
int __gxx_personality_v0(...){ return 0; }
void* __dso_handle;
}
namespace std {
bool uncaught_exception() noexcept { return g_uncaught>0; }
int uncaught_exceptions() noexcept { return g_uncaught; }
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*,void**,unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*,void**) const { return false; }

__cow_string::__cow_string(){ char*p=(char*)__sym_malloc(1,0); p[0]=0; _M_p=p; }
__cow_string::__cow_string(const char*s,size_t n){ char*p=(char*)__sym_malloc(n+1,0); memcpy(p,s,n); p[n]=0; _M_p=p; }
__cow_string::__cow_string(const std::string&s){ size_t n=s.size(); char*p=(char*)__sym_malloc(n+1,0); memcpy(p,s.data(),n); p[n]=0; _M_p=p; }
__cow_string::__cow_string(const __cow_string&o) noexcept { size_t n=strlen(o._M_p); char*p=(char*)__sym_malloc(n+1,0); memcpy(p,o._M_p,n+1); _M_p=p; }
__cow_string& __cow_string::operator=(const __cow_string&o) noexcept { if(this!=&o){ __sym_free((void*)_M_p,0); size_t n=strlen(o._M_p); char*p=(char*)__sym_malloc(n+1,0); memcpy(p,o._M_p,n+1); _M_p=p; } return *this; }
__cow_string::~__cow_string(){ __sym_free((void*)_M_p,0); }
__cow_string::__cow_string(__cow_string&&o) noexcept { _M_p=o._M_p; char*p=(char*)__sym_malloc(1,0); p[0]=0; o._M_p=p; }
__cow_string& __cow_string::operator=(__cow_string&&o) noexcept { const char*t=_M_p; _M_p=o._M_p; o._M_p=t; return *this; }
#define EXC2(C) C::C(const string&s):_M_msg(s){} C::C(const char*s):_M_msg(s,strlen(s)){} C::~C() noexcept {} const char* C::what() const noexcept { return _M_msg._M_p; } C::C(const C&o) noexcept:exception(o),_M_msg(o._M_msg){} C& C::operator=(const C&o) noexcept { _M_msg=o._M_msg; return *this; } C::C(C&&o) noexcept:exception(o),_M_msg((__cow_string&&)o._M_msg){} C& C::operator=(C&&o) noexcept { _M_msg=(__cow_string&&)o._M_msg; return *this; }
EXC2(logic_error) EXC2(runtime_error)
#define EXC1(C,B) C::C(const string&s):B(s){} C::C(const char*s):B(s){} C::~C() noexcept {}
EXC1(domain_error,logic_error) EXC1(invalid_argument,logic_error) EXC1(length_error,logic_error) EXC1(out_of_range,logic_error) EXC1(range_error,runtime_error) EXC1(overflow_error,runtime_error) EXC1(underflow_error,runtime_error)
void __throw_bad_exception(){ throw bad_exception(); } void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_typeid(){ throw bad_typeid(); }
void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); } void __throw_underflow_error(const char*s){ throw underflow_error(s); } void __throw_ios_failure(const char*s){ throw runtime_error(s); } void __throw_ios_failure(const char*s,int){ throw runtime_error(s); } void __throw_system_error(int){ throw runtime_error("system_error"); } void __throw_bad_function_call(){ throw logic_error("bad_function_call"); }

// ---- red-black tree as an (unbalanced) binary search tree with the same interface
static _Rb_tree_node_base* inc(_Rb_tree_node_base*x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; } _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base*x){ if(x->_M_color==_S_red&&x->_M_parent&&x->_M_parent->_M_parent==x) return x->_M_right; if(x->_M_left){ _Rb_tree_node_base*y=x->_M_left; while(y->_M_right) y=y->_M_right; return y; } _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base*x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base*x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base*x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base*x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
// header is red, all other nodes are black: dec() can recognise the header
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw() {
  x->_M_parent=p; x->_M_left=x->_M_right=0; x->_M_color=_S_black;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
  else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h) throw() {
  _Rb_tree_node_base*&root=h._M_parent;
  auto repl=[&](_Rb_tree_node_base*u,_Rb_tree_node_base*v){ if(u==root) root=v; else if(u->_M_parent->_M_left==u) u->_M_parent->_M_left=v; else u->_M_parent->_M_right=v; if(v) v->_M_parent=u->_M_parent; };
  _Rb_tree_node_base*n=0,*pv=0; if(h._M_left==z){ n=inc(z); } if(h._M_right==z){ pv=dec(z); }
  if(!z->_M_left) repl(z,z->_M_right); else if(!z->_M_right) repl(z,z->_M_left);
  else { _Rb_tree_node_base*y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y->_M_parent!=z){ repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
  if(!root){ h._M_left=&h; h._M_right=&h; } else { if(n) h._M_left=n; if(pv) h._M_right=pv; }
  return z; }
namespace __detail {
void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_transfer(_List_node_base*const f,_List_node_base*const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*const t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
void _List_node_base::_M_hook(_List_node_base*const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev=_M_prev; _M_prev->_M_next=_M_next; }
}
// ---- locale / ios
alignas(16) static char g_limpl[sizeof(locale::_Impl)+64]; static const locale::facet* g_facets[1];
locale::locale() throw() { _M_impl=(_Impl*)g_limpl; } locale::locale(const locale&) throw() { _M_impl=(_Impl*)g_limpl; } locale::~locale() throw() {} const locale& locale::operator=(const locale&) throw() { return *this; } bool locale::operator==(const locale&) const throw() { return true; }
alignas(locale) static char g_loc[sizeof(locale)];
const locale& locale::classic(){ return *(locale*)g_loc; }
alignas(ctype<char>) static char g_ct[sizeof(ctype<char>)]; static ctype_base::mask g_tab[256];
static char ct_up(void*,char c){ return (unsigned)c-'a'<26u?c-32:c; } static char ct_low(void*,char c){ return (unsigned)c-'A'<26u?c+32:c; }
static const char* ct_upr(void*,char*b,const char*e){ for(;b<e;b++) *b=ct_up(0,*b); return e; } static const char* ct_lowr(void*,char*b,const char*e){ for(;b<e;b++) *b=ct_low(0,*b); return e; }
static char ct_wid(void*,char c){ return c; } static const char* ct_widr(void*,const char*b,const char*e,char*d){ while(b<e) *d++=*b++; return e; } static char ct_nar(void*,char c,char){ return c; } static const char* ct_narr(void*,const char*b,const char*e,char,char*d){ while(b<e) *d++=*b++; return e; } static void ct_no(void*){}
static void*const ct_vt[]={(void*)ct_no,(void*)ct_no,(void*)ct_up,(void*)ct_upr,(void*)ct_low,(void*)ct_lowr,(void*)ct_wid,(void*)ct_widr,(void*)ct_nar,(void*)ct_narr};
static void initct(){ g_facets[0]=(const locale::facet*)g_ct; ((locale::_Impl*)g_limpl)->_M_facets=g_facets; ((locale::_Impl*)g_limpl)->_M_facets_size=1; ((locale*)g_loc)->_M_impl=(locale::_Impl*)g_limpl; ctype<char>*c=(ctype<char>*)g_ct; *(void**)g_ct=(void*)ct_vt; for(int i=0;i<256;i++){ c->_M_widen[i]=i; c->_M_narrow[i]=i; unsigned m=0; if(i==' '||(i>=9&&i<=13)) m|=ctype_base::space; if(i==' '||i==9) m|=ctype_base::blank; if(i>='0'&&i<='9') m|=ctype_base::digit|ctype_base::xdigit; if(i>='A'&&i<='Z') m|=ctype_base::upper|ctype_base::alpha; if(i>='a'&&i<='z') m|=ctype_base::lower|ctype_base::alpha; if((i>='A'&&i<='F')||(i>='a'&&i<='f')) m|=ctype_base::xdigit; if(i<32||i==127) m|=ctype_base::cntrl; if(i>=32&&i<127) m|=ctype_base::print; if(i>32&&i<127&&!(m&(ctype_base::alpha|ctype_base::digit))) m|=ctype_base::punct; if(i>127) m=0; g_tab[i]=(ctype_base::mask)m; } c->_M_widen_ok=1; c->_M_narrow_ok=1; c->_M_table=g_tab; }
#define FACET(F,P) template<> const F& use_facet<F>(const locale&){ return *(const F*)P; } template<> bool has_facet<F>(const locale&) throw() { return true; }
FACET(ctype<char>,g_ct)

size_t locale::id::_M_id() const throw() { return 0; }
void ctype<char>::_M_widen_init() const {} void ctype<char>::_M_narrow_init() const {}
template<> void basic_ios<char>::_M_cache_locale(const locale&){ _M_ctype=(ctype<char>*)g_ct; _M_num_put=0; _M_num_get=0; }
ios_base::ios_base() throw() : _M_precision(),_M_width(),_M_flags(),_M_exception(),_M_streambuf_state(),_M_callbacks(0),_M_word_zero(),_M_word_size(8),_M_word(0) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision=6; _M_width=0; _M_flags=skipws|dec; }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale&l) throw() { return l; }
static void fmt(ostream&o,unsigned long u,bool neg,bool sgn=false){ char b[40]; int p=40; ios_base::fmtflags f=o.flags()&ios_base::basefield; unsigned bs=f==ios_base::hex?16:f==ios_base::oct?8:10; bool up=o.flags()&ios_base::uppercase; bool zero=u==0; do { unsigned d=u%bs; u/=bs; b[--p]= d<10?'0'+d:(up?'A':'a')+d-10; } while(u); if((o.flags()&ios_base::showbase)&&bs!=10&&!zero){ if(bs==16) b[--p]=up?'X':'x'; b[--p]='0'; } if(neg) b[--p]='-'; else if(sgn&&bs==10&&(o.flags()&ios_base::showpos)) b[--p]='+';
  if((o.flags()&ios_base::adjustfield)==ios_base::internal && o.width()>40-p){ int k=p; if(b[k]=='-'||b[k]=='+') k++; if(bs==16&&k+1<40&&b[k]=='0'&&(b[k+1]|32)=='x') k+=2; string t(b+p,k-p); t.append(o.width()-(40-p),o.fill()); t.append(b+k,40-k); o.width(0); __ostream_insert(o,t.data(),t.size()); return; }
  __ostream_insert(o,b+p,(streamsize)(40-p)); }
template<> template<> ostream& ostream::_M_insert(long v){ ios_base::fmtflags f=flags()&ios_base::basefield; if(f==ios_base::hex||f==ios_base::oct) fmt(*this,(unsigned long)v,false); else fmt(*this,v<0?0ul-(unsigned long)v:(unsigned long)v,v<0,true); return *this; }
template<> template<> ostream& ostream::_M_insert(unsigned long v){ fmt(*this,v,false); return *this; }
template<> template<> ostream& ostream::_M_insert(long long v){ return _M_insert((long)v); }
template<> template<> ostream& ostream::_M_insert(unsigned long long v){ fmt(*this,v,false); return *this; }
template<> template<> ostream& ostream::_M_insert(bool v){ if(flags()&ios_base::boolalpha) return *this<<(v?"true":"false"); fmt(*this,v,false,true); return *this; }
template<> template<> ostream& ostream::_M_insert(const void* v){ *this<<"0x"; fmt(*this,(unsigned long)v,false); return *this; }
template<> template<> ostream& ostream::_M_insert(double v){ char b[400]; uint64_t bits; memcpy(&bits,&v,8); fmtflags ff=flags()&floatfield; long n=__sym_fmtd(bits,precision(),ff==fixed?1:ff==scientific?2:0,b); return __ostream_insert(*this,b,n); }
template<> template<> ostream& ostream::_M_insert(long double v){ return *this<<(double)v; }
static int getint(istream&i,unsigned long&u,bool&neg,unsigned long max,unsigned long nmax){ istream::sentry s(i,false); if(!s) return 0; neg=false; u=0; bool any=false,ov=false; streambuf*b=i.rdbuf(); ios_base::fmtflags f=i.flags()&ios_base::basefield; unsigned bs=f==ios_base::hex?16:f==ios_base::oct?8:f==ios_base::dec?10:0; int c=b->sgetc(); if(c=='-'||c=='+'){ neg=c=='-'; c=b->snextc(); }
  if((bs==0||bs==16)&&c=='0'){ any=true; c=b->snextc(); if((c|32)=='x'&&c!=EOF){ bs=16; any=false; c=b->snextc(); } else if(bs==0) bs=8; } if(bs==0) bs=10;
  for(;;){ unsigned d; if(c>='0'&&c<='9') d=c-'0'; else if(bs==16&&c>='a'&&c<='f') d=c-'a'+10; else if(bs==16&&c>='A'&&c<='F') d=c-'A'+10; else break; if(d>=bs) break; any=true; if(u>(~0ul-d)/bs) ov=true; u=u*bs+d; c=b->snextc(); }
  if(c==EOF) i.setstate(ios_base::eofbit); if(!any){ u=0; i.setstate(ios_base::failbit); return 1; } if(ov||u>(neg?nmax:max)){ u=neg?nmax:max; i.setstate(ios_base::failbit); return 2; } return 1; }
#define GETU(T) template<> template<> istream& istream::_M_extract(T&v){ unsigned long u; bool n; int r=getint(*this,u,n,(T)~0ul,(T)~0ul); if(r) v=r==2?(T)~0ul:(T)(n?0-u:u); return *this; }
#define GETS(T) template<> template<> istream& istream::_M_extract(T&v){ unsigned long u; bool n; int r=getint(*this,u,n,(unsigned long)numeric_limits<T>::max(),(unsigned long)numeric_limits<T>::max()+1); if(r) v=(T)(n?0-u:u); return *this; }
GETU(unsigned long) GETU(unsigned short) GETU(unsigned int) GETU(unsigned long long) GETS(long) GETS(long long)
template<> template<> istream& istream::_M_extract(bool&v){ unsigned long u; bool n; int r=getint(*this,u,n,1,0); if(r) v=r==2||u; return *this; }
template<> istream& istream::operator>>(short&v){ unsigned long u; bool n; int r=getint(*this,u,n,32767,32768); if(r) v=(short)(n?0-u:u); return *this; }
template<> istream& istream::operator>>(int&v){ unsigned long u; bool n; int r=getint(*this,u,n,2147483647,2147483648ul); if(r) v=(int)(n?0-u:u); return *this; }
template<> template<> istream& istream::_M_extract(double&v){ istream::sentry s(*this,false); if(!s) return *this; string t; int c=rdbuf()->sgetc(); while(c!=EOF&&((c>='0'&&c<='9')||c=='.'||c=='-'||c=='+'||(c|32)=='e')){ t.push_back(c); c=rdbuf()->snextc(); } if(c==EOF) setstate(eofbit); char*e; double d=__sym_strtod(t.c_str(),&e); if(t.empty()||*e){ v=0; setstate(failbit); } else v=d; return *this; }
template<> template<> istream& istream::_M_extract(float&v){ double d; *this>>d; v=(float)d; return *this; }
template class basic_string<char>;
template class basic_ios<char>; template class basic_streambuf<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
template class __cxx11::basic_stringbuf<char>; template class __cxx11::basic_ostringstream<char>; template class __cxx11::basic_istringstream<char>; template class __cxx11::basic_stringstream<char>;
template ostream& __ostream_insert(ostream&,const char*,streamsize);
template ostream& endl(ostream&); template ostream& ends(ostream&); template ostream& flush(ostream&);
template ostream& operator<<(ostream&,char); template ostream& operator<<(ostream&,const char*); template ostream& operator<<(ostream&,const string&);
template<> istream& operator>>(istream&i,string&s){ streamsize w=i.width(); s.clear(); istream::sentry k(i,false); if(!k) return i; streamsize n=0; int c=i.rdbuf()->sgetc(); while(c!=EOF&&!(c==' '||(c>=9&&c<=13))&&!(w>0&&n>=w)){ s.push_back((char)c); n++; c=i.rdbuf()->snextc(); } if(c==EOF&&!(w>0&&n>=w)) i.setstate(ios_base::eofbit); i.width(0); if(!n) i.setstate(ios_base::failbit); return i; }
template<> istream& operator>>(istream&i,char&v){ istream::sentry k(i,false); if(!k) return i; int c=i.rdbuf()->sbumpc(); if(c==EOF) i.setstate(ios_base::eofbit|ios_base::failbit); else v=(char)c; return i; }
template<> istream& getline(istream&i,string&s,char d){ s.clear(); istream::sentry k(i,true); if(!k) return i; bool any=false; for(;;){ int c=i.rdbuf()->sbumpc(); if(c==EOF){ i.setstate(any?ios_base::eofbit:ios_base::eofbit|ios_base::failbit); break; } any=true; if((char)c==d) break; s.push_back((char)c); } return i; }
template istream& getline(istream&,string&);
template<> istream& istream::ignore(streamsize n){ _M_gcount=0; istream::sentry k(*this,true); if(!k) return *this; for(;_M_gcount<n;_M_gcount++){ if(rdbuf()->sbumpc()==EOF){ setstate(eofbit); break; } } return *this; }
template<> istream& istream::ignore(streamsize n,int d){ _M_gcount=0; istream::sentry k(*this,true); if(!k) return *this; while(n==numeric_limits<streamsize>::max()||_M_gcount<n){ int c=rdbuf()->sbumpc(); if(c==EOF){ setstate(eofbit); break; } _M_gcount++; if(c==d) break; } return *this; }
template<> streamsize __copy_streambufs_eof(basic_streambuf<char>*i,basic_streambuf<char>*o,bool&eof){ streamsize n=0; eof=true; for(int c=i->sgetc();c!=-1;c=i->snextc()){ if(o->sputc((char)c)==-1){ eof=false; break; } n++; } return n; }
template string operator+(const string&,const string&); template string operator+(const char*,const string&); template string operator+(const string&,const char*);
struct InitIO { InitIO(){ initct(); } } g_initio __attribute__((init_priority(101)));
ostream cout(0); ostream cerr(0); ostream clog(0);
namespace __detail { size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[]={2,3,5,7,11,13,29,59,127,257,541,1109,2357,5087,10273,20753,42043}; size_t r=85229; for(int i=16;i>=0;i--) if(pr[i]>=n) r=pr[i]; _M_next_resize=(size_t)(r*_M_max_load_factor); return r; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni>_M_next_resize){ size_t want=(size_t)((ne+(ni>0?ni:1))/_M_max_load_factor)+1; if(nb==1&&want<11) want=11; if(want>=nb) return make_pair(true,_M_next_bkt(want>nb*2?want:nb*2)); _M_next_resize=(size_t)(nb*_M_max_load_factor); } return make_pair(false,(size_t)0); } }
size_t _Hash_bytes(const void*p,size_t n,size_t s){ size_t h=s^14695981039346656037ul; for(size_t i=0;i<n;i++) h=(h^((const unsigned char*)p)[i])*1099511628211ul; return h; }
void ios_base_library_init() {}
ios_base::Init::Init() {} ios_base::Init::~Init() {}
}
extern "C" {
int isalnum(int c){ return ((unsigned)c-'0'<10u)|(((unsigned)c|32)-'a'<26u); }
int isalpha(int c){ return (((unsigned)c|32)-'a'<26u); }
int isdigit(int c){ return ((unsigned)c-'0'<10u); }
int isspace(int c){ return (c==' ')|((unsigned)c-9<5u); }
int isprint(int c){ return (unsigned)c-32<95u; }
int ispunct(int c){ return ((unsigned)c-33<94u) & !isalnum(c); }
int isupper(int c){ return (unsigned)c-'A'<26u; } int islower(int c){ return (unsigned)c-'a'<26u; }
int isxdigit(int c){ return isdigit(c)|(((unsigned)c|32)-'a'<6u); }
int tolower(int c){ return isupper(c)?c|32:c; } int toupper(int c){ return islower(c)?c&~32:c; }
static int g_errno; int* __errno_location(){ return &g_errno; }
char* strerror(int){ return (char*)"error"; } char* strerror_r(int,char*,size_t){ return (char*)"error"; }
char* (*sym_getenv_hook)(const char*); void* (*sym_dlopen_hook)(const char*); void* (*sym_dlsym_hook)(void*,const char*); int (*sym_fs_kind)(const char*); const char* (*sym_fs_entry)(const char*,unsigned);
char* getenv(const char*n){ return sym_getenv_hook?sym_getenv_hook(n):0; } void* __s_dlopen(const char*,int) __asm__("dlopen"); void* __s_dlopen(const char*f,int){ return sym_dlopen_hook?sym_dlopen_hook(f):0; } void* __s_dlsym(void*,const char*) __asm__("dlsym"); void* __s_dlsym(void*h,const char*n){ return sym_dlsym_hook?sym_dlsym_hook(h,n):0; } char* __s_dlerror() __asm__("dlerror"); char* __s_dlerror(){ return (char*)"error"; } int __s_dlclose(void*) __asm__("dlclose"); int __s_dlclose(void*){ return 0; }
void __s_exit(int) __asm__("exit"); void __s_exit(int){ __sym_check(0,"the process is not ended"); __sym_stop(); } ssize_t __s_readlink(const char*,char*,size_t) __asm__("readlink"); ssize_t __s_readlink(const char*,char*,size_t){ return -1; }
char* __s_sgetenv(const char*) __asm__("secure_getenv"); char* __s_sgetenv(const char*n){ return getenv(n); }
char* strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char* strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
int strncmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ unsigned char x=a[i],y=b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
char* __s_strchr(const char*s,int c) __asm__("strchr"); char* __s_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* __s_strrchr(const char*s,int c) __asm__("strrchr"); char* __s_strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* strdup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)malloc(n); memcpy(p,s,n); return p; }
char* __s_strstr(const char*h,const char*n) __asm__("strstr"); char* __s_strstr(const char*h,const char*n){ size_t k=strlen(n); for(;;h++){ if(!strncmp(h,n,k)) return (char*)h; if(!*h) return 0; } }
static long strtol_impl(const char*s,char**e,int base){ const char*p=s; while(isspace((unsigned char)*p)) p++; bool neg=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; p++; } if((base==0||base==16)&&p[0]=='0'&&(p[1]|32)=='x'&&isxdigit((unsigned char)p[2])){ p+=2; base=16; } else if(base==0) base=*p=='0'?8:10;
  unsigned long u=0; bool any=false,ov=false; for(;;p++){ int d; if(isdigit((unsigned char)*p)) d=*p-'0'; else if(isalpha((unsigned char)*p)) d=(*p|32)-'a'+10; else break; if(d>=base) break; any=true; if(u>(0x7fffffffffffffffull-d)/base) ov=true; else u=u*base+d; } if(e) *e=(char*)(any?p:s); if(ov){ g_errno=ERANGE; return neg?(-0x7fffffffffffffffl-1):0x7fffffffffffffffl; } return neg?-(long)u:(long)u; }
long __s_strtol1(const char*s,char**e,int b) __asm__("strtol"); long __s_strtol1(const char*s,char**e,int b){ return strtol_impl(s,e,b); }
long __s_strtol2(const char*s,char**e,int b) __asm__("__isoc23_strtol"); long __s_strtol2(const char*s,char**e,int b){ return strtol_impl(s,e,b); }
int vsnprintf(char*b,size_t n,const char*f,va_list ap){ size_t k=0; auto put=[&](char c){ if(k+1<n) b[k]=c; k++; };
  for(;*f;f++){ if(*f!='%'){ put(*f); continue; } f++; bool left=false,zero=false,plus=false,alt=false,space=false; for(;;f++){ if(*f=='-') left=true; else if(*f=='0') zero=true; else if(*f=='+') plus=true; else if(*f=='#') alt=true; else if(*f==' ') space=true; else break; }
    int w=0,pr=-1,l=0; if(*f=='*'){ w=va_arg(ap,int); if(w<0){ left=true; w=-w; } f++; } else while(*f>='0'&&*f<='9') w=w*10+*f++-'0';
    if(*f=='.'){ f++; pr=0; if(*f=='*'){ pr=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') pr=pr*10+*f++-'0'; }
    for(;;f++){ if(*f=='l'||*f=='z'||*f=='j'||*f=='t') l=2; else if(*f=='h') l--; else break; }
    char t[420]; const char*q=t; long len=0; char sg=0;
    switch(*f){ case 's': { q=va_arg(ap,const char*); if(!q) q="(null)"; while((pr<0||len<pr)&&q[len]) len++; zero=false; break; } case 'c': t[0]=(char)va_arg(ap,int); len=1; zero=false; break; case '%': put('%'); continue;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': { bool sd=*f=='d'||*f=='i'; if(*f=='p'){ l=2; alt=true; } long v; if(l==2) v=va_arg(ap,long); else if(!sd) v=va_arg(ap,unsigned); else v=va_arg(ap,int); if(l==-1) v=sd?(long)(short)v:(long)(unsigned short)v; if(l==-2) v=sd?(long)(signed char)v:(long)(unsigned char)v;
        bool neg=sd&&v<0; unsigned long u=neg?0ul-(unsigned long)v:(unsigned long)v; int p=64; unsigned bs=*f=='x'||*f=='X'||*f=='p'?16:*f=='o'?8:10; bool nz=u!=0; if(u||pr!=0) do { unsigned d=u%bs; u/=bs; t[--p]=d<10?'0'+d:(*f=='X'?'A':'a')+d-10; } while(u); while(64-p<pr) t[--p]='0'; if(alt&&bs==16&&nz){ t[--p]=*f=='X'?'X':'x'; t[--p]='0'; } if(neg) sg='-'; else if(sd&&plus) sg='+'; else if(sd&&space) sg=' '; if(pr>=0) zero=false; q=t+p; len=64-p; break; }
      case 'f': case 'e': case 'g': { double v=va_arg(ap,double); uint64_t bits; memcpy(&bits,&v,8); len=__sym_fmtd(bits,pr<0?6:pr,*f=='f'?1:*f=='e'?2:0,t); break; }
      default: put('?'); continue; }
    long pad=w-len-(sg?1:0); if(!left&&!zero) for(;pad>0;pad--) put(' '); if(sg) put(sg); if(!left&&zero) for(;pad>0;pad--) put('0'); for(long i=0;i<len;i++) put(q[i]); for(;pad>0;pad--) put(' '); }
  if(n) b[k<n?k:n-1]=0; return (int)k; }
int snprintf(char*b,size_t n,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
int vsprintf(char*b,const char*f,va_list ap){ return vsnprintf(b,1u<<30,f,ap); }
int sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,1u<<30,f,ap); va_end(ap); return r; }
int __sprintf_chk(char*b,int,size_t,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,1u<<30,f,ap); va_end(ap); return r; }
int vasprintf(char**o,const char*f,va_list ap){ va_list a2; va_copy(a2,ap); char t[1]; int r=vsnprintf(t,1,f,a2); va_end(a2); *o=(char*)malloc(r+1); if(!*o) return -1; return vsnprintf(*o,r+1,f,ap); }
int asprintf(char**o,const char*f,...){ va_list ap; va_start(ap,f); int r=vasprintf(o,f,ap); va_end(ap); return r; }
static int vsscanf_impl(const char*s,const char*f,va_list ap){ const char*s0=s; int n=0; for(;*f;f++){ if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*s)) s++; continue; } if(*f!='%'){ if(*s!=*f) return *s||n?n:-1; s++; continue; } f++; bool sup=false; if(*f=='*'){ sup=true; f++; } int w=0,l=0; while(*f>='0'&&*f<='9') w=w*10+*f++-'0'; for(;;f++){ if(*f=='l'||*f=='z'||*f=='j') l=2; else if(*f=='h') l--; else break; }
    if(*f=='n'){ *va_arg(ap,int*)=(int)(s-s0); continue; } if(*f=='%'){ if(*s!='%') return n; s++; continue; } if(*f=='c'){ if(!w) w=1; char*o=sup?0:va_arg(ap,char*); for(int i=0;i<w;i++){ if(!*s) return n?n:-1; if(o) o[i]=*s; s++; } if(!sup) n++; continue; }
    if(*f!='['){ while(isspace((unsigned char)*s)) s++; } if(!*s) return n?n:-1;
    if(*f=='s'){ char*o=sup?0:va_arg(ap,char*); int i=0; while(*s&&!isspace((unsigned char)*s)&&!(w&&i>=w)){ if(o) o[i]=*s; i++; s++; } if(o) o[i]=0; if(!sup) n++; continue; }
    if(*f=='['){ f++; bool inv=false; if(*f=='^'){ inv=true; f++; } const char*st=f; if(*f==']') f++; while(*f&&*f!=']') f++; char*o=sup?0:va_arg(ap,char*); int i=0; while(*s&&!(w&&i>=w)){ bool in=false; for(const char*q=st;q<f;q++){ if(q+2<f&&q[1]=='-'){ if(*s>=q[0]&&*s<=q[2]) in=true; q+=2; } else if(*q==*s) in=true; } if(in==inv) break; if(o) o[i]=*s; i++; s++; } if(!i) return n; if(o) o[i]=0; if(!sup) n++; continue; }
    bool sd=*f=='d'||*f=='i'; unsigned bs=*f=='x'?16:*f=='o'?8:*f=='i'?0:10; int c=0; bool neg=false; if(*s=='-'||*s=='+'){ neg=*s=='-'; s++; c++; } if((bs==0||bs==16)&&*s=='0'&&(s[1]|32)=='x'){ s+=2; bs=16; } else if(bs==0) bs=*s=='0'?8:10; unsigned long u=0; bool any=false; while(!(w&&c>=w)){ unsigned d; if(*s>='0'&&*s<='9') d=*s-'0'; else if(*s>='a'&&*s<='f') d=*s-'a'+10; else if(*s>='A'&&*s<='F') d=*s-'A'+10; else break; if(d>=bs) break; u=u*bs+d; any=true; s++; c++; } if(!any) return n; if(neg) u=0-u; (void)sd; if(!sup){ if(l==2) *va_arg(ap,long*)=(long)u; else if(l==-1) *va_arg(ap,short*)=(short)u; else if(l==-2) *va_arg(ap,char*)=(char)u; else *va_arg(ap,int*)=(int)u; n++; } }
  return n; }
int __s_sscanf1(const char*s,const char*f,...) __asm__("sscanf"); int __s_sscanf1(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vsscanf_impl(s,f,ap); va_end(ap); return r; }
int __s_sscanf2(const char*s,const char*f,...) __asm__("__isoc99_sscanf"); int __s_sscanf2(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vsscanf_impl(s,f,ap); va_end(ap); return r; }
int __s_sscanf3(const char*s,const char*f,...) __asm__("__isoc23_sscanf"); int __s_sscanf3(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vsscanf_impl(s,f,ap); va_end(ap); return r; }
int fprintf(FILE*,const char*,...){ return 0; } int vfprintf(FILE*,const char*,va_list){ return 0; } int fputs(const char*,FILE*){ return 0; } int fputc(int c,FILE*){ return c; } int putc(int c,FILE*){ return c; } void perror(const char*){} int fflush(FILE*){ return 0; }
size_t strnlen(const char*s,size_t n){ size_t i=0; while(i<n&&s[i]) i++; return i; }
void* __s_memmem(const void*h,size_t hn,const void*n,size_t nn) __asm__("memmem"); void* __s_memmem(const void*h,size_t hn,const void*n,size_t nn){ for(size_t i=0;i+nn<=hn;i++) if(!memcmp((const char*)h+i,n,nn)) return (char*)h+i; return 0; }
void* __s_memrchr(const void*s,int c,size_t n) __asm__("memrchr"); void* __s_memrchr(const void*s,int c,size_t n){ while(n--) if(((const char*)s)[n]==(char)c) return (char*)s+n; return 0; }
void* __s_rawmemchr(const void*s,int c) __asm__("rawmemchr"); void* __s_rawmemchr(const void*s,int c){ const char*p=(const char*)s; while(*p!=(char)c) p++; return (void*)p; }
char* __s_strchrnul(const char*s,int c) __asm__("strchrnul"); char* __s_strchrnul(const char*s,int c){ while(*s&&*s!=(char)c) s++; return (char*)s; }
size_t strspn(const char*s,const char*a){ size_t i=0; for(;s[i];i++){ const char*q=a; while(*q&&*q!=s[i]) q++; if(!*q) break; } return i; }
size_t strcspn(const char*s,const char*a){ size_t i=0; for(;s[i];i++){ const char*q=a; while(*q&&*q!=s[i]) q++; if(*q) break; } return i; }
char* __s_strpbrk(const char*s,const char*a) __asm__("strpbrk"); char* __s_strpbrk(const char*s,const char*a){ s+=strcspn(s,a); return *s?(char*)s:0; }
char* strtok_r(char*s,const char*d,char**sv){ if(!s) s=*sv; if(!s) return 0; s+=strspn(s,d); if(!*s){ *sv=s; return 0; } char*e=s+strcspn(s,d); if(*e) *e++=0; *sv=e; return s; }
char* __strtok_r(char*s,const char*d,char**sv){ return strtok_r(s,d,sv); }
static char*g_tok; char* strtok(char*s,const char*d){ return strtok_r(s,d,&g_tok); }
char* strsep(char**sp,const char*d){ char*s=*sp; if(!s) return 0; char*e=s+strcspn(s,d); if(*e) *e++=0; else e=0; *sp=e; return s; }
char* strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char* strncat(char*d,const char*s,size_t n){ size_t k=strlen(d),i=0; for(;i<n&&s[i];i++) d[k+i]=s[i]; d[k+i]=0; return d; }
char* stpcpy(char*d,const char*s){ size_t n=strlen(s); memcpy(d,s,n+1); return d+n; } char* stpncpy(char*d,const char*s,size_t n){ size_t k=strnlen(s,n); strncpy(d,s,n); return d+k; }
void* mempcpy(void*d,const void*s,size_t n){ memcpy(d,s,n); return (char*)d+n; }
char* strndup(const char*s,size_t n){ n=strnlen(s,n); char*p=(char*)malloc(n+1); memcpy(p,s,n); p[n]=0; return p; }
int strcoll(const char*a,const char*b){ return strcmp(a,b); }
int strncasecmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ int x=tolower((unsigned char)a[i]),y=tolower((unsigned char)b[i]); if(x!=y) return x-y; if(!x) return 0; } return 0; }
int strcasecmp(const char*a,const char*b){ return strncasecmp(a,b,~0ul); }
int isblank(int c){ return c==' '||c=='\t'; } int iscntrl(int c){ return (unsigned)c<32u||c==127; } int isgraph(int c){ return (unsigned)c-33<94u; }
void bzero(void*p,size_t n){ memset(p,0,n); } void bcopy(const void*s,void*d,size_t n){ memmove(d,s,n); }
void qsort(void*b,size_t n,size_t w,int(*c)(const void*,const void*)){ char*p=(char*)b; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&c(p+(j-1)*w,p+j*w)>0;j--) for(size_t k=0;k<w;k++){ char t=p[(j-1)*w+k]; p[(j-1)*w+k]=p[j*w+k]; p[j*w+k]=t; } }
long __s_strtoll(const char*s,char**e,int b) __asm__("strtoll"); long __s_strtoll(const char*s,char**e,int b){ return strtol_impl(s,e,b); }
long __s_strtoll2(const char*s,char**e,int b) __asm__("__isoc23_strtoll"); long __s_strtoll2(const char*s,char**e,int b){ return strtol_impl(s,e,b); }
static unsigned long strtoul_impl(const char*s,char**e,int base){ const char*p=s; while(isspace((unsigned char)*p)) p++; bool neg=false; if(*p=='-'||*p=='+'){ neg=*p=='-'; p++; } if((base==0||base==16)&&p[0]=='0'&&(p[1]|32)=='x'&&isxdigit((unsigned char)p[2])){ p+=2; base=16; } else if(base==0) base=*p=='0'?8:10;
  unsigned long u=0; bool any=false,ov=false; for(;;p++){ int d; if(isdigit((unsigned char)*p)) d=*p-'0'; else if(isalpha((unsigned char)*p)) d=(*p|32)-'a'+10; else break; if(d>=base) break; any=true; if(u>(~0ul-d)/base) ov=true; else u=u*base+d; }
  if(e) *e=(char*)(any?p:s); if(ov){ g_errno=ERANGE; return ~0ul; } return neg?0-u:u; }
unsigned long __s_strtoul1(const char*s,char**e,int b) __asm__("strtoul"); unsigned long __s_strtoul1(const char*s,char**e,int b){ return strtoul_impl(s,e,b); }
unsigned long __s_strtoul2(const char*s,char**e,int b) __asm__("__isoc23_strtoul"); unsigned long __s_strtoul2(const char*s,char**e,int b){ return strtoul_impl(s,e,b); }
unsigned long __s_strtoul3(const char*s,char**e,int b) __asm__("strtoull"); unsigned long __s_strtoul3(const char*s,char**e,int b){ return strtoul_impl(s,e,b); }
unsigned long __s_strtoul4(const char*s,char**e,int b) __asm__("__isoc23_strtoull"); unsigned long __s_strtoul4(const char*s,char**e,int b){ return strtoul_impl(s,e,b); }
double strtod(const char*s,char**e){ return __sym_strtod(s,e); } float strtof(const char*s,char**e){ return (float)__sym_strtod(s,e); }
time_t time(time_t*t){ if(t) *t=1700000000; return 1700000000; } pid_t getpid(){ return 4242; }
int stat(const char*,struct stat*){ g_errno=ENOENT; return -1; } int access(const char*,int){ g_errno=ENOENT; return -1; } FILE* fopen(const char*,const char*){ g_errno=ENOENT; return 0; } int fclose(FILE*){ return 0; } int ferror(FILE*){ return 0; } int feof(FILE*){ return 0; } ssize_t read(int,void*,size_t){ return -1; }
int printf(const char*,...){ return 0; } int puts(const char*){ return 0; }
int pthread_mutex_init(pthread_mutex_t*,const pthread_mutexattr_t*) noexcept { return 0; } int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutexattr_init(pthread_mutexattr_t*) noexcept { return 0; } int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; } int pthread_mutexattr_settype(pthread_mutexattr_t*,int) noexcept { return 0; }
}
extern "C" { ssize_t (*sym_write_hook)(int,const void*,size_t); size_t (*sym_fwrite_hook)(const void*,size_t,size_t,FILE*);
ssize_t write(int fd,const void*p,size_t n){ if(sym_write_hook) return sym_write_hook(fd,p,n); return -1; }
size_t __s_fwrite(const void*p,size_t s,size_t n,FILE*f) __asm__("fwrite"); size_t __s_fwrite(const void*p,size_t s,size_t n,FILE*f){ if(sym_fwrite_hook) return sym_fwrite_hook(p,s,n,f); return 0; } }
