// Interface of the stand-in for the Ruby interpreter: what a harness uses to drive the extension the way Ruby code does.
#pragma once
#include "sym.h"
#include <ruby.h>
struct RbError { VALUE klass; };
extern "C" void Init_typelib_ruby();
extern VALUE rb_rt_cInteger, rb_rt_cFloat, rb_rt_eRange, rb_rt_eType, rb_rt_eArg, rb_rt_eIndex, rb_rt_eRuntime;
VALUE rt_const(const char*name);                     // Typelib::<name>
VALUE rt_mod();
VALUE rt_call(VALUE recv,const char*m,int argc=0,VALUE a=0,VALUE b=0,VALUE c=0,VALUE d=0,VALUE e=0);
VALUE rt_str(const char*p,long n=-1); VALUE rt_int(int64_t v); VALUE rt_uint(uint64_t v); VALUE rt_flt(double d); VALUE rt_sym(const char*n); VALUE rt_ary(int n=0,VALUE a=0,VALUE b=0,VALUE c=0,VALUE d=0);
bool rt_isint(VALUE v); bool rt_neg(VALUE v); uint64_t rt_mag(VALUE v); double rt_dbl(VALUE v); bool rt_is(VALUE v,unsigned t);
const char* rt_symname(VALUE v); long rt_len(VALUE v); VALUE rt_at(VALUE v,long i); const char* rt_cstr(VALUE v);
void rt_include(VALUE klass,VALUE under,const char*module);
extern VALUE (*rt_block)(VALUE a,VALUE b);           // the block of the current call
extern long rt_xlive;                                // ruby_xmalloc'ed buffers that are live
extern void* rt_next;                                // memory that the next ruby_xmalloc hands out (as any allocator reuses addresses)
void rt_pin(VALUE v); void rt_unpin(VALUE v);        // references held by Ruby variables
void rt_gc(unsigned order); void rt_exit(unsigned order);   // collect what is unreachable / finalise everything; order: 0 oldest first, 1 newest first, 2 any order
void rt_mark(); bool rt_sweep1(unsigned order); void rt_sweep(unsigned order);   // the two halves of a collection; the second one can happen at any time after the first
// calls a method; rc: 0 returned, 1 raised a Ruby exception (g_err), 2 a C++ exception got out
extern VALUE rt_err; extern int rt_rc;
VALUE rt_try(VALUE recv,const char*m,int argc=0,VALUE a=0,VALUE b=0,VALUE c=0,VALUE d=0,VALUE e=0);
