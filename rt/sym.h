#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t __sym_int(const char* name, unsigned bits);
void __sym_assume(uint64_t c);
void __sym_check(uint64_t c, const char* msg);
void __sym_observe(uint64_t v);
void __sym_cover(const char* label);
uint64_t __sym_live(void);
uint64_t __sym_concretize(uint64_t v);
uint64_t __sym_param(const char* name, uint64_t dflt);
uint64_t __sym_ite(uint64_t c, uint64_t a, uint64_t b);
void __sym_fuel(uint64_t steps);
void __sym_stop(void) __attribute__((noreturn));
void __sym_print(const char* s, uint64_t v);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
#include <sys/types.h>
#include <stdio.h>
extern "C" {
// environment hooks: consulted by write(2)/fwrite(3) called from the code under test (0 = default behaviour)
extern ssize_t (*sym_write_hook)(int fd,const void*p,size_t n);
extern size_t (*sym_fwrite_hook)(const void*p,size_t sz,size_t n,FILE*f);
// the same for environment variables, the dynamic linker and the file system seen through boost::filesystem (0: nothing there; kinds: 0 missing, 1 file, 2 directory)
extern char* (*sym_getenv_hook)(const char*); extern void* (*sym_dlopen_hook)(const char*); extern void* (*sym_dlsym_hook)(void*,const char*); extern int (*sym_fs_kind)(const char*); extern const char* (*sym_fs_entry)(const char*dir,unsigned i);
}
static inline uint8_t sym_u8(const char*n){ return (uint8_t)__sym_int(n,8); }
static inline uint16_t sym_u16(const char*n){ return (uint16_t)__sym_int(n,16); }
static inline uint32_t sym_u32(const char*n){ return (uint32_t)__sym_int(n,32); }
static inline uint64_t sym_u64(const char*n){ return __sym_int(n,64); }
static inline bool sym_bool(const char*n){ return __sym_int(n,1)!=0; }
// value in [lo,hi]
static inline uint64_t sym_range(const char*n,uint64_t lo,uint64_t hi){ uint64_t v=__sym_int(n, hi<256?8:hi<65536?16:hi<0x100000000ull?32:64); __sym_assume((v>=lo)&(v<=hi)); return v; }
// one of n alternatives, forks eagerly
static inline unsigned sym_choice(const char*n,unsigned k){ uint64_t v=__sym_int(n,8); __sym_assume(v<k); return (unsigned)__sym_concretize(v); }
static inline void sym_bytes(void*p,size_t n,const char*name){ uint8_t*b=(uint8_t*)p; for(size_t i=0;i<n;i++) b[i]=(uint8_t)__sym_int(name,8); }
#define CHECK(c,msg) __sym_check((uint64_t)(bool)(c),msg)
#define COVER(l) __sym_cover(l)
#define HARNESS(name) extern "C" void h_##name()
#endif
