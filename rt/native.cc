// Native (replay) implementation of the harness API: inputs come from a file, real libstdc++/libxml2/libc underneath.
#include "sym.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <map>
#include <dlfcn.h>
#include <unistd.h>
static uint64_t* g_in; static size_t g_nin, g_pos; static long g_live; static size_t g_limit=1<<20;
static char g_params[4096];
extern "C" {
ssize_t (*sym_write_hook)(int,const void*,size_t); size_t (*sym_fwrite_hook)(const void*,size_t,size_t,FILE*);
char* (*sym_getenv_hook)(const char*); void* (*sym_dlopen_hook)(const char*); void* (*sym_dlsym_hook)(void*,const char*); int (*sym_fs_kind)(const char*); const char* (*sym_fs_entry)(const char*,unsigned);
char* __real_getenv(const char*); char* __wrap_getenv(const char*n){ return sym_getenv_hook?sym_getenv_hook(n):__real_getenv(n); } void* __real_dlopen(const char*,int); void* __wrap_dlopen(const char*f,int m){ return sym_dlopen_hook?sym_dlopen_hook(f):__real_dlopen(f,m); } void* __real_dlsym(void*,const char*); void* __wrap_dlsym(void*h,const char*n){ return sym_dlsym_hook?sym_dlsym_hook(h,n):__real_dlsym(h,n); } char* __real_dlerror(); char* __wrap_dlerror(){ return sym_dlopen_hook?(char*)"error":__real_dlerror(); } int __real_dlclose(void*); int __wrap_dlclose(void*h){ return sym_dlopen_hook?0:__real_dlclose(h); }
ssize_t __real_write(int,const void*,size_t); size_t __real_fwrite(const void*,size_t,size_t,FILE*);
void __wrap_exit(int){ __sym_check(0,"the process is not ended"); _exit(1); }
ssize_t __wrap_write(int fd,const void*p,size_t n){ if(sym_write_hook) return sym_write_hook(fd,p,n); return __real_write(fd,p,n); }
size_t __wrap_fwrite(const void*p,size_t s,size_t n,FILE*f){ if(sym_fwrite_hook) return sym_fwrite_hook(p,s,n,f); return __real_fwrite(p,s,n,f); }
void* __real_malloc(size_t); void* __wrap_malloc(size_t n){ if(n>g_limit) return 0; return __real_malloc(n); }
uint64_t __sym_int(const char*name,unsigned bits){ uint64_t v= g_pos<g_nin?g_in[g_pos]:0; g_pos++; if(bits<64) v&=((1ull<<bits)-1); return v; }
void __sym_assume(uint64_t c){ if(!c){ printf("ASSUME-FAILED\n"); fflush(stdout); _exit(78); } }
void __sym_check(uint64_t c,const char*m){ if(!c){ printf("CHECK-FAILED %s\n",m); fflush(stdout); if(!getenv("SYM_CONTINUE")) _exit(77); } }
void __sym_observe(uint64_t v){ printf("OBS %llu\n",(unsigned long long)v); }
void __sym_cover(const char*l){ printf("COVER %s\n",l); }
uint64_t __sym_live(void){ return (uint64_t)g_live; }
uint64_t __sym_concretize(uint64_t v){ return v; }
uint64_t __sym_param(const char*n,uint64_t d){ const char*p=g_params; size_t k=strlen(n); while(*p){ if(!strncmp(p,n,k)&&p[k]=='=') return strtoull(p+k+1,0,0); p=strchr(p,','); if(!p) break; p++; } return d; }
uint64_t __sym_ite(uint64_t c,uint64_t a,uint64_t b){ return c?a:b; }
void __sym_fuel(uint64_t){}
void __sym_stop(void){ fflush(stdout); printf("STOP\n"); fflush(stdout); _exit(0); }
void __sym_print(const char*s,uint64_t v){ printf("PRINT %s %llu\n",s,(unsigned long long)v); }
}
void* operator new(size_t n){ if(n>g_limit) throw std::bad_alloc(); void*p=__real_malloc(n?n:1); g_live++; memset(p,0xA5,n); return p; }
void* operator new[](size_t n){ return operator new(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { if(n>g_limit) return 0; void*p=__real_malloc(n?n:1); g_live++; memset(p,0xA5,n); return p; }
void operator delete(void*p) noexcept { if(p){ g_live--; free(p);} }
void operator delete[](void*p) noexcept { operator delete(p); }
void operator delete(void*p,size_t) noexcept { operator delete(p); }
void operator delete[](void*p,size_t) noexcept { operator delete(p); }
int main(int argc,char**argv){ // entry inputfile [params] [alloclimit]
  if(argc<3) return 2; FILE*f=fopen(argv[2],"r"); if(!f) return 2; static uint64_t buf[4096]; unsigned long long v; while(g_nin<4096&&fscanf(f,"%llu",&v)==1) buf[g_nin++]=v; fclose(f); g_in=buf; if(argc>3) strncpy(g_params,argv[3],sizeof g_params-1); if(argc>4) g_limit=strtoull(argv[4],0,0);
  void(*fn)()=(void(*)())dlsym(RTLD_DEFAULT,argv[1]); if(!fn){ fprintf(stderr,"no entry %s\n",argv[1]); return 2; }
  setvbuf(stdout,0,_IOFBF,1<<16); g_live=0; fn(); printf("DONE %zu %zu\n",g_pos,g_nin); fflush(stdout); _exit(0); }
