// Fast paths, linked into the instrumented module and inlined.  "null shadow" = concrete.
typedef unsigned long u64; typedef long double ld; typedef void* E;
#define AI static inline __attribute__((always_inline))
#define EXP __attribute__((always_inline, used))
#include "layout.h"
extern u64 sx_steps; extern u64 sx_step_limit;
extern unsigned char sx_pageflag[];
E sxs_bin(int,int,E,u64,E,u64); E sxs_icmp(int,int,E,u64,E,u64); E sxs_cast(int,int,int,E); E sxs_fbin(int,int,E,ld,E,ld); E sxs_funop(int,int,E);
E sxs_fcmp(int,int,E,ld,E,ld); E sxs_itof(int,int,int,E); E sxs_ftoi(int,int,int,E); E sxs_fconv(int,int,E); E sxs_f2b(int,E); E sxs_b2f(int,E);
E sxs_select(int,E,_Bool,E,u64,E,u64); E sxs_fselect(int,E,_Bool,E,ld,E,ld); void sxs_br(E,_Bool); void sxs_switch(E,int,u64,int,const u64*);
E sxs_overflow(int,int,int,E,u64,E,u64); E sxs_fpclass(int,E,u64);
void sxs_addr(E,void*,u64,int); void sxs_chk(void*,u64,int); E sxs_load(void*,int,int); void sxs_store(void*,int,E,int); void sxs_clear(void*,u64); void sxs_copy(void*,void*,u64); void sxs_memset(void*,E,u64);
void sxs_concretize(E,int,u64); void sxs_concretize_f(E,int,ld); void sxs_div(E,int,u64); void sxs_timeout(void); void sxs_byval(void*,E,u64);
#define L(x) __builtin_expect(!!(x),1)
EXP E sxf_bin(int op,int w,E a,u64 x,E b,u64 y){ if(L(!((u64)a|(u64)b))) return 0; return sxs_bin(op,w,a,x,b,y);} 
EXP E sxf_icmp(int p,int w,E a,u64 x,E b,u64 y){ if(L(!((u64)a|(u64)b))) return 0; return sxs_icmp(p,w,a,x,b,y);} 
EXP E sxf_cast(int op,int f,int t,E a){ if(L(!a)) return 0; return sxs_cast(op,f,t,a);} 
EXP E sxf_fbin(int op,int w,E a,ld x,E b,ld y){ if(L(!((u64)a|(u64)b))) return 0; return sxs_fbin(op,w,a,x,b,y);} 
EXP E sxf_funop(int op,int w,E a){ if(L(!a)) return 0; return sxs_funop(op,w,a);} 
EXP E sxf_fcmp(int p,int w,E a,ld x,E b,ld y){ if(L(!((u64)a|(u64)b))) return 0; return sxs_fcmp(p,w,a,x,b,y);} 
EXP E sxf_itof(int s,int f,int t,E a){ if(L(!a)) return 0; return sxs_itof(s,f,t,a);} 
EXP E sxf_ftoi(int s,int f,int t,E a){ if(L(!a)) return 0; return sxs_ftoi(s,f,t,a);} 
EXP E sxf_fconv(int f,int t,E a){ if(L(!a)) return 0; return sxs_fconv(f,t,a);} 
EXP E sxf_f2b(int w,E a){ if(L(!a)) return 0; return sxs_f2b(w,a);} 
EXP E sxf_b2f(int w,E a){ if(L(!a)) return 0; return sxs_b2f(w,a);} 
EXP E sxf_select(int w,E c,_Bool cv,E a,u64 x,E b,u64 y){ if(L(!c)) return cv?a:b; return sxs_select(w,c,cv,a,x,b,y);} 
EXP E sxf_fselect(int w,E c,_Bool cv,E a,ld x,E b,ld y){ if(L(!c)) return cv?a:b; return sxs_fselect(w,c,cv,a,x,b,y);} 
EXP E sxf_overflow(int o,int s,int w,E a,u64 x,E b,u64 y){ if(L(!((u64)a|(u64)b))) return 0; return sxs_overflow(o,s,w,a,x,b,y);} 
EXP E sxf_fpclass(int w,E a,u64 m){ if(L(!a)) return 0; return sxs_fpclass(w,a,m);} 
EXP void sxf_br(E c,_Bool v){ if(L(!c)) return; sxs_br(c,v);} 
EXP void sxf_switch(E c,int w,u64 v,int n,const u64*k){ if(L(!c)) return; sxs_switch(c,w,v,n,k);} 
EXP void sxf_addr(E e,void*p,u64 n,int wr){ if(L(!e)) return; sxs_addr(e,p,n,wr);} 
EXP void sxf_chk(void*p,u64 n,int wr){ u64 o=(u64)p-ARENA_BASE; if(o>=HEAP_SIZE) { if((u64)p<65536) sxs_chk(p,n,wr); return; }
  if(L(n && n<=16)){ unsigned char*s=((unsigned char*)0x200000000000UL)+o; if(L(s[0]==1 && s[n-1]==1)) return; } sxs_chk(p,n,wr);} 
EXP E sxf_load(void*p,int n,int k){ u64 o=(u64)p-ARENA_BASE; if(L(o<ARENA_SIZE)){ if(L(!(sx_pageflag[o>>12]|sx_pageflag[(o+n-1)>>12]))) return 0; } else if(L(!sx_pageflag[NPAGES])) return 0; return sxs_load(p,n,k);} 
EXP void sxf_store(void*p,int n,E e,int k){ u64 o=(u64)p-ARENA_BASE; if(L(!e)){ if(L(o<ARENA_SIZE)){ if(L(!(sx_pageflag[o>>12]|sx_pageflag[(o+n-1)>>12]))) return; } else if(L(!sx_pageflag[NPAGES])) return; sxs_clear(p,n); return; } sxs_store(p,n,e,k);} 
EXP void sxf_clear(void*p,u64 n){ sxs_clear(p,n);} 
EXP void sxf_alloca(void*p,u64 n){ u64 o=(u64)p-ARENA_BASE; if(L(o<ARENA_SIZE)){ u64 a=o>>12,b=(o+n)>>12; if(L(a==b?!sx_pageflag[a]:(b==a+1&&!sx_pageflag[a]&&!sx_pageflag[b]))) return; } else if(L(!sx_pageflag[NPAGES])) return; sxs_clear(p,n);} 
EXP void sxf_memcpy(void*d,void*s,u64 n){ sxs_copy(d,s,n);} 
EXP void sxf_memset(void*d,E e,u64 n){ if(!e) sxs_clear(d,n); else sxs_memset(d,e,n);} 
EXP void sxf_byval(void*d,E s,u64 n){ sxs_byval(d,s,n);} 
EXP void sxf_concretize(E e,int w,u64 v){ if(L(!e)) return; sxs_concretize(e,w,v);} 
EXP void sxf_concretize_f(E e,int w,ld v){ if(L(!e)) return; sxs_concretize_f(e,w,v);} 
EXP void sxf_div(E e,int w,u64 v){ if(L(!e)) return; sxs_div(e,w,v);} 
EXP void sxf_step(void){ if(__builtin_expect(++sx_steps>sx_step_limit,0)) sxs_timeout(); }
