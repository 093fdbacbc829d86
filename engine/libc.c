// Instrumented replacements of libc functions that inspect memory.
typedef unsigned long u64; typedef unsigned char u8; typedef unsigned long size_t;
extern int* __errno_location(void);
#define ERANGE 34
int sxl_memcmp(const void*a,const void*b,size_t n){ const u8*x=a,*y=b; for(size_t i=0;i<n;++i){ if(x[i]!=y[i]) return x[i]<y[i]?-1:1; } return 0; }
size_t sxl_strlen(const char*s){ size_t n=0; while(s[n]) ++n; return n; }
void* sxl_memchr(const void*s,int c,size_t n){ const u8*x=s; for(size_t i=0;i<n;++i) if(x[i]==(u8)c) return (void*)(x+i); return 0; }
char* sxl_strchr(const char*s,int c){ for(;;++s){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
int sxl_strcmp(const char*a,const char*b){ for(;;++a,++b){ u8 x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int sxl_strncmp(const char*a,const char*b,size_t n){ for(;n;++a,++b,--n){ u8 x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
int sxl_isspace(int c){ return ((unsigned)(c-9)<5u) | (c==' '); }
int sxl_isblank(int c){ return (c=='\t') | (c==' '); }
int sxl_isdigit(int c){ return (unsigned)(c-'0')<10u; }
int sxl_isalpha(int c){ return (unsigned)((c|32)-'a')<26u; }
int sxl_isalnum(int c){ return sxl_isalpha(c)|sxl_isdigit(c); }
int sxl_isprint(int c){ return (unsigned)(c-32)<95u; }
int sxl_toupper(int c){ return (unsigned)(c-'a')<26u ? c-32 : c; }
int sxl_tolower(int c){ return (unsigned)(c-'A')<26u ? c+32 : c; }
// any base but ten, after blanks and sign
static unsigned dgt(u8 c){ if((unsigned)(c-'0')<10u) return (c-'0')&15; u8 l=c|32; if((unsigned)(l-'a')<26u) return l-'a'+10; return 99; }
static const char* numb(const char*s,int base,int*neg,u64*val,int*ovf,int*any){
  int pre = (base==0||base==16) && s[0]=='0' && (s[1]|32)=='x' && dgt((u8)s[2])<16;
  if(base==0) base = pre ? 16 : s[0]=='0' ? 8 : 10;
  if(pre) s+=2;
  u64 v=0; int o=0,a=0;
  for(;;++s){ unsigned d=dgt((u8)*s); if(d>=(unsigned)base) break; ++a; u64 hi; if(o|__builtin_mul_overflow(v,(u64)base,&hi)) o=1; else { u64 r; if(__builtin_add_overflow(hi,(u64)d,&r)) o=1; v=r; } }
  *val=v;*ovf=o;*any=a; return s; }
static const char* num(const char*s,int base,int*neg,u64*val,int*ovf,int*any){
  while(sxl_isspace((u8)*s)) ++s;
  *neg=0; if(*s=='-'){*neg=1;++s;} else if(*s=='+') ++s;
  if(base!=10) return numb(s,base,neg,val,ovf,any);
  u64 v=0; int o=0,a=0;
  for(;;++s){ unsigned d=(unsigned)(u8)*s-'0'; if(d>=(unsigned)base) break; d&=15; u64 hi; if(a<18){ ++a; v=v*10+d; continue; } ++a; if(o|__builtin_mul_overflow(v,(u64)base,&hi)) o=1; else { u64 r; if(__builtin_add_overflow(hi,(u64)d,&r)) o=1; v=r; } }
  *val=v;*ovf=o;*any=a; return s; }
long long sxl_strtoll(const char*s,char**end,int base){ int neg,ovf,any; u64 v; const char*e=num(s,base,&neg,&v,&ovf,&any);
  if(!any){ if(end)*end=(char*)s; return 0; } if(end)*end=(char*)e;
  u64 lim=neg?(1UL<<63):(1UL<<63)-1; if(ovf||v>lim){ *__errno_location()=ERANGE; return neg?(-0x7fffffffffffffffLL-1):0x7fffffffffffffffLL; }
  return neg?(long long)(0-v):(long long)v; }
unsigned long long sxl_strtoull(const char*s,char**end,int base){ int neg,ovf,any; u64 v; const char*e=num(s,base,&neg,&v,&ovf,&any);
  if(!any){ if(end)*end=(char*)s; return 0; } if(end)*end=(char*)e;
  if(ovf){ *__errno_location()=ERANGE; return ~0UL; } return neg?0-v:v; }
// decimal floating point: exact for <=19 digits and |exp10|<=27 (one correctly rounded division/multiplication)
static const long double P10[28]={1e0L,1e1L,1e2L,1e3L,1e4L,1e5L,1e6L,1e7L,1e8L,1e9L,1e10L,1e11L,1e12L,1e13L,1e14L,1e15L,1e16L,1e17L,1e18L,1e19L,1e20L,1e21L,1e22L,1e23L,1e24L,1e25L,1e26L,1e27L};
extern long double sx_real_strtold(const char*s,char**end); extern void sx_pin_bytes(const char*s);
static int lc(int c){ return sxl_tolower(c); }
long double sxl_strtold(const char*s0,char**end){ const char*s=s0; while(sxl_isspace((u8)*s)) ++s; int neg=0; if(*s=='-'){neg=1;++s;} else if(*s=='+') ++s;
  if(lc((u8)*s)=='i'||lc((u8)*s)=='n'|| (*s=='0'&&lc((u8)s[1])=='x')) { sx_pin_bytes(s0); return sx_real_strtold(s0,end); }
  u64 v=0; int nd=0,frac=0,any=0,dot=0; const char*e=s;
  for(;;++s){ unsigned d=(unsigned)(u8)*s-'0'; if(d<10u){ d&=15; any=1; e=s+1; if(nd>=18){ sx_pin_bytes(s0); return sx_real_strtold(s0,end);} ++nd; v=v*10+d; if(dot) ++frac; }
    else if(*s=='.'&&!dot){ dot=1; if(any) e=s+1; } else break; }
  if(!any){ if(end)*end=(char*)s0; return 0; }
  int ex=0;
  if(lc((u8)*e)=='e'&&(e==s)){ const char*q=e+1; int en=0; if(*q=='-'){en=1;++q;} else if(*q=='+')++q; if((unsigned)(u8)*q-'0'<10u){ int x=0; for(;;++q){ unsigned d=(unsigned)(u8)*q-'0'; if(d>=10u) break; if(x>100000) { sx_pin_bytes(s0); return sx_real_strtold(s0,end);} x=x*10+(int)d; } e=q; ex=en?-x:x; } }
  if(end)*end=(char*)e;
  ex-=frac; long double r=(long double)v;
  if(v==0) { return neg?-0.0L:0.0L; }
  if(ex>27||ex<-27){ sx_pin_bytes(s0); return sx_real_strtold(s0,end); }
  if(ex>0) r=r*P10[ex]; else if(ex<0) r=r/P10[-ex];
  return neg?-r:r; }
double sxl_strtod(const char*s,char**end){ sx_pin_bytes(s); return (double)sx_real_strtold(s,end); }
float sxl_strtof(const char*s,char**end){ sx_pin_bytes(s); return (float)sx_real_strtold(s,end); }
