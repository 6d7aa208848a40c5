#include "prelude.h"
#include <assert.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <unistd.h>
#include <stdbool.h>
/* closing is recorded, not done */
int g_closed[8], g_nclosed;
static int rec_close(int fd){ if(g_nclosed<8) g_closed[g_nclosed]=fd; g_nclosed++; errno=EBADF; return -1; }
#define close(fd) rec_close(fd)
#define BUILD_ENABLE_DEBUG 1
#define LLOG_SUBSYSTEM "subsys"
#include "shl-macro.h"
#include "shl-llog.h"
int g_mult(int k,uint64_t*v,uint64_t f){ switch(k){
  case 0: { unsigned long long x=*v; int r=shl_mult_ull(&x,f); *v=x; return r; }
  case 1: { unsigned long x=*v; int r=shl_mult_ul(&x,f); *v=x; return r; }
  case 2: { unsigned x=*v; int r=shl_mult_u(&x,f); *v=x; return r; }
  case 3: { uint64_t x=*v; int r=shl_mult_u64(&x,f); *v=x; return r; }
  case 4: { uint32_t x=*v; int r=shl_mult_u32(&x,f); *v=x; return r; }
  case 5: { uint16_t x=*v; int r=shl_mult_u16(&x,f); *v=x; return r; }
  default:{ uint8_t x=*v; int r=shl_mult_u8(&x,f); *v=x; return r; } } }
/* k: minimum, maximum, clamp; every argument counts its evaluations */
#define PICK(T) { T x=a,y=b,z=c; switch(k){ case 0: return (int64_t)shl_min((n[0]++,x),(n[1]++,y)); case 1: return (int64_t)shl_max((n[0]++,x),(n[1]++,y)); case 2: return (int64_t)shl_clamp((n[0]++,x),(n[1]++,y),(n[2]++,z)); case 3: return (int64_t)shl_min_t(T,(n[0]++,a),(n[1]++,b)); default: return (int64_t)shl_max_t(T,(n[0]++,a),(n[1]++,b)); } }
int64_t g_pick(int k,int type,int64_t a,int64_t b,int64_t c,int*n){ switch(type){ case 0: PICK(int) case 1: PICK(unsigned) case 2: PICK(long) case 3: PICK(unsigned long) case 4: PICK(uint8_t) default: PICK(int16_t) } }
size_t g_align(size_t u){ return SHL_ALIGN_POWER2(u); }
#define RT(N,T) { T v=(T)x; void*p=SHL_##N##_TO_PTR(v); return SHL_PTR_TO_##N(p)==v; }
bool g_ptr(int k,uint64_t x){ switch(k){ case 0: RT(INT,int) case 1: RT(UINT,unsigned) case 2: RT(LONG,long) case 3: RT(ULONG,unsigned long) case 4: RT(S32,int32_t) case 5: RT(U32,uint32_t) case 6: RT(S64,int64_t) default: RT(U64,uint64_t) } }
struct one { char a; int b[7]; short c; }; struct two { long x; struct one in[3]; char y; struct one last; };
bool g_container(unsigned i,unsigned j){ struct two t; i%=3; j%=7; char*py=&t.y; short*pc=&t.in[i].c; struct one*pl=&t.last; int(*pb)[7]=&t.last.b; long*px=&t.x;
  return shl_container_of(py,struct two,y)==&t && shl_container_of(pc,struct one,c)==&t.in[i] && shl_container_of(pl,struct two,last)==&t && shl_container_of(pb,struct one,b)==&t.last && shl_container_of(px,struct two,x)==&t && shl_container_of(&t.in[i].b[j],struct one,b[j])==&t.in[i] && SHL_ARRAY_LENGTH(t.in)==3 && SHL_ARRAY_LENGTH(t.in[i].b)==7; }
/* leaves the scope early or at its end; returns what errno is afterwards */
int g_scope(int fd1,int fd2,size_t n,int before,int inside,int early){ errno=before; { SHL_PROTECT_ERRNO; _shl_close_ int a=fd1; _shl_free_ void*p=n?malloc(n):NULL; _shl_close_ int b=fd2; _shl_free_ char*q=n>3?strdup("text"):NULL; errno=inside; if(early==1) goto out; if(early==2) return 0; for(int i=0;i<2;i++){ _shl_close_ int d=-1; if(early==3) break; } } out: return errno; }
void g_zero(void*p,size_t n,uint32_t*v){ shl_memzero(p,n); shl_zero(*v); }
struct g_obj { llog_submit_t llog; void*llog_data; };
/* every helper with its line; r is what it returns (0 for the void ones) */
int g_log(int k,struct g_obj*o,int e,int*line,const char*text,int arg){ int r=0; 
#define L(x) *line=__LINE__; x; break;
  switch(k){
  case 0: L(r=llog_EINVAL(o))
  case 1: L(r=llog_dEINVAL(o->llog,o->llog_data))
  case 2: L(llog_vEINVAL(o))
  case 3: L(llog_vdEINVAL(o->llog,o->llog_data))
  case 4: L(r=llog_EFAULT(o))
  case 5: L(r=llog_dEFAULT(o->llog,o->llog_data))
  case 6: L(llog_vEFAULT(o))
  case 7: L(llog_vdEFAULT(o->llog,o->llog_data))
  case 8: L(r=llog_ENOMEM(o))
  case 9: L(r=llog_dENOMEM(o->llog,o->llog_data))
  case 10: L(llog_vENOMEM(o))
  case 11: L(llog_vdENOMEM(o->llog,o->llog_data))
  case 12: L(r=llog_EPIPE(o))
  case 13: L(r=llog_dEPIPE(o->llog,o->llog_data))
  case 14: L(llog_vEPIPE(o))
  case 15: L(llog_vdEPIPE(o->llog,o->llog_data))
  case 16: errno=e; L(r=llog_ERRNO(o))
  case 17: errno=e; L(r=llog_dERRNO(o->llog,o->llog_data))
  case 18: errno=e; L(llog_vERRNO(o))
  case 19: errno=e; L(llog_vdERRNO(o->llog,o->llog_data))
  case 20: L(r=llog_ERR(o,-e))
  case 21: L(r=llog_dERR(o->llog,o->llog_data,-e))
  case 22: L(llog_vERR(o,-e))
  case 23: L(llog_vdERR(o->llog,o->llog_data,-e))
  case 24: L(llog_debug(o,"%s/%d",text,arg))
  case 25: L(llog_info(o,"%s/%d",text,arg))
  case 26: L(llog_notice(o,"%s/%d",text,arg))
  case 27: L(llog_warning(o,"%s/%d",text,arg))
  case 28: L(llog_error(o,"%s/%d",text,arg))
  case 29: L(llog_critical(o,"%s/%d",text,arg))
  case 30: L(llog_alert(o,"%s/%d",text,arg))
  case 31: L(llog_fatal(o,"%s/%d",text,arg))
  case 32: L(llog_ddebug(o->llog,o->llog_data,"%s/%d",text,arg))
  case 33: L(llog_dinfo(o->llog,o->llog_data,"%s/%d",text,arg))
  case 34: L(llog_dnotice(o->llog,o->llog_data,"%s/%d",text,arg))
  case 35: L(llog_dwarning(o->llog,o->llog_data,"%s/%d",text,arg))
  case 36: L(llog_derror(o->llog,o->llog_data,"%s/%d",text,arg))
  case 37: L(llog_dcritical(o->llog,o->llog_data,"%s/%d",text,arg))
  case 38: L(llog_dalert(o->llog,o->llog_data,"%s/%d",text,arg))
  case 39: L(llog_dfatal(o->llog,o->llog_data,"%s/%d",text,arg))
  } return r; }
