// vsim - deterministic simulator for vegapp (Alneos/vega).
//
// One binary holds the whole of vega (compiled from /repo's working tree) and a
// simulated operating system underneath it.  Every libc entry point vega, libstdc++,
// boost::filesystem, libmed and HDF5 use to reach files, directories, clocks,
// randomness, processes and memory is interposed by symbol (executable linked with
// -rdynamic, so the definitions here win) and is answered from a shared "arena":
// an in-memory file system, a process table, a clock, an ordered fault list and an
// event log.  Simulated processes are copy-on-write forks of the server, so a crash
// loses exactly the private memory and keeps exactly the simulated disk.  Exactly one
// simulated process runs at a time; at every seam call a seeded scheduler decides who
// goes on.  Nothing the simulated program can observe depends on the host.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <ctype.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/eventfd.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <linux/futex.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <unwind.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ucontext.h>
#include <pwd.h>
#include <new>
#include <unwind.h>
#include <exception>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t);
void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t);
}
int vega_main(int ac, const char* av[]);              // Commandline/vegamain.cpp, -Dmain=vega_main
int vsim_process(int ac, const char* av[], int shared);           // seqglue.cpp: one VegaCommandLine::process call

#define NOINSTR __attribute__((no_sanitize_coverage))

// ---------------------------------------------------------------- limits / layout
static const u64 ARENA_BASE = 0x100000000000ull, ARENA_SIZE = 1ull<<31;
static const u64 HEAP_BASE  = 0x200000000000ull, HEAP_SIZE  = 1ull<<36;
static const u64 STACK_BASE = 0x300000000000ull, STACK_SIZE = 8u<<20;
enum { MAXINODE=16384, MAXOFD=512, MAXPROC=16, MAXFD=256, MAXFAULT=256, MAXSYS=16, MAXSEQ=32, NAMELEN=256, MAXSTICKY=32 };

enum Op { OP_NONE, OP_OPENR, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_TRUNC, OP_FSYNC, OP_STAT, OP_MKDIR,
  OP_UNLINK, OP_RENAME, OP_OPENDIR, OP_READDIR, OP_FORK, OP_WAIT, OP_SYSTEM, OP_CLOCK, OP_LOCK, OP_RAND, OP_CHMOD, OP_CHDIR, OP_SLEEP, OP_FSTAT, OP_EXEC, OP_ACCESS, OP_MAX };
static const char* OPN[] = { "none","openr","openw","read","write","close","seek","trunc","fsync","stat","mkdir","unlink","rename",
  "opendir","readdir","fork","wait","system","clock","lock","rand","chmod","chdir","sleep","fstat","exec","access" };

enum FK { F_ERR=1, F_SHORT=2, F_KILL=3, F_TORN=4, F_SEGV=5, F_STICKY=6, F_CLOCK=7, F_LOSTCLOSE=8, F_KILLAFTER=9, F_ABORT=10, F_PARTERR=11,
  F_OOM=12, F_OOMSTICKY=13, F_RESPACE=14, F_STICKYALL=15, F_STOPREAD=16, F_CUT=17 };

struct Inode { int used, type /*1 file 2 dir 3 chardev*/, mode, parent, first, next, nopen, linked; i64 size, cap; u64 data; i64 mtime; char name[NAMELEN]; };
struct Ofd { int used, refs, ino, flags, isdir, cookie; i64 off; };
enum PS { PS_FREE, PS_RUN, PS_WAIT, PS_DEAD, PS_REAPED };
struct Proc { int state; pid_t pid; int parent, root, status, waitfor, notified; int fds[MAXFD]; char cwd[512]; int group; int sigign; };
struct Fault { int used, ctr /*0 op,1 new,2 malloc*/, kind; u64 at; i64 arg; int fired, proc; u64 firedop; char what[96]; };
struct Sticky { int used, op, ino, err; i64 off; int once; };  // off>=0: transfers end at that offset, those that start there fail
struct SysAct { int used, ret, keep; u64 blob; u64 bloblen; i64 advance; };
struct Knobs { int heapmode, fillmode, scribble, dirmode, sched, trace, seqmode, chunk, consolemode, inproc; u64 heapseed, fillseed, stackseed, dirseed, schedseed, chunkseed, randseed;
  i64 clock0, tick; i64 diskcap; u64 steplimit, oplimit, heaplimit; int emfile; int tearseed; int sigchld; };

struct ASite { u64 key; int ctr; u64 cnt, first, last, pick; };   // where allocations come from (traced runs only)
enum { NASITE=1<<14 };
struct Arena {
  // persistent (file system): survives RUNs
  u64 brk;           // bump pointer for data, relative to base
  i64 used;          // bytes of file data
  int ninode, root;
  Inode in[MAXINODE];
  // per run
  Knobs k;
  Ofd ofd[MAXOFD];
  Proc pr[MAXPROC];
  int nproc;
  volatile int turn; volatile int nlive;
  Fault fault[MAXFAULT]; int nfault;
  Sticky st[MAXSTICKY]; int nst;
  SysAct sys[MAXSYS]; int nsys, cursys;
  int seqn, seqrc[MAXSEQ], seqfds[MAXSEQ]; u64 seqops[MAXSEQ];
  u64 ops, opc[OP_MAX], news, mallocs, steps[MAXPROC], clock_ns, hash, heappeak;
  u64 rsched, rdir, rchunk, rrand;
  int budget, unsupported, deadlock; char unsup[128];
  u64 escapes; char escape[256];
  u64 schedpts, preempts;
  u64 tracelen; 
  volatile int pausereq;
  int nasite; u64 rasite; ASite asite[NASITE];
  int shlen; char shlog[1<<16];
  u8 cov[1<<18];
};
static const u64 TRACE_OFF = 1ull<<28, TRACE_MAX = 1ull<<27;   // text trace region
static const u64 DATA_OFF = (1ull<<28)+(1ull<<27);
static Arena* A = (Arena*)ARENA_BASE;
static inline char* AP(u64 off){ return (char*)(ARENA_BASE+off); }

static int g_sim = 0;         // 1 while simulated code runs in this process
static int g_me = -1;         // my slot
static int g_depth = 0;       // >0: inside the simulator
static int g_evfd = -1;
static u64 g_heaprng, g_fillrng, g_scrrng;
extern "C" long vsim_rawsyscall(long n,long a,long b,long c,long d,long e,long f);
static inline long RS(long n,long a=0,long b=0,long c=0,long d=0,long e=0,long f=0){ long r=vsim_rawsyscall(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=(int)-r; return -1; } return r; }

struct Guard { Guard(){++g_depth;} ~Guard(){--g_depth;} };
static inline bool sim(){ return g_sim && !g_depth; }

static inline u64 rng(u64& s){ s += 0x9E3779B97F4A7C15ull; u64 z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static inline void hmix(u64 v){ u64 h=A->hash; for(int i=0;i<8;i++){ h^=(v&255); h*=1099511628211ull; v>>=8; } A->hash=h; }
static u64 hbytes(const void* p,size_t n,u64 h=1469598103934665603ull){ const u8* b=(const u8*)p; size_t i=0; 
  for(;i+8<=n;i+=8){ u64 v; memcpy(&v,b+i,8); h^=v; h*=0x9E3779B97F4A7C15ull; h^=h>>29; }
  for(;i<n;i++){ h^=b[i]; h*=1099511628211ull; } return h; }

static void die_hard(int kind){ A->budget=kind; for(;;) RS(SYS_kill,RS(SYS_getpid),SIGKILL); }
static void unsupported(const char* what){ if(!A->unsupported){ A->unsupported=1; strncpy(A->unsup,what,sizeof A->unsup-1);} for(;;) RS(SYS_kill,RS(SYS_getpid),SIGKILL); }

// ---------------------------------------------------------------- step counter (gcc -fsanitize-coverage=trace-pc)
static u64 g_steps=0;
extern "C" NOINSTR void __sanitizer_cov_trace_pc(void){
  if(!g_sim) return;
  u64 pc=(u64)__builtin_return_address(0);
  A->cov[((pc>>2)^(pc>>20)*0x9E37)&0x3ffff]=1;
  if(__builtin_expect((++g_steps & 0xfff)==0,0)){ A->steps[g_me]=g_steps; if(g_steps>A->k.steplimit) die_hard(1); }
}

// ---------------------------------------------------------------- real functions
template<class T> static T real(const char* n){ return (T)dlsym(RTLD_NEXT,n); }
#define REAL(ret,name,args) typedef ret (*fn_##name) args; static fn_##name r_##name(){ static fn_##name p=0; if(!p) p=real<fn_##name>(#name); return p; }

// ---------------------------------------------------------------- scheduler
static void futex_wait(volatile int* a,int v){ RS(SYS_futex,(long)a,FUTEX_WAIT,v); }
static void futex_wake(volatile int* a){ RS(SYS_futex,(long)a,FUTEX_WAKE,1000); }
static int runnable(int i){ Proc&p=A->pr[i]; if(p.state==PS_RUN) return 1; if(p.state==PS_WAIT){ // a waiter is runnable once a child it waits for is dead
    for(int j=0;j<MAXPROC;j++) if(A->pr[j].parent==i && A->pr[j].state==PS_DEAD && (p.waitfor<=0 || A->pr[j].pid==p.waitfor)) return 1;
    int kids=0; for(int j=0;j<MAXPROC;j++) if(A->pr[j].parent==i && (A->pr[j].state==PS_RUN||A->pr[j].state==PS_WAIT||A->pr[j].state==PS_DEAD)) kids++;
    return kids==0; }
  return 0; }
// choose next holder of the turn; cur<0: caller is not a candidate
static int pick(int cur){ int c[MAXPROC],n=0; for(int i=0;i<MAXPROC;i++) if(runnable(i)) c[n++]=i; if(!n) return -1; if(n==1) return c[0];
  A->schedpts++;
  if(cur>=0 && runnable(cur)){ // switch with a seed-dependent probability so runs mix long and short slices
    u64 r=rng(A->rsched); if(A->k.sched<=0) return cur; if((int)(r%1000)>=A->k.sched) return cur; int k=c[rng(A->rsched)%n]; if(k!=cur) A->preempts++; return k; }
  if(A->k.sched<=0) return c[0];
  return c[rng(A->rsched)%n]; }
static void wait_turn(){ while(A->turn!=g_me){ int t=A->turn; if(t==g_me) break; futex_wait(&A->turn,t);} }
static void give(int i){ A->turn=i; futex_wake(&A->turn); }
static void yield_pt(){ if(A->nlive<2) return; int n=pick(g_me); if(n!=g_me){ give(n); wait_turn(); } }

// ---------------------------------------------------------------- event log
extern "C" char __executable_start, etext;
// the place in the program an operation comes from: the innermost return addresses into the program
struct SiteCtx { u64 h; int found, frames; };
static _Unwind_Reason_Code site_cb(struct _Unwind_Context* c,void* p){ SiteCtx* s=(SiteCtx*)p; u64 v=_Unwind_GetIP(c), lo=(u64)&__executable_start, hi=(u64)&etext;
  if(v>=lo && v<hi){ s->h=(s->h^(v-lo))*0x9E3779B97F4A7C15ull; s->h^=s->h>>29; if(++s->found>=12) return _URC_END_OF_STACK; }
  return ++s->frames>=60?_URC_END_OF_STACK:_URC_NO_REASON; }
static u64 site(int seed){ SiteCtx s={(u64)seed,0,0}; _Unwind_Backtrace(site_cb,&s); return s.h?s.h:1; }
static void tput(const char* s,size_t n){ if(!A->k.trace) return; if(A->tracelen+n>=TRACE_MAX) return; memcpy(AP(TRACE_OFF)+A->tracelen,s,n); A->tracelen+=n; }
static void tlog(u64 idx,int op,const char* path,i64 a,i64 b,i64 res,int err,int fk){
  hmix(((u64)op<<32)^(u64)(g_me&255)); hmix(hbytes(path,strlen(path))); hmix((u64)a); hmix((u64)b); hmix((u64)res*31+(u64)err);
  if(!A->k.trace) return; char buf[900]; int n=snprintf(buf,sizeof buf,"%llu %d %s %lld %lld %lld %d %d %llx %s\n",(unsigned long long)idx,g_me,OPN[op],(long long)a,(long long)b,(long long)res,err,fk,(unsigned long long)site(0),path[0]?path:"-"); if(n>(int)sizeof buf) n=sizeof buf; tput(buf,n); }

// ---------------------------------------------------------------- simulated file system
static void ipath(int ino,char* out,size_t cap){ // full path of an inode
  if(ino<0){ snprintf(out,cap,"?"); return; }
  int chain[64],n=0; int i=ino; while(i!=A->root && n<64 && i>=0){ chain[n++]=i; i=A->in[i].parent; }
  size_t l=0; if(n==0){ snprintf(out,cap,"/"); return; }
  out[0]=0; for(int j=n-1;j>=0;j--){ int w=snprintf(out+l,cap-l,"/%s",A->in[chain[j]].name); if(w<0||(size_t)w>=cap-l) return; l+=w; } }
static int new_inode(int type,int mode){ for(int i=0;i<A->ninode;i++) if(!A->in[i].used){ memset(&A->in[i],0,sizeof(Inode)); A->in[i].used=1; A->in[i].type=type; A->in[i].mode=mode; A->in[i].first=A->in[i].next=A->in[i].parent=-1; A->in[i].mtime=(i64)A->clock_ns; return i; }
  if(A->ninode>=MAXINODE) return -1; int i=A->ninode++; memset(&A->in[i],0,sizeof(Inode)); A->in[i].used=1; A->in[i].type=type; A->in[i].mode=mode; A->in[i].first=A->in[i].next=A->in[i].parent=-1; A->in[i].mtime=(i64)A->clock_ns; return i; }
static int lookup(int dir,const char* name){ for(int i=A->in[dir].first;i>=0;i=A->in[i].next) if(!strcmp(A->in[i].name,name)) return i; return -1; }
static void add_child(int dir,int ino,const char* name){ Inode&n=A->in[ino]; strncpy(n.name,name,NAMELEN-1); n.name[NAMELEN-1]=0; n.parent=dir; n.linked=1; n.next=-1; // append
  int* p=&A->in[dir].first; while(*p>=0) p=&A->in[*p].next; *p=ino; }
static void del_child(int ino){ int dir=A->in[ino].parent; if(dir<0) return; int* p=&A->in[dir].first; while(*p>=0 && *p!=ino) p=&A->in[*p].next; if(*p==ino) *p=A->in[ino].next; A->in[ino].next=-1; A->in[ino].linked=0; }
static void free_data(Inode&n){ A->used-=n.size; n.size=0; n.cap=0; n.data=0; }
static void maybe_free(int ino){ Inode&n=A->in[ino]; if(!n.linked && n.nopen==0 && ino!=A->root){ free_data(n); n.used=0; } }
static int grow(Inode&n,i64 want){ if(want<=n.cap) return 0; i64 c=n.cap?n.cap:4096; while(c<want) c*=2; u64 p=(A->brk+15)&~15ull; if(p+(u64)c>ARENA_SIZE) { unsupported("arena full"); } A->brk=p+(u64)c; if(n.size) memcpy(AP(p),AP(n.data),n.size); n.data=p; n.cap=c; return 0; }
static int set_size(Inode&n,i64 sz){ if(sz<0) return EINVAL; if(sz>n.size){ if(sz>(i64)512<<20) return EFBIG; grow(n,sz); memset(AP(n.data)+n.size,0,sz-n.size);} A->used+=sz-n.size; n.size=sz; return 0; }

// Resolve path relative to base directory.  Returns 0 and *dir,*ino(-1 if last component is absent),last name; else errno.
static int walk(int base,const char* path,int* dir,int* ino,char* last){
  if(!path) return EFAULT; if(!*path) return ENOENT; if(strlen(path)>=4096) return ENAMETOOLONG;
  int cur = path[0]=='/' ? A->root : base; if(cur<0) return ENOENT; int par=cur; const char* s=path; last[0]=0; *dir=par; *ino=cur; bool trailing=false;
  while(*s){ while(*s=='/') s++; if(!*s){ break; } const char* e=s; while(*e&&*e!='/') e++; size_t n=e-s; if(n>=NAMELEN) return ENAMETOOLONG;
    if(cur<0) return ENOENT; if(A->in[cur].type!=2) return ENOTDIR; if(!(A->in[cur].mode&0100)) return EACCES;
    char nm[NAMELEN]; memcpy(nm,s,n); nm[n]=0; s=e; trailing = *e=='/';
    if(!strcmp(nm,".")){ par=cur; *dir=cur; strcpy(last,"."); continue; }
    if(!strcmp(nm,"..")){ cur=cur==A->root?cur:A->in[cur].parent; *dir=cur; strcpy(last,".."); continue; }
    par=cur; *dir=par; strcpy(last,nm); cur=lookup(par,nm); *ino=cur; if(cur<0){ const char* q=s; while(*q=='/') q++; if(*q) return ENOENT; if(trailing){} }
  }
  *ino=cur; if(trailing && cur>=0 && A->in[cur].type!=2) return ENOTDIR; return 0; }
static int cwd_ino(int slot){ int d,i; char l[NAMELEN]; if(walk(A->root,A->pr[slot].cwd,&d,&i,l)) return -1; return i; }
static int ofd_of(int fd){ if(g_me<0||fd<0||fd>=MAXFD) return -1; return A->pr[g_me].fds[fd]; }
static int base_of(int dirfd){ if(dirfd==AT_FDCWD) return cwd_ino(g_me); int o=ofd_of(dirfd); if(o<0) return -2; if(!A->ofd[o].isdir) return -3; return A->ofd[o].ino; }
static bool eqpath(const char* p,const char* q){ return !strcmp(p,q); }

// ---------------------------------------------------------------- faults
struct Seam { u64 idx; int err; int kind; i64 arg; Fault* f; };
static void scribble(int n);
static void fire(Fault&f,int op,const char* path){ f.fired++; f.proc=g_me; f.firedop=A->ops; snprintf(f.what,sizeof f.what,"%s %.70s",OPN[op],path); }
static void crash_now(int sig){ // die right here, keeping the simulated disk as it is
  signal(sig,SIG_DFL); sigset_t s; sigemptyset(&s); sigaddset(&s,sig); sigprocmask(SIG_UNBLOCK,&s,0);
  A->steps[g_me]=g_steps; for(;;) RS(SYS_tgkill,RS(SYS_getpid),RS(SYS_gettid),sig); }
static void deliver(int sig){ // a signal that the process may handle or ignore
  A->steps[g_me]=g_steps; int d=g_depth; g_depth=0; RS(SYS_tgkill,RS(SYS_getpid),RS(SYS_gettid),sig); g_depth=d; }
static Seam enter(int op,const char* path,int ino){
  yield_pt();
  Seam s; s.idx=A->ops++; s.err=0; s.kind=0; s.arg=0; s.f=0; A->opc[op]++; A->clock_ns += A->k.tick;
  if(A->ops>A->k.oplimit) die_hard(2);
  if(A->k.scribble) scribble(4096);
  for(int i=0;i<A->nst;i++){ Sticky&t=A->st[i]; if(t.used && t.off<0 && t.op==op && (t.ino<0 || t.ino==ino)){ s.err=t.err; s.kind=F_STICKY; } }
  for(int i=0;i<A->nfault;i++){ Fault&f=A->fault[i]; if(!f.used||f.ctr!=0||f.at!=s.idx) continue; 
    char pb[700]; if(!path&&ino>=0){ ipath(ino,pb,sizeof pb); path=pb; }
    fire(f,op,path?path:"-"); s.f=&f;
    switch(f.kind){
      case F_ERR: s.err=(int)f.arg; s.kind=F_ERR; break;
      case F_STICKY: case F_STICKYALL: if(A->nst<MAXSTICKY){ Sticky&t=A->st[A->nst++]; t.used=1; t.off=-1; t.op=op; t.ino=f.kind==F_STICKYALL?-1:(ino<0?-2:ino); t.err=(int)f.arg; } s.err=(int)f.arg; s.kind=F_STICKY; break;
      case F_KILL: tlog(s.idx,op,path?path:"-",0,0,-9,0,F_KILL); if(f.arg>0&&f.arg!=SIGKILL){ deliver((int)f.arg); break; } crash_now(SIGKILL); break;
      case F_SEGV: tlog(s.idx,op,path?path:"-",0,0,-11,0,F_SEGV); crash_now(SIGSEGV); break;
      case F_ABORT: tlog(s.idx,op,path?path:"-",0,0,-6,0,F_ABORT); crash_now(SIGABRT); break;
      case F_CLOCK: A->clock_ns += f.arg*1000000000ll; break;
      case F_RESPACE: A->k.diskcap = f.arg<0?-1:A->used+f.arg; break;
      default: s.kind=f.kind; s.arg=f.arg; }
  }
  return s; }
static void after(Seam&s){ if(s.kind==F_KILLAFTER){ if(s.arg>0&&s.arg!=SIGKILL) deliver((int)s.arg); else crash_now(SIGKILL); } }

// ---------------------------------------------------------------- simulated heap
// segregated classes; free lists kept as index arrays inside the heap region itself
struct Hdr { u64 size; u32 cls; u32 magic; };  // 16 bytes before each block
enum { NCLS=160 };
static u64 g_brk=0, g_brk_hi=0; static u32 g_nfree[NCLS]; static u64* g_freelist[NCLS]; static u32 g_freecap[NCLS]; static u64 g_live=0; static int g_heap_on=0;
static u64 cls_size(int c){ if(c<64) return 16ull*(c+1); int d=c-64; return (1024ull<<(d/4)) * (5+(d%4)) / 4; } // 16..1024 step 16, then geometric
static int cls_of(u64 n){ if(n<=1024) return n==0?0:(int)((n-1)/16); for(int c=64;c<NCLS;c++) if(cls_size(c)>=n) return c; return -1; }
static inline bool in_heap(const void* p){ return (u64)p>=HEAP_BASE && (u64)p<HEAP_BASE+HEAP_SIZE; }
static u64 raw_take(u64 n){ n=(n+15)&~15ull; if(A->k.heapmode==2){ g_brk_hi+=n; return HEAP_BASE+HEAP_SIZE-4096-g_brk_hi; } u64 p=HEAP_BASE+4096+g_brk; g_brk+=n; return p; }
static void push_free(int c,u64 p){ if(g_nfree[c]==g_freecap[c]){ u32 nc=g_freecap[c]?g_freecap[c]*2:64; u64* a=(u64*)__libc_malloc(nc*sizeof(u64)); if(g_nfree[c]) memcpy(a,g_freelist[c],g_nfree[c]*sizeof(u64)); if(g_freelist[c]) __libc_free(g_freelist[c]); g_freelist[c]=a; g_freecap[c]=nc; } g_freelist[c][g_nfree[c]++]=p; }
static void fillmem(void* p,u64 n,int freed){ int m=A->k.fillmode; if(m==0) { if(freed) return; return; }
  u8* b=(u8*)p; if(m==1){ memset(b,freed?0xDD:0xCB,n); return; } if(m==2){ memset(b,0xFF,n); return; } if(m==4){ memset(b,0x01,n); return; } if(m==5){ memset(b,0,n); return; }
  u64 i=0; for(;i+8<=n;i+=8){ u64 v=rng(g_fillrng); memcpy(b+i,&v,8);} for(;i<n;i++) b[i]=(u8)rng(g_fillrng); }
static void* heap_alloc(u64 n){
  if(n>(8ull<<30)) return 0; int c=cls_of(n); if(c<0) return 0; u64 sz=cls_size(c); if(g_live+sz>A->k.heaplimit){ A->budget=A->budget?A->budget:0; return 0; }
  u64 p=0;
  if(g_nfree[c]){ u32 n2=g_nfree[c]; switch(A->k.heapmode){ case 1:{ u32 k=rng(g_heaprng)%n2; p=g_freelist[c][k]; g_freelist[c][k]=g_freelist[c][n2-1]; g_nfree[c]--; break; } case 3: break; default: p=g_freelist[c][--g_nfree[c]]; } }
  if(!p){ u64 step=sz+sizeof(Hdr); if(A->k.heapmode==1 && sz<=4096){ // carve a batch, hand slots out in random order
      int batch=24; u64 base=raw_take(step*batch+16*(1+rng(g_heaprng)%64)); for(int i=0;i<batch;i++){ u64 q=base+i*step+sizeof(Hdr); Hdr* h=(Hdr*)(q-sizeof(Hdr)); h->magic=0; push_free(c,q);} u32 k=rng(g_heaprng)%g_nfree[c]; p=g_freelist[c][k]; g_freelist[c][k]=g_freelist[c][g_nfree[c]-1]; g_nfree[c]--; }
    else p=raw_take(step)+sizeof(Hdr); }
  Hdr* h=(Hdr*)(p-sizeof(Hdr)); h->size=n; h->cls=c; h->magic=0x5A5AA5A5; g_live+=sz; if(g_live>A->heappeak) A->heappeak=g_live;
  fillmem((void*)p,sz,0); return (void*)p; }
static void heap_free(void* p){ Hdr* h=(Hdr*)((u64)p-sizeof(Hdr)); if(h->magic!=0x5A5AA5A5){ // double free / corruption: behave like glibc
    static const char m[]="vsim: free(): invalid pointer\n"; RS(SYS_write,2,(long)m,sizeof m-1); crash_now(SIGABRT); }
  h->magic=0xDEADDEAD; g_live-=cls_size(h->cls); if(A->k.fillmode) fillmem(p,cls_size(h->cls),1); push_free(h->cls,(u64)p); }
static void __attribute__((noinline)) scribble(int n){ char* p=(char*)alloca(n); if(A->k.fillmode>=3){ u64 v=rng(g_scrrng); for(int i=0;i+8<=n;i+=8) *(volatile u64*)(p+i)=v; } else { volatile char* q=p; int c=A->k.fillmode==2?0xff:0xCB; for(int i=0;i<n;i++) q[i]=c; } asm volatile(""::"r"(p):"memory"); }

static bool alloc_fault(int ctr,u64 idx){ bool fail=false; for(int i=0;i<A->nfault;i++){ Fault&f=A->fault[i]; if(!f.used||f.ctr!=ctr) continue;
    if(f.kind==F_KILL && f.at==idx){ fire(f,OP_NONE,"alloc"); crash_now(SIGKILL); }
    if((f.kind==F_OOM && f.at==idx) || (f.kind==F_OOMSTICKY && idx>=f.at)){ fire(f,OP_NONE,ctr==1?"operator new":"malloc"); fail=true; } } return fail; }
static void asite(int ctr,u64 idx){ u64 h=site(ctr);
  u32 i=h&(NASITE-1); for(int n=0;n<64;n++,i=(i+1)&(NASITE-1)){ ASite&s=A->asite[i];
    if(!s.key){ if(A->nasite>NASITE*3/4) return; A->nasite++; s.key=h; s.ctr=ctr; s.cnt=0; s.first=s.pick=idx; }
    if(s.key!=h) continue; s.cnt++; s.last=idx; if(rng(A->rasite)%s.cnt==0) s.pick=idx; return; } }
static void* sim_malloc(size_t n,bool viaNew){ if(A->k.trace) asite(viaNew?1:2,viaNew?A->news:A->mallocs);
   Guard g; if(A->k.scribble && (A->mallocs&7)==0) scribble(1536);
  u64 mi=A->mallocs++; if(A->nfault){ if(viaNew){ u64 ni=A->news++; if(alloc_fault(1,ni)){ errno=ENOMEM; return 0; } } if(alloc_fault(2,mi)){ errno=ENOMEM; return 0; } } else if(viaNew) A->news++;
  void* p=heap_alloc(n); if(!p) errno=ENOMEM; return p; }

extern "C" {
void* malloc(size_t n){ if(!sim()) return __libc_malloc(n); return sim_malloc(n,false); }
void free(void* p){ if(!p) return; if(in_heap(p)){ Guard g; heap_free(p); return; } __libc_free(p); }
void* calloc(size_t a,size_t b){ if(!sim()) return __libc_calloc(a,b); if(b && a>SIZE_MAX/b){ errno=ENOMEM; return 0; } void* p=sim_malloc(a*b,false); if(p) memset(p,0,a*b); return p; }
void* realloc(void* p,size_t n){ if(!p) return malloc(n); if(!in_heap(p)){ if(!sim()) return __libc_realloc(p,n); // block born before the run: move it
      void* q=__libc_realloc(p,n); return q; }
  if(!g_sim) return 0; if(n==0){ free(p); return 0; } void* q=sim_malloc(n,false); if(!q) return 0; Hdr* h=(Hdr*)((u64)p-sizeof(Hdr)); memcpy(q,p,h->size<n?h->size:n); { Guard g; heap_free(p);} return q; }
void* reallocarray(void* p,size_t a,size_t b){ if(b && a>SIZE_MAX/b){ errno=ENOMEM; return 0; } return realloc(p,a*b); }
static void* sim_memalign(size_t al,size_t n){ if(al<=16) return sim_malloc(n,false); unsupported("memalign"); return 0; }
void* memalign(size_t al,size_t n){ if(!sim()) return __libc_memalign(al,n); return sim_memalign(al,n); }
void* aligned_alloc(size_t al,size_t n){ if(!sim()) return __libc_memalign(al,n); return sim_memalign(al,n); }
int posix_memalign(void** p,size_t al,size_t n){ if(!sim()){ *p=__libc_memalign(al,n); return *p?0:ENOMEM; } *p=sim_memalign(al,n); return *p?0:ENOMEM; }
size_t malloc_usable_size(void* p){ if(!p) return 0; if(in_heap(p)) return ((Hdr*)((u64)p-sizeof(Hdr)))->size; static size_t(*r)(void*)=0; if(!r) r=real<size_t(*)(void*)>("malloc_usable_size"); return r(p); }
}
static void* xnew(size_t n){ if(n==0) n=1; if(!sim()) return __libc_malloc(n); return sim_malloc(n,true); }
// as libstdc++: a new-handler, when installed, is called until it frees memory, throws or ends the process
static void* xnew_h(size_t n){ for(;;){ void* p=xnew(n); if(p) return p; std::new_handler h=std::get_new_handler(); if(!h) return 0; h(); } }
void* operator new(size_t n){ void* p=xnew_h(n); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ void* p=xnew_h(n); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n,const std::nothrow_t&) noexcept { try { return xnew_h(n); } catch(...) { return 0; } }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { try { return xnew_h(n); } catch(...) { return 0; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p,size_t) noexcept { free(p); }
void operator delete[](void* p,size_t) noexcept { free(p); }
void operator delete(void* p,const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p,const std::nothrow_t&) noexcept { free(p); }

// ---------------------------------------------------------------- file operations (simulated side)
static int fail(int e){ errno=e; return -1; }
static int new_fd(int o){ Proc&p=A->pr[g_me]; int used=0; for(int i=3;i<MAXFD;i++) if(p.fds[i]>=0) used++; if(A->k.emfile>0 && used>=A->k.emfile) return -EMFILE; for(int i=3;i<MAXFD;i++) if(p.fds[i]<0){ p.fds[i]=o; return i; } return -EMFILE; }
static int new_ofd(){ for(int i=0;i<MAXOFD;i++) if(!A->ofd[i].used){ memset(&A->ofd[i],0,sizeof(Ofd)); A->ofd[i].used=1; A->ofd[i].refs=1; return i; } return -1; }
static void drop_ofd(int o){ Ofd&f=A->ofd[o]; if(--f.refs>0) return; f.used=0; Inode&n=A->in[f.ino]; n.nopen--; maybe_free(f.ino); }
static void full(int base,const char* path,char* out,size_t cap){ // textual path for the log
  if(path[0]=='/'){ snprintf(out,cap,"%s",path); return; } char b[700]; ipath(base,b,sizeof b); snprintf(out,cap,"%s/%s",!strcmp(b,"/")?"":b,path); }
static int sim_open(int dirfd,const char* path,int flags,int mode){ Guard g;
  if(!path) return fail(EFAULT);
  int base=path[0]=='/'?A->root:base_of(dirfd); if(base==-2) return fail(EBADF); if(base==-3) return fail(ENOTDIR); if(base<0) return fail(ENOENT);
  bool wr=(flags&O_ACCMODE)!=O_RDONLY; int dir,ino; char last[NAMELEN]; char fp[900]; full(base,path,fp,sizeof fp);
  int e=walk(base,path,&dir,&ino,last);
  int op=(flags&O_DIRECTORY)?OP_OPENDIR:wr?OP_OPENW:OP_OPENR;
  Seam s=enter(op,fp,ino);
  e=walk(base,path,&dir,&ino,last);   // the scheduler may have let another process in before us
  if(s.err) e=s.err;
  if(!e){ if(ino<0){ if(!(flags&O_CREAT)) e=ENOENT; else if(!(A->in[dir].mode&0200)) e=EACCES; else if(!last[0]||!strcmp(last,".")||!strcmp(last,"..")) e=EISDIR; }
    else { if((flags&O_CREAT)&&(flags&O_EXCL)) e=EEXIST; else if(A->in[ino].type==2 && (wr||(flags&O_CREAT))) e=EISDIR; else if((flags&O_DIRECTORY)&&A->in[ino].type!=2) e=ENOTDIR;
      else if(wr && !(A->in[ino].mode&0200)) e=EACCES; else if((flags&O_ACCMODE)!=O_WRONLY && !(A->in[ino].mode&0400)) e=EACCES; } }
  int fd=-1;
  if(!e){ int o=new_ofd(); if(o<0) e=ENFILE; else { fd=new_fd(o); if(fd<0){ A->ofd[o].used=0; e=-fd; fd=-1; } else {
      if(ino<0){ ino=new_inode(1,mode&~022&0777); if(ino<0){ A->pr[g_me].fds[fd]=-1; A->ofd[o].used=0; e=ENOSPC; fd=-1; } else add_child(dir,ino,last); }
      else if((flags&O_TRUNC)&&wr&&A->in[ino].type==1){ set_size(A->in[ino],0); A->in[ino].mtime=A->clock_ns; }
      if(fd>=0){ Ofd&f=A->ofd[o]; f.ino=ino; f.flags=flags; f.isdir=A->in[ino].type==2; f.off=0; A->in[ino].nopen++;
        if(s.kind==F_CUT && A->nst<MAXSTICKY){ Sticky&t=A->st[A->nst++]; t.used=1; t.op=wr?OP_WRITE:OP_READ; t.ino=ino; t.off=s.arg/512; t.once=s.arg/256%2; t.err=(int)(s.arg%256); } } } } }
  tlog(s.idx,op,fp,flags,mode,fd,e,s.kind); after(s); if(e) return fail(e); return fd; }
static int sim_close(int fd){ Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); Ofd&f=A->ofd[o]; int ino=f.ino; char fp[900]; ipath(ino,fp,sizeof fp);
  Seam s=enter(OP_CLOSE,fp,ino); int e=s.err; bool wr=(f.flags&O_ACCMODE)!=O_RDONLY;
  if(s.kind==F_LOSTCLOSE && A->in[ino].type==1 && wr){ Inode&n=A->in[ino]; set_size(n,n.size*(s.arg%1001)/1000); e=(int)(s.arg/1001); if(!e) e=EIO; }
  A->pr[g_me].fds[fd]=-1; drop_ofd(o);
  tlog(s.idx,OP_CLOSE,fp,fd,wr,e?-1:0,e,s.kind); after(s); if(e) return fail(e); return 0; }
// F_CUT: how much of a transfer [off,off+r) gets through; an error when it starts at or behind the bad place
static i64 cut(int op,int ino,i64 off,i64 r,int* e){ for(int i=0;i<A->nst;i++){ Sticky&t=A->st[i]; if(!t.used||t.off<0||t.op!=op||t.ino!=ino||r<=0||off+r<=t.off) continue; if(off<t.off) r=t.off-off; else { *e=t.err; if(t.once) t.used=0; } } return r; }
static i64 do_read(int o,void* buf,size_t n,i64 off,bool adv){ Ofd&f=A->ofd[o]; int ino=f.ino; char fp[900]; ipath(ino,fp,sizeof fp);
  Seam s=enter(OP_READ,fp,ino); int e=s.err; Inode&in=A->in[ino]; i64 r=-1; if(adv) off=f.off;
  if(!e && in.type==2) e=EISDIR; if(!e && (f.flags&O_ACCMODE)==O_WRONLY) e=EBADF;
  if(!e){ if(in.type==3){ u8* b=(u8*)buf; for(size_t i=0;i<n;i++) b[i]=(u8)rng(A->rrand); r=n; }
    else { i64 av=in.size-off; if(av<0) av=0; r=(i64)n<av?(i64)n:av;
      if(r>1 && s.kind==F_SHORT) { r=r*(s.arg%1000)/1000; if(r<1) r=1; }
      if(r>1 && A->k.chunk>0){ u64 m=1+rng(A->rchunk)%A->k.chunk; if((u64)r>m) r=m; }
      r=cut(OP_READ,ino,off,r,&e); if(e) r=-1;
      if(r>0) memcpy(buf,AP(in.data)+off,r); }
    if(adv&&r>0) f.off+=r; }
  tlog(s.idx,OP_READ,fp,n,off,r,e,s.kind); if(r>0) hmix(hbytes(buf,r)); after(s); if(e) return fail(e); return r; }
static i64 do_write(int o,const void* buf,size_t n,i64 off,bool adv){ Ofd&f=A->ofd[o]; int ino=f.ino; char fp[900]; ipath(ino,fp,sizeof fp);
  Seam s=enter(OP_WRITE,fp,ino); int e=s.err; Inode&in=A->in[ino]; i64 r=-1; if(adv) off=(f.flags&O_APPEND)?in.size:f.off; bool die=false;
  if(!e && (f.flags&O_ACCMODE)==O_RDONLY) e=EBADF;
  if(!e){ r=n; 
    if(s.kind==F_TORN){ r=(i64)n*(s.arg%1000)/1000; die=true; }
    if(r>1 && s.kind==F_SHORT){ r=r*(s.arg%1000)/1000; if(r<1) r=1; }
    if(s.kind==F_PARTERR){ r=(i64)n*((s.arg/256)%1000)/1000; e=(int)(s.arg%256); }
    if(r>1 && !die && !e && A->k.chunk>0){ u64 m=1+rng(A->rchunk)%A->k.chunk; if((u64)r>m) r=m; }
    if(!e&&!die){ r=cut(OP_WRITE,ino,off,r,&e); if(e) r=0; }
    if(in.type==1){ i64 end=off+r; i64 need=end>in.size?end-in.size:0; if(A->k.diskcap>=0 && A->used+need>A->k.diskcap){ i64 room=A->k.diskcap-A->used; if(room<0) room=0; i64 keep=r-(need-room); if(keep<=0){ e=ENOSPC; r=-1; } else r=keep; s.kind=s.kind?s.kind:F_RESPACE; }
      if(r>0){ if(off+r>in.size) set_size(in,off+r); memcpy(AP(in.data)+off,buf,r); } in.mtime=A->clock_ns; }
    if(adv && r>0 && !e) f.off=off+r; }
  hmix(hbytes(buf,n)); tlog(s.idx,OP_WRITE,fp,n,off,e?-1:r,e,s.kind);
  if(die) crash_now(SIGKILL); after(s); if(e) return fail(e); return r; }
static i64 sim_read(int fd,void* b,size_t n){ Guard g; if(fd==0) return 0; int o=ofd_of(fd); if(o<0) return fail(EBADF); return do_read(o,b,n,0,true); }
static i64 sim_write(int fd,const void* b,size_t n){ if(fd==1||fd==2) return RS(SYS_write,fd,(long)b,n); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); return do_write(o,b,n,0,true); }
static i64 sim_seek(int fd,i64 off,int wh){ Guard g; if(fd>=0&&fd<3) return fail(ESPIPE); int o=ofd_of(fd); if(o<0) return fail(EBADF); Ofd&f=A->ofd[o]; i64 b=wh==SEEK_SET?0:wh==SEEK_CUR?f.off:wh==SEEK_END?A->in[f.ino].size:-1; if(b<0||b+off<0) return fail(EINVAL);
  if(wh==SEEK_CUR && off==0) return f.off; f.off=b+off; hmix(f.off); return f.off; }
static void fill_stat(int ino,struct stat* st){ Inode&n=A->in[ino]; memset(st,0,sizeof *st); st->st_dev=0x51; st->st_ino=ino+2; st->st_mode=(n.type==2?S_IFDIR:n.type==3?S_IFCHR:S_IFREG)|n.mode; st->st_nlink=n.type==2?2:1; st->st_uid=1000; st->st_gid=1000; st->st_size=n.type==2?4096:n.size; st->st_blksize=4096; st->st_blocks=(n.size+511)/512; st->st_mtim.tv_sec=n.mtime/1000000000; st->st_mtim.tv_nsec=n.mtime%1000000000; st->st_atim=st->st_ctim=st->st_mtim; }
static int sim_stat(int dirfd,const char* path,struct stat* st,int flags){ Guard g; if(!path) return fail(EFAULT);
  if((flags&AT_EMPTY_PATH)&&!*path){ int o=ofd_of(dirfd); if(dirfd>=0&&dirfd<3&&o<0){ memset(st,0,sizeof*st); st->st_mode=S_IFIFO|0600; return 0; } if(o<0) return fail(EBADF); fill_stat(A->ofd[o].ino,st); return 0; }
  int base=path[0]=='/'?A->root:base_of(dirfd); if(base<0) return fail(base==-2?EBADF:base==-3?ENOTDIR:ENOENT); int dir,ino; char last[NAMELEN],fp[900]; full(base,path,fp,sizeof fp);
  walk(base,path,&dir,&ino,last); Seam s=enter(OP_STAT,fp,ino); int e=walk(base,path,&dir,&ino,last); if(s.err) e=s.err; if(!e&&ino<0) e=ENOENT; if(!e) fill_stat(ino,st);
  tlog(s.idx,OP_STAT,fp,e?0:st->st_mode,e?0:st->st_size,e?-1:0,e,s.kind); after(s); if(e) return fail(e); return 0; }
static int sim_fstat(int fd,struct stat* st){ Guard g; int o=ofd_of(fd); if(o<0){ if(fd>=0&&fd<3){ memset(st,0,sizeof*st); st->st_mode=S_IFIFO|0600; return 0; } return fail(EBADF); } int ino=A->ofd[o].ino; Seam s=enter(OP_FSTAT,0,ino); if(!s.err) fill_stat(ino,st); char fp[900]; ipath(ino,fp,sizeof fp); tlog(s.idx,OP_FSTAT,fp,0,0,s.err?-1:0,s.err,s.kind); after(s); if(s.err) return fail(s.err); return 0; }
static int sim_mkdir(int dirfd,const char* path,int mode){ Guard g; int base=path[0]=='/'?A->root:base_of(dirfd); if(base<0) return fail(ENOENT); int dir,ino; char last[NAMELEN],fp[900]; full(base,path,fp,sizeof fp);
  walk(base,path,&dir,&ino,last); Seam s=enter(OP_MKDIR,fp,ino); int e=walk(base,path,&dir,&ino,last); if(s.err) e=s.err; else if(!e&&ino>=0) e=EEXIST; else if(!e&&!(A->in[dir].mode&0200)) e=EACCES;
  if(!e){ int n=new_inode(2,mode&0755); if(n<0) e=ENOSPC; else add_child(dir,n,last); }
  tlog(s.idx,OP_MKDIR,fp,mode,0,e?-1:0,e,s.kind); after(s); if(e) return fail(e); return 0; }
static int sim_unlink(int dirfd,const char* path,int isdir /*0 file 1 dir 2 either*/){ Guard g; int base=path[0]=='/'?A->root:base_of(dirfd); if(base<0) return fail(ENOENT); int dir,ino; char last[NAMELEN],fp[900]; full(base,path,fp,sizeof fp);
  walk(base,path,&dir,&ino,last); Seam s=enter(OP_UNLINK,fp,ino); int e=walk(base,path,&dir,&ino,last); if(s.err) e=s.err; if(!e&&ino<0) e=ENOENT; if(!e&&ino==A->root) e=EBUSY;
  if(!e&&!(A->in[A->in[ino].parent].mode&0200)) e=EACCES; if(!e&&isdir==0&&A->in[ino].type==2) e=EISDIR; if(!e&&isdir==1&&A->in[ino].type!=2) e=ENOTDIR; if(!e&&A->in[ino].type==2&&A->in[ino].first>=0) e=ENOTEMPTY;
  if(!e){ del_child(ino); maybe_free(ino); }
  tlog(s.idx,OP_UNLINK,fp,isdir,0,e?-1:0,e,s.kind); after(s); if(e) return fail(e); return 0; }
static int sim_rename(const char* a,const char* b){ Guard g; int base=cwd_ino(g_me); int d1,i1,d2,i2; char l1[NAMELEN],l2[NAMELEN],fa[900],fb[900]; full(base,a,fa,sizeof fa); full(base,b,fb,sizeof fb);
  char both[1900]; snprintf(both,sizeof both,"%s",fa); Seam s=enter(OP_RENAME,both,-1); int e=walk(base,a,&d1,&i1,l1); if(!e&&i1<0) e=ENOENT; int e2=walk(base,b,&d2,&i2,l2); if(!e) e=e2; if(s.err) e=s.err;
  if(!e&&i2>=0&&i2!=i1){ if(A->in[i2].type==2&&A->in[i1].type!=2) e=EISDIR; else if(A->in[i2].type!=2&&A->in[i1].type==2) e=ENOTDIR; else if(A->in[i2].type==2&&A->in[i2].first>=0) e=ENOTEMPTY; }
  if(!e&&(!(A->in[d1].mode&0200)||!(A->in[d2].mode&0200))) e=EACCES;
  if(!e&&i1!=i2){ if(i2>=0){ del_child(i2); maybe_free(i2); } del_child(i1); add_child(d2,i1,l2); }
  tlog(s.idx,OP_RENAME,fa,0,0,e?-1:0,e,s.kind); tlog(s.idx,OP_RENAME,fb,1,0,e?-1:0,e,s.kind); after(s); if(e) return fail(e); return 0; }
static int sim_access(int dirfd,const char* path,int m){ Guard g; int base=path[0]=='/'?A->root:base_of(dirfd); if(base<0) return fail(ENOENT); int dir,ino; char last[NAMELEN],fp[900]; full(base,path,fp,sizeof fp);
  walk(base,path,&dir,&ino,last); Seam s=enter(OP_ACCESS,fp,ino); int e=walk(base,path,&dir,&ino,last); if(s.err) e=s.err; if(!e&&ino<0) e=ENOENT;
  if(!e){ int md=A->in[ino].mode; if((m&R_OK)&&!(md&0400)) e=EACCES; if((m&W_OK)&&!(md&0200)) e=EACCES; if((m&X_OK)&&!(md&0100)) e=EACCES; }
  tlog(s.idx,OP_ACCESS,fp,m,0,e?-1:0,e,s.kind); if(e) return fail(e); return 0; }
static int sim_trunc(int ino,i64 sz){ char fp[900]; ipath(ino,fp,sizeof fp); Seam s=enter(OP_TRUNC,fp,ino); int e=s.err; if(!e && A->k.diskcap>=0 && 0) e=ENOSPC; if(!e) e=set_size(A->in[ino],sz); tlog(s.idx,OP_TRUNC,fp,sz,0,e?-1:0,e,s.kind); after(s); if(e) return fail(e); return 0; }

// FILE* streams: real glibc FILEs whose bytes come from the simulated descriptors
struct CookieMap { FILE* f; int fd; };
static CookieMap g_cm[256];
static ssize_t ck_read(void* c,char* b,size_t n){ return sim_read((int)(long)c,b,n); }
static ssize_t ck_write(void* c,const char* b,size_t n){ i64 r=sim_write((int)(long)c,b,n); return r<0?0:r; }
static int ck_seek(void* c,off64_t* o,int w){ i64 r=sim_seek((int)(long)c,*o,w); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void* c){ int fd=(int)(long)c; for(auto&m:g_cm) if(m.f&&m.fd==fd){ m.f=0; } return sim_close(fd); }
static FILE* cookie(int fd,const char* mode){ char m[8]; int j=0; for(int i=0;mode[i]&&j<6;i++) if(strchr("rwab+",mode[i])) m[j++]=mode[i]; m[j]=0; cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE* f=fopencookie((void*)(long)fd,m,io); if(!f) return 0; for(auto&c:g_cm) if(!c.f){ c.f=f; c.fd=fd; break; } return f; }
static int mode_flags(const char* m){ int f; switch(m[0]){ case 'r': f=O_RDONLY; break; case 'w': f=O_WRONLY|O_CREAT|O_TRUNC; break; case 'a': f=O_WRONLY|O_CREAT|O_APPEND; break; default: return -1; } for(const char* p=m+1;*p&&*p!=',';p++){ if(*p=='+') f=(f&~O_ACCMODE)|O_RDWR; if(*p=='x') f|=O_EXCL; } return f; }

// directories
struct SimDir { u32 magic; int fd, n, i; int* ino; char (*nm)[NAMELEN]; struct dirent de; };
static SimDir* g_dirs[32];
static SimDir* mkdirp(int fd){ int o=ofd_of(fd); if(o<0){ errno=EBADF; return 0; } int d=A->ofd[o].ino; if(A->in[d].type!=2){ errno=ENOTDIR; return 0; }
  int n=0; for(int i=A->in[d].first;i>=0;i=A->in[i].next) n++; SimDir* D=(SimDir*)__libc_calloc(1,sizeof(SimDir)); D->magic=0xD1D1; D->fd=fd; D->n=n+2; D->ino=(int*)__libc_calloc(n+2,sizeof(int)); D->nm=(char(*)[NAMELEN])__libc_calloc(n+2,NAMELEN);
  D->ino[0]=d; strcpy(D->nm[0],"."); D->ino[1]=d; strcpy(D->nm[1],".."); int j=2; for(int i=A->in[d].first;i>=0;i=A->in[i].next){ D->ino[j]=i; strcpy(D->nm[j],A->in[i].name); j++; }
  if(A->k.dirmode==1){ for(int k=D->n-1;k>0;k--){ int r=rng(A->rdir)%(k+1); int t=D->ino[k]; D->ino[k]=D->ino[r]; D->ino[r]=t; char tmp[NAMELEN]; memcpy(tmp,D->nm[k],NAMELEN); memcpy(D->nm[k],D->nm[r],NAMELEN); memcpy(D->nm[r],tmp,NAMELEN);} }
  else if(A->k.dirmode==2){ for(int a=0,b=D->n-1;a<b;a++,b--){ int t=D->ino[a]; D->ino[a]=D->ino[b]; D->ino[b]=t; char tmp[NAMELEN]; memcpy(tmp,D->nm[a],NAMELEN); memcpy(D->nm[a],D->nm[b],NAMELEN); memcpy(D->nm[b],tmp,NAMELEN);} }
  else { for(int a=2;a<D->n;a++) for(int b=a+1;b<D->n;b++) if(strcmp(D->nm[b],D->nm[a])<0){ int t=D->ino[a]; D->ino[a]=D->ino[b]; D->ino[b]=t; char tmp[NAMELEN]; memcpy(tmp,D->nm[a],NAMELEN); memcpy(D->nm[a],D->nm[b],NAMELEN); memcpy(D->nm[b],tmp,NAMELEN);} }
  return D; }

extern "C" {
REAL(int,open,(const char*,int,...)) REAL(int,openat,(int,const char*,int,...)) REAL(int,close,(int)) REAL(ssize_t,read,(int,void*,size_t)) REAL(ssize_t,write,(int,const void*,size_t))
REAL(ssize_t,writev,(int,const struct iovec*,int)) REAL(ssize_t,readv,(int,const struct iovec*,int)) REAL(ssize_t,pread,(int,void*,size_t,off_t)) REAL(ssize_t,pwrite,(int,const void*,size_t,off_t)) REAL(off_t,lseek,(int,off_t,int))
REAL(int,ftruncate,(int,off_t)) REAL(int,truncate,(const char*,off_t)) REAL(int,fsync,(int)) REAL(int,stat,(const char*,struct stat*)) REAL(int,lstat,(const char*,struct stat*)) REAL(int,fstat,(int,struct stat*)) REAL(int,fstatat,(int,const char*,struct stat*,int))
REAL(int,statx,(int,const char*,int,unsigned,struct statx*)) REAL(int,access,(const char*,int)) REAL(int,mkdir,(const char*,mode_t)) REAL(int,rmdir,(const char*)) REAL(int,unlink,(const char*)) REAL(int,unlinkat,(int,const char*,int)) REAL(int,remove,(const char*)) REAL(int,rename,(const char*,const char*))
REAL(DIR*,opendir,(const char*)) REAL(DIR*,fdopendir,(int)) REAL(struct dirent*,readdir,(DIR*)) REAL(int,closedir,(DIR*)) REAL(int,dirfd,(DIR*)) REAL(char*,getcwd,(char*,size_t)) REAL(int,chdir,(const char*)) REAL(char*,realpath,(const char*,char*))
REAL(FILE*,fopen,(const char*,const char*)) REAL(FILE*,fdopen,(int,const char*)) REAL(int,fileno,(FILE*)) REAL(int,fcntl,(int,int,...)) REAL(int,flock,(int,int)) REAL(int,ioctl,(int,unsigned long,...)) REAL(int,poll,(struct pollfd*,nfds_t,int))
REAL(int,dup,(int)) REAL(int,dup2,(int,int)) REAL(time_t,time,(time_t*)) REAL(int,gettimeofday,(struct timeval*,void*)) REAL(int,clock_gettime,(clockid_t,struct timespec*)) REAL(int,nanosleep,(const struct timespec*,struct timespec*))
REAL(pid_t,fork,(void)) REAL(pid_t,waitpid,(pid_t,int*,int)) REAL(pid_t,wait,(int*)) REAL(int,system,(const char*)) REAL(pid_t,getpid,(void)) REAL(pid_t,getppid,(void)) REAL(int,kill,(pid_t,int)) REAL(uid_t,geteuid,(void)) REAL(uid_t,getuid,(void))
REAL(ssize_t,getrandom,(void*,size_t,unsigned)) REAL(int,getentropy,(void*,size_t)) REAL(ssize_t,sendfile,(int,int,off_t*,size_t)) REAL(int,fstatfs,(int,struct statfs*)) REAL(int,statvfs,(const char*,struct statvfs*)) REAL(int,chmod,(const char*,mode_t)) REAL(int,fchmod,(int,mode_t)) REAL(void*,mmap,(void*,size_t,int,int,int,off_t))
REAL(ssize_t,readlink,(const char*,char*,size_t)) REAL(int,symlink,(const char*,const char*)) REAL(int,link,(const char*,const char*)) REAL(struct passwd*,getpwuid,(uid_t)) REAL(int,getrusage,(int,struct rusage*)) REAL(unsigned,sleep,(unsigned))

static int vmode(int flags,va_list ap){ return (flags&(O_CREAT|O_TMPFILE))?va_arg(ap,int):0; }
int open(const char* p,int f,...){ va_list ap; va_start(ap,f); int m=vmode(f,ap); va_end(ap); if(!sim()) return r_openat()(AT_FDCWD,p,f,m); return sim_open(AT_FDCWD,p,f,m); }
int open64(const char* p,int f,...){ va_list ap; va_start(ap,f); int m=vmode(f,ap); va_end(ap); if(!sim()) return r_openat()(AT_FDCWD,p,f,m); return sim_open(AT_FDCWD,p,f,m); }
int openat(int d,const char* p,int f,...){ va_list ap; va_start(ap,f); int m=vmode(f,ap); va_end(ap); if(!sim()) return r_openat()(d,p,f,m); return sim_open(d,p,f,m); }
int openat64(int d,const char* p,int f,...){ va_list ap; va_start(ap,f); int m=vmode(f,ap); va_end(ap); if(!sim()) return r_openat()(d,p,f,m); return sim_open(d,p,f,m); }
int __open_2(const char* p,int f){ return open(p,f); } int __open64_2(const char* p,int f){ return open(p,f); } int __openat_2(int d,const char* p,int f){ return openat(d,p,f); } int __openat64_2(int d,const char* p,int f){ return openat(d,p,f); }
int creat(const char* p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
int close(int fd){ if(!sim()) return r_close()(fd); if(fd<3&&ofd_of(fd)<0) return 0; return sim_close(fd); }
ssize_t read(int fd,void* b,size_t n){ if(!sim()) return r_read()(fd,b,n); return sim_read(fd,b,n); }
ssize_t __read_chk(int fd,void* b,size_t n,size_t){ return read(fd,b,n); }
ssize_t write(int fd,const void* b,size_t n){ if(!sim()) return r_write()(fd,b,n); return sim_write(fd,b,n); }
ssize_t writev(int fd,const struct iovec* v,int c){ if(!sim()) return r_writev()(fd,v,c); if(fd==1||fd==2) return RS(SYS_writev,fd,(long)v,c); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); size_t n=0; for(int i=0;i<c;i++) n+=v[i].iov_len; char* b=(char*)__libc_malloc(n+1); size_t k=0; for(int i=0;i<c;i++){ memcpy(b+k,v[i].iov_base,v[i].iov_len); k+=v[i].iov_len; } i64 r=do_write(o,b,n,0,true); int e=errno; __libc_free(b); errno=e; return r; }
ssize_t readv(int fd,const struct iovec* v,int c){ if(!sim()) return r_readv()(fd,v,c); for(int i=0;i<c;i++) if(v[i].iov_len) return sim_read(fd,v[i].iov_base,v[i].iov_len); return 0; }
ssize_t pread(int fd,void* b,size_t n,off_t off){ if(!sim()) return r_pread()(fd,b,n,off); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); return do_read(o,b,n,off,false); }
ssize_t pread64(int fd,void* b,size_t n,off_t off){ return pread(fd,b,n,off); }
ssize_t pwrite(int fd,const void* b,size_t n,off_t off){ if(!sim()) return r_pwrite()(fd,b,n,off); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); return do_write(o,b,n,off,false); }
ssize_t pwrite64(int fd,const void* b,size_t n,off_t off){ return pwrite(fd,b,n,off); }
off_t lseek(int fd,off_t o,int w){ if(!sim()) return r_lseek()(fd,o,w); return sim_seek(fd,o,w); }
off_t lseek64(int fd,off_t o,int w){ return lseek(fd,o,w); }
int ftruncate(int fd,off_t n){ if(!sim()) return r_ftruncate()(fd,n); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); return sim_trunc(A->ofd[o].ino,n); }
int ftruncate64(int fd,off_t n){ return ftruncate(fd,n); }
int truncate(const char* p,off_t n){ if(!sim()) return r_truncate()(p,n); int fd=sim_open(AT_FDCWD,p,O_WRONLY,0); if(fd<0) return -1; int r=ftruncate(fd,n); sim_close(fd); return r; }
int truncate64(const char* p,off_t n){ return truncate(p,n); }
int fsync(int fd){ if(!sim()) return r_fsync()(fd); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); Seam s=enter(OP_FSYNC,0,A->ofd[o].ino); char fp[900]; ipath(A->ofd[o].ino,fp,sizeof fp); tlog(s.idx,OP_FSYNC,fp,0,0,s.err?-1:0,s.err,s.kind); after(s); if(s.err) return fail(s.err); return 0; }
int fdatasync(int fd){ return fsync(fd); }
int stat(const char* p,struct stat* s){ if(!sim()) return r_stat()(p,s); return sim_stat(AT_FDCWD,p,s,0); }
int stat64(const char* p,struct stat64* s){ return stat(p,(struct stat*)s); }
int lstat(const char* p,struct stat* s){ if(!sim()) return r_lstat()(p,s); return sim_stat(AT_FDCWD,p,s,0); }
int lstat64(const char* p,struct stat64* s){ return lstat(p,(struct stat*)s); }
int fstat(int fd,struct stat* s){ if(!sim()) return r_fstat()(fd,s); return sim_fstat(fd,s); }
int fstat64(int fd,struct stat64* s){ return fstat(fd,(struct stat*)s); }
int fstatat(int d,const char* p,struct stat* s,int f){ if(!sim()) return r_fstatat()(d,p,s,f); return sim_stat(d,p,s,f); }
int fstatat64(int d,const char* p,struct stat64* s,int f){ return fstatat(d,p,(struct stat*)s,f); }
int statx(int d,const char* p,int f,unsigned m,struct statx* x){ if(!sim()) return r_statx()(d,p,f,m,x); struct stat s; int r=(f&AT_EMPTY_PATH)&&p&&!*p?sim_fstat(d,&s):sim_stat(d,p,&s,f); if(r) return r; memset(x,0,sizeof*x); x->stx_mask=STATX_BASIC_STATS; x->stx_mode=s.st_mode; x->stx_ino=s.st_ino; x->stx_size=s.st_size; x->stx_nlink=s.st_nlink; x->stx_uid=s.st_uid; x->stx_gid=s.st_gid; x->stx_blksize=4096; x->stx_blocks=s.st_blocks; x->stx_dev_minor=0x51; x->stx_mtime.tv_sec=s.st_mtim.tv_sec; x->stx_mtime.tv_nsec=s.st_mtim.tv_nsec; x->stx_ctime=x->stx_atime=x->stx_mtime; return 0; }
int access(const char* p,int m){ if(!sim()) return r_access()(p,m); return sim_access(AT_FDCWD,p,m); }
int faccessat(int d,const char* p,int m,int){ if(!sim()) return syscall(SYS_faccessat,d,p,m); return sim_access(d,p,m); }
int euidaccess(const char* p,int m){ return access(p,m); } int eaccess(const char* p,int m){ return access(p,m); }
int mkdir(const char* p,mode_t m){ if(!sim()) return r_mkdir()(p,m); return sim_mkdir(AT_FDCWD,p,m); }
int mkdirat(int d,const char* p,mode_t m){ if(!sim()) return syscall(SYS_mkdirat,d,p,m); return sim_mkdir(d,p,m); }
int rmdir(const char* p){ if(!sim()) return r_rmdir()(p); return sim_unlink(AT_FDCWD,p,1); }
int unlink(const char* p){ if(!sim()) return r_unlink()(p); return sim_unlink(AT_FDCWD,p,0); }
int unlinkat(int d,const char* p,int f){ if(!sim()) return r_unlinkat()(d,p,f); return sim_unlink(d,p,(f&AT_REMOVEDIR)?1:0); }
int remove(const char* p){ if(!sim()) return r_remove()(p); return sim_unlink(AT_FDCWD,p,2); }
int rename(const char* a,const char* b){ if(!sim()) return r_rename()(a,b); return sim_rename(a,b); }
int renameat(int d,const char* a,int e,const char* b){ if(!sim()) return syscall(SYS_renameat,d,a,e,b); if((d!=AT_FDCWD&&a[0]!='/')||(e!=AT_FDCWD&&b[0]!='/')) unsupported("renameat dirfd"); return sim_rename(a,b); }
int link(const char* a,const char* b){ if(!sim()) return r_link()(a,b); return fail(EPERM); }
int symlink(const char* a,const char* b){ if(!sim()) return r_symlink()(a,b); return fail(EPERM); }
ssize_t readlink(const char* p,char* b,size_t n){ if(!sim()) return r_readlink()(p,b,n); struct stat s; if(sim_stat(AT_FDCWD,p,&s,0)) return -1; return fail(EINVAL); }
int chmod(const char* p,mode_t m){ if(!sim()) return r_chmod()(p,m); Guard g; int d,i; char l[NAMELEN]; int e=walk(cwd_ino(g_me),p,&d,&i,l); if(!e&&i<0) e=ENOENT; Seam s=enter(OP_CHMOD,p,i); if(s.err) e=s.err; if(!e) A->in[i].mode=m&07777; tlog(s.idx,OP_CHMOD,p,m,0,e?-1:0,e,s.kind); if(e) return fail(e); return 0; }
int fchmod(int fd,mode_t m){ if(!sim()) return r_fchmod()(fd,m); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); char fp[900]; ipath(A->ofd[o].ino,fp,sizeof fp); Seam s=enter(OP_CHMOD,fp,A->ofd[o].ino); if(!s.err) A->in[A->ofd[o].ino].mode=m&07777; tlog(s.idx,OP_CHMOD,fp,m,0,s.err?-1:0,s.err,s.kind); if(s.err) return fail(s.err); return 0; }
int fchmodat(int d,const char* p,mode_t m,int f){ if(!sim()) return syscall(SYS_fchmodat,d,p,m); return chmod(p,m); }
int utimensat(int d,const char* p,const struct timespec t[2],int f){ if(!sim()) return syscall(SYS_utimensat,d,p,t,f); return 0; }
int futimens(int fd,const struct timespec t[2]){ if(!sim()) return syscall(SYS_utimensat,fd,0,t,0); return 0; }
DIR* opendir(const char* p){ if(!sim()) return r_opendir()(p); int fd=sim_open(AT_FDCWD,p,O_RDONLY|O_DIRECTORY,0); if(fd<0) return 0; Guard g; SimDir* d=mkdirp(fd); return (DIR*)d; }
DIR* fdopendir(int fd){ if(!sim()) return r_fdopendir()(fd); Guard g; return (DIR*)mkdirp(fd); }
struct dirent* readdir(DIR* D){ if(!sim()) return r_readdir()(D); Guard g; SimDir* d=(SimDir*)D; int o=ofd_of(d->fd); Seam s=enter(OP_READDIR,0,o<0?-1:A->ofd[o].ino); if(s.err){ char fp[900]; ipath(o<0?-1:A->ofd[o].ino,fp,sizeof fp); tlog(s.idx,OP_READDIR,fp,0,0,-1,s.err,s.kind); errno=s.err; return 0; } 
  const char* nm="-"; struct dirent* r=0; while(d->i<d->n){ int k=d->i++; int ino=d->ino[k]; if(k>=0 && (!A->in[ino].used)) continue; r=&d->de; memset(r,0,sizeof*r); r->d_ino=ino+2; r->d_type=A->in[ino].type==2?DT_DIR:DT_REG; if(!strcmp(d->nm[k],".")||!strcmp(d->nm[k],"..")) r->d_type=DT_DIR; r->d_reclen=sizeof*r; strncpy(r->d_name,d->nm[k],255); nm=r->d_name; break; }
  tlog(s.idx,OP_READDIR,nm,0,0,r?1:0,0,s.kind); return r; }
struct dirent64* readdir64(DIR* D){ return (struct dirent64*)readdir(D); }
int readdir_r(DIR* D,struct dirent* e,struct dirent** out){ if(!sim()){ struct dirent* r=r_readdir()(D); if(r) memcpy(e,r,sizeof*r); *out=r?e:0; return 0; } errno=0; struct dirent* r=readdir(D); if(!r){ *out=0; return errno; } memcpy(e,r,sizeof*r); *out=e; return 0; }
void rewinddir(DIR* D){ if(!sim()){ static void(*r)(DIR*)=0; if(!r) r=real<void(*)(DIR*)>("rewinddir"); r(D); return; } ((SimDir*)D)->i=0; }
int closedir(DIR* D){ if(!sim()) return r_closedir()(D); SimDir* d=(SimDir*)D; int r=sim_close(d->fd); Guard g; __libc_free(d->ino); __libc_free(d->nm); d->magic=0; __libc_free(d); return r; }
int dirfd(DIR* D){ if(!sim()) return r_dirfd()(D); return ((SimDir*)D)->fd; }
char* getcwd(char* b,size_t n){ if(!sim()) return r_getcwd()(b,n); const char* c=A->pr[g_me].cwd; size_t l=strlen(c)+1; if(!b){ if(!n) n=l; b=(char*)malloc(n<l?l:n); if(!b) return 0; } if(n<l){ errno=ERANGE; return 0; } memcpy(b,c,l); return b; }
char* __getcwd_chk(char* b,size_t n,size_t){ return getcwd(b,n); }
char* get_current_dir_name(void){ return getcwd(0,0); }
int chdir(const char* p){ if(!sim()) return r_chdir()(p); Guard g; int d,i; char l[NAMELEN]; int e=walk(cwd_ino(g_me),p,&d,&i,l); if(!e&&i<0) e=ENOENT; if(!e&&A->in[i].type!=2) e=ENOTDIR; Seam s=enter(OP_CHDIR,p,i); if(s.err) e=s.err; if(!e) ipath(i,A->pr[g_me].cwd,512); tlog(s.idx,OP_CHDIR,p,0,0,e?-1:0,e,s.kind); if(e) return fail(e); return 0; }
char* realpath(const char* p,char* out){ if(!sim()) return r_realpath()(p,out); char tmp[4096]; { Guard g; int d,i; char l[NAMELEN]; int e=walk(cwd_ino(g_me),p,&d,&i,l); if(!e&&i<0) e=ENOENT; if(e){ errno=e; return 0; } ipath(i,tmp,sizeof tmp); } if(!out) out=(char*)malloc(strlen(tmp)+1); strcpy(out,tmp); return out; }
char* __realpath_chk(const char* p,char* o,size_t){ return realpath(p,o); } char* canonicalize_file_name(const char* p){ return realpath(p,0); }
FILE* fopen(const char* p,const char* m){ if(!sim()) return r_fopen()(p,m); int f=mode_flags(m); if(f<0){ errno=EINVAL; return 0; } int fd=sim_open(AT_FDCWD,p,f,0666); if(fd<0) return 0; FILE* r=cookie(fd,m); if(!r){ sim_close(fd); errno=ENOMEM; } return r; }
FILE* fopen64(const char* p,const char* m){ return fopen(p,m); }
FILE* fdopen(int fd,const char* m){ if(!sim()) return r_fdopen()(fd,m); return cookie(fd,m); }
FILE* freopen(const char*,const char*,FILE*){ if(sim()) unsupported("freopen"); return 0; }
FILE* tmpfile(void){ if(sim()) unsupported("tmpfile"); return 0; }
FILE* popen(const char*,const char*){ if(sim()) unsupported("popen"); errno=ENOSYS; return 0; }
int fileno(FILE* f){ if(!sim()) return r_fileno()(f); for(auto&c:g_cm) if(c.f==f) return c.fd; return r_fileno()(f); }
int mkstemp(char* t){ if(!sim()) return -1; size_t n=strlen(t); if(n<6){ return fail(EINVAL); } for(int k=0;k<100;k++){ for(int i=0;i<6;i++) t[n-6+i]="abcdefghijklmnopqrstuvwxyz0123456789"[rng(A->rrand)%36]; int fd=sim_open(AT_FDCWD,t,O_RDWR|O_CREAT|O_EXCL,0600); if(fd>=0||errno!=EEXIST) return fd; } return fail(EEXIST); }
int mkstemp64(char* t){ return mkstemp(t); }
int fcntl(int fd,int c,...){ va_list ap; va_start(ap,c); long a=va_arg(ap,long); va_end(ap); if(!sim()) return r_fcntl()(fd,c,a); Guard g; int o=ofd_of(fd); if(o<0){ if(fd<3) return 0; return fail(EBADF);} switch(c){ case F_GETFL: return A->ofd[o].flags; case F_SETFL: case F_GETFD: case F_SETFD: return 0; case F_DUPFD: case F_DUPFD_CLOEXEC:{ int n=new_fd(o); if(n<0) return fail(-n); A->ofd[o].refs++; return n; }
  case F_SETLK: case F_SETLKW: case F_GETLK: case F_OFD_SETLK: { Seam s=enter(OP_LOCK,0,A->ofd[o].ino); if(s.err) return fail(s.err); return 0; } default: return 0; } }
int fcntl64(int fd,int c,...){ va_list ap; va_start(ap,c); long a=va_arg(ap,long); va_end(ap); return fcntl(fd,c,a); }
int flock(int fd,int k){ if(!sim()) return r_flock()(fd,k); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); char fp[900]; ipath(A->ofd[o].ino,fp,sizeof fp); Seam s=enter(OP_LOCK,fp,A->ofd[o].ino); int e=s.err;
  if(!e){ if(k&LOCK_UN) A->ofd[o].cookie=0; else { int want=(k&LOCK_EX)?2:1; for(int i=0;i<MAXOFD;i++) if(i!=o&&A->ofd[i].used&&A->ofd[i].ino==A->ofd[o].ino&&A->ofd[i].cookie&&(want==2||A->ofd[i].cookie==2)) e=EWOULDBLOCK; if(!e) A->ofd[o].cookie=want; } }
  tlog(s.idx,OP_LOCK,fp,k,0,e?-1:0,e,s.kind); if(e) return fail(e); return 0; }
int ioctl(int fd,unsigned long rq,...){ va_list ap; va_start(ap,rq); void* a=va_arg(ap,void*); va_end(ap); if(!sim()) return r_ioctl()(fd,rq,a); if(rq==0x541B/*FIONREAD*/){ Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); i64 n=A->in[A->ofd[o].ino].size-A->ofd[o].off; *(int*)a=n<0?0:(int)n; return 0; } return fail(ENOTTY); }
int poll(struct pollfd* p,nfds_t n,int t){ if(!sim()) return r_poll()(p,n,t); for(nfds_t i=0;i<n;i++) p[i].revents=p[i].events; return (int)n; }
int dup(int fd){ if(!sim()) return r_dup()(fd); Guard g; int o=ofd_of(fd); if(o<0) return fail(EBADF); int n=new_fd(o); if(n<0) return fail(-n); A->ofd[o].refs++; return n; }
int dup2(int a,int b){ if(!sim()) return r_dup2()(a,b); unsupported("dup2"); return -1; }
int dup3(int a,int b,int f){ if(!sim()) return syscall(SYS_dup3,a,b,f); unsupported("dup3"); return -1; }
int pipe(int* p){ if(!sim()) return syscall(SYS_pipe2,p,0); unsupported("pipe"); return -1; }
int fstatfs(int fd,struct statfs* s){ if(!sim()) return r_fstatfs()(fd,s); memset(s,0,sizeof*s); s->f_type=0xEF53; s->f_bsize=4096; s->f_bavail=s->f_bfree=s->f_blocks=1<<20; return 0; }
int fstatfs64(int fd,struct statfs64* s){ return fstatfs(fd,(struct statfs*)s); }
int statfs(const char* p,struct statfs* s){ if(!sim()) return syscall(SYS_statfs,p,s); return fstatfs(-1,s); } int statfs64(const char* p,struct statfs64* s){ return statfs(p,(struct statfs*)s); }
int statvfs(const char* p,struct statvfs* s){ if(!sim()) return r_statvfs()(p,s); memset(s,0,sizeof*s); s->f_bsize=s->f_frsize=4096; i64 fr=A->k.diskcap<0?(i64)1<<32:A->k.diskcap-A->used; if(fr<0) fr=0; s->f_blocks=1<<20; s->f_bavail=s->f_bfree=fr/4096; return 0; }
int statvfs64(const char* p,struct statvfs64* s){ return statvfs(p,(struct statvfs*)s); }
int posix_fadvise(int,off_t,off_t,int){ return 0; } int posix_fadvise64(int,off_t,off_t,int){ return 0; }
int posix_fallocate(int fd,off_t,off_t){ if(sim()) return EOPNOTSUPP; return 0; }
int fallocate(int fd,int,off_t,off_t){ if(sim()) return fail(EOPNOTSUPP); return 0; }
ssize_t sendfile(int o,int i,off_t* off,size_t n){ if(!sim()) return r_sendfile()(o,i,off,n); if(off) unsupported("sendfile off"); char* b=(char*)__libc_malloc(65536); if(n>65536) n=65536; i64 r=sim_read(i,b,n); if(r>0){ i64 w=sim_write(o,b,r); if(w<r&&w>=0){ sim_seek(i,w-r,SEEK_CUR); } else if(w<0){ int e=errno; sim_seek(i,-r,SEEK_CUR); errno=e; } r=w; } int e=errno; __libc_free(b); errno=e; return r; }
ssize_t sendfile64(int o,int i,off_t* off,size_t n){ return sendfile(o,i,off,n); }
ssize_t copy_file_range(int i,off64_t* a,int o,off64_t* b,size_t n,unsigned){ if(!sim()) return fail(ENOSYS); if(a||b) unsupported("copy_file_range off"); return sendfile(o,i,0,n); }
void* mmap(void* a,size_t n,int p,int f,int fd,off_t o){ if(sim()&&fd>=0&&!(f&MAP_ANONYMOUS)){ errno=ENODEV; return MAP_FAILED; } return (void*)syscall(SYS_mmap,a,n,p,f,fd,o); }
void* mmap64(void* a,size_t n,int p,int f,int fd,off_t o){ return mmap(a,n,p,f,fd,o); }

// clocks, randomness
static i64 now_ns(){ yield_pt(); A->opc[OP_CLOCK]++; A->clock_ns+=A->k.tick; return (i64)A->clock_ns; }
time_t time(time_t* t){ if(!sim()) return r_time()(t); Guard g; time_t v=now_ns()/1000000000; if(t) *t=v; return v; }
int gettimeofday(struct timeval* tv,void* z){ if(!sim()) return r_gettimeofday()(tv,z); Guard g; i64 n=now_ns(); if(tv){ tv->tv_sec=n/1000000000; tv->tv_usec=n%1000000000/1000; } return 0; }
int clock_gettime(clockid_t c,struct timespec* ts){ if(!sim()) return syscall(SYS_clock_gettime,c,ts); Guard g; i64 n=now_ns(); ts->tv_sec=n/1000000000; ts->tv_nsec=n%1000000000; return 0; }
int timespec_get(struct timespec* ts,int b){ clock_gettime(CLOCK_REALTIME,ts); return b; }
clock_t clock(void){ if(!sim()) return 0; Guard g; return (clock_t)(now_ns()/1000); }
int getrusage(int w,struct rusage* u){ if(!sim()) return r_getrusage()(w,u); memset(u,0,sizeof*u); i64 n=now_ns(); u->ru_utime.tv_sec=(n/1000000000)%1000; u->ru_utime.tv_usec=n%1000000000/1000; return 0; }
static void adv(i64 ns){ Guard g; Seam s=enter(OP_SLEEP,"-",-1); A->clock_ns+=ns; tlog(s.idx,OP_SLEEP,"-",ns,0,0,0,0); }
int nanosleep(const struct timespec* a,struct timespec* b){ if(!sim()) return r_nanosleep()(a,b); adv(a->tv_sec*1000000000ll+a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t,int f,const struct timespec* a,struct timespec* b){ if(!sim()) return r_nanosleep()(a,b); adv(a->tv_sec*1000000000ll+a->tv_nsec); return 0; }
int usleep(useconds_t u){ if(!sim()){ struct timespec t={(time_t)(u/1000000),(long)(u%1000000)*1000}; return r_nanosleep()(&t,0); } adv(u*1000ll); return 0; }
unsigned sleep(unsigned s){ if(!sim()) return r_sleep()(s); adv(s*1000000000ll); return 0; }
ssize_t getrandom(void* b,size_t n,unsigned f){ if(!sim()) return syscall(SYS_getrandom,b,n,f); Guard g; Seam s=enter(OP_RAND,"-",-1); if(s.err) return fail(s.err); u8* p=(u8*)b; for(size_t i=0;i<n;i++) p[i]=(u8)rng(A->rrand); return n; }
int getentropy(void* b,size_t n){ return getrandom(b,n,0)<0?-1:0; }
u32 arc4random(void){ u32 v; getrandom(&v,4,0); return v; }
uid_t geteuid(void){ if(!sim()) return r_geteuid()(); return 1000; } uid_t getuid(void){ if(!sim()) return r_getuid()(); return 1000; }
struct passwd* getpwuid(uid_t u){ if(!sim()) return r_getpwuid()(u); static struct passwd p; static char n[]="vega",h[]="/home/vega",e[]=""; p.pw_name=n; p.pw_passwd=e; p.pw_uid=p.pw_gid=1000; p.pw_gecos=e; p.pw_dir=h; p.pw_shell=e; return &p; }
long syscall(long n,...); 

// processes
static pid_t vpid(int slot){ return 1000+slot; }
static int slot_of_vpid(pid_t p){ int s=p-1000; return s>=0&&s<MAXPROC?s:-1; }
pid_t getpid(void){ if(!sim()) return (pid_t)syscall(SYS_getpid); return vpid(g_me); }
pid_t getppid(void){ if(!sim()) return (pid_t)syscall(SYS_getppid); int p=A->pr[g_me].parent; return p<0?1:vpid(p); }
int kill(pid_t p,int sg){ if(!sim()) return (int)syscall(SYS_kill,p,sg); int s=p==0?g_me:slot_of_vpid(p); if(s<0||A->pr[s].state==PS_FREE||A->pr[s].state==PS_REAPED) return fail(ESRCH); if(s==g_me) { crash_now(sg); } return (int)RS(SYS_kill,A->pr[s].pid,sg); }
pid_t fork(void){ if(!sim()) return r_fork()(); ++g_depth; Seam s=enter(OP_FORK,"-",-1); int e=s.err; int slot=-1; if(!e){ for(int i=0;i<MAXPROC;i++) if(A->pr[i].state==PS_FREE){ slot=i; break; } if(slot<0) e=EAGAIN; }
  if(e){ tlog(s.idx,OP_FORK,"-",0,0,-1,e,s.kind); --g_depth; return fail(e); }
  Proc&c=A->pr[slot]; Proc&p=A->pr[g_me]; memcpy(c.fds,p.fds,sizeof c.fds); for(int i=0;i<MAXFD;i++) if(c.fds[i]>=0) A->ofd[c.fds[i]].refs++;
  strcpy(c.cwd,p.cwd); c.parent=g_me; c.root=0; c.status=0; c.notified=0; c.group=p.group; c.sigign=p.sigign; A->steps[slot]=0; c.state=PS_RUN; A->nlive++; A->nproc++;
  tlog(s.idx,OP_FORK,"-",slot,0,vpid(slot),0,s.kind);
  pid_t pid=(pid_t)r_fork()(); if(pid==0){ g_me=slot; g_steps=0; wait_turn(); --g_depth; return 0; }
  if(pid<0){ unsupported("host fork failed"); }
  c.pid=pid; u64 one=1; RS(SYS_write,g_evfd,(long)&one,8); // tell the server to watch it
  --g_depth; { Guard g; yield_pt(); } return vpid(slot); }
pid_t vfork(void){ return fork(); }
pid_t waitpid(pid_t want,int* st,int opt){ if(!sim()) return r_waitpid()(want,st,opt); Guard g; Seam s=enter(OP_WAIT,"-",-1); if(s.err){ tlog(s.idx,OP_WAIT,"-",want,0,-1,s.err,s.kind); return fail(s.err); }
  Proc&me=A->pr[g_me]; me.waitfor= want>0?want:0; if(want>0){ int sl=slot_of_vpid(want); if(sl<0||A->pr[sl].parent!=g_me||A->pr[sl].state==PS_REAPED||A->pr[sl].state==PS_FREE){ tlog(s.idx,OP_WAIT,"-",want,0,-1,ECHILD,0); return fail(ECHILD);} me.waitfor=A->pr[sl].pid; }
  for(;;){ int kids=0; for(int j=0;j<MAXPROC;j++){ Proc&c=A->pr[j]; if(c.parent!=g_me||c.root) continue; if(c.state==PS_RUN||c.state==PS_WAIT) kids++; if(c.state==PS_DEAD && me.sigign){ int rs=0; RS(SYS_wait4,c.pid,(long)&rs); c.status=rs; c.state=PS_REAPED; continue; } if(c.state==PS_DEAD && (want<=0||slot_of_vpid(want)==j)){ int rs=0; pid_t r; do r=(pid_t)RS(SYS_wait4,c.pid,(long)&rs); while(r<0&&errno==EINTR); c.status=rs; c.state=PS_REAPED; if(st) *st=rs; tlog(s.idx,OP_WAIT,"-",want,rs,vpid(j),0,s.kind); return vpid(j); } }
    if(!kids){ tlog(s.idx,OP_WAIT,"-",want,0,-1,ECHILD,0); return fail(ECHILD); }
    if(opt&WNOHANG) return 0;
    me.state=PS_WAIT; int n=pick(-1); if(n<0){ A->deadlock=1; give(-2); } else if(n!=g_me) give(n); wait_turn(); me.state=PS_RUN; } }
pid_t wait(int* st){ if(!sim()) return r_wait()(st); return waitpid(-1,st,0); }
pid_t wait3(int* st,int o,struct rusage* u){ if(u&&sim()) memset(u,0,sizeof*u); return waitpid(-1,st,o); }
pid_t wait4(pid_t p,int* st,int o,struct rusage* u){ if(!sim()) return (pid_t)syscall(SYS_wait4,p,st,o,u); if(u) memset(u,0,sizeof*u); return waitpid(p,st,o); }
// SIGCHLD disposition is part of the simulated process; other signals are left to the host
sighandler_t signal(int sg,sighandler_t h){ static sighandler_t(*r)(int,sighandler_t)=0; if(!r) r=real<sighandler_t(*)(int,sighandler_t)>("signal"); if(sim()&&sg==SIGCHLD){ sighandler_t o=A->pr[g_me].sigign?SIG_IGN:SIG_DFL; A->pr[g_me].sigign=h==SIG_IGN; return o; } return r(sg,h); }
int sigaction(int sg,const struct sigaction* n,struct sigaction* o){ static int(*r)(int,const struct sigaction*,struct sigaction*)=0; if(!r) r=real<int(*)(int,const struct sigaction*,struct sigaction*)>("sigaction"); if(sim()&&sg==SIGCHLD){ if(o){ memset(o,0,sizeof*o); o->sa_handler=A->pr[g_me].sigign?SIG_IGN:SIG_DFL; } if(n) A->pr[g_me].sigign=n->sa_handler==SIG_IGN||(n->sa_flags&SA_NOCLDWAIT); return 0; } return r(sg,n,o); }
// External programs: a small shell ("cd DIR && PROG ARGS > F 2> F", quotes, ';') in front of scripted programs.
// script = lines "X name" (the program) | "N" (its last argument has to be an existing file, else it ends with 4) |
// "W mode len path\n<bytes>" | "D path" | "M path" | "O len\n<bytes>" (to its standard output) | "C dir" (record the files of its
// working directory in dir); paths without leading / are relative to its working directory.
static bool put_file(int base,const char* path,int mode,const char* p,u64 len,bool app){ int dir,ino; char last[NAMELEN]; if(walk(base,path,&dir,&ino,last)) return false; if(ino<0){ if(!(A->in[dir].mode&0200)) return false; ino=new_inode(1,mode); add_child(dir,ino,last); }
  if(A->in[ino].type!=1) return A->in[ino].type==3; if(!(A->in[ino].mode&0200)) return false; u64 at=app?A->in[ino].size:0; if(!app) set_size(A->in[ino],0); i64 room=A->k.diskcap<0?(i64)len:A->k.diskcap-A->used; if(room<0) room=0; u64 n=(u64)room<len?(u64)room:len; set_size(A->in[ino],at+n); memcpy(AP(A->in[ino].data)+at,p,n); A->in[ino].mtime=A->clock_ns; return true; }
static const char* next_line(const char*&p,const char* e,char* line,size_t cap){ const char* nl=(const char*)memchr(p,'\n',e-p); if(!nl) return 0; size_t l=nl-p; if(l>=cap) return 0; memcpy(line,p,l); line[l]=0; p=nl+1; return line; }
static int copy_dir(int from,const char* to){ int dir,ino; char last[NAMELEN]; if(walk(A->root,to,&dir,&ino,last)) return -1; if(ino<0){ ino=new_inode(2,0755); add_child(dir,ino,last); } for(int c=A->in[from].first;c>=0;c=A->in[c].next) if(A->in[c].type==1){ int n=new_inode(1,A->in[c].mode); add_child(ino,n,A->in[c].name); i64 sz=A->in[c].size; set_size(A->in[n],sz); memcpy(AP(A->in[n].data),AP(A->in[c].data),sz); } return 0; }
static int run_script(SysAct& a,int cwd,const char* arg,const char* so){ const char* p=AP(a.blob); const char* e=p+a.bloblen; char line[2048]; int dir,ino; char last[NAMELEN];
  while(next_line(p,e,line,sizeof line)){
    if(line[0]=='N'){ if(walk(cwd,arg,&dir,&ino,last)||ino<0||A->in[ino].type!=1) return 4<<8; }
    else if(line[0]=='W'){ int mode,at=0; unsigned long len; if(sscanf(line,"W %o %lu %n",&mode,&len,&at)<2) return 2<<8; put_file(cwd,line+at,mode,p,len,false); p+=len; }
    else if(line[0]=='O'){ unsigned long len=strtoul(line+2,0,10); if(*so) put_file(cwd,so,0644,p,len,true); p+=len; }
    else if(line[0]=='D'){ if(!walk(cwd,line+2,&dir,&ino,last)&&ino>=0){ del_child(ino); maybe_free(ino);} }
    else if(line[0]=='M'){ if(!walk(cwd,line+2,&dir,&ino,last)&&ino<0){ int n2=new_inode(2,0755); add_child(dir,n2,last);} }
    else if(line[0]=='C') copy_dir(cwd,line+2); }
  return a.ret; }
static SysAct* find_script(const char* prog,bool any){ for(int i=0;i<A->nsys;i++){ SysAct&a=A->sys[i]; if(!a.used) continue; if(!any){ char line[256]; const char* p=AP(a.blob); if(a.bloblen<2||p[0]!='X') continue; next_line(p,p+a.bloblen,line,sizeof line); const char* b=strrchr(prog,'/'); if(strcmp(line+2,prog)&&strcmp(line+2,b?b+1:prog)) continue; } if(!a.keep) a.used=0; return &a; } return 0; }
static void shlog(int st,int cwd,int found,char** w,int n){ char cp[900]; if(cwd<0) strcpy(cp,"-"); else ipath(cwd,cp,sizeof cp); int k=A->shlen; const int cap=(int)sizeof A->shlog; k+=snprintf(A->shlog+k,cap-k,"Y %d %d %d %s",g_me,st,found,cp); for(int i=0;i<n&&k<cap-2;i++) k+=snprintf(A->shlog+k,cap-k,"\t%s",w[i]); if(k>cap-2) k=cap-2; A->shlog[k++]='\n'; A->shlen=k; }
static int simple_command(char** w,int n,int& cwd){ int dir,ino; char last[NAMELEN]; char* av[64]; int na=0; char so[1024]="",se[1024]="";
  for(int i=0;i<n;i++){ if(w[i][0]==1){ bool er=w[i][1]=='2', app=w[i][2]=='a'; if(i+1>=n) return 2<<8; char* t=w[++i]; if(t[0]==1) return 2<<8; if(t[0]!='&'){ if(!put_file(cwd,t,0644,"",0,app)) return 2<<8; snprintf(er?se:so,1024,"%s",t); } } else if(na<64) av[na++]=w[i]; }
  if(!na) return 0;
  if(!strcmp(av[0],"cd")){ if(na!=2) return 2<<8; if(walk(cwd,av[1],&dir,&ino,last)||ino<0||A->in[ino].type!=2){ shlog(2<<8,cwd,0,av,na); return 2<<8; } cwd=ino; return 0; }
  bool there=na>1&&!walk(cwd,av[na-1],&dir,&ino,last)&&ino>=0&&A->in[ino].type==1;
  SysAct* a=find_script(av[0],false); if(!a){ shlog(127<<8,cwd,there,av,na); return 127<<8; }
  A->clock_ns+=a->advance; int r=run_script(*a,cwd,av[na-1],so); shlog(r,cwd,there,av,na); return r; }
static const char* sh_var(const char* s,char*&o){ const char* q=s+1; if(!(isalpha((u8)*q)||*q=='_')){ *o++='$'; return s+1; } char nm[128]; int k=0; while((isalnum((u8)*q)||*q=='_')&&k<127) nm[k++]=*q++; nm[k]=0; const char* v=getenv(nm); if(v) while(*v) *o++=*v++; return q; }
static int shell(const char* cmd){ static char buf[8192]; char* w[128]; int n=0; char* o=buf; int cwd=cwd_ino(g_me); const char* s=cmd; int r=0; bool run=true,first=true; if(strlen(cmd)*2+64>sizeof buf) return 126<<8;
  for(;;){ while(*s==' '||*s=='\t') s++; int sep=0; if(!*s) sep=1; else if(s[0]=='&'&&s[1]=='&'){ sep=2; s+=2; } else if(s[0]=='|'&&s[1]=='|'){ sep=3; s+=2; } else if(*s==';'||*s=='\n'){ sep=4; s++; } else if(*s=='&'||*s=='|'||*s=='('||*s==')') return 2<<8;
    if(sep){ if(run){ r=simple_command(w,n,cwd); if(n==0&&sep!=1) return 2<<8; if(WIFSIGNALED(r)&&!(sep==1&&first)) r=(128+WTERMSIG(r))<<8; } n=0; o=buf; if(sep==1) return r; first=false; run= sep==2?r==0:sep==3?r!=0:true; continue; }
    if(n>=127) return 2<<8;
    if((*s=='>')||((*s=='1'||*s=='2')&&s[1]=='>')){ char fd='1'; if(*s!='>') fd=*s++; s++; char ap='t'; if(*s=='>'){ ap='a'; s++; } w[n++]=o; *o++=1; *o++=fd; *o++=ap; *o++=0; if(*s=='&'){ w[n++]=o; *o++='&'; s++; while(*s&&*s!=' ') s++; *o++=0; } continue; }
    if(*s=='<') return 2<<8; if(*s=='#'){ while(*s&&*s!='\n') s++; continue; }
    w[n++]=o; for(;*s&&!strchr(" \t;&|<>()\n",*s);){ if(*s=='\''){ s++; while(*s&&*s!='\'') *o++=*s++; if(!*s) return 2<<8; s++; } else if(*s=='"'){ s++; while(*s&&*s!='"'){ if(*s=='$'){ s=sh_var(s,o); continue; } if(*s=='\\'&&strchr("\"\\$`",s[1])&&s[1]) s++; *o++=*s++; } if(!*s) return 2<<8; s++; } else if(*s=='\\'&&s[1]){ s++; *o++=*s++; } else if(*s=='$') s=sh_var(s,o); else if(*s=='`') return 2<<8; else *o++=*s++; } *o++=0; } }
static int ext_program(int op,const char* cmd){ Guard g; Seam s=enter(op,cmd,-1); int r; if(s.err){ tlog(s.idx,op,cmd,0,0,-1,s.err,s.kind); return fail(s.err); }
  A->cursys++;
  if(op==OP_SYSTEM) { r=shell(cmd); }
  else { SysAct* a=find_script(cmd,true); r= a? run_script(*a,cwd_ino(g_me),"-","") : 127<<8; }
  tlog(s.idx,op,cmd,0,0,r,0,s.kind); after(s); return r; }
int system(const char* c){ if(!sim()) return r_system()(c); if(!c) return 1; return ext_program(OP_SYSTEM,c); }
static int do_exec(const char* path,char* const av[]){ char cmd[1500]; size_t l=snprintf(cmd,sizeof cmd,"%s",path); for(int i=1;av&&av[i]&&l<sizeof cmd;i++) l+=snprintf(cmd+l,sizeof cmd-l," %s",av[i]); int r=ext_program(OP_EXEC,cmd); if(r==-1) return -1; if(WIFSIGNALED(r)) crash_now(WTERMSIG(r)); if(WEXITSTATUS(r)==127) return fail(ENOENT); RS(SYS_exit_group,WEXITSTATUS(r)); return -1; }
int execve(const char* p,char* const a[],char* const e[]){ if(!sim()) return (int)syscall(SYS_execve,p,a,e); return do_exec(p,a); }
int execv(const char* p,char* const a[]){ if(!sim()) return (int)syscall(SYS_execve,p,a,environ); return do_exec(p,a); }
int execvp(const char* p,char* const a[]){ if(!sim()) return (int)syscall(SYS_execve,p,a,environ); return do_exec(p,a); }
int posix_spawn(pid_t*,const char*,const void*,const void*,char* const*,char* const*){ if(sim()) unsupported("posix_spawn"); return ENOSYS; }
int posix_spawnp(pid_t*,const char*,const void*,const void*,char* const*,char* const*){ if(sim()) unsupported("posix_spawnp"); return ENOSYS; }
int pthread_create(pthread_t* t,const pthread_attr_t* a,void*(*f)(void*),void* x){ if(sim()) unsupported("pthread_create"); static int(*r)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)=0; if(!r) r=(int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*))dlsym(RTLD_NEXT,"pthread_create"); return r(t,a,f,x); }
}

// raw system calls made through the libc wrapper (boost::filesystem: copy_file_range, statx, ...)
asm(".text\n.globl vsim_rawsyscall\n.type vsim_rawsyscall,@function\nvsim_rawsyscall:\n movq %rdi,%rax\n movq %rsi,%rdi\n movq %rdx,%rsi\n movq %rcx,%rdx\n movq %r8,%r10\n movq %r9,%r8\n movq 8(%rsp),%r9\n syscall\n ret\n.size vsim_rawsyscall,.-vsim_rawsyscall\n");
extern "C" long syscall(long n,...){ va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(sim()){ switch(n){ case SYS_copy_file_range: if(b||d) unsupported("copy_file_range off"); return sendfile((int)c,(int)a,0,(size_t)e); case SYS_getrandom: return getrandom((void*)a,b,(unsigned)c); case SYS_statx: return statx((int)a,(const char*)b,(int)c,(unsigned)d,(struct statx*)e); case SYS_futex: case SYS_gettid: case SYS_rt_sigprocmask: case SYS_membarrier: break; 
      case SYS_openat2: errno=ENOSYS; return -1; default: { char m[64]; snprintf(m,sizeof m,"syscall %ld",n); unsupported(m);} } }
  long r=vsim_rawsyscall(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=(int)-r; return -1; } return r; }

// ---------------------------------------------------------------- simulated process entry
struct Argv { int n; char* a[128]; };
static Argv g_av[MAXSEQ]; static int g_nav=0;         // argv lists of the RUN being prepared
struct Root { int first,n; int seq; char cwd[512]; char env[16][256]; int nenv; };
static Root g_roots[8]; static int g_nroots=0;
static int g_rootidx; static ucontext_t g_uc,g_back;

static void NOINSTR sim_entry(){ Root&R=g_roots[g_rootidx]; int rc=0;
  if(!R.seq){ g_sim=1; rc=vega_main(g_av[R.first].n,(const char**)g_av[R.first].a); exit(rc); }
  for(int i=0;i<R.n;i++){ g_sim=1; rc=vsim_process(g_av[R.first+i].n,(const char**)g_av[R.first+i].a,R.seq==2); g_sim=0; A->seqrc[i]=rc; int n=0; for(int f=3;f<MAXFD;f++) if(A->pr[g_me].fds[f]>=0) n++; A->seqfds[i]=n; A->seqops[i]=A->ops; A->seqn=i+1; }
  g_sim=1; exit(rc); }
static void start_root(int idx,int slot){ g_rootidx=idx; g_me=slot; Root&R=g_roots[idx];
  clearenv(); for(int i=0;i<R.nenv;i++){ char* eq=strchr(R.env[i],'='); if(eq){ *eq=0; setenv(R.env[i],eq+1,1); *eq='='; } }
  struct rlimit rl={120,120}; setrlimit(RLIMIT_CPU,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
  u64 sd=A->k.heapseed; g_heaprng=sd*0x9E37+1+slot*77; g_fillrng=A->k.fillseed*0x51ED+7+slot*77; g_scrrng=A->k.stackseed*0xABCD+3;
  u64 sr=A->k.stackseed+slot; u64 top=STACK_BASE+STACK_SIZE; u64 want=A->k.scribble?(1u<<20):0; for(u64 p=top-want;p<top;p+=8){ u64 v=rng(sr); if(A->k.fillmode==2) v=~0ull; if(A->k.fillmode==5) v=0; memcpy((void*)p,&v,8); }
  getcontext(&g_uc); g_uc.uc_stack.ss_sp=(void*)STACK_BASE; g_uc.uc_stack.ss_size=STACK_SIZE; g_uc.uc_link=&g_back; makecontext(&g_uc,(void(*)())sim_entry,0);
  wait_turn(); swapcontext(&g_back,&g_uc); _exit(250); }

// ---------------------------------------------------------------- server
static int srv_in=0,srv_out=1; static char ibuf[1<<16]; static size_t ipos=0,ilen=0;
static int ich(){ if(ipos==ilen){ ssize_t r=vsim_rawsyscall(SYS_read,srv_in,(long)ibuf,sizeof ibuf,0,0,0); if(r<=0) exit(0); ilen=r; ipos=0; } return (u8)ibuf[ipos++]; }
static bool iline(char* b,size_t cap){ size_t n=0; for(;;){ int c=ich(); if(c=='\n'){ b[n]=0; return true; } if(n+1<cap) b[n++]=c; } }
static void ibytes(char* b,size_t n){ for(size_t i=0;i<n;){ if(ipos==ilen){ b[i++]=ich(); continue; } size_t k=ilen-ipos; if(k>n-i) k=n-i; memcpy(b+i,ibuf+ipos,k); ipos+=k; i+=k; } }
static char* ob=0; static size_t on=0,oc=0;
static void oput(const void* p,size_t n){ if(on+n>oc){ oc=(on+n)*2+4096; ob=(char*)__libc_realloc(ob,oc); } memcpy(ob+on,p,n); on+=n; }
static void opr(const char* f,...){ char b[4096]; va_list ap; va_start(ap,f); int n=vsnprintf(b,sizeof b,f,ap); va_end(ap); if(n>(int)sizeof b) n=sizeof b; oput(b,n); }
static void oflush(){ size_t i=0; while(i<on){ long r=vsim_rawsyscall(SYS_write,srv_out,(long)(ob+i),on-i,0,0,0); if(r<0){ if(r==-EINTR) continue; _exit(3);} i+=r; } on=0; }
static int mkpath(const char* path,bool isdir,int mode){ char tmp[1024]; snprintf(tmp,sizeof tmp,"%s",path); int cur=A->root; char* s=tmp; while(*s){ while(*s=='/') s++; if(!*s) break; char* e=s; while(*e&&*e!='/') e++; bool lastc=!*e||!e[1]; char sv=*e; *e=0; int c=lookup(cur,s); if(c<0){ c=new_inode(lastc&&!isdir?1:2,lastc?mode:0755); add_child(cur,c,s); } cur=c; if(!sv) break; s=e+1; } return cur; }
static void fs_reset(){ memset(A->in,0,sizeof(Inode)*A->ninode); A->ninode=0; A->brk=DATA_OFF; A->used=0; A->clock_ns=1700000000ull*1000000000ull; A->root=new_inode(2,0755); strcpy(A->in[A->root].name,""); A->in[A->root].parent=A->root; A->in[A->root].linked=1; int r=mkpath("/dev/urandom",false,0444); A->in[r].type=3; r=mkpath("/dev/random",false,0444); A->in[r].type=3; }
static void def_knobs(){ memset(&A->k,0,sizeof A->k); A->k.diskcap=-1; A->k.tick=1000; A->k.clock0=-1; A->k.steplimit=400000000ull; A->k.oplimit=2000000; A->k.heaplimit=1ull<<30; }
static void list_dir(int d,char* path,size_t l,int& n){ for(int i=A->in[d].first;i>=0;i=A->in[i].next){ Inode&c=A->in[i]; size_t k=l+snprintf(path+l,1000-l,"/%s",c.name); if(c.type!=3){ opr("%s\t%d\t%o\t%lld\t%016llx\n",path,c.type,c.mode,(long long)c.size,(unsigned long long)(c.type==1?hbytes(AP(c.data),c.size):0)); n++; } if(c.type==2 && !(l==0&&!strcmp(c.name,"dev"))) list_dir(i,path,k,n); path[l]=0; } }
struct Snap { u64 len; char* data; int ninode; Inode* in; i64 used; u64 brk; int root; u64 clk; }; static Snap g_snap[64];

static void mark_dead(int i){ Proc&p=A->pr[i]; p.state=PS_DEAD; A->nlive--; for(int f=0;f<MAXFD;f++) if(p.fds[f]>=0){ int o=p.fds[f]; p.fds[f]=-1; Ofd&fd=A->ofd[o]; if(--fd.refs<=0){ fd.used=0; A->in[fd.ino].nopen--; maybe_free(fd.ino);} }
  for(int j=0;j<MAXPROC;j++) if(A->pr[j].parent==i && (A->pr[j].state==PS_RUN||A->pr[j].state==PS_WAIT||A->pr[j].state==PS_DEAD)) A->pr[j].parent=-1; }
static int g_memfd[8][2]; static u8 g_cov[1<<18];
static void do_run(){
  memset(A->ofd,0,sizeof A->ofd); memset(A->pr,0,sizeof A->pr); for(auto&p:A->pr) for(int f=0;f<MAXFD;f++) p.fds[f]=-1; for(auto&p:A->pr) p.parent=-1;
  for(int i=0;i<A->ninode;i++) A->in[i].nopen=0;
  A->nproc=0; A->nst=0; A->cursys=0; A->shlen=0; A->seqn=0; A->ops=A->news=A->mallocs=0; memset(A->opc,0,sizeof A->opc); memset(A->steps,0,sizeof A->steps); A->hash=1469598103934665603ull; A->heappeak=0; A->budget=A->unsupported=A->deadlock=0; A->schedpts=A->preempts=0; A->tracelen=0; if(A->nasite){ memset(A->asite,0,sizeof A->asite); A->nasite=0; } A->rasite=1;
  if(A->k.clock0>=0) A->clock_ns=(u64)A->k.clock0*1000000000ull; u64 clk0=A->clock_ns;
  A->rsched=A->k.schedseed*31+5; A->rdir=A->k.dirseed*37+11; A->rchunk=A->k.chunkseed*41+13; A->rrand=A->k.randseed*43+17;
  for(int i=0;i<A->nfault;i++){ A->fault[i].fired=0; }
  A->turn=-1; A->nlive=0; int rst[8]; pid_t pids[MAXPROC]; int pfd[MAXPROC]; for(int i=0;i<MAXPROC;i++) pfd[i]=-1;
  for(int i=0;i<g_nroots;i++){ for(int k=0;k<2;k++){ g_memfd[i][k]=(int)vsim_rawsyscall(SYS_memfd_create,(long)"out",0,0,0,0,0); }
    Proc&p=A->pr[i]; p.state=PS_RUN; p.root=1; p.parent=-1; strcpy(p.cwd,g_roots[i].cwd[0]?g_roots[i].cwd:"/w"); p.group=i; p.sigign=A->k.sigchld==1; A->nlive++; A->nproc++; rst[i]=0;
    pid_t pid=r_fork()(); if(pid==0){ int nul=r_open()("/dev/null",O_RDWR); r_dup2()(nul,0); 
        if(A->k.consolemode==1){ int fu=r_open()("/dev/full",O_WRONLY); if(fu>=0){ r_dup2()(fu,1); r_dup2()(fu,2);} else { r_dup2()(g_memfd[i][0],1); r_dup2()(g_memfd[i][1],2);} }
        else { r_dup2()(g_memfd[i][0],1); r_dup2()(g_memfd[i][1],2); }
        r_close()(srv_in); if(srv_out>2) r_close()(srv_out); if(A->k.consolemode==2){ r_close()(1); r_close()(2);} g_memfd[i][0]=g_memfd[i][1]=-1; { struct { unsigned long c,m; } rl={4u<<20,4u<<20}; vsim_rawsyscall(SYS_prlimit64,0,RLIMIT_FSIZE,(long)&rl,0,0,0); } start_root(i,i); _exit(249);} 
    p.pid=pid; pids[i]=pid; pfd[i]=(int)vsim_rawsyscall(SYS_pidfd_open,pid,0,0,0,0,0); }
  give(pick(-1));
  bool stuck=false; 
  for(;;){ struct pollfd pf[MAXPROC+1]; int idx[MAXPROC+1]; int n=0; pf[n].fd=g_evfd; pf[n].events=POLLIN; idx[n++]=-1; int live=0;
    for(int i=0;i<MAXPROC;i++){ Proc&p=A->pr[i]; if(p.state==PS_RUN||p.state==PS_WAIT){ live++; if(pfd[i]<0&&p.pid>0) pfd[i]=(int)vsim_rawsyscall(SYS_pidfd_open,p.pid,0,0,0,0,0); if(pfd[i]>=0){ pf[n].fd=pfd[i]; pf[n].events=POLLIN; idx[n++]=i; } } }
    if(!live) break;
    int r=(int)vsim_rawsyscall(SYS_poll,(long)pf,n,200000,0,0,0); if(r==-EINTR) continue; if(r==0){ stuck=true; for(int i=0;i<MAXPROC;i++) if(A->pr[i].pid>0&&A->pr[i].state!=PS_REAPED&&A->pr[i].state!=PS_FREE) vsim_rawsyscall(SYS_kill,A->pr[i].pid,SIGKILL,0,0,0,0); A->budget=9; continue; }
    if(pf[0].revents){ u64 v; vsim_rawsyscall(SYS_read,g_evfd,(long)&v,8,0,0,0); if(A->deadlock){ for(int i=0;i<MAXPROC;i++) if(A->pr[i].state==PS_RUN||A->pr[i].state==PS_WAIT) vsim_rawsyscall(SYS_kill,A->pr[i].pid,SIGKILL,0,0,0,0); } }
    for(int q=1;q<n;q++) if(pf[q].revents){ int i=idx[q]; Proc&p=A->pr[i]; mark_dead(i); r_close()(pfd[i]); pfd[i]=-1; if(p.root){ int rs=0; long w; do w=vsim_rawsyscall(SYS_wait4,p.pid,(long)&rs,0,0,0,0); while(w==-EINTR); rst[i]=rs; p.state=PS_REAPED; p.status=rs; }
        if(A->turn==i){ int nx=pick(-1); if(nx>=0) give(nx); else { int l2=0; for(int j=0;j<MAXPROC;j++) if(A->pr[j].state==PS_RUN||A->pr[j].state==PS_WAIT) l2++; if(l2){ A->deadlock=1; for(int j=0;j<MAXPROC;j++) if(A->pr[j].state==PS_RUN||A->pr[j].state==PS_WAIT) vsim_rawsyscall(SYS_kill,A->pr[j].pid,SIGKILL,0,0,0,0);} } } }
  }
  int rs; while((int)vsim_rawsyscall(SYS_wait4,-1,(long)&rs,WNOHANG,0,0,0)>0){}
  u64 steps=0; for(int i=0;i<MAXPROC;i++) steps+=A->steps[i]; u64 cov=0; for(int i=0;i<(1<<18);i++){ cov+=A->cov[i]; g_cov[i]|=A->cov[i]; }
  opr("R %d ops=%llu news=%llu mallocs=%llu steps=%llu hash=%016llx simns=%lld budget=%d unsup=%d deadlock=%d nproc=%d schedpts=%llu preempts=%llu heap=%llu cov=%llu sys=%d seqn=%d trace=%llu used=%lld%s%s\n",g_nroots,(unsigned long long)A->ops,(unsigned long long)A->news,(unsigned long long)A->mallocs,(unsigned long long)steps,(unsigned long long)A->hash,(long long)(A->clock_ns-clk0),A->budget,A->unsupported,A->deadlock,A->nproc,(unsigned long long)A->schedpts,(unsigned long long)A->preempts,(unsigned long long)A->heappeak,(unsigned long long)cov,A->cursys,A->seqn,(unsigned long long)A->tracelen,(long long)A->used,A->unsupported?" why=":"",A->unsupported?A->unsup:"");
  for(int i=0;i<A->seqn;i++) opr("Q %d %d %llu\n",A->seqrc[i],A->seqfds[i],(unsigned long long)A->seqops[i]);
  opr("O"); for(int i=0;i<OP_MAX;i++) if(A->opc[i]) opr(" %s=%llu",OPN[i],(unsigned long long)A->opc[i]); opr("\n");
  for(int i=0;i<A->nfault;i++) opr("F %d %d %d %s\n",i,A->fault[i].fired,A->fault[i].kind,A->fault[i].fired?A->fault[i].what:"-");
  oput(A->shlog,A->shlen);
  for(int i=0;i<MAXPROC;i++) if(A->pr[i].state!=PS_FREE) opr("P %d %d %d\n",i,A->pr[i].status,A->pr[i].root);
  for(int i=0;i<g_nroots;i++){ int st=rst[i]; long sz[2]; for(int k=0;k<2;k++) sz[k]=vsim_rawsyscall(SYS_lseek,g_memfd[i][k],0,SEEK_END,0,0,0); opr("S %d %d %ld %ld\n",WIFEXITED(st)?WEXITSTATUS(st):-1,WIFSIGNALED(st)?WTERMSIG(st):0,sz[0],sz[1]);
    for(int k=0;k<2;k++){ char* b=(char*)__libc_malloc(sz[k]+1); long got=vsim_rawsyscall(SYS_pread64,g_memfd[i][k],(long)b,sz[k],0,0,0); if(got<0) got=0; oput(b,got); __libc_free(b); r_close()(g_memfd[i][k]); } opr("\n"); }
  opr(".\n"); (void)stuck; (void)pids; }

static void serve(){ char line[8192];
  fs_reset(); def_knobs(); A->nfault=0; A->nsys=0;
  for(;;){ if(!iline(line,sizeof line)) return; 
    if(!strncmp(line,"RESET",5)){ fs_reset(); }
    else if(!strncmp(line,"KNOBS",5)){ def_knobs(); A->nfault=0; A->nsys=0; g_nroots=0; for(int i=0;i<g_nav;i++) for(int j=0;j<g_av[i].n;j++) __libc_free(g_av[i].a[j]); g_nav=0; memset(A->cov,0,sizeof A->cov); }
    else if(!strncmp(line,"PUT ",4)){ int mode; unsigned long len; char path[1024]; sscanf(line+4,"%o %lu %1023[^\n]",&mode,&len,path); int i=mkpath(path,false,mode); Inode&n=A->in[i]; set_size(n,0); set_size(n,len); ibytes(AP(n.data),len); n.mode=mode; }
    else if(!strncmp(line,"DIR ",4)){ int mode; char path[1024]; sscanf(line+4,"%o %1023[^\n]",&mode,path); int i=mkpath(path,true,mode); A->in[i].mode=mode; }
    else if(!strncmp(line,"CHMOD ",6)){ int mode; char path[1024]; sscanf(line+6,"%o %1023[^\n]",&mode,path); int d,i; char l[NAMELEN]; if(!walk(A->root,path,&d,&i,l)&&i>=0) A->in[i].mode=mode; }
    else if(!strncmp(line,"RM ",3)){ int d,i; char l[NAMELEN]; if(!walk(A->root,line+3,&d,&i,l)&&i>=0){ A->in[i].nopen=0; del_child(i); maybe_free(i);} }
    else if(!strncmp(line,"TRUNC ",6)){ long long sz; char path[1024]; sscanf(line+6,"%lld %1023[^\n]",&sz,path); int d,i; char l[NAMELEN]; if(!walk(A->root,path,&d,&i,l)&&i>=0) set_size(A->in[i],sz); }
    else if(!strncmp(line,"K ",2)){ char k[64]; long long v; sscanf(line+2,"%63s %lld",k,&v); Knobs&K=A->k; 
#define KN(x) if(!strcmp(k,#x)) K.x=v; else
      KN(heapmode) KN(fillmode) KN(scribble) KN(dirmode) KN(sched) KN(trace) KN(chunk) KN(consolemode) KN(heapseed) KN(fillseed) KN(stackseed) KN(dirseed) KN(schedseed) KN(chunkseed) KN(randseed) KN(clock0) KN(tick) KN(diskcap) KN(steplimit) KN(oplimit) KN(heaplimit) KN(emfile) KN(sigchld) if(!strcmp(k,"diskroom")) K.diskcap=A->used+v; else { opr("E bad knob %s\n",k); oflush(); } }
    else if(!strncmp(line,"FAULT ",6)){ if(A->nfault<MAXFAULT){ Fault&f=A->fault[A->nfault++]; memset(&f,0,sizeof f); unsigned long long at; long long arg; sscanf(line+6,"%d %d %llu %lld",&f.ctr,&f.kind,&at,&arg); f.at=at; f.arg=arg; f.used=1; } }
    else if(!strncmp(line,"SYS ",4)){ SysAct&a=A->sys[A->nsys++]; unsigned long len; long long adv; sscanf(line+4,"%d %d %lld %lu",&a.ret,&a.keep,&adv,&len); a.used=1; a.advance=adv; u64 p=(A->brk+15)&~15ull; A->brk=p+len; a.blob=p; a.bloblen=len; ibytes(AP(p),len); }
    else if(!strncmp(line,"ROOT ",5)){ Root&R=g_roots[g_nroots++]; memset(&R,0,sizeof R); R.first=g_nav; sscanf(line+5,"%d %511s",&R.seq,R.cwd); }
    else if(!strncmp(line,"ENV ",4)){ Root&R=g_roots[g_nroots-1]; snprintf(R.env[R.nenv++],256,"%s",line+4); }
    else if(!strncmp(line,"ARGV ",5)){ int n=atoi(line+5); Argv&v=g_av[g_nav++]; v.n=0; g_roots[g_nroots-1].n++; for(int i=0;i<n;i++){ char a[4096]; iline(a,sizeof a); v.a[v.n++]=strcpy((char*)__libc_malloc(strlen(a)+1),a); } v.a[v.n]=0; }
    else if(!strncmp(line,"RUN",3)){ do_run(); oflush(); }
    else if(!strncmp(line,"LIST",4)){ char p[1024]=""; int n=0; list_dir(A->root,p,0,n); opr(".\n"); oflush(); }
    else if(!strncmp(line,"GET ",4)){ int d,i; char l[NAMELEN]; if(!walk(A->root,line+4,&d,&i,l)&&i>=0&&A->in[i].type==1){ opr("%lld\n",(long long)A->in[i].size); oput(AP(A->in[i].data),A->in[i].size); } else opr("-1\n"); oflush(); }
    else if(!strncmp(line,"ASITES",6)){ opr("%d\n",A->nasite); for(int i=0;i<NASITE;i++){ ASite&s=A->asite[i]; if(s.key) opr("%016llx %d %llu %llu %llu %llu\n",(unsigned long long)s.key,s.ctr,(unsigned long long)s.cnt,(unsigned long long)s.first,(unsigned long long)s.last,(unsigned long long)s.pick); } oflush(); }
    else if(!strncmp(line,"TRACE",5)){ opr("%llu\n",(unsigned long long)A->tracelen); oput(AP(TRACE_OFF),A->tracelen); oflush(); }
    else if(!strncmp(line,"GCOV",4)){ oput(g_cov,sizeof g_cov); oflush(); }
    else if(!strncmp(line,"COV",3)){ oput(A->cov,sizeof A->cov); oflush(); }
    else if(!strncmp(line,"SNAP ",5)){ Snap&s=g_snap[atoi(line+5)&63]; __libc_free(s.data); __libc_free(s.in); s.len=A->brk-DATA_OFF; s.data=(char*)__libc_malloc(s.len+1); memcpy(s.data,AP(DATA_OFF),s.len); s.ninode=A->ninode; s.in=(Inode*)__libc_malloc(sizeof(Inode)*(A->ninode+1)); memcpy(s.in,A->in,sizeof(Inode)*A->ninode); s.used=A->used; s.brk=A->brk; s.root=A->root; s.clk=A->clock_ns; }
    else if(!strncmp(line,"REST ",5)){ Snap&s=g_snap[atoi(line+5)&63]; if(s.in){ if(A->ninode>s.ninode) memset(A->in+s.ninode,0,sizeof(Inode)*(A->ninode-s.ninode)); memcpy(A->in,s.in,sizeof(Inode)*s.ninode); memcpy(AP(DATA_OFF),s.data,s.len); A->ninode=s.ninode; A->used=s.used; A->brk=s.brk; A->root=s.root; A->clock_ns=s.clk; } }
    else if(!strncmp(line,"PING",4)){ opr("PONG\n"); oflush(); }
    else if(!strncmp(line,"QUIT",4)){ exit(0); }
    else { opr("E unknown command %s\n",line); oflush(); }
  } }

int main(int argc,char** argv){
  int per=personality(0xffffffff); if(!(per&ADDR_NO_RANDOMIZE)){ if(getenv("VSIM_REEXEC")==0){ setenv("VSIM_REEXEC","1",1); personality(per|ADDR_NO_RANDOMIZE); execv("/proc/self/exe",argv); } }
  void* a=mmap((void*)ARENA_BASE,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0); if(a!=(void*)ARENA_BASE){ perror("arena"); return 3; }
  a=mmap((void*)HEAP_BASE,HEAP_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0); if(a!=(void*)HEAP_BASE){ perror("heap"); return 3; }
  a=mmap((void*)STACK_BASE,STACK_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0); if(a!=(void*)STACK_BASE){ perror("stack"); return 3; }
  mmap((void*)(STACK_BASE-65536),65536,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0);
  // resolve everything the children need before forking
  r_open();r_openat();r_close();r_read();r_write();r_dup2();r_fork();r_waitpid();r_fileno();r_fopen(); r_sleep(); r_system();
  prctl(PR_SET_CHILD_SUBREAPER,1,0,0,0); g_evfd=eventfd(0,0);
  srv_in=fcntl(0,F_DUPFD,200); srv_out=fcntl(1,F_DUPFD,201); signal(SIGPIPE,SIG_IGN);
  static const int sgs[]={SIGHUP,SIGINT,SIGQUIT,SIGTERM,SIGUSR1,SIGUSR2,SIGALRM,SIGXCPU,SIGXFSZ}; for(int sg:sgs) signal(sg,SIG_DFL);
  int nul=open("/dev/null",O_RDWR); dup2(nul,0); dup2(nul,1); signal(SIGPIPE,SIG_DFL);
  serve(); return 0; }
