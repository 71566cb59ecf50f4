// iosim: deterministic simulation of processes and their file system.
//
// Runs one or more real, statically linked programs as traced children.
// Every system call that can observe or change anything outside the
// process is answered by this simulator from an in-memory file system; the
// kernel never sees it.  Only one child runs at a time: the schedule (a
// list of integers) decides which child performs its next file operation,
// and the fault plan decides which operation fails and how.  A run is a
// pure function of the request read from stdin and of the program.
//
// Request (one item per line, strings hex encoded, "-" = empty):
//   RUN
//   file <name> <content>          initial regular file in the work directory
//   proc <program> <mainaddr-hex> <argc> <arg>...   (args include argv[0])
//   env <proc> <KEY=VALUE>
//   alloc <proc> <addr-hex>...     entry points of malloc, calloc, realloc
//   mem <proc> <seed>              stack/AT_RANDOM garbage seed
//   pid <proc> <pid>, umask <proc> <bits>, clock <seconds> <ns per reading>
//   cap <bytes>                    disk capacity: writes beyond it get ENOSPC
//   fault <proc> <class> <ordinal> <kind> <param>
//        class: open write close mem meta any     (ordinal counts from 0)
//        kind : errno number as "e<N>", "short" (param=max bytes), "stick<N>"
//               (this and all later ones of the class fail with errno N),
//               "kill" (die before), "killafter" (die after the call took effect)
//   sched <int>...
//   trace                          print every simulated call
//   END
//   GET <name>                     content of a file after the last run
// Response:
//   P <proc> exit|signal|killed <code> <nfileops> <stderr> <stdout>
//   F <name> <size> <hash>
//   X <proc> <class> <ordinal> <kind>     (a fault that actually fired)
//   T <text>                              (trace)
//   C <proc> <class> <count>
//   B <switches> <steps>
//   H <hash of the complete event log>
//   END
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <elf.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <climits>
using namespace std;
typedef uint64_t u64;

static u64 splitmix(u64 &s){ u64 z=(s+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
struct Hash{ u64 a=0xcbf29ce484222325ULL,b=0x84222325cbf29ce4ULL;
  void add(const void*p,size_t n){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){ a=(a^c[i])*0x100000001b3ULL; b=(b+c[i]+1)*0x9E3779B97F4A7C15ULL; b^=b>>29; } }
  void add(const string&s){ u64 n=s.size(); add(&n,8); add(s.data(),s.size()); }
  string hex()const{ char t[40]; snprintf(t,40,"%016lx%016lx",a,b); return t; } };

static string unhex(const string&s){ if(s=="-")return ""; string o; o.reserve(s.size()/2); auto v=[](char c){return c<='9'?c-'0':c-'a'+10;}; for(size_t i=0;i+1<s.size();i+=2)o.push_back((char)(v(s[i])*16+v(s[i+1]))); return o; }
static string tohex(const string&s){ if(s.empty())return "-"; static const char*d="0123456789abcdef"; string o; o.reserve(2*s.size()); for(unsigned char c:s){o.push_back(d[c>>4]);o.push_back(d[c&15]);} return o; }

struct OFD; struct Lock{ weak_ptr<OFD> ofd; int proc=-1; bool ex; bool whole; long lo=0,hi=0; };   // proc>=0: POSIX record lock; whole: flock
struct Inode{ vector<Lock> locks; bool dir=false; string data; map<string,shared_ptr<Inode>> ent; u64 ino=0; mode_t mode=0644; int nlink=1; };
typedef shared_ptr<Inode> IP;
struct OFD{ IP ino; u64 off=0; int flags=0; int stream=-1; bool null=false; bool rnd=false; size_t dirpos=0; };
typedef shared_ptr<OFD> OP;
struct Fault{ string cls; long ord; string kind; long param; bool fired=false; };
struct Proc{ pid_t pid=-1; string prog; u64 mainaddr=0; vector<string> argv, env; u64 memseed=0; bool havemem=false; vector<u64> allocbp; map<u64,u64> orig;
  map<int,OP> fds; map<int,bool> cloexec; string cwd="/work"; string out[3]; map<string,long> cnt; map<string,int> stick; vector<Fault> faults;
  int state=0; /*0 at syscall entry pending,1 done*/ string how; int code=0; long nops=0; struct user_regs_struct regs; int fakepid; mode_t um=022; u64 rnd=1; };

static IP root; static u64 nextino; static vector<Proc> P; static Hash H; static bool tracing; static vector<string> traceout; static long cap=-1;
static set<string> made; static vector<string> firedlog; static long clk_sec,clk_ns,clk_step;
static void tick(){ clk_ns+=clk_step; clk_sec+=clk_ns/1000000000; clk_ns%=1000000000; if(clk_ns<0){clk_ns+=1000000000;clk_sec--;} }

static void logev(const string&s){ H.add(s); if(tracing) traceout.push_back(s); }
static IP newino(bool dir){ auto i=make_shared<Inode>(); i->dir=dir; i->ino=++nextino; if(dir)i->mode=0755; return i; }

static vector<string> splitpath(const string&cwd,const string&p){ string full=p.size()&&p[0]=='/'?p:cwd+"/"+p; vector<string> v; size_t i=0; while(i<=full.size()){ size_t j=full.find('/',i); if(j==string::npos)j=full.size(); string c=full.substr(i,j-i); if(c==".."){ if(v.size())v.pop_back(); } else if(c.size()&&c!=".")v.push_back(c); i=j+1; } return v; }
// lookup parent; returns errno or 0
static int parent(const string&cwd,const string&p,IP&par,string&name){ if(p.empty())return ENOENT; auto v=splitpath(cwd,p); if(v.empty()){par=root;name="";return 0;} par=root; for(size_t i=0;i+1<v.size();i++){ auto it=par->ent.find(v[i]); if(it==par->ent.end())return ENOENT; par=it->second; if(!par->dir)return ENOTDIR; } name=v.back(); if(name.size()>255)return ENAMETOOLONG; return 0; }
static IP find(const string&cwd,const string&p,int&e){ IP par; string n; e=parent(cwd,p,par,n); if(e)return nullptr; if(n.empty())return par; auto it=par->ent.find(n); if(it==par->ent.end()){e=ENOENT;return nullptr;} return it->second; }
static long usage(){ long t=0; vector<IP> st{root}; while(st.size()){ IP i=st.back(); st.pop_back(); if(i->dir) for(auto&k:i->ent)st.push_back(k.second); else t+=i->data.size(); } return t; }

static bool rd(Proc&p,u64 addr,void*buf,size_t n){ struct iovec l={buf,n},r={(void*)addr,n}; return n==0||process_vm_readv(p.pid,&l,1,&r,1,0)==(ssize_t)n; }
static bool wr(Proc&p,u64 addr,const void*buf,size_t n){ struct iovec l={(void*)buf,n},r={(void*)addr,n}; return n==0||process_vm_writev(p.pid,&l,1,&r,1,0)==(ssize_t)n; }
static bool rdstr(Proc&p,u64 a,string&s){ s.clear(); for(;;){ char c[64]; size_t n=64-(a&63); if(!rd(p,a,c,n))return false; for(size_t i=0;i<n;i++){ if(!c[i])return true; s.push_back(c[i]); } a+=n; if(s.size()>4096)return false; } }

static int lowfd(Proc&p,int from=0){ int f=from; while(p.fds.count(f))f++; return f; }
static void fillstat(struct stat*st,IP i){ memset(st,0,sizeof *st); st->st_dev=1; st->st_ino=i->ino; st->st_mode=(i->dir?S_IFDIR:S_IFREG)|i->mode; st->st_nlink=i->nlink; st->st_size=i->dir?4096:i->data.size(); st->st_blksize=4096; st->st_blocks=(st->st_size+511)/512; st->st_mtim.tv_sec=1600000000; st->st_atim=st->st_ctim=st->st_mtim; }
static void fillstat_ofd(struct stat*st,OP o){ if(o->ino){fillstat(st,o->ino);return;} memset(st,0,sizeof*st); st->st_dev=2; st->st_ino=5+o->stream; st->st_mode=(o->stream>=0?S_IFIFO:S_IFCHR)|0600; st->st_nlink=1; st->st_blksize=4096; }

static long uid_of(const Proc&p){ return (long[]){1000,0,65534,1001}[p.fakepid/32%4]; }   // files count as owned by whoever runs; only root ignores their mode
static long do_open(Proc&p,const string&path,int flags,mode_t mode){
  int e; IP par; string n;
  if(path=="/dev/null"||path=="/dev/urandom"||path=="/dev/random"){ auto o=make_shared<OFD>(); o->flags=flags; o->null=true; o->rnd=path!="/dev/null"; int f=lowfd(p); p.fds[f]=o; return f; }
  e=parent(p.cwd,path,par,n); if(e)return -e;
  if(path.size()&&path.back()=='/'&&(flags&O_CREAT))return -EISDIR;
  IP i; if(n.empty())i=par; else { auto it=par->ent.find(n); if(it!=par->ent.end())i=it->second; }
  int acc=flags&O_ACCMODE;
  if((flags&O_TMPFILE)==O_TMPFILE)return -EOPNOTSUPP;
  if(i){ if((flags&O_CREAT)&&(flags&O_EXCL))return -EEXIST; if(i->dir&&(acc!=O_RDONLY||(flags&O_CREAT)))return -EISDIR; if(!i->dir&&(flags&O_DIRECTORY))return -ENOTDIR; if(!i->dir&&uid_of(p)!=0&&((acc!=O_WRONLY&&!(i->mode&0400))||(acc!=O_RDONLY&&!(i->mode&0200))))return -EACCES; if((flags&O_TRUNC)&&!i->dir&&acc!=O_RDONLY)i->data.clear(); }
  else { if(!(flags&O_CREAT))return -ENOENT; i=newino(false); i->mode=(mode&~p.um)&07777; par->ent[n]=i; if(par==root->ent["work"])made.insert(n); }
  auto o=make_shared<OFD>(); o->ino=i; o->flags=flags; int f=lowfd(p); p.fds[f]=o; return f; }

static long do_write(Proc&p,OP o,const string&d,long at,long maxn){
  if(o->stream>=0){ p.out[o->stream==2?2:1]+=d; return d.size(); }
  if(o->null)return d.size();
  if((o->flags&O_ACCMODE)==O_RDONLY)return -EBADF;
  if(o->ino->dir)return -EISDIR;
  size_t n=d.size(); if(maxn>=0&&(size_t)maxn<n)n=maxn;
  u64 pos=at>=0?(u64)at:((o->flags&O_APPEND)?o->ino->data.size():o->off);
  string&data=o->ino->data;
  if(pos+n>(1u<<28))return -EFBIG;
  if(cap>=0){ long grow=(long)(pos+n)-(long)data.size(); if(grow>0){ long room=cap-usage(); if(room<grow){ long k=(long)n-(grow-(room>0?room:0)); firedlog.push_back("X 0 write -1 diskfull"); if(k<=0)return -ENOSPC; n=k; } } }
  if(pos>data.size())data.resize(pos,'\0');
  if(pos+n>data.size())data.resize(pos+n);
  memcpy(&data[pos],d.data(),n);
  if(at<0)o->off=pos+n;
  return n; }

static const char* cls_of(long nr){
  switch(nr){
  case SYS_open: case SYS_openat: case SYS_creat: return "open";
  case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_pwritev: return "write";
  case SYS_close: return "close";
  case SYS_brk: case SYS_mmap: case SYS_mremap: return "mem";
  case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_link: case SYS_linkat: case SYS_ftruncate: case SYS_truncate: case SYS_fsync: case SYS_fdatasync: case SYS_mkdir: case SYS_mkdirat: case SYS_lseek: case SYS_fstat: case SYS_newfstatat: case SYS_stat: case SYS_read: case SYS_fallocate: case SYS_sync_file_range: case SYS_chmod: case SYS_fchmod: case SYS_fchmodat: case SYS_access: case SYS_faccessat: case 439: return "meta";
  case SYS_flock: case SYS_fcntl: return "lock";
  case SYS_nanosleep: case SYS_clock_nanosleep: return "sleep";
  } return nullptr; }

// locks: what p asks for with its pending call, if anything
struct Want{ OP o; Lock l; bool wait=false, unlock=false, get=false; u64 addr=0; };
static bool lock_wanted(Proc&p,const struct user_regs_struct&r,Want&w){
  auto it=p.fds.find((int)r.rdi); if(it==p.fds.end()||!it->second->ino)return false; w.o=it->second;
  if((long)r.orig_rax==SYS_flock){ int op=(int)r.rsi; w.wait=!(op&4); op&=~4; w.unlock=op==8; w.l.ex=op==2; w.l.whole=true; w.l.ofd=w.o; return true; }
  if((long)r.orig_rax!=SYS_fcntl)return false;
  int c=(int)r.rsi; bool ofd=c>=36&&c<=38; if(!ofd&&(c<F_GETLK||c>F_SETLKW))return false;
  struct flock f; if(!rd(p,r.rdx,&f,sizeof f))return false;
  w.addr=r.rdx; w.get=c==F_GETLK||c==36; w.wait=c==F_SETLKW||c==38; w.unlock=f.l_type==F_UNLCK; w.l.ex=f.l_type==F_WRLCK; w.l.whole=false;
  long base=f.l_whence==SEEK_CUR?(long)w.o->off:f.l_whence==SEEK_END?(long)w.o->ino->data.size():0; w.l.lo=base+f.l_start; w.l.hi=f.l_len==0?LONG_MAX:w.l.lo+f.l_len; if(f.l_len<0){w.l.hi=w.l.lo;w.l.lo+=f.l_len;}
  if(ofd)w.l.ofd=w.o; else w.l.proc=(int)(&p-&P[0]);
  return true; }
static bool lock_gone(const Lock&l){ return l.proc>=0?P[l.proc].state==1:l.ofd.expired(); }
static bool lock_mine(const Lock&l,const Want&w){ return l.proc>=0?l.proc==w.l.proc:w.l.proc<0&&l.ofd.lock()==w.o; }
static bool lock_free(const Want&w){ for(auto&l:w.o->ino->locks){ if(lock_gone(l)||l.whole!=w.l.whole||lock_mine(l,w))continue; if((l.ex||w.l.ex)&&(l.whole||(l.lo<w.l.hi&&w.l.lo<l.hi)))return false; } return true; }
static bool blocked(Proc&p){ long nr=p.regs.orig_rax; if(nr!=SYS_flock&&nr!=SYS_fcntl)return false; Want w; return lock_wanted(p,p.regs,w)&&w.wait&&!w.unlock&&!lock_free(w); }
static long do_lock(Proc&p,Want&w){
  auto&v=w.o->ino->locks;
  if(w.get){ if(lock_free(w)){ short t=F_UNLCK; wr(p,w.addr,&t,2); } return 0; }
  if(!w.unlock&&!lock_free(w))return w.l.whole?-EWOULDBLOCK:-EAGAIN;
  vector<Lock> n; for(auto&l:v){ if(lock_gone(l))continue; if(l.whole!=w.l.whole||!lock_mine(l,w)){n.push_back(l);continue;} if(l.whole)continue;
    if(l.lo<w.l.lo){Lock x=l;x.hi=min(x.hi,w.l.lo);n.push_back(x);} if(l.hi>w.l.hi){Lock x=l;x.lo=max(x.lo,w.l.hi);n.push_back(x);} }
  if(!w.unlock)n.push_back(w.l); v=n; return 0; }

enum Act{ PASS, EMU };
// emulate call; returns PASS when the kernel may run it (memory and process-local calls only)
static Act emulate(Proc&p,struct user_regs_struct&r,long&ret,string&desc,bool&exiting,long shortn){
  long nr=r.orig_rax; u64 a0=r.rdi,a1=r.rsi,a2=r.rdx,a3=r.r10; char b[256];
  auto getfd=[&](u64 f)->OP{ auto it=p.fds.find((int)f); return it==p.fds.end()?nullptr:it->second; };
  auto base=[&](u64 dfd,const string&path)->string{ (void)dfd;(void)path; return p.cwd; };
  string path,path2; OP o; int e;
  switch(nr){
  // process-local: let the kernel do it
  case SYS_brk: case SYS_munmap: case SYS_mprotect: case SYS_mremap: case SYS_madvise: case SYS_arch_prctl: case SYS_set_tid_address: case SYS_set_robust_list: case SYS_rseq: case SYS_rt_sigaction: case SYS_rt_sigprocmask: case SYS_rt_sigreturn: case SYS_sigaltstack: case SYS_sched_yield:
    return PASS;
  case SYS_exit: case SYS_exit_group: exiting=true; return PASS;
  case SYS_mmap: if(!(a3&MAP_ANONYMOUS)){ ret=-ENODEV; return EMU; } return PASS;
  case SYS_getpid: case SYS_gettid: ret=p.fakepid; return EMU;
  case SYS_getppid: ret=p.fakepid/32%2?1:p.fakepid-1; return EMU;
  case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: ret=uid_of(p); return EMU;
  case SYS_prlimit64: { if(a3){ struct rlimit64 l={8u<<20,RLIM64_INFINITY}; wr(p,a3,&l,sizeof l);} ret=0; return EMU; }
  case SYS_getrlimit: { struct rlimit l={8u<<20,RLIM_INFINITY}; wr(p,a1,&l,sizeof l); ret=0; return EMU; }
  case SYS_getrandom: { string s(min<u64>(a1,4096),0); for(auto&c:s)c=(char)splitmix(p.rnd); wr(p,a0,s.data(),s.size()); ret=s.size(); return EMU; }
  case SYS_clock_gettime: { tick(); struct timespec t={(time_t)clk_sec,clk_ns}; wr(p,a1,&t,sizeof t); ret=0; return EMU; }
  case SYS_gettimeofday: { tick(); struct timeval t={(time_t)clk_sec,clk_ns/1000}; if(a0)wr(p,a0,&t,sizeof t); ret=0; return EMU; }
  case SYS_time: { tick(); long t=clk_sec; if(a0)wr(p,a0,&t,8); ret=t; return EMU; }
  case SYS_nanosleep: case SYS_clock_nanosleep: clk_sec+=1; ret=0; return EMU;
  case SYS_futex: ret=0; return EMU;
  case SYS_uname: { char u[390]; memset(u,0,sizeof u); const char*f[]={"Linux",p.fakepid/32%2?"sim":"build-host-17","6.0.0","1","x86_64",""}; for(int i=0;i<6;i++)strcpy(u+65*i,f[i]); wr(p,a0,u,sizeof u); ret=0; return EMU; }
  case SYS_kill: case SYS_tkill: case SYS_tgkill: { int sig=(int)(nr==SYS_tgkill?a2:a1); snprintf(b,sizeof b,"raise(%d)",sig); desc=b; ret=0; if(sig){ p.how="signal"; p.code=sig; } return EMU; }
  case SYS_readlink: case SYS_readlinkat: ret=-ENOENT; return EMU;
  case SYS_access: case SYS_faccessat: case 439: { rdstr(p,nr==SYS_access?a0:a1,path); IP i=find(p.cwd,path,e); ret=i?0:-e; desc="access("+path+")"; return EMU; }
  case SYS_open: rdstr(p,a0,path); ret=do_open(p,path,(int)a1,(mode_t)a2); snprintf(b,sizeof b,",%#lx)",(long)a1); desc="open("+path+b; return EMU;
  case SYS_creat: rdstr(p,a0,path); ret=do_open(p,path,O_CREAT|O_WRONLY|O_TRUNC,(mode_t)a1); desc="creat("+path+")"; return EMU;
  case SYS_openat: rdstr(p,a1,path); base(a0,path); ret=do_open(p,path,(int)a2,(mode_t)a3); snprintf(b,sizeof b,",%#lx)",(long)a2); desc="open("+path+b; return EMU;
  case SYS_write: case SYS_pwrite64: { o=getfd(a0); if(!o){ret=-EBADF;return EMU;} string d(min<u64>(a2,1u<<24),0); if(!rd(p,a1,&d[0],d.size())){ret=-EFAULT;return EMU;} ret=do_write(p,o,d,nr==SYS_pwrite64?(long)a3:-1,shortn); snprintf(b,sizeof b,"write(%d,%zu)",(int)a0,d.size()); desc=b; if(o->stream<0){Hash h; h.add(d); desc+=h.hex().substr(0,8);} return EMU; }
  case SYS_writev: case SYS_pwritev: { o=getfd(a0); if(!o){ret=-EBADF;return EMU;} string d; for(u64 i=0;i<a2&&i<1024;i++){ struct iovec v; if(!rd(p,a1+16*i,&v,16)){ret=-EFAULT;return EMU;} string q(min<u64>(v.iov_len,1u<<24),0); if(!rd(p,(u64)v.iov_base,&q[0],q.size())){ret=-EFAULT;return EMU;} d+=q; } ret=do_write(p,o,d,nr==SYS_pwritev?(long)a3:-1,shortn); snprintf(b,sizeof b,"writev(%d,%zu)",(int)a0,d.size()); desc=b; if(o->stream<0){Hash h; h.add(d); desc+=h.hex().substr(0,8);} return EMU; }
  case SYS_read: case SYS_pread64: { o=getfd(a0); if(!o){ret=-EBADF;return EMU;} desc="read"; if(o->rnd){ string s(min<u64>(a2,4096),0); for(auto&c:s)c=(char)splitmix(p.rnd); wr(p,a1,s.data(),s.size()); ret=s.size(); return EMU; } if(!o->ino){ret=0;return EMU;} if((o->flags&O_ACCMODE)==O_WRONLY){ret=-EBADF;return EMU;} if(o->ino->dir){ret=-EISDIR;return EMU;} u64 pos=nr==SYS_pread64?a3:o->off; u64 n=pos<o->ino->data.size()?min<u64>(a2,o->ino->data.size()-pos):0; if(shortn>=0&&n>(u64)shortn)n=shortn; wr(p,a1,o->ino->data.data()+pos,n); if(nr==SYS_read)o->off=pos+n; ret=n; return EMU; }
  case SYS_lseek: { o=getfd(a0); if(!o){ret=-EBADF;return EMU;} if(!o->ino){ret=o->stream>=0?-ESPIPE:0;return EMU;} long np=(int)a2==SEEK_SET?(long)a1:(int)a2==SEEK_CUR?(long)o->off+(long)a1:(int)a2==SEEK_END?(long)o->ino->data.size()+(long)a1:-1; desc="lseek"; if(np<0){ret=-EINVAL;return EMU;} o->off=np; ret=np; return EMU; }
  case SYS_close: snprintf(b,sizeof b,"close(%d)",(int)a0); desc=b; o=getfd(a0); if(!o){ret=-EBADF;return EMU;} if(o->ino){ int me=(int)(&p-&P[0]); auto&v=o->ino->locks; v.erase(remove_if(v.begin(),v.end(),[&](const Lock&l){return l.proc==me;}),v.end()); } p.fds.erase((int)a0); ret=0; return EMU;
  case SYS_fstat: { o=getfd(a0); if(!o){ret=-EBADF;return EMU;} struct stat st; fillstat_ofd(&st,o); wr(p,a1,&st,sizeof st); ret=0; desc="fstat"; return EMU; }
  case SYS_stat: case SYS_lstat: case SYS_newfstatat: { struct stat st; u64 sb; bool at=nr==SYS_newfstatat; rdstr(p,at?a1:a0,path); sb=at?a2:a1; desc="stat("+path+")"; if(at&&path.empty()&&(a3&0x1000)){ o=getfd(a0); if(!o){ret=-EBADF;return EMU;} fillstat_ofd(&st,o); } else { IP i=find(p.cwd,path,e); if(!i){ret=-e;return EMU;} fillstat(&st,i);} wr(p,sb,&st,sizeof st); ret=0; return EMU; }
  case SYS_ftruncate: case SYS_truncate: { IP i; if(nr==SYS_ftruncate){ o=getfd(a0); if(!o||!o->ino){ret=-EBADF;return EMU;} if((o->flags&O_ACCMODE)==O_RDONLY){ret=-EINVAL;return EMU;} i=o->ino; } else { rdstr(p,a0,path); i=find(p.cwd,path,e); if(!i){ret=-e;return EMU;} } if(i->dir){ret=-EISDIR;return EMU;} if(a1>(1u<<28)){ret=-EFBIG;return EMU;} i->data.resize(a1,'\0'); ret=0; snprintf(b,sizeof b,"truncate(%lu)",a1); desc=b; return EMU; }
  case SYS_rename: case SYS_renameat: case SYS_renameat2: { rdstr(p,nr==SYS_rename?a0:a1,path); rdstr(p,nr==SYS_rename?a1:a3,path2); desc="rename("+path+","+path2+")"; IP p1,p2; string n1,n2; if((e=parent(p.cwd,path,p1,n1))||(e=parent(p.cwd,path2,p2,n2))){ret=-e;return EMU;} auto it=p1->ent.find(n1); if(it==p1->ent.end()){ret=-ENOENT;return EMU;} if(nr==SYS_renameat2&&(r.r8&1)&&p2->ent.count(n2)){ret=-EEXIST;return EMU;} IP i=it->second; auto jt=p2->ent.find(n2); if(jt!=p2->ent.end()){ if(jt->second==i){ret=0;return EMU;} if(jt->second->dir!=i->dir){ret=jt->second->dir?-EISDIR:-ENOTDIR;return EMU;} } p1->ent.erase(n1); p2->ent[n2]=i; if(p2==root->ent["work"])made.insert(n2); ret=0; return EMU; }
  case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: { rdstr(p,nr==SYS_unlinkat?a1:a0,path); desc="unlink("+path+")"; IP pp; string n; if((e=parent(p.cwd,path,pp,n))){ret=-e;return EMU;} auto it=pp->ent.find(n); if(it==pp->ent.end()){ret=-ENOENT;return EMU;} bool rm=nr==SYS_rmdir||(nr==SYS_unlinkat&&(a2&0x200)); if(it->second->dir&&!rm){ret=-EISDIR;return EMU;} if(!it->second->dir&&rm){ret=-ENOTDIR;return EMU;} if(rm&&it->second->ent.size()){ret=-ENOTEMPTY;return EMU;} pp->ent.erase(it); ret=0; return EMU; }
  case SYS_link: case SYS_linkat: { rdstr(p,nr==SYS_link?a0:a1,path); rdstr(p,nr==SYS_link?a1:a3,path2); desc="link("+path+","+path2+")"; IP i=find(p.cwd,path,e); if(!i){ret=-e;return EMU;} IP pp; string n; if((e=parent(p.cwd,path2,pp,n))){ret=-e;return EMU;} if(pp->ent.count(n)){ret=-EEXIST;return EMU;} pp->ent[n]=i; i->nlink++; ret=0; return EMU; }
  case SYS_mkdir: case SYS_mkdirat: { rdstr(p,nr==SYS_mkdirat?a1:a0,path); desc="mkdir("+path+")"; IP pp; string n; if((e=parent(p.cwd,path,pp,n))){ret=-e;return EMU;} if(n.empty()||pp->ent.count(n)){ret=-EEXIST;return EMU;} pp->ent[n]=newino(true); ret=0; return EMU; }
  case SYS_fsync: case SYS_fdatasync: case SYS_sync_file_range: desc="fsync"; ret=getfd(a0)?0:-EBADF; return EMU;
  case SYS_fallocate: ret=-EOPNOTSUPP; return EMU;
  case SYS_flock: { Want w; desc="flock"; if(!getfd(a0)){ret=-EBADF;return EMU;} ret=lock_wanted(p,r,w)?do_lock(p,w):0; return EMU; }
  case SYS_fchmod: o=getfd(a0); if(!o){ret=-EBADF;return EMU;} if(o->ino)o->ino->mode=a1&07777; ret=0; desc="chmod"; return EMU;
  case SYS_chmod: case SYS_fchmodat: { bool at=nr==SYS_fchmodat; rdstr(p,at?a1:a0,path); IP i=find(p.cwd,path,e); if(!i){ret=-e;return EMU;} i->mode=(at?a2:a1)&07777; ret=0; desc="chmod("+path+")"; return EMU; }
  case SYS_chown: case SYS_fchown: case SYS_utimensat: ret=0; return EMU;
  case SYS_umask: ret=p.um; p.um=a0&0777; return EMU;
  case SYS_dup: o=getfd(a0); if(!o){ret=-EBADF;return EMU;} ret=lowfd(p); p.fds[ret]=o; return EMU;
  case SYS_dup2: case SYS_dup3: o=getfd(a0); if(!o){ret=-EBADF;return EMU;} p.fds[(int)a1]=o; ret=a1; return EMU;
  case SYS_fcntl: o=getfd(a0); if(!o){ret=-EBADF;return EMU;} { Want w; if(lock_wanted(p,r,w)){ desc="lock"; ret=do_lock(p,w); return EMU; } } switch((int)a1){ case F_DUPFD: case F_DUPFD_CLOEXEC: ret=lowfd(p,(int)a2); p.fds[ret]=o; break; case F_GETFL: ret=o->flags|(o->stream>=0?O_WRONLY:0); break; default: ret=0; } return EMU;
  case SYS_ioctl: ret=-ENOTTY; return EMU;
  case SYS_getcwd: { string c=p.cwd; if(a1<c.size()+1){ret=-ERANGE;return EMU;} wr(p,a0,c.c_str(),c.size()+1); ret=c.size()+1; return EMU; }
  case SYS_chdir: { rdstr(p,a0,path); IP i=find(p.cwd,path,e); if(!i){ret=-e;return EMU;} auto v=splitpath(p.cwd,path); p.cwd=""; for(auto&s:v)p.cwd+="/"+s; if(p.cwd.empty())p.cwd="/"; ret=0; return EMU; }
  default: snprintf(b,sizeof b,"unknown(%ld)",nr); desc=b; ret=-ENOSYS; return EMU;
  } }

static void reap(Proc&p){ if(p.pid>0){ kill(p.pid,SIGKILL); int st; while(waitpid(p.pid,&st,__WALL)>0&&!WIFEXITED(st)&&!WIFSIGNALED(st)); p.pid=-1; } p.state=1; p.fds.clear(); }

// let p run until it is about to make its next simulated (file) call, or ends
static void run_until_call(Proc&p,int idx){
  (void)idx;
  for(;;){
    if(ptrace(PTRACE_SYSCALL,p.pid,0,0)){ p.how="lost"; p.state=1; return; }
    int st; if(waitpid(p.pid,&st,__WALL)<0){ p.how="lost"; p.state=1; return; }
    if(WIFEXITED(st)){ p.how="exit"; p.code=WEXITSTATUS(st); p.pid=-1; p.state=1; p.fds.clear(); return; }
    if(WIFSIGNALED(st)){ p.how="signal"; p.code=WTERMSIG(st); p.pid=-1; p.state=1; p.fds.clear(); return; }
    int sig=WSTOPSIG(st);
    if(sig!=(SIGTRAP|0x80)){ // a real signal (fault): deliver means death here
      if(sig==SIGTRAP){ struct user_regs_struct r; ptrace(PTRACE_GETREGS,p.pid,0,&r); auto it=p.orig.find(r.rip-1); if(it==p.orig.end())continue;
        // entry of an allocation function: the plan may make it return NULL
        long ord=p.cnt["mem"]++; bool fail=p.stick.count("mem");
        for(auto&f:p.faults) if(f.cls=="mem"&&f.ord==ord&&!f.fired){ f.fired=true; fail=true; if(f.kind.compare(0,5,"stick")==0)p.stick["mem"]=ENOMEM; char b[128]; snprintf(b,128,"X %d mem %ld %s",idx,ord,f.kind.c_str()); firedlog.push_back(b); }
        if(fail){ u64 ra; rd(p,r.rsp,&ra,8); r.rip=ra; r.rsp+=8; r.rax=0; ptrace(PTRACE_SETREGS,p.pid,0,&r); logev(to_string(idx)+" alloc#"+to_string(ord)+"=NULL"); continue; }
        r.rip=it->first; ptrace(PTRACE_SETREGS,p.pid,0,&r); ptrace(PTRACE_POKETEXT,p.pid,it->first,it->second); ptrace(PTRACE_SINGLESTEP,p.pid,0,0); if(waitpid(p.pid,&st,__WALL)<0||!WIFSTOPPED(st)){ p.how="lost"; p.state=1; p.pid=-1; return; } ptrace(PTRACE_POKETEXT,p.pid,it->first,(it->second&~0xffULL)|0xcc); continue; }
      p.how="signal"; p.code=sig; reap(p); return; }
    ptrace(PTRACE_GETREGS,p.pid,0,&p.regs);
    long nr=p.regs.orig_rax; const char*c=cls_of(nr);
    if(c&&strcmp(c,"mem")!=0){ p.state=0; return; }
    // memory and process-local calls: no scheduling point
    long ret=0; string desc; bool exiting=false; Act a;
    a=emulate(p,p.regs,ret,desc,exiting,-1);
    if(p.how=="signal"){ reap(p); return; }
    if(a==EMU){ p.regs.orig_rax=-1; ptrace(PTRACE_SETREGS,p.pid,0,&p.regs); }
    if(desc.size())logev(to_string(idx)+" "+desc+"="+to_string(ret));
    if(exiting)continue;
    ptrace(PTRACE_SYSCALL,p.pid,0,0); if(waitpid(p.pid,&st,__WALL)<0||!WIFSTOPPED(st)){ if(WIFSIGNALED(st)){p.how="signal";p.code=WTERMSIG(st);} else {p.how="lost";} p.pid=-1; p.state=1; return; }
    if(a==EMU){ struct user_regs_struct r2; ptrace(PTRACE_GETREGS,p.pid,0,&r2); r2.rax=ret; ptrace(PTRACE_SETREGS,p.pid,0,&r2); }
  } }

// perform the pending call of p
static void step(Proc&p,int idx){
  long nr=p.regs.orig_rax; string c=cls_of(nr); long ret=0; string desc; bool ex=false; long shortn=-1; int fe=0; bool killbefore=false,killafter=false; string kind;
  OP fo; { auto it=p.fds.find((int)p.regs.rdi); if((c=="write"||c=="close")&&it!=p.fds.end())fo=it->second; }
  bool isstd=fo&&fo->stream>=0;
  p.nops++;
  long anyord=p.cnt["any"]++; long ord=isstd?-1:p.cnt[c]++;
  if(!isstd&&p.stick.count(c))fe=p.stick[c];
  for(auto&f:p.faults){ if(f.fired)continue; bool hit=(f.cls=="any"&&f.ord==anyord)||(!isstd&&f.cls==c&&f.ord==ord); if(!hit)continue;
    if(f.kind=="kill")killbefore=true; else if(f.kind=="killafter")killafter=true; else if(f.kind=="short"){ if(c!="write"&&nr!=SYS_read)continue; shortn=f.param<1?1:f.param; if(c=="write"&&nr!=SYS_writev&&nr!=SYS_pwritev&&(long)p.regs.rdx<=shortn)continue; } else if(f.kind[0]=='e')fe=atoi(f.kind.c_str()+1); else if(f.kind.compare(0,5,"stick")==0){fe=atoi(f.kind.c_str()+5);p.stick[c]=fe;}
    f.fired=true; char b[160]; snprintf(b,160,"X %d %s %ld %s",idx,f.cls.c_str(),f.ord,f.kind.c_str()); firedlog.push_back(b); }
  if(killbefore){ logev(to_string(idx)+" killed before call "+to_string(nr)); p.how="killed"; p.code=9; reap(p); return; }
  Act a=EMU;
  if(fe){ if(nr==SYS_close){ emulate(p,p.regs,ret,desc,ex,-1); } else { struct user_regs_struct t=p.regs; (void)t; char b[64]; snprintf(b,64,"%s(fd %d,%lu)",c.c_str(),(int)p.regs.rdi,(unsigned long)p.regs.rdx); desc=b; } ret=-fe; desc+="!"; }
  else a=emulate(p,p.regs,ret,desc,ex,shortn);
  if(a==PASS){ p.how="lost"; reap(p); return; }
  logev(to_string(idx)+" "+desc+"="+to_string(ret)+(shortn>=0?"(short)":""));
  if(killafter){ logev(to_string(idx)+" killed after call"); p.how="killed"; p.code=9; reap(p); return; }
  p.regs.orig_rax=-1; ptrace(PTRACE_SETREGS,p.pid,0,&p.regs);
  ptrace(PTRACE_SYSCALL,p.pid,0,0); int st; if(waitpid(p.pid,&st,__WALL)<0||!WIFSTOPPED(st)){ p.how="lost"; p.state=1; p.pid=-1; return; }
  struct user_regs_struct r2; ptrace(PTRACE_GETREGS,p.pid,0,&r2); r2.rax=ret; ptrace(PTRACE_SETREGS,p.pid,0,&r2);
  run_until_call(p,idx); }

static bool launch(Proc&p,int idx){
  pid_t c=fork();
  if(c==0){ ptrace(PTRACE_TRACEME,0,0,0); personality(ADDR_NO_RANDOMIZE); prctl(PR_SET_PDEATHSIG,SIGKILL);
    struct rlimit l={6,6}; setrlimit(RLIMIT_CPU,&l); l.rlim_cur=l.rlim_max=1ul<<31; setrlimit(RLIMIT_AS,&l); l.rlim_cur=l.rlim_max=8u<<20; setrlimit(RLIMIT_STACK,&l); l.rlim_cur=l.rlim_max=0; setrlimit(RLIMIT_CORE,&l); setrlimit(RLIMIT_FSIZE,&l);
    int dn=open("/dev/null",O_RDWR); dup2(dn,0); dup2(dn,1); dup2(dn,2); for(int i=3;i<64;i++)close(i);
    vector<char*> av,ev; for(auto&s:p.argv)av.push_back((char*)s.c_str()); av.push_back(nullptr); for(auto&s:p.env)ev.push_back((char*)s.c_str()); ev.push_back(nullptr);
    execve(p.prog.c_str(),av.data(),ev.data()); _exit(127); }
  p.pid=c; int st; if(waitpid(c,&st,__WALL)<0||!WIFSTOPPED(st)){ p.how="lost"; p.state=1; p.pid=-1; return false; }
  ptrace(PTRACE_SETOPTIONS,c,0,PTRACE_O_TRACESYSGOOD|PTRACE_O_EXITKILL);
  // hide the vdso, seed AT_RANDOM
  struct user_regs_struct r; ptrace(PTRACE_GETREGS,c,0,&r); u64 sp=r.rsp; u64 n; rd(p,sp,&n,8); sp+=8*(n+2); for(;;){ u64 v; if(!rd(p,sp,&v,8))break; sp+=8; if(!v)break; }
  u64 ms=p.memseed*2+1; p.rnd=ms;
  for(;;){ u64 a[2]; if(!rd(p,sp,a,16)||a[0]==AT_NULL)break; if(a[0]==AT_SYSINFO_EHDR){ u64 ig=AT_IGNORE; wr(p,sp,&ig,8);} if(a[0]==AT_RANDOM){ u64 x[2]={splitmix(ms),splitmix(ms)}; wr(p,a[1],x,16);} sp+=16; }
  // run the C start-up code to main without interference; its calls are not part of the simulation
  u64 orig=(u64)ptrace(PTRACE_PEEKTEXT,c,p.mainaddr,0); ptrace(PTRACE_POKETEXT,c,p.mainaddr,(orig&~0xffULL)|0xcc);
  for(;;){ ptrace(PTRACE_SYSCALL,c,0,0); if(waitpid(c,&st,__WALL)<0||!WIFSTOPPED(st)){ p.how="lost"; p.state=1; p.pid=-1; return false; }
    if(WSTOPSIG(st)==(SIGTRAP|0x80)){ ptrace(PTRACE_GETREGS,c,0,&p.regs); long ret=0; string d; bool ex=false; Act a=emulate(p,p.regs,ret,d,ex,-1); if(p.how=="signal"){reap(p);return false;} if(a==EMU){ p.regs.orig_rax=-1; ptrace(PTRACE_SETREGS,c,0,&p.regs);} if(ex)continue; ptrace(PTRACE_SYSCALL,c,0,0); if(waitpid(c,&st,__WALL)<0||!WIFSTOPPED(st)){p.how="lost";p.state=1;p.pid=-1;return false;} if(a==EMU){ ptrace(PTRACE_GETREGS,c,0,&r); r.rax=ret; ptrace(PTRACE_SETREGS,c,0,&r);} continue; }
    if(WSTOPSIG(st)==SIGTRAP)break;
    p.how="lost"; reap(p); return false; }
  ptrace(PTRACE_GETREGS,c,0,&r); r.rip=p.mainaddr; ptrace(PTRACE_POKETEXT,c,p.mainaddr,orig); r.orig_rax=-1; ptrace(PTRACE_SETREGS,c,0,&r);
  if(p.havemem){ string g(24576,0); for(auto&ch:g)ch=(char)splitmix(ms); wr(p,r.rsp-128-g.size(),g.data(),g.size()); }
  p.cnt.clear();
  for(u64 b:p.allocbp){ u64 o=(u64)ptrace(PTRACE_PEEKTEXT,c,b,0); p.orig[b]=o; ptrace(PTRACE_POKETEXT,c,b,(o&~0xffULL)|0xcc); }
  run_until_call(p,idx); return true; }

static void dump(IP d,const string&pre){ for(auto&k:d->ent){ if(k.second->dir){ printf("D %s\n",tohex(pre+k.first).c_str()); dump(k.second,pre+k.first+"/"); } else { Hash h; h.add(k.second->data); printf("F %s %zu %s %o\n",tohex(pre+k.first).c_str(),k.second->data.size(),h.hex().c_str(),(unsigned)k.second->mode); H.add(pre+k.first); H.add(k.second->data); } } }

int main(){
  static char*line=nullptr; size_t cp=0; ssize_t n; vector<long> sched; signal(SIGPIPE,SIG_DFL);
  cpu_set_t cs; (void)cs;
  while((n=getline(&line,&cp,stdin))>0){
    if(line[n-1]=='\n')line[--n]=0; vector<string> w; { char*s=strtok(line," "); while(s){w.push_back(s);s=strtok(nullptr," ");} } if(w.empty())continue;
    if(w[0]=="RUN"){ root=newino(true); nextino=0; root=newino(true); root->ent["work"]=newino(true); root->ent["tmp"]=newino(true); P.clear(); H=Hash(); tracing=false; traceout.clear(); firedlog.clear(); made.clear(); cap=-1; sched.clear(); clk_sec=1600000000; clk_ns=0; clk_step=1000003; }
    else if(w[0]=="file"){ IP i=newino(false); i->data=unhex(w[2]); if(w.size()>3)i->mode=strtol(w[3].c_str(),0,8); root->ent["work"]->ent[unhex(w[1])]=i; }
    else if(w[0]=="proc"){ Proc p; p.prog=unhex(w[1]); p.mainaddr=strtoull(w[2].c_str(),0,16); int ac=atoi(w[3].c_str()); for(int i=0;i<ac;i++)p.argv.push_back(unhex(w[4+i])); p.fakepid=1000+P.size(); for(int i=0;i<3;i++){ auto o=make_shared<OFD>(); o->stream=i; p.fds[i]=o; } P.push_back(p); }
    else if(w[0]=="env")P[atoi(w[1].c_str())].env.push_back(unhex(w[2]));
    else if(w[0]=="mem"){ auto&p=P[atoi(w[1].c_str())]; p.memseed=strtoull(w[2].c_str(),0,10); p.havemem=true; }
    else if(w[0]=="alloc"){ for(size_t i=2;i<w.size();i++)P[atoi(w[1].c_str())].allocbp.push_back(strtoull(w[i].c_str(),0,16)); }
    else if(w[0]=="clock"){ clk_sec=atol(w[1].c_str()); clk_step=atol(w[2].c_str()); }
    else if(w[0]=="pid")P[atoi(w[1].c_str())].fakepid=atoi(w[2].c_str());
    else if(w[0]=="umask")P[atoi(w[1].c_str())].um=atoi(w[2].c_str());
    else if(w[0]=="closed")P[atoi(w[1].c_str())].fds.erase(atoi(w[2].c_str()));
    else if(w[0]=="dir")root->ent["work"]->ent[unhex(w[1])]=newino(true);
    else if(w[0]=="cap")cap=atol(w[1].c_str());
    else if(w[0]=="fault"){ Fault f; f.cls=w[2]; f.ord=atol(w[3].c_str()); f.kind=w[4]; f.param=w.size()>5?atol(w[5].c_str()):0; P[atoi(w[1].c_str())].faults.push_back(f); }
    else if(w[0]=="sched"){ for(size_t i=1;i<w.size();i++)sched.push_back(atol(w[i].c_str())); }
    else if(w[0]=="trace")tracing=true;
    else if(w[0]=="GET"){ auto&e=root->ent["work"]->ent; auto it=e.find(unhex(w[1])); if(it==e.end()||it->second->dir)printf("-\n"); else printf("%s\n",tohex(it->second->data).c_str()); fflush(stdout); }
    else if(w[0]=="END"){
      for(size_t i=0;i<P.size();i++)launch(P[i],i);
      size_t cur=0,k=0; long sw=0,steps=0;
      for(;;){ vector<size_t> run; for(size_t i=0;i<P.size();i++)if(P[i].state==0&&!blocked(P[i]))run.push_back(i); if(run.empty()){ for(auto&p:P)if(p.state==0){p.how="noprogress";p.code=0;reap(p);} break; }
        long v=k<sched.size()?sched[k]:0; k++;
        size_t pos=0; bool curok=false; for(size_t i=0;i<run.size();i++)if(run[i]==cur){pos=i;curok=true;}
        size_t nx=curok?run[(pos+(v<0?0:v))%run.size()]:run[(v<0?0:v)%run.size()]; if(nx!=cur&&curok)sw++; cur=nx; steps++;
        if(steps>400000){ for(auto&p:P)if(p.state==0){p.how="noprogress";p.code=0;reap(p);} break; }
        step(P[cur],cur); }
      for(size_t i=0;i<P.size();i++){ auto&p=P[i]; printf("P %zu %s %d %ld %s %s\n",i,p.how.c_str(),p.code,p.nops,tohex(p.out[2]).c_str(),tohex(p.out[1]).c_str()); H.add(p.how); H.add(p.out[2]); H.add(p.out[1]); H.add(&p.code,4); for(auto&c:p.cnt)printf("C %zu %s %ld\n",i,c.first.c_str(),c.second); }
      dump(root->ent["work"],""); for(auto&k2:root->ent["tmp"]->ent)printf("F %s %zu tmp\n",tohex("../tmp/"+k2.first).c_str(),k2.second->data.size());
      for(auto&k2:root->ent)if(k2.first!="work"&&k2.first!="tmp")printf("F %s 0 root\n",tohex("/"+k2.first).c_str());
      for(auto&s:firedlog)printf("%s\n",s.c_str()); for(auto&s:traceout)printf("T %s\n",tohex(s).c_str());
      for(auto&m:made)printf("N %s\n",tohex(m).c_str());
      printf("B %ld %ld\n",sw,steps); printf("H %s\nEND\n",H.hex().c_str()); fflush(stdout); }
  }
  return 0; }
