// Replay driver: runs the real request handlers and storage layer of /repo (everything but the accept loop, the timer
// and the process entry) in one process over socket pairs, with random chunking, partial and refused socket and file
// transfers, stalled and aborted connections, against a shadow model.  Used only to concretise a failed obligation.
//   drv SEED SECONDS TMPDIR      exit 0: nothing found; otherwise the failing history is on stderr
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <ftw.h>
#include <time.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include "connection.h"
#include "db.h"
#include "http.h"
#include "settings.h"
#include "hash.h"
#include "timer.h"
#include <sanitizer/asan_interface.h>
using std::string; using std::vector; using std::map; using std::set;
extern int epfd;
extern volatile struct timeval current_time;
static uint64_t rs; static uint64_t rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs*0x2545F4914F6CDD1DULL; }
static uint64_t R(uint64_t n){ return (rnd()>>11)%n; }
static bool P(int pct){ return R(100)<(uint64_t)pct; }
static vector<string> hist; static char lbuf[600];
static void H(const char*f,...){ va_list a; va_start(a,f); vsnprintf(lbuf,sizeof lbuf,f,a); va_end(a); string s; for(char*p=lbuf;*p;p++){ unsigned char c=*p; if(c<32||c>126){ char b[8]; snprintf(b,8,"\\x%02x",c); s+=b; } else s+=c; } hist.push_back(s); }
static uint64_t seed0;
static void bad(const char*f,...){ va_list a; va_start(a,f); fprintf(stderr,"FAILING INPUT (episode seed %llu): ",(unsigned long long)seed0); vfprintf(stderr,f,a); va_end(a); fprintf(stderr,"\nhistory (last steps):\n"); for(size_t i=hist.size()>25?hist.size()-25:0;i<hist.size();i++) fprintf(stderr,"  %s\n",hist[i].c_str()); fflush(stderr); _exit(9); }
static string show(const string&s){ string o; for(unsigned char c:s){ if(o.size()>80){ o+="..."; break; } if(c<32||c>126){ char b[8]; snprintf(b,8,"\\x%02x",c); o+=b; } else o+=c; } return o; }
// ---------------------------------------------------------------- connections
struct Conn { scache_connection*c; int peer; long long budget; bool flaky; string in; bool closed; };
static vector<Conn*> conns; static Conn*cur; static map<int,Conn*> byfd;
static bool io_faults;
static string dbdir; static set<string> vfiles; static map<int,string> vfds; static long live; static bool counting;
static uint8_t inode_lengths;
extern "C" {
ssize_t __real_read(int,void*,size_t); ssize_t __real_write(int,const void*,size_t); ssize_t __real_sendfile64(int,int,off64_t*,size_t); ssize_t __real_sendfile(int,int,off_t*,size_t);
int __real_open(const char*,int,...); int __real_open64(const char*,int,...); int __real_unlink(const char*); int __real_close(int); pid_t __real_fork(); int __real_system(const char*);
void*__real_malloc(size_t); void __real_free(void*); void*__real_realloc(void*,size_t); void*__real_calloc(size_t,size_t);
void*__wrap_malloc(size_t n){ void*p=__real_malloc(n); if(p){ if(counting) live++; memset(p,0xA5,n); } return p; }
void*__wrap_calloc(size_t n,size_t m){ if(counting) live++; return __real_calloc(n,m); }
void*__wrap_realloc(void*p,size_t n){ if(counting&&!p) live++; return __real_realloc(p,n); }
void __wrap_free(void*p){ if(p&&counting) live--; __real_free(p); }
pid_t __wrap_fork(){ errno=EAGAIN; return -1; }
int __wrap_system(const char*){ return 0; }
static void inside(const char*p,const char*what){ if(strncmp(p,dbdir.c_str(),dbdir.size())||strstr(p,"/../")) bad("%s outside the database directory: %s",what,p); }
static int opened(const char*p,int flags,int fd,bool existed){
  if(strstr(p,"/files/")){
    if(flags&O_CREAT){ if(fd>=0){ if(existed) bad("value file %s given to a new value while it still exists",p); vfiles.insert(p); } }
    if(fd>=0) vfds[fd]=p;
  }
  return fd; }
static bool exists(const char*p){ return access(p,F_OK)==0; }
int __wrap_open(const char*p,int f,...){ va_list a; va_start(a,f); int m=(f&O_CREAT)?va_arg(a,int):0; va_end(a); inside(p,"open"); bool e=exists(p); return opened(p,f,__real_open(p,f,m),e); }
int __wrap_open64(const char*p,int f,...){ va_list a; va_start(a,f); int m=(f&O_CREAT)?va_arg(a,int):0; va_end(a); inside(p,"open"); bool e=exists(p); return opened(p,f,__real_open64(p,f,m),e); }
int __wrap_unlink(const char*p){ inside(p,"unlink"); vfiles.erase(p); return __real_unlink(p); }
int __wrap_close(int fd){ int r=__real_close(fd); if(r) bad("close of descriptor %d that is not open",fd); if(fd==db_get_details()->fd_blockfile) bad("block file descriptor closed"); vfds.erase(fd); return r; }
ssize_t __wrap_read(int fd,void*b,size_t n){
  auto it=byfd.find(fd); if(it==byfd.end()) return __real_read(fd,b,n);
  read_buffer*rb=&it->second->c->input; char*buf=rb->buffer;
  if((char*)b<buf||(char*)b+n>buf+BUFFER_SIZE) bad("read into memory outside the input buffer (%zu bytes at offset %ld)",n,(long)((char*)b-buf));
  uint16_t have=rb->write_position-rb->read_position; if(have>BUFFER_SIZE||n>(size_t)BUFFER_SIZE-have) bad("read of %zu bytes with %u of %d bytes of the input buffer in use",n,have,BUFFER_SIZE);
  if((char*)b!=buf+(rb->write_position&(BUFFER_SIZE-1))) bad("read into the wrong place of the input buffer");
  ASAN_UNPOISON_MEMORY_REGION(buf,BUFFER_SIZE);
  if(it->second->flaky&&P(10)){ errno=EAGAIN; return -1; }
  if(it->second->flaky&&n>1&&P(60)) n=1+R(P(50)?20<n?20:n:n);
  ssize_t r=__real_read(fd,b,n);
  if(r>0){ // bytes neither received nor unread may not be looked at
    unsigned lo=rb->read_position&(BUFFER_SIZE-1), len=have+r;
    if(len<BUFFER_SIZE){ unsigned s=(lo+len)&(BUFFER_SIZE-1), fl=BUFFER_SIZE-len; if(s+fl<=BUFFER_SIZE) ASAN_POISON_MEMORY_REGION(buf+s,fl); else { ASAN_POISON_MEMORY_REGION(buf+s,BUFFER_SIZE-s); ASAN_POISON_MEMORY_REGION(buf,s+fl-BUFFER_SIZE); } }
  }
  return r; }
static ssize_t room(Conn*k,size_t n){ if(k->budget==0||(k->flaky&&P(15))){ errno=EAGAIN; return -1; } if((long long)n>k->budget) n=k->budget; if(k->flaky&&n>1&&P(60)) n=1+R(P(50)?8<n?8:n:n); return n; }
ssize_t __wrap_write(int fd,const void*b,size_t n){
  auto it=byfd.find(fd);
  if(it!=byfd.end()){ if(n==0) return 0; ssize_t m=room(it->second,n); if(m<0) return m; m=__real_write(fd,b,m); if(m>0) it->second->budget-=m; return m; }
  if(io_faults&&n>1&&P(50)) n=1+R(n);
  return __real_write(fd,b,n); }
ssize_t __wrap_sendfile64(int o,int i,off64_t*p,size_t n){ auto it=byfd.find(o); if(it==byfd.end()) return __real_sendfile64(o,i,p,n); ssize_t m=room(it->second,n); if(m<0) return m; m=__real_sendfile64(o,i,p,m); if(m>0) it->second->budget-=m; return m; }
ssize_t __wrap_sendfile(int o,int i,off_t*p,size_t n){ return __wrap_sendfile64(o,i,(off64_t*)p,n); }
}
static Conn*newconn(){
  int sp[2]; if(socketpair(AF_UNIX,SOCK_STREAM|SOCK_NONBLOCK,0,sp)) { perror("socketpair"); _exit(0); }
  int big=1<<20; setsockopt(sp[0],SOL_SOCKET,SO_SNDBUF,&big,sizeof big); setsockopt(sp[1],SOL_SOCKET,SO_SNDBUF,&big,sizeof big);
  scache_connection*c=(scache_connection*)__wrap_malloc(sizeof*c); memset(c,0,sizeof*c); memset(c->input.buffer,0x5A,BUFFER_SIZE);
  c->ltype=cache_connection; c->cache.target.key.fd=-1; rbuf_init(&c->input); c->client_sock=sp[0];
  struct epoll_event ev; memset(&ev,0,sizeof ev); ev.events=EPOLLIN; ev.data.ptr=c; epoll_ctl(epfd,EPOLL_CTL_ADD,sp[0],&ev);
  c->epollin=true; http_connection_handler(c);
  Conn*k=new Conn(); k->c=c; k->peer=sp[1]; k->budget=1LL<<60; k->flaky=P(40); k->closed=false; if(P(50)){ uint16_t p=R(P(50)?65536:BUFFER_SIZE); c->input.read_position=c->input.write_position=p; }
  conns.push_back(k); byfd[sp[0]]=k; return k; }
static void drop(Conn*k){ // the server side is closed (connection.cpp's event loop)
  if(k->c){ int fd=k->c->client_sock; ASAN_UNPOISON_MEMORY_REGION(k->c,sizeof*k->c); http_cleanup(k->c); byfd.erase(fd); connection_remove(k->c); k->c=NULL; k->closed=true; } }
static void suck(Conn*k){ char b[65536]; for(;;){ ssize_t r=__real_read(k->peer,b,sizeof b); if(r<=0) break; k->in.append(b,r); } }
static bool event(Conn*k){ // one round of the event loop for this connection
  scache_connection*c=k->c; if(!c) return false;
  int av=0; ioctl(c->client_sock,FIONREAD,&av); uint16_t rp=c->input.read_position,wp=c->input.write_position; void*h=(void*)c->handler; const void*ob=c->output_buffer; int ol=c->output_length; long long bud=k->budget; off64_t pos=c->cache.target.key.position; uint32_t st=c->state;
  bool in=c->epollin&&av>0, out=c->epollout, close=false;
  if(!in&&!out) return false;
  if(c->epollin&&c->epollout) bad("connection registered for reading and writing at once");
  if(in&&http_read_handle(c)==close_connection) close=true;
  if(out&&c->epollout&&http_write_handle(c)==close_connection) close=true;
  if((uint16_t)(c->input.write_position-c->input.read_position)>BUFFER_SIZE) bad("more consumed than received (read %u, write %u)",c->input.read_position,c->input.write_position);
  if(c->output_buffer&&c->output_length<0) bad("negative output length");
  suck(k);
  if(close){ drop(k); return true; }
  int av2=0; ioctl(c->client_sock,FIONREAD,&av2);
  return av2!=av||rp!=c->input.read_position||wp!=c->input.write_position||h!=(void*)c->handler||ob!=c->output_buffer||ol!=c->output_length||bud!=k->budget||pos!=c->cache.target.key.position||st!=c->state||k->flaky;
}
static void pump(Conn*k,int idle){ int stuck=0; for(int i=0;i<2000000&&k->c;i++){ string::size_type n=k->in.size(); scache_connection*c=k->c; uint16_t rp=c->input.read_position; void*h=(void*)c->handler; long long b=k->budget; bool prog=event(k); if(!prog) break; if(k->c&&k->in.size()==n&&k->c->input.read_position==rp&&(void*)k->c->handler==h&&k->budget==b) { if(++stuck>idle) break; } else stuck=0; } suck(k); }
static void send(Conn*k,const string&s){ // deliver in random pieces
  size_t i=0; int mode=R(4); while(i<s.size()){ size_t n=mode==0?s.size():mode==1?1+R(3):mode==2?1+R(200):1+R(5000); if(mode==1&&s.size()>4000) n=1+R(700); if(n>s.size()-i) n=s.size()-i; ssize_t r=__real_write(k->peer,s.data()+i,n); if(r<=0){ if(!k->c) return; pump(k,30); r=__real_write(k->peer,s.data()+i,n); if(r<=0) return; } i+=r; if(mode||i>=s.size()) pump(k,30); if(!k->c) return; } }
static void hangup(Conn*k){ if(k->peer>=0){ __real_close(k->peer); k->peer=-1; } drop(k); }
static void gone(Conn*k){ if(k->c) hangup(k); if(k->peer>=0) __real_close(k->peer); conns.erase(std::find(conns.begin(),conns.end(),k)); delete k; }
// ---------------------------------------------------------------- model
struct Val { string body; uint32_t len; long expires; uint64_t rec; bool writing; uint64_t id; };
typedef map<string,Val> Tab; static map<string,Tab> M; static map<string,int> gen; static uint64_t clk=1,ids=1;
static uint32_t hs(const string&k){ uint32_t o; MurmurHash3_x86_32(k.data(),k.size(),HASH_SEED,&o); return o; }
static long now(){ return current_time.tv_sec; }
static bool dead(const Val&v){ return v.expires!=0&&v.expires<now(); }
static void m_erase(const string&t,const string&k){ auto it=M.find(t); if(it==M.end()) return; it->second.erase(k); if(it->second.empty()){ M.erase(it); gen[t]++; } }
static Val*m_get(const string&t,const string&k){ auto it=M.find(t); if(it==M.end()) return NULL; auto j=it->second.find(k); return j==it->second.end()?NULL:&j->second; }
static db_table*i_table(const string&t){ db_details*d=db_get_details(); for(khiter_t i=0;i!=kh_end(d->tables);i++) if(kh_exist(d->tables,i)){ db_table*x=kh_val(d->tables,i); if(x->key_length==t.size()&&!memcmp(x->key,t.data(),t.size())) return x; } return NULL; }
static cache_entry*i_get(const string&t,const string&k){ db_table*x=i_table(t); if(!x||!x->cache_hash_set) return NULL; for(khiter_t i=0;i!=kh_end(x->cache_hash_set);i++) if(kh_exist(x->cache_hash_set,i)){ cache_entry*e=kh_val(x->cache_hash_set,i); if(e->key_length==k.size()&&!memcmp(e->key,k.data(),k.size())) return e; } return NULL; }
static void forget_expired(){ for(auto it=M.begin();it!=M.end();){ string t=it->first; vector<string> dl; for(auto&p:it->second) if(dead(p.second)&&!i_get(t,p.first)) dl.push_back(p.first); ++it; for(auto&k:dl) m_erase(t,k); } }
static void check(bool full){ // the storage layer against itself and the model
  forget_expired();
  db_details*d=db_get_details(); uint64_t keys=0,size=0; map<uint32_t,const void*> own; set<string> need; size_t nfile=0;
  map<const void*,int> eref,tref; set<cache_entry*> held;
  for(Conn*k:conns) if(k->c&&k->c->ltype==cache_connection){ scache_connection*c=k->c; if(c->method&REQUEST_CACHE_LEVELKEY){ cache_entry*e=c->cache.target.key.entry; if(e){ eref[e]++; tref[e->table]++; held.insert(e); } } else if(c->method&REQUEST_CACHE_LEVELTABLE){ if(c->cache.target.table.table) tref[c->cache.target.table.table]++; } }
  for(block_free_node*b=d->free_blocks;b;b=b->next){ if(b->block_number>=d->blocks_exist) bad("free block %u outside the block file (%u blocks)",b->block_number,d->blocks_exist); if(own.count(b->block_number)) bad("block %u is on the free list twice",b->block_number); own[b->block_number]=b; }
  if(own.size()!=d->blocks_free) bad("blocks_free is %u, %zu blocks are free",d->blocks_free,own.size());
  auto blk=[&](cache_entry*e){ if(!IS_SINGLE_FILE(e)&&e->block>=0){ if((uint32_t)e->block>=d->blocks_exist) bad("value uses block %d outside the block file (%u blocks)",e->block,d->blocks_exist); if(own.count(e->block)) bad("block %d is free or owned by two values",e->block); own[e->block]=e; } };
  set<cache_entry*> seen;
  for(khiter_t i=0;i!=kh_end(d->tables);i++) if(kh_exist(d->tables,i)){ db_table*t=kh_val(d->tables,i); string tn(t->key,t->key_length);
    if(t->deleted) bad("deleted table reachable"); if(!t->cache_hash_set) bad("table without key set reachable");
    uint32_t n=0; for(khiter_t j=0;j!=kh_end(t->cache_hash_set);j++) if(kh_exist(t->cache_hash_set,j)){ cache_entry*e=kh_val(t->cache_hash_set,j); n++; keys++; size+=e->data_length; seen.insert(e); blk(e);
      string kn(e->key,e->key_length); if(e->deleted) bad("deleted value reachable"); if(e->table!=t) bad("value in the wrong table");
      if(!full){ if(IS_SINGLE_FILE(e)) nfile++; if(e->refs!=eref[e]) bad("value %s/%s has %u references, %d connections use it",show(tn).c_str(),show(kn).c_str(),e->refs,eref[e]); continue; }
      Val*v=m_get(tn,kn); if(!v) bad("value %s/%s exists but was deleted, aborted or never stored",show(tn).c_str(),show(kn).c_str());
      if(v->writing!=e->writing) bad("value %s/%s: upload %s",show(tn).c_str(),show(kn).c_str(),v->writing?"in progress but visible":"complete but not visible");
      if(!v->writing&&v->len!=e->data_length) bad("value %s/%s has length %u, stored with %u",show(tn).c_str(),show(kn).c_str(),e->data_length,v->len);
      if(!v->writing&&v->expires!=e->expires) bad("value %s/%s expires at %ld, expected %ld",show(tn).c_str(),show(kn).c_str(),(long)e->expires,v->expires);
      if(IS_SINGLE_FILE(e)) nfile++;
      if(e->refs!=eref[e]) bad("value %s/%s has %u references, %d connections use it",show(tn).c_str(),show(kn).c_str(),e->refs,eref[e]); }
    if(n!=kh_size(t->cache_hash_set)) bad("key set size of %s",show(tn).c_str());
    if(t->refs!=(unsigned)tref[t]+(n?1:0)) bad("table %s has %u references, expected %d",show(tn).c_str(),(unsigned)t->refs,tref[t]+(n?1:0)); }
  for(cache_entry*e:held) if(!seen.count(e)){ if(!e->deleted) bad("a value in use is neither reachable nor marked deleted"); if(e->refs!=eref[e]) bad("a deleted value in use has %u references, %d connections use it",e->refs,eref[e]); blk(e); }
  if(own.size()!=d->blocks_exist) bad("%zu of %u blocks are free or owned",own.size(),d->blocks_exist);
  if(keys!=d->db_keys) bad("db_keys is %llu, %llu entries exist",(unsigned long long)d->db_keys,(unsigned long long)keys);
  if(size!=d->db_size_bytes) bad("db_size_bytes is %llu, the entries sum up to %llu",(unsigned long long)d->db_size_bytes,(unsigned long long)size);
  struct stat sb; if(!fstat(d->fd_blockfile,&sb)&&sb.st_size!=(off_t)d->blocks_exist*BLOCK_LENGTH) bad("block file has %lld bytes, %u blocks exist",(long long)sb.st_size,d->blocks_exist);
  if(nfile!=vfiles.size()) bad("%zu value files exist, %zu values use one",vfiles.size(),nfile);
  if(!full){ size_t n=0,m=0; cache_entry*prev=NULL; for(cache_entry*e:seen) if(!e->writing) m++; for(cache_entry*e=d->lru_head;e;prev=e,e=e->lru_next,n++){ if(!seen.count(e)||e->writing||e->lru_prev!=prev||n>m) bad("eviction list broken"); } if(n!=m||d->lru_tail!=prev) bad("eviction list holds %zu of %zu completed values",n,m); return; }
  vector<std::pair<uint64_t,std::pair<string,string>>> ord; for(auto&t:M) for(auto&p:t.second){ if(!i_get(t.first,p.first)){ if(dead(p.second)) continue; bad("value %s/%s is gone",show(t.first).c_str(),show(p.first).c_str()); } if(!p.second.writing) ord.push_back({p.second.rec,{t.first,p.first}}); }
  std::sort(ord.begin(),ord.end()); size_t i=0; cache_entry*prev=NULL;
  for(cache_entry*e=d->lru_head;e;prev=e,e=e->lru_next,i++){ if(i>=ord.size()) bad("eviction list is longer than the set of completed values"); if(e->lru_prev!=prev) bad("eviction list links are broken"); if(!seen.count(e)||e->writing) bad("eviction list contains a deleted or unfinished value"); if(string(e->key,e->key_length)!=ord[i].second.second||string(e->table->key,e->table->key_length)!=ord[i].second.first) bad("eviction order: position %zu holds %s, expected %s/%s",i,show(string(e->key,e->key_length)).c_str(),show(ord[i].second.first).c_str(),show(ord[i].second.second).c_str()); }
  if(i!=ord.size()||d->lru_tail!=prev) bad("eviction list holds %zu of %zu completed values",i,ord.size());
}
// ---------------------------------------------------------------- requests
struct Resp { bool ok; int code; map<string,string> h; string body; bool complete; size_t used; };
static Resp parse(const string&s,bool nobody,bool toend){ Resp r; r.ok=false; r.complete=false; r.code=0; size_t e=s.find("\r\n\r\n"); if(e==string::npos) return r;
  if(s.compare(0,9,"HTTP/1.1 ")) bad("malformed response: %s",show(s).c_str()); r.code=atoi(s.c_str()+9); size_t p=s.find("\r\n"); while(p<e){ size_t q=s.find("\r\n",p+2); string l=s.substr(p+2,q-p-2); size_t c=l.find(": "); if(c==string::npos) bad("malformed response header: %s",show(l).c_str()); r.h[l.substr(0,c)]=l.substr(c+2); p=q; }
  r.ok=true; size_t b=e+4; size_t n=0; if(toend) n=s.size()-b; else if(!nobody) { if(!r.h.count("Content-Length")) { r.complete=true; r.used=b; return r; } n=strtoull(r.h["Content-Length"].c_str(),NULL,10); }
  if(s.size()-b<n) return r; r.body=s.substr(b,n); r.used=b+n; r.complete=true; return r; }
enum Kind { GET,HEAD,PUT,DEL,DELT,BULK,LIST,STATS };
struct Job { Conn*k; Kind kind; string t,key,req; vector<size_t> cut; string body; uint64_t id; int g; bool mocked,begun,looked; int code; string xbody; long xttl; vector<string> names; long ttl; bool known; uint32_t len; bool aborted; };
static vector<Job*> jobs; // stalled requests
static vector<string> tn,kn; static bool collide; static string sta,stb;
static string rname(bool table){ string s; int n=1+R(P(10)?300:8); for(int i=0;i<n;i++){ unsigned char c; do c=P(70)?'a'+R(4):R(256); while(c==' '||c=='\r'||c=='\n'||(table&&c=='/')); s+=(char)c; } return s; }
static size_t rlen(){ switch(R(8)){ case 0: return 1+R(16); case 1: return 4096; case 2: return 4097; case 3: return 4095; case 4: return 1+R(4096); case 5: return 4097+R(12000); case 6: return 16384+R(3)-1; default: return 1+R(40000); } }
static string rbody(size_t n){ string s(n,0); for(size_t i=0;i<n;i++) s[i]=rnd()>>13; return s; }
static void expect(Job*j,int code){ j->code=code; }
static void lookup_entry(Job*j){ // the key has been named in full
  j->looked=true; bool tdead=j->g!=gen[j->t];
  Val*v=tdead?NULL:m_get(j->t,j->key);
  if(j->kind==GET||j->kind==HEAD){ if(v&&dead(*v)){ m_erase(j->t,j->key); v=NULL; } if(!v&&!tdead){ auto it=M.find(j->t); if(it!=M.end()) for(auto&p:it->second) if(dead(p.second)&&hs(p.first)==hs(j->key)){ m_erase(j->t,p.first); break; } }
    if(v&&!v->writing){ v->rec=clk++; j->code=200; j->xbody=v->body; j->xttl=v->expires; } else j->code=404; }
  else if(j->kind==DEL){ j->code=v?200:404; j->id=v?v->id:0; }
  else if(j->kind==PUT){ j->mocked=tdead; if(!tdead){ Tab&T=M[j->t]; uint32_t h=hs(j->key); for(auto it=T.begin();it!=T.end();++it) if(hs(it->first)==h){ if(it->second.writing) j->mocked=true; else T.erase(it); break; } if(!j->mocked){ Val n; n.len=0; n.expires=0; n.rec=0; n.writing=true; n.id=ids++; j->id=n.id; T[j->key]=n; } else if(T.empty()) M.erase(j->t); }
    j->code=200; } }
static void finish_put(Job*j,bool ok){ if(j->mocked) return; Val*v=m_get(j->t,j->key); if(!v||v->id!=j->id||j->g!=gen[j->t]) return; if(ok){ v->writing=false; v->body=j->body; v->len=j->body.size(); v->expires=j->ttl; v->rec=clk++; } else m_erase(j->t,j->key); }
static string hcase(const char*a,const char*b){ return P(50)?a:b; }
static string eol(){ return P(80)?"\r\n":"\n"; }
static void run(Job*j,bool mayStall);
static void phase_stalls(Job*j,size_t from,size_t upto,bool&st){ (void)j;(void)from;(void)upto;(void)st; }
static string state(Conn*k){ scache_connection*c=k->c; char b[300]; int av=0; ioctl(c->client_sock,FIONREAD,&av); snprintf(b,sizeof b,"handler %s state %u read %u write %u in=%d out=%d pending %d unread ",c->handler_name,c->state,c->input.read_position,c->input.write_position,c->epollin,c->epollout,av); string u; for(uint16_t i=c->input.read_position;i!=c->input.write_position&&u.size()<60;i++) u+=c->input.buffer[i&(BUFFER_SIZE-1)]; return b+show(u); }
static void complete(Job*j){ // the whole request has been delivered: check the response
  Conn*k=j->k; k->budget=1LL<<60; pump(k,200); bool list=j->kind==LIST&&j->code==200;
  if(j->aborted){ gone(k); j->k=NULL; return; }
  if(j->kind==LIST){ if(k->in.compare(0,12,"HTTP/1.1 404")==0){ if(j->code==200) bad("listing of an existing table answered 404"); }
    else { if(j->code==404&&k->in.size()) {} Resp r=parse(k->in,false,true); if(!r.ok) bad("no complete listing response: %s",show(k->in).c_str()); if(k->c) bad("connection open after the end of a listing"); if(r.code!=200) bad("listing answered %d",r.code);
      vector<string> got; size_t p=0; while(p<r.body.size()){ size_t q=r.body.find("\r\n",p); if(q==string::npos) bad("listing ends in the middle of a key"); got.push_back(r.body.substr(p,q-p)); p=q+2; }
      if(j->known){ std::sort(got.begin(),got.end()); std::sort(j->names.begin(),j->names.end()); if(got!=j->names) bad("listing of %s shows %zu keys, the window holds %zu (or others)",show(j->t).c_str(),got.size(),j->names.size()); if(r.h["X-Entries"]!=std::to_string(j->len)) bad("listing announces %s entries, the table has %u",r.h["X-Entries"].c_str(),j->len); } }
    (void)list; if(!k->c){ gone(k); j->k=NULL; } else k->in.clear(); return; }
  Resp r=parse(k->in,j->kind==HEAD&&j->code==200,false);
  if(!r.complete) bad("response not complete: got %zu bytes: %s [%s]",k->in.size(),show(k->in).c_str(),k->c?state(k).c_str():"connection closed");
  if(r.used!=k->in.size()) bad("%zu bytes after the end of the response: %s",k->in.size()-r.used,show(k->in.substr(r.used)).c_str());
  if(r.code!=j->code) bad("%s answered %d, expected %d",j->req.substr(0,40).c_str(),r.code,j->code);
  if(j->code==200&&(j->kind==GET||j->kind==HEAD)){ if(r.h["Content-Length"]!=std::to_string(j->xbody.size())) bad("Content-Length %s, value has %zu bytes",r.h["Content-Length"].c_str(),j->xbody.size()); long t=j->xttl?j->xttl-j->g:0; (void)t; if(r.h.count("X-Ttl")==0) bad("no X-Ttl"); if(j->known&&atol(r.h["X-Ttl"].c_str())!=(j->xttl?j->xttl-now():0)) bad("X-Ttl %s, expected %ld",r.h["X-Ttl"].c_str(),j->xttl?j->xttl-now():0);
    if(j->kind==GET&&r.body!=j->xbody){ size_t i=0; while(i<r.body.size()&&r.body[i]==j->xbody[i]) i++; bad("body differs from the stored value at byte %zu of %zu",i,j->xbody.size()); } }
  if(j->kind==STATS){ db_details*d=db_get_details(); char b[200]; snprintf(b,sizeof b,"DB Keys: %llu\r\n",(unsigned long long)d->db_keys); if(r.body.find(b)==string::npos) bad("stats: %s",r.body.c_str()); snprintf(b,sizeof b,"DB Size Bytes: %llu\r\n",(unsigned long long)d->db_size_bytes); if(r.body.find(b)==string::npos) bad("stats: %s",r.body.c_str()); snprintf(b,sizeof b,"DB Blocks Free: %u/%u\r\n",d->blocks_free,d->blocks_exist); if(r.body.find(b)==string::npos) bad("stats: %s",r.body.c_str()); }
  k->in.clear(); if(k->c&&(!k->c->epollin||k->c->epollout)) bad("connection does not return to reading after a response");
}
static Conn*pick(){ for(int i=0;i<3&&!conns.empty();i++){ Conn*k=conns[R(conns.size())]; bool busy=!k->c; for(Job*j:jobs) if(j->k==k) busy=true; if(!busy&&P(80)) return k; } return newconn(); }
static void m_del(const string&t,const string&k,uint64_t id,int g){ if(g!=gen[t]) return; Val*v=m_get(t,k); if(v&&v->id==id) m_erase(t,k); }
// a request is delivered as: A = up to the end of the table name, B = up to the end of the key (the blank included), C = header lines, D = last line end, E = body
struct Parts { string A,B,C,D,E; };
static Parts build(Job*j){ Parts p; string ver=" HTTP/1.1"; static const char*mn[]={"GET ","HEAD ","PUT ","DELETE ","DELETE ","BULK ","GET ","GET "};
  string e=eol(); p.A=(P(10)?"\r\n":"")+string(mn[j->kind])+"/"+j->t; if(j->kind<=DEL) p.A+="/"; 
  if(j->kind<=DEL) p.B=j->key+" "; else p.B=" "; p.B+=""; string junk; if(P(30)) junk="Host: abc"+e; if(P(5)) junk+="X-Long: "+string(R(3000),'x')+e; if(P(10)) junk+="Content-Lengt: 7"+e+"X-Tt: 9"+e;
  p.C="HTTP/1.1"+e+junk; 
  if(j->kind==PUT){ auto cl=[&](size_t n){ return "Content-Length:"+string(P(80)?" ":"")+(P(10)?"000":"")+std::to_string(n)+e; }; string ttl; j->ttl=0; if(P(30)){ long t=P(20)?0:1+R(50); ttl=hcase("X-Ttl","x-ttl")+": "+std::to_string(t)+e; j->ttl=t; }
    string c; if(P(15)) c+=cl(P(20)?0:rlen()); if(P(5)) c+=cl(rlen()); if(j->len){ c+=cl(j->len); } else if(!c.empty()) c+=cl(0);
    p.C+=P(50)?ttl+c:c+ttl; if(P(30)) p.C+="X-More: 1"+e; }
  if(j->kind==BULK) for(auto&n:j->names) p.C+=hcase("X-Delete","x-delete")+": "+n+e;
  if(j->kind==LIST){ if(j->cut.size()>0) p.C+=hcase("X-Start","x-start")+": "+std::to_string(j->cut[0])+e; if(j->cut.size()>1) p.C+=hcase("X-Limit","x-limit")+": "+std::to_string(j->cut[1])+e; }
  p.D=e; p.E=j->kind==PUT?j->body:""; j->req=p.A+p.B+p.C; return p; }
static map<Job*,Parts> rest; static map<Job*,int> stage;
static void drive(Job*j,bool mayStall){ // deliver what is left, stopping where stalled
  Parts&p=rest[j]; int&s=stage[j]; Conn*k=j->k;
  if(s==0){ // the table name; the table is looked up at its end
    bool keyl=j->kind<=DEL; if(mayStall&&P(5)){ send(k,p.A.substr(0,R(p.A.size()))); /* nothing has been looked up yet */ size_t done=0; (void)done; j->aborted=true; s=9; return; }
    j->g=gen[j->t]; bool have=i_table(j->t)!=NULL;
    send(k,p.A); s=1; if(keyl&&!have&&j->kind!=PUT){ send(k,p.B+p.C+p.D); j->code=404; s=8; return; }
    if(keyl&&mayStall&&P(8)) { H("  (stalls after the table name)"); return; } }
  if(s==1){ // the key
    if(j->kind<=DEL){ lookup_entry(j); send(k,p.B); }
    else { j->g=gen[j->t]; bool have=i_table(j->t)!=NULL; j->code=j->kind==STATS||j->kind==BULK||have?200:404; send(k,p.B); if(!have) j->looked=false; else j->looked=true; }
    s=2; if(mayStall&&P(8)&&j->kind!=STATS){ H("  (stalls after the request line's name)"); return; } }
  if(s==2){ // header lines
    if(j->kind==BULK){ bool ok=j->looked&&j->g==gen[j->t]; if(ok) for(auto&n:j->names){ if(j->g!=gen[j->t]) break; m_erase(j->t,n); } }
    if(j->kind==PUT&&j->ttl) j->ttl+=now();
    if(j->kind==PUT&&!j->mocked&&j->g==gen[j->t]) if(Val*v=m_get(j->t,j->key)) if(v->id==j->id) v->expires=j->ttl;
    send(k,p.C); s=3; if(mayStall&&P(10)&&j->kind!=STATS){ H("  (stalls before the end of the headers)"); return; } }
  if(s==3){ // the end of the headers
    if(j->kind==DEL&&j->code==200) m_del(j->t,j->key,j->id,j->g);
    if(j->kind==DELT&&j->looked){ if(j->g==gen[j->t]){ if(M.count(j->t)){ M.erase(j->t); } gen[j->t]++; } }
    if(j->kind==LIST&&j->looked){ db_table*t=i_table(j->t); j->known=false; if(t&&j->g==gen[j->t]){ j->known=true; j->len=kh_size(t->cache_hash_set); uint64_t st=j->cut.size()>0?j->cut[0]:0, li=j->cut.size()>1?j->cut[1]:DEFAULT_LISTING_LIMIT; j->names.clear(); for(uint64_t i=st;i<kh_end(t->cache_hash_set)&&i-st<li;i++) if(kh_exist(t->cache_hash_set,i)){ cache_entry*e=kh_val(t->cache_hash_set,i); j->names.push_back(string(e->key,e->key_length)); } } }
    if(j->kind==PUT&&j->len==0&&!j->mocked){ j->code=400; finish_put(j,false); }
    if(j->kind==PUT&&j->len==0&&j->mocked) j->aborted=true; // an ignored upload of nothing
    if(mayStall&&P(25)&&(j->kind==GET||j->kind==LIST)&&j->code==200){ k->budget=R(j->kind==GET?j->xbody.size()+120:300); j->known=false; send(k,p.D); s=8; H("  (reader stalls)"); return; }
    if(j->kind==PUT) s=4; else { send(k,p.D); s=8; }
    if(j->kind==PUT){ if(P(50)||p.E.empty()) { send(k,p.D); } else { p.E=p.D+p.E; } } }
  if(s==4){ if(mayStall&&P(20)&&p.E.size()>2){ size_t n=R(p.E.size()-1); send(k,p.E.substr(0,n)); p.E.erase(0,n); H("  (upload stalls)"); return; }
    if(!j->mocked&&j->len) finish_put(j,true); send(k,p.E); if(k->in.size()==0) pump(k,200); s=8; }
}
static void step(Job*j,bool mayStall){ drive(j,mayStall); if(stage[j]==8&&j->k->budget>(1LL<<50)){ complete(j); rest.erase(j); stage.erase(j); auto it=std::find(jobs.begin(),jobs.end(),j); if(it!=jobs.end()) jobs.erase(it); delete j; } else if(std::find(jobs.begin(),jobs.end(),j)==jobs.end()) jobs.push_back(j); }
static void abortjob(Job*j){ H("  abort of %s",show(j->req).substr(0,50).c_str()); if(j->kind==PUT&&j->looked&&stage[j]<8) finish_put(j,false); Conn*k=j->k; if(k) gone(k); rest.erase(j); stage.erase(j); jobs.erase(std::find(jobs.begin(),jobs.end(),j)); delete j; }
static void request(){
  Job*j=new Job(); j->aborted=j->mocked=j->begun=j->looked=false; j->known=true; j->code=0; j->xttl=0; j->id=0; j->g=0; j->ttl=0; j->len=0; int r=R(100);
  j->kind=r<34?PUT:r<62?GET:r<68?HEAD:r<80?DEL:r<83?DELT:r<88?BULK:r<95?LIST:STATS;
  j->t=tn[R(tn.size())]; j->key=kn[R(kn.size())];
  if(collide){ if(j->kind==DELT) j->kind=GET; if(j->t==sta&&(j->kind==DEL||j->kind==PUT)&&j->key==kn[0]) j->kind=GET; if(j->t==sta&&j->kind==BULK) j->kind=GET; }
  if(j->kind==STATS){ j->t=""; }
  if(j->kind==PUT){ j->len=P(4)?0:rlen(); j->body=rbody(j->len); }
  if(j->kind==BULK){ int n=R(5); for(int i=0;i<n;i++) j->names.push_back(kn[R(kn.size())]); }
  if(j->kind==LIST){ if(P(40)) j->cut.push_back(P(10)?4294967295u>>1:R(40)); if(!j->cut.empty()&&P(60)) j->cut.push_back(P(10)?2147483647:R(60)); }
  j->k=pick(); rest[j]=build(j); stage[j]=0; H("%s (%zu bytes of body)",show(j->req).c_str(),j->body.size());
  step(j,jobs.size()<12&&P(60)); }
static void gc(){ db_details*d=db_get_details(); struct It{ cache_entry*e; uint32_t len; string t,k; }; vector<It> l; for(cache_entry*e=d->lru_head;e;e=e->lru_next) l.push_back({e,e->data_length,string(e->table->key,e->table->key_length),string(e->key,e->key_length)});
  uint64_t S=d->db_size_bytes; if(P(30)) settings.max_size=S?S-1+R(3):1; else settings.max_size=1+R(S+S/4+2); float f=settings.db_lru_clear; uint64_t mx=settings.max_size; H("collection: size %llu, limit %llu",(unsigned long long)S,(unsigned long long)mx);
  db_lru_gc(); settings.max_size=0; forget_expired();
  uint64_t ex=0; vector<It> left; for(auto&x:l){ Val*v=m_get(x.t,x.k); if(!v) continue; left.push_back(x); } S=0; for(auto&t:M) for(auto&p:t.second){ if(p.second.writing){ cache_entry*e=i_get(t.first,p.first); if(e) S+=e->data_length; } else S+=p.second.len; } (void)ex;
  uint64_t S0=S; uint64_t before=0; for(auto&x:l) before+=x.len; size_t n=0; bool on=true; uint64_t freed=0,last=0; for(auto&x:left){ bool ev=!i_get(x.t,x.k); if(ev){ if(!on) bad("collection evicted %s/%s although a less recently used value stays",show(x.t).c_str(),show(x.k).c_str()); n++; freed+=x.len; last=x.len; m_erase(x.t,x.k); } else on=false; }
  bool over; { uint64_t S1=0; (void)S1; over=true; }
  double need=(double)S0-(double)mx+(double)mx*f, tol=2+mx*1e-6; (void)over;
  if(n&&need<=-tol) bad("collection evicted %zu values although the size after expiry was below the target",n);
  if(n&&(double)(freed-last)>need+tol) bad("collection went on evicting after the target was reached (needed %.0f, %llu freed before the last)",need,(unsigned long long)(freed-last));
  if(n<left.size()&&S>mx&&(double)freed+tol<need) bad("collection stopped early: needed %.0f, freed %llu",need,(unsigned long long)freed);
}
static string piece(){ static const char*w[]={"GET /","PUT /","HEAD /","DELETE /","BULK /","PURGE /","ADMIN /","ADMIN /gc ","GET / "," HTTP/1.1\r\n"," HTTP/1.1\r\n\r\n","\r\n","\r\n\r\n","\n","\r"," ","/",":","Content-Length: ","Content-Length:","X-Ttl: ","x-ttl:","X-Limit: ","X-Start:","X-Delete: ","0","1","12","4096","4097","5000","2147483647","2147483648","-1","99999999999","Content-Lengt:","FOO","FOOBAR ","FOOBARS "}; int r=R(100); if(r<60) return w[R(sizeof w/sizeof*w)]; if(r<80) return tn[R(tn.size())]; if(r<95) return kn[R(kn.size())]; if(r<98) return rbody(R(100)); return string(R(17000),"x:\n "[R(4)]); }
static string message(){ string s; if(P(30)){ int n=R(12); for(int i=0;i<n;i++) s+=piece(); return s; } static const char*m[]={"GET /","PUT /","HEAD /","DELETE /","BULK /","GET /","PUT /"}; s=m[R(7)]+tn[R(tn.size())]; if(P(75)) s+="/"+kn[R(kn.size())]; s+=" HTTP/1.1\r\n"; int n=R(4); for(int i=0;i<n;i++){ static const char*h[]={"Content-Length: ","X-Ttl: ","X-Limit: ","X-Start: ","Junk: "}; s+=h[R(5)]; s+=P(85)?std::to_string(P(80)?R(9000):R(1)?2147483647:R(5)):piece(); s+=P(90)?"\r\n":"\n"; if(P(20)) s+="X-Delete: "+kn[R(kn.size())]+"\r\n"; } s+="\r\n"; if(P(40)) s+=rbody(R(9000)); if(P(15)&&s.size()) s.erase(R(s.size()),1+R(3)); if(P(15)) s.insert(R(s.size()+1),piece()); return s; }
static void noise(int ops){ // anything at all: no memory error, and the storage layer stays consistent
  for(int i=0;i<ops;i++){ int r=R(100); if(r<70||conns.empty()){ Conn*k=conns.size()<10||P(10)?newconn():conns[R(conns.size())]; string s=message(); H("connection %d: %s",k->peer,show(s).c_str()); if(P(25)) k->budget=R(200); else k->budget=1LL<<60; if(k->c) send(k,P(20)?s.substr(0,R(s.size()+1)):s); k->in.clear(); }
    else if(r<80){ Conn*k=conns[R(conns.size())]; H("connection %d goes on",k->peer); k->budget=1LL<<60; pump(k,30); k->in.clear(); }
    else if(r<90){ Conn*k=conns[R(conns.size())]; H("connection %d ends",k->peer); gone(k); }
    else if(r<94){ H("time"); current_time.tv_sec+=R(2000); } else if(r<97){ H("collection"); if(P(50)) settings.max_size=1+R(50000); db_lru_gc(); settings.max_size=0; }
    check(false); }
  while(!conns.empty()) gone(conns.back()); check(false); }
static void episode(const string&dir){
  dbdir=dir; tn.clear(); kn.clear(); struct rlimit rl={120,130}; setrlimit(RLIMIT_CPU,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
  epfd=epoll_create1(0); current_time.tv_sec=1000000; http_templates_init(); settings.db_lru_clear=P(50)?0.2f:(float)R(100)/100; db_open(dir.c_str());
  collide=P(25); io_faults=P(50); int ops=400+R(1200);
  if(collide){ map<uint32_t,string> m; while(tn.size()<2){ string s=rname(true); s+=std::to_string(R(1000000)); uint32_t h=hs(s); auto it=m.find(h); if(it!=m.end()&&it->second!=s){ tn.push_back(it->second); tn.push_back(s); } m[h]=s; } m.clear(); sta=tn[0]; stb=tn[1]; kn.push_back(rname(false)); while(kn.size()<7){ string s=rname(false)+std::to_string(R(1000000)); uint32_t h=hs(s); auto it=m.find(h); if(it!=m.end()&&it->second!=s){ kn.push_back(it->second); kn.push_back(s); } m[h]=s; } }
  int nt=1+R(4); while((int)tn.size()<nt){ string s=rname(true); tn.push_back(s); if(P(30)) tn.push_back(s+"x"); if(P(30)) tn.push_back(s+string(1,0)); }
  int nk=2+R(P(20)?80:8); while((int)kn.size()<nk){ string s=rname(false); kn.push_back(s); if(P(30)) kn.push_back(s+"x"); if(P(30)) kn.push_back(s+string(1,0)); if(P(10)) kn.push_back(s+"/x"); if(P(30)) kn.push_back(s.substr(0,s.size()-1)+"z"); }
  if(P(10)) kn.push_back(string(1+R(9000),'q'));
  if(collide){ Job*j=new Job(); j->aborted=j->mocked=j->begun=j->looked=false; j->known=true; j->code=0; j->kind=PUT; j->t=sta; j->key=kn[0]; j->len=5; j->body="abcde"; j->id=0; j->g=0; j->ttl=0; j->xttl=0; j->k=newconn(); rest[j]=build(j); stage[j]=0; step(j,false); m_get(sta,kn[0]); if(Val*v=m_get(sta,kn[0])) if(v->expires){ _exit(0); } }
  if(!collide&&P(35)){ noise(ops); return; }
  for(int i=0;i<ops;i++){
    int r=R(100);
    if(r<60||jobs.empty()) request();
    else if(r<85) { Job*j=jobs[R(jobs.size())]; if(j->aborted) abortjob(j); else if(P(15)) abortjob(j); else { H("resume: %s",show(j->req).substr(0,60).c_str()); j->k->budget=1LL<<60; step(j,P(30)); } }
    else if(r<90) { current_time.tv_sec+=R(P(20)?60:6); for(Job*j:jobs) j->known=false; H("time is %ld",now()); }
    else if(r<93&&!collide){ check(true); gc(); }
    else if(r<94){ H("sweep"); db_lru_gc(); }
    else if(r<97&&!conns.empty()){ Conn*k=conns[R(conns.size())]; bool busy=false; for(Job*j:jobs) if(j->k==k) busy=true; if(!busy) gone(k); }
    check(true);
  }
  H("end: all connections close"); while(!jobs.empty()) abortjob(jobs.back()); while(!conns.empty()) gone(conns.back()); check(true);
  if(!vfds.empty()) bad("descriptor of value file %s still open with no connection left",vfds.begin()->second.c_str());
}
static long drain(const string&dir){ // everything stored is deleted again: nothing may be left allocated
  (void)dir; vector<string> ts; { db_details*d=db_get_details(); for(khiter_t i=0;i!=kh_end(d->tables);i++) if(kh_exist(d->tables,i)){ db_table*x=kh_val(d->tables,i); ts.push_back(string(x->key,x->key_length)); } } for(auto&t:ts){ db_table*x=i_table(t); if(x){ string n=t; db_table_handle_delete(x); } } M.clear(); return 0; }
static int rmf(const char*p,const struct stat*,int,struct FTW*){ return remove(p); }
int main(int c,char**v){ if(c<4) return 2; uint64_t seed=strtoull(v[1],0,10); int secs=atoi(v[2]); string tmp=v[3]; time_t t0=time(NULL); int n=0; bool dbg=c>4; uint64_t one=dbg?strtoull(v[4],0,10):0;
  do { uint64_t s=one?one:seed*1000003+n; string d=tmp+"/db"+std::to_string(n); mkdir(d.c_str(),0700); fflush(NULL); pid_t p=__real_fork();
    if(!p){ if(!dbg){ int q=__real_open("/dev/null",O_WRONLY); dup2(q,1); } int e=__real_open((tmp+"/err").c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); dup2(e,2); seed0=s; rs=s*0x9E3779B97F4A7C15ULL+1; for(int i=0;i<8;i++) rnd(); counting=false; episode(d);
      long base; counting=true; live=0; (void)base; drain(d); if(db_get_details()->db_keys||db_get_details()->db_size_bytes) bad("figures are not zero after everything was deleted"); if(!vfiles.empty()) bad("value file %s left after everything was deleted",vfiles.begin()->c_str()); _exit(0); }
    int st; waitpid(p,&st,0); nftw(d.c_str(),rmf,16,FTW_DEPTH|FTW_PHYS);
    if(st){ printf("episode seed %llu: %s %d\n",(unsigned long long)s,WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); FILE*f=fopen((tmp+"/err").c_str(),"r"); if(f){ fseek(f,0,SEEK_END); long z=ftell(f); fseek(f,z>6000?z-6000:0,SEEK_SET); char b[6001]; size_t k=fread(b,1,6000,f); fwrite(b,1,k,stdout); } return 1; }
    n++; } while(!one&&time(NULL)-t0<secs);
  printf("%d episodes, nothing found\n",n); return 0; }
