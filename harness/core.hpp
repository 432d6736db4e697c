// Shared pieces of every conformance driver: reading the transitions that TLC
// emitted, projecting real ICL objects to the specification's segments, and
// reporting disagreements.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
#include <vector>
#include <string>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <set>
#include <utility>
#include <algorithm>

namespace vf {

struct Seg { int lo, hi, v;
  bool operator==(const Seg& o) const { return lo==o.lo && hi==o.hi && v==o.v; }
  bool operator!=(const Seg& o) const { return !(*this==o); }
  bool operator<(const Seg& o) const { return lo!=o.lo? lo<o.lo : hi!=o.hi? hi<o.hi : v<o.v; } };
typedef std::vector<Seg> Segs;
typedef std::vector<int> Ints;

inline std::string str(const Segs& s){ std::string r="<<"; char b[64];
  for(size_t i=0;i<s.size();++i){ snprintf(b,64,"%s<<%d, %d, %d>>",i?", ":"",s[i].lo,s[i].hi,s[i].v); r+=b; } return r+">>"; }
inline std::string str(const Ints& s){ std::string r="<<"; char b[32];
  for(size_t i=0;i<s.size();++i){ snprintf(b,32,"%s%d",i?", ":"",s[i]); r+=b; } return r+">>"; }
inline std::string str(int i){ return std::to_string(i); }
inline std::string str(bool i){ return i?"1":"0"; }

// every integer of a TLA+ value, in order of appearance
inline void ints_of(const char* p, const char* e, Ints& out){ out.clear();
  while(p<e){ if((*p>='0'&&*p<='9')||(*p=='-'&&p+1<e&&p[1]>='0'&&p[1]<='9')){ bool n=false; if(*p=='-'){n=true;++p;} int x=0; while(p<e&&*p>='0'&&*p<='9') x=x*10+(*p++-'0'); out.push_back(n?-x:x);} 
    else if(*p=='"'){ ++p; while(p<e&&*p!='"')++p; if(p<e)++p; }
    else if(p+4<=e && !strncmp(p,"TRUE",4)){ out.push_back(1); p+=4; }
    else if(p+5<=e && !strncmp(p,"FALSE",5)){ out.push_back(0); p+=5; }
    else ++p; } }
inline Segs segs_of(const Ints& v){ Segs s; for(size_t i=0;i+2<v.size();i+=3) s.push_back(Seg{v[i],v[i+1],v[i+2]}); return s; }

// one emitted transition: fields separated by ';'
struct Case { std::string raw; std::vector<std::string> f; std::vector<Ints> n;
  std::string op() const { return f[0]; }
  Segs segs(int i) const { return segs_of(n[i]); } };

inline bool parse_case(const std::string& line, Case& c){
  if(line.empty()) return false;
  c.raw=line; c.f.clear(); c.n.clear();
  size_t b=0; for(;;){ size_t e=line.find(';',b); std::string t=line.substr(b,e==std::string::npos?e:e-b);
    Ints v; ints_of(t.data(),t.data()+t.size(),v); c.n.push_back(v);
    // strip blanks and quotes of a string field
    size_t x=t.find_first_not_of(" \""), y=t.find_last_not_of(" \""); c.f.push_back(x==std::string::npos?"":t.substr(x,y-x+1));
    if(e==std::string::npos) break; b=e+1; }
  return true; }

// ------------------------------------------------------------------ options
struct Options { std::string file, out, only, mode, type; int shard=0, shards=1; long max=0; unsigned seed=1; bool content=false; } ;
inline Options& opt(){ static Options o; return o; }

// ------------------------------------------------- reporting and supervision
struct State {
  const std::string* line=0; const char* variant="construct"; const char* codec="?"; const char* kind="?"; std::string op;
  long cases=0, checks=0, bad=0; std::map<std::string,long> per_op; std::map<std::string,long> per_variant; std::map<std::string,long> per_kind;
  std::set<std::string> badkeys; };
inline State& st(){ static State s; return s; }

inline void mismatch(const std::string& got, const std::string& want){
  State& s=st(); ++s.bad;
  std::string key=std::string(s.codec)+"|"+s.kind+"|"+s.variant+"|"+s.op;
  if(!s.badkeys.insert(key).second || s.badkeys.size()>60) return;
  printf("MISMATCH\tcodec=%s\tkind=%s\tvariant=%s\tgot=%s\twant=%s\tcase=%s\n",s.codec,s.kind,s.variant,got.c_str(),want.c_str(),s.line?s.line->c_str():"");
  fflush(stdout); }

template<class T,class U> inline bool check(const T& got,const U& want){ ++st().checks; ++st().per_variant[st().variant];
  if(got==want) return true; mismatch(str(got),str(T(want))); return false; }

inline void on_signal(int sig){ State& s=st(); char b[4096];
  int n=snprintf(b,sizeof b,"CRASH\tsignal=%d\tcodec=%s\tkind=%s\tvariant=%s\tcase=%s\n",sig,s.codec,s.kind,s.variant,s.line?s.line->c_str():"");
  ssize_t w=write(1,b,n<(int)sizeof b?n:sizeof b); (void)w; _exit(3); }
inline void watchdog(int seconds){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=seconds; setitimer(ITIMER_PROF,&t,0); }
inline void supervise(){
#ifndef __SANITIZE_ADDRESS__
  struct rlimit rl; rl.rlim_cur=rl.rlim_max=(rlim_t)4<<30; setrlimit(RLIMIT_AS,&rl);
#endif
   signal(SIGSEGV,on_signal); signal(SIGABRT,on_signal); signal(SIGFPE,on_signal); signal(SIGBUS,on_signal); signal(SIGPROF,on_signal); signal(SIGILL,on_signal); watchdog(20); }

inline void report(){ State& s=st(); watchdog(0);
  std::string r="{\"cases\":"+std::to_string(s.cases)+",\"checks\":"+std::to_string(s.checks)+",\"bad\":"+std::to_string(s.bad)+",\"per_op\":{";
  bool first=true; for(auto& p: s.per_op){ r+=(first?"\"":",\"")+p.first+"\":"+std::to_string(p.second); first=false; }
  r+="},\"per_variant\":{"; first=true; for(auto& p: s.per_variant){ r+=(first?"\"":",\"")+p.first+"\":"+std::to_string(p.second); first=false; }
  r+="},\"per_kind\":{"; first=true; for(auto& p: s.per_kind){ r+=(first?"\"":",\"")+p.first+"\":"+std::to_string(p.second); first=false; }
  printf("STATS %s}}\n",r.c_str()); fflush(stdout); }

inline void parse_args(int argc,char** argv){ Options& o=opt(); supervise();
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nxt=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="-f") o.file=nxt(); else if(a=="-o") o.out=nxt(); else if(a=="-content") o.content=true; else if(a=="-mode") o.mode=nxt(); else if(a=="-type") o.type=nxt(); else if(a=="-only") o.only=nxt();
    else if(a=="-shard"){ std::string t=nxt(); sscanf(t.c_str(),"%d/%d",&o.shard,&o.shards); }
    else if(a=="-max") o.max=atol(nxt().c_str()); else if(a=="-seed") o.seed=(unsigned)atol(nxt().c_str()); } }

template<class F> inline void for_cases(const std::string& file, F f){
  std::ifstream in(file.c_str()); if(!in){ printf("ERROR cannot read %s\n",file.c_str()); exit(2); }
  std::string line, full; long i=0; Case c; State& s=st();
  // with -type only the transitions of one container type, named in front of the line
  const std::string pre=opt().type.empty()? "": "\""+opt().type+"\";";
  while(std::getline(in,line)){ if(line.empty()) continue;
    full=line; if(!pre.empty()){ if(line.compare(0,pre.size(),pre)!=0) continue; line.erase(0,pre.size()); }
    if((i++)%opt().shards!=opt().shard) continue;
    if(!parse_case(line,c)) continue;
    c.raw=full; s.op=c.f[0];
    s.line=&c.raw; s.variant="?"; if((s.cases&255)==0) watchdog(20);
    f(c); ++s.cases; ++s.per_op[c.f[0]]; ++s.per_kind[std::string(s.codec)+"/"+s.kind]; }
  s.line=0; }

// per-atom content: value or None
const int None=-1000000;
inline Ints content(const Segs& s,int n=64){ Ints r(n,None); for(auto& g: s){ if(g.lo<0||g.hi>=n||g.lo>g.hi){ r.push_back(g.lo); r.push_back(g.hi); r.push_back(g.v); continue;} for(int a=g.lo;a<=g.hi;++a){ if(r[a]!=None) r.push_back(1000+a); r[a]=g.v; } } return r; }

// small deterministic generator
struct Rng { unsigned long long x; explicit Rng(unsigned long long s):x(s*0x9E3779B97F4A7C15ull+0x1234567ull){ next(); next(); }
  unsigned next(){ x^=x<<13; x^=x>>7; x^=x<<17; return (unsigned)(x>>16); } unsigned operator()(unsigned n){ return n? next()%n : 0; } bool one_in(unsigned n){ return (*this)(n)==0; } };
}
#endif
