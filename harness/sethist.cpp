// Drives a pool of real interval sets (1,2 joining; 3,4 separating; 5,6
// splitting) through a random history and logs every call with the projected
// state, for validation against SetHistory.tla.
//   -o trace.ndjson -seed S -max EVENTS -mode N(atoms)
#include "ask.hpp"
namespace vf {
template<class K,class S> inline Segs project(const S& s){ return project_set<K>(s); }
inline std::string js(const Segs& s){ std::string r="["; char b[64]; for(size_t i=0;i<s.size();++i){ snprintf(b,64,"%s[%d,%d,%d]",i?",":"",s[i].lo,s[i].hi,s[i].v); r+=b; } return r+"]"; }
struct PLen { int p; };
template<class K> struct Hist {
  typedef typename K::interval I; typedef typename K::domain D; typedef typename K::JoinSet J; typedef typename K::SepSet P; typedef typename K::SplitSet X;
  J j[2]; P p[2]; X x[2]; Rng g; int N; FILE* out; std::string line;
  Hist(unsigned seed,int n,FILE* o):g(seed),N(n),out(o){}
  template<class F> void with(int k,F f){ switch(k){ case 1:f(j[0]);break; case 2:f(j[1]);break; case 3:f(p[0]);break; case 4:f(p[1]);break; case 5:f(x[0]);break; default:f(x[1]); } }
  Segs proj(int k){ Segs r; with(k,[&](auto& s){ r=project<K>(s); }); return r; }
  void emit(const char* fmt,...){ char b[512]; va_list a; va_start(a,fmt); vsnprintf(b,512,fmt,a); va_end(a); line=b; }
  static int cls(int k){ return (k+1)/2; }
  void range_op(){
    static const char* ops[]={"add","sub","and","flip"}; int k=1+g(6); int o=g(10); o= o<5?0: o<8?1: o<9?2:3; if(o==2&&!g.one_in(4)) o=0;
    int lo,hi; if(g.one_in(12)){ lo=1; hi=0; } else { lo=g(N); hi=lo+g(o==2? N: 5); if(hi>=N) hi=N-1; if(o==2&&g.one_in(2)){ lo=0; } }
    I r=K::make(lo,hi,g(8)%K::nreps(lo,hi)); int v=g(8); bool el= lo==hi && K::is_point(lo) && g.one_in(2);
    emit("{\"e\":\"range\",\"op\":\"%s\",\"x\":%d,\"r\":[%d,%d],\"post\":",ops[o],k,lo,hi); st().line=&line; st().variant="history";
    with(k,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; typedef typename S::iterator It;
      if constexpr(K::discrete||K::dynamic) if(el){ D d=K::point(lo);
        switch(o){ case 0: if(v&1) s+=d; else s.insert(d); return; case 1: if(v&1) s-=d; else s.erase(d); return; case 2: s&=d; return; default: s^=d; return; } }
      switch(o){
        case 0: switch(v){ case 0: s.add(r); break; case 1: s+=r; break; case 2: s=s+r; break; case 3: s=std::move(s)+r; break; case 4: s.insert(r); break;
                  case 5: case 6: { int n=g(1+(unsigned)s.iterative_size()); It h=s.begin(); std::advance(h,n); s.add(h,r); break; } default: { int n=g(1+(unsigned)s.iterative_size()); It h=s.begin(); std::advance(h,n); s.insert(h,r); } } break;
        case 1: switch(v&3){ case 0: s.subtract(r); break; case 1: s-=r; break; case 2: s.erase(r); break; default: s=s-r; } break;
        case 2: switch(v&1){ case 0: s&=r; break; default: s=s&r; } break;
        default: switch(v&3){ case 0: s^=r; break; case 1: s.flip(r); break; case 2: s=s^r; break; default: s=r^std::move(s); } } });
    line+=js(proj(k))+"}"; }
  void cont_op(){ static const char* ops[]={"addC","subC","andC","xorC"}; int k=1+g(6), m=1+g(6); if(k==m) m=1+m%6; int o=g(4); if(o==2&&g.one_in(2)) o=0; int v=g(4);
    emit("{\"e\":\"cont\",\"op\":\"%s\",\"x\":%d,\"y\":%d,\"post\":",ops[o],k,m); st().line=&line;
    with(k,[&](auto& s){ this->with(m,[&](auto& t){ switch(o){ case 0: if(v==0) s|=t; else if(v==1) icl::insert(s,t); else s+=t; break; case 1: if(v&1) icl::erase(s,t); else s-=t; break; case 2: s&=t; break; default: if(v&1) icl::flip(s,t); else s^=t; } }); });
    line+=js(proj(k))+"}"; }
  void infix_op(){ static const char* ops[]={"addC","subC","andC","xorC"}; int z=1+g(6); int a=2*cls(z)-1+g(2); int b=1+g(6); if(cls(b)>cls(a)) b=a; int o=g(4); if(o==2&&g.one_in(2)) o=0; int v=g(4);
    emit("{\"e\":\"infix\",\"op\":\"%s\",\"x\":%d,\"y\":%d,\"z\":%d,\"post\":",ops[o],z,a,b); st().line=&line;
    with(z,[&](auto& rz){ typedef typename std::remove_reference<decltype(rz)>::type Z; this->with(a,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; if constexpr(std::is_same<Z,S>::value) this->with(b,[&](auto& t){ typedef typename std::remove_reference<decltype(t)>::type T;
      if constexpr(int(S::fineness)>=int(T::fineness)) switch(o){ case 0: if(v&1) rz=s+t; else rz=s|t; break; case 1: rz=s-t; break; case 2: rz=s&t; break; default: rz=s^t; } }); }); });
    line+=js(proj(z))+"}"; }
  void other_op(){ int k=1+g(6), m=1+g(6); int o=g(10);
    st().line=&line;
    if(o==0){ emit("{\"e\":\"assign\",\"x\":%d,\"y\":%d,\"post\":",k,m); if(k==m) m=k%6+1, emit("{\"e\":\"assign\",\"x\":%d,\"y\":%d,\"post\":",k,m); int v=g(3);
      with(k,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; this->with(m,[&](auto& t){ if(v==0) s=t; else if(v==1) s=S(t); else s.assign(t); }); }); line+=js(proj(k))+"}"; }
    else if(o==1||o==2||o==3){ m=2*cls(k)-1+g(2); if(o!=1&&m==k) m= k%2? k+1: k-1; int v=g(3); 
      emit(o==1? "{\"e\":\"copy\",\"x\":%d,\"y\":%d,\"post\":" : o==2? "{\"e\":\"swap\",\"x\":%d,\"y\":%d,\"post\":" : "{\"e\":\"move\",\"x\":%d,\"y\":%d,\"post\":",k,m);
      with(k,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; this->with(m,[&](auto& t){ typedef typename std::remove_reference<decltype(t)>::type T; if constexpr(std::is_same<S,T>::value){
        if(o==1){ if(v==0) s=t; else { S c(t); s=c; } } else if(o==2){ if(v==0) s.swap(t); else icl::swap(s,t); } else { if(v==0) s=std::move(t); else { S c(std::move(t)); s=std::move(c); } t.clear(); } } }); });
      line+=js(proj(k)); if(o==2) line+=",\"post2\":"+js(proj(m)); line+="}"; }
    else if(o==4){ if(!g.one_in(3)) return cont_op(); emit("{\"e\":\"clear\",\"x\":%d,\"post\":",k); with(k,[&](auto& s){ if(m&1) s.clear(); else icl::clear(s); }); line+=js(proj(k))+"}"; }
    else if(o==5||o==6||o==7){ int n=0; with(k,[&](auto& s){ n=(int)s.iterative_size(); }); if(!n){ range_op(); return; } int i=g(n), jj= o==5? i+1: i+g(n-i+1); if(jj-i>3) jj=i+2;
      emit("{\"e\":\"erase\",\"x\":%d,\"i\":%d,\"j\":%d,\"post\":",k,i+1,jj+1); with(k,[&](auto& s){ auto a=s.begin(); std::advance(a,i); auto b=s.begin(); std::advance(b,jj); if(o==5) s.erase(a); else s.erase(a,b); }); line+=js(proj(k))+"}"; }
    else { emit("{\"e\":\"join\",\"x\":%d,\"post\":",k); with(k,[&](auto& s){ icl::join(s); }); line+=js(proj(k))+"}"; }
}
  // questions: in between, and about any object
  void ask_op(){ typedef Ask<K,NoVal,NoVal> Q; int k=1+g(6); st().variant="ask"; line="{\"e\":\"ask\",\"x\":"+std::to_string(k)+","; st().line=&line; std::string q;
    if(g.one_in(3)){ int m=1+g(6); with(k,[&](auto& a){ const auto& x=a; this->with(m,[&](auto& b){ const auto& y=b; q="\"q\":\"cont\",\"a\":["+std::to_string(m)+"],\"ans\":"+Q::join(Q::cont(x,y)); }); }); }
    else with(k,[&](auto& a){ const auto& x=a; q=Q::some(g,x,N,[]{ return 1; }); });
    if(q.empty()) return range_op();
    line+=q+",\"post\":"+js(proj(k))+"}"; }
  void run(long events,int hist,unsigned asks){ st().codec=K::name(); st().kind="history"; static const char* nm[]={"range","cont","infix","other","ask"};
    for(long i=0;i<events;++i){ if(i%hist==0){ for(int k=1;k<=6;++k) with(k,[](auto& s){ s.clear(); }); line="{\"e\":\"reset\",\"styles\":[\"join\",\"join\",\"sep\",\"sep\",\"split\",\"split\"]}"; }
      else { if((i&63)==0) watchdog(20); unsigned w=g(20); int o= w<11?0: w<14?1: w<16?2:3; if(asks&&g(100)<asks) o=4; switch(o){ case 0: range_op(); break; case 1: cont_op(); break; case 2: infix_op(); break; case 3: other_op(); break; default: ask_op(); } ++st().per_op[nm[o]]; }
      ++st().cases; fputs(line.c_str(),out); fputc('\n',out); } }
};
}
#ifdef MAINK
#include <cstdarg>
using namespace vf;
int main(int argc,char** argv){ parse_args(argc,argv); int n=opt().mode.empty()? 14: atoi(opt().mode.c_str()); FILE* f=fopen(opt().out.c_str(),"w"); Hist<MAINK> h(opt().seed,n,f); h.run(opt().max? opt().max: 1000,opt().only.empty()? 60: atoi(opt().only.c_str()),opt().content? 60: 0); fclose(f); report(); return 0; }
#endif
