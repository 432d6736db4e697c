// Drives a pool of real interval maps (1,2 joining; 3,4 splitting) and key
// sets (5 joining, 6 splitting) through a random history and logs every call
// with the projected state, for validation against MapHistory.tla.
//   -DMAINK -DMAINT -DMAINV   -o trace.ndjson -seed S -max EVENTS -mode N
#include "ask.hpp"
#include <cstdarg>
namespace vf {
inline std::string js(const Segs& s){ std::string r="["; char b[64]; for(size_t i=0;i<s.size();++i){ snprintf(b,64,"%s[%d,%d,%d]",i?",":"",s[i].lo,s[i].hi,s[i].v); r+=b; } return r+"]"; }
template<class K,class T,class MV> struct Hist {
  typedef typename K::interval I; typedef typename K::domain D; typedef typename MV::type V; typedef typename MV::template of<K,T> Types;
  typedef typename Types::JoinMap J; typedef typename Types::SplitMap X; typedef typename K::JoinSet SJ; typedef typename K::SplitSet SX;
  J j[2]; X x[2]; SJ sj; SX sx; Rng g; int N; FILE* out; std::string line; const std::string comb; bool bits;
  Hist(unsigned seed,int n,FILE* o):g(seed),N(n),out(o),comb(MV::comb()),bits(comb=="set"||comb=="bitor"||comb=="bitxor"){}
  template<class F> void map(int k,F f){ switch(k){ case 1:f(j[0]);break; case 2:f(j[1]);break; case 3:f(x[0]);break; default:f(x[1]); } }
  template<class F> void set(int k,F f){ if(k==5) f(sj); else f(sx); }
  Segs proj(int k){ Segs r; if(k<=4) map(k,[&](auto& s){ r=project_map<K,MV>(s); }); else set(k,[&](auto& s){ r=project_set<K>(s); }); return r; }
  void emit(const char* fmt,...){ char b[512]; va_list a; va_start(a,fmt); vsnprintf(b,512,fmt,a); va_end(a); line=b; st().line=&line; }
  void done(int k){ line+=js(proj(k))+"}"; }
  int value(){ if(comb=="plus") return int(g(6))-2; if(bits) return g(8); return g(4); }
  void range(int& lo,int& hi,bool wide=false){ if(g.one_in(14)){ lo=1; hi=0; } else { lo=g(N); hi=lo+g(wide? N: 5); if(hi>=N) hi=N-1; } }
  static const bool elems= K::discrete||K::dynamic;
  void pair_op(){
    static const char* ops[]={"add","sub","ins","era","set","and","flip"}; int k=1+g(4); int o=g(20); o= o<7?0: o<10?1: o<12?2: o<14?3: o<17?4: o<18?5:6;
    bool total=T::is_total; if(o==5&&!total&&!g.one_in(3)) o=0; if(o==6&&total&&!g.one_in(5)) o=0;
    if(o==1&&(!MV::sub||(total&&(comb=="max"||comb=="min"||comb=="keep"||comb=="bitand")))) o=4;
    int lo,hi; range(lo,hi,o==5); int v=value(); if(o==6&&T::absorbs_identities&&v==0) v=1;
    typedef typename J::segment_type P; const P r(K::make(lo,hi,g(8)%K::nreps(lo,hi)),MV::make(v)); int w=g(8); bool el= lo==hi && K::is_point(lo) && g.one_in(2);
    emit("{\"e\":\"pair\",\"op\":\"%s\",\"x\":%d,\"r\":[%d,%d],\"v\":%d,\"post\":",ops[o],k,lo,hi,v); st().variant="history";
    map(k,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; typedef typename S::iterator It; typedef typename S::element_type E;
      auto hint=[&]{ It h=s.begin(); std::advance(h,g(1+(unsigned)s.iterative_size())); return h; };
      if constexpr(elems) if(el){ const E d(K::point(lo),MV::make(v));
        switch(o){ case 0: if(w&1) s+=d; else s.add(d); return; case 1: if constexpr(MV::sub){ if(w&1) s-=d; else s.subtract(d); } return; case 2: s.insert(d); return; case 3: s.erase(d); return; case 4: s.set(d); return; case 5: s&=d; return; default: s^=d; return; } }
      switch(o){
        case 0: switch(w){ case 0: s.add(r); break; case 1: s+=r; break; case 2: s=s+r; break; case 3: s=std::move(s)|r; break; case 4: s|=r; break; case 5: s=r+s; break; default: s.add(hint(),r); } break;
        case 1: if constexpr(MV::sub){ switch(w&3){ case 0: s.subtract(r); break; case 1: s-=r; break; case 2: s=s-r; break; default: icl::subtract(s,r); } } break;
        case 2: switch(w&3){ case 0: s.insert(r); break; case 1: icl::insert(s,r); break; default: s.insert(hint(),r); } break;
        case 3: if(w&1) s.erase(r); else icl::erase(s,r); break;
        case 4: if(w&1) s.set(r); else icl::set_at(s,r); break;
        case 5: if(w&1) s&=r; else s=s&r; break;
        default: switch(w&3){ case 0: s^=r; break; case 1: s.flip(r); break; case 2: s=s^r; break; default: s=r^std::move(s); } } });
    done(k); }
  void key_op(){ int k=1+g(4); bool era=!g.one_in(4); int lo,hi; range(lo,hi,!era); const I r=K::make(lo,hi,g(8)%K::nreps(lo,hi)); int w=g(4); bool el= lo==hi && K::is_point(lo) && g.one_in(2);
    emit("{\"e\":\"key\",\"op\":\"%s\",\"x\":%d,\"r\":[%d,%d],\"post\":",era?"eraK":"andK",k,lo,hi);
    map(k,[&](auto& s){ if constexpr(elems) if(el){ D d=K::point(lo); if(era){ if(w&1) s.erase(d); else s-=d; } else s&=d; return; }
      if(era) switch(w){ case 0: s.erase(r); break; case 1: s-=r; break; case 2: s=s-r; break; default: icl::erase(s,r); } else if(w&1) s&=r; else s=s&r; });
    done(k); }
  int mapop(){ int o=g(12); o= o<4?0: o<6?1: o<8?2: o<9?3: o<10?4:5; if(o==1&&(!MV::sub||(T::is_total&&(comb=="max"||comb=="min"||comb=="keep"||comb=="bitand")))) o=2; if(o==5&&T::is_total&&!g.one_in(3)) o=0; return o; }
  void cont_op(){ static const char* ops[]={"addC","subC","insC","eraC","andC","flipC"}; int k=1+g(4), m=1+g(4); if(k==m) m=1+m%4; int o=mapop(), v=g(4);
    emit("{\"e\":\"cont\",\"op\":\"%s\",\"x\":%d,\"y\":%d,\"post\":",ops[o],k,m);
    map(k,[&](auto& s){ this->map(m,[&](auto& t){ switch(o){ case 0: if(v&1) s|=t; else s+=t; break; case 1: if constexpr(MV::sub) s-=t; break; case 2: icl::insert(s,t); break; case 3: icl::erase(s,t); break; case 4: s&=t; break; default: if(v&1) icl::flip(s,t); else s^=t; } }); });
    done(k); }
  void infix_op(){ static const char* ops[]={"addC","subC","","","andC","flipC"}; int z=1+g(4); int a= (z<=2?1:3)+g(2); int b=1+g(4); if(a<=2&&b>2) b-=2; int o=mapop(); if(o==2||o==3) o=0; int v=g(4);
    emit("{\"e\":\"infix\",\"op\":\"%s\",\"x\":%d,\"y\":%d,\"z\":%d,\"post\":",ops[o],z,a,b);
    map(z,[&](auto& rz){ typedef typename std::remove_reference<decltype(rz)>::type Z; this->map(a,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; if constexpr(std::is_same<Z,S>::value) this->map(b,[&](auto& t){ typedef typename std::remove_reference<decltype(t)>::type U;
      if constexpr(int(S::fineness)>=int(U::fineness)) switch(o){ case 0: if(v&1) rz=s+t; else rz=s|t; break; case 1: if constexpr(MV::sub) rz=s-t; break; case 4: rz=s&t; break; default: rz=s^t; } }); }); });
    done(z); }
  void keys_op(){ int k=1+g(4), y=5+g(2); bool era=g.one_in(2); int v=g(4);
    if(v==3){ int a=(k<=2?1:3)+g(2); emit("{\"e\":\"infixk\",\"op\":\"%s\",\"x\":%d,\"y\":%d,\"z\":%d,\"post\":",era?"eraKC":"andKC",k,a,y);
      map(k,[&](auto& rz){ typedef typename std::remove_reference<decltype(rz)>::type Z; this->map(a,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; if constexpr(std::is_same<Z,S>::value) this->set(y,[&](auto& t){ if(era) rz=s-t; else rz=s&t; }); }); }); }
    else { emit("{\"e\":\"keys\",\"op\":\"%s\",\"x\":%d,\"y\":%d,\"post\":",era?"eraKC":"andKC",k,y); map(k,[&](auto& s){ this->set(y,[&](auto& t){ if(era){ if(v&1) icl::erase(s,t); else s-=t; } else s&=t; }); }); }
    done(k); }
  void set_op(){ int k=5+g(2); int o=g(8); if(o<5){ static const char* ops[]={"add","sub","and","flip"}; int q=g(8); q= q<4?0: q<6?1: q<7?2:3; int lo,hi; range(lo,hi,q==2); I r=K::make(lo,hi,g(8)%K::nreps(lo,hi));
      emit("{\"e\":\"setr\",\"op\":\"%s\",\"x\":%d,\"r\":[%d,%d],\"post\":",ops[q],k,lo,hi); set(k,[&](auto& s){ switch(q){ case 0: s+=r; break; case 1: s-=r; break; case 2: s&=r; break; default: s^=r; } }); }
    else if(o==5){ static const char* ops[]={"addC","subC","andC","xorC"}; int q=g(4); emit("{\"e\":\"setc\",\"op\":\"%s\",\"x\":%d,\"y\":%d,\"post\":",ops[q],k,11-k);
      auto f=[&](auto& s,auto& t){ switch(q){ case 0: s+=t; break; case 1: s-=t; break; case 2: s&=t; break; default: s^=t; } }; if(k==5) f(sj,sx); else f(sx,sj); }
    else { int m=1+g(4); emit(o==6? "{\"e\":\"domain\",\"x\":%d,\"y\":%d,\"post\":": "{\"e\":\"between\",\"x\":%d,\"y\":%d,\"post\":",k,m); set(k,[&](auto& s){ this->map(m,[&](auto& t){ if(o==6) icl::domain(s,t); else icl::between(s,t); }); }); }
    done(k); }
  void other_op(){ int k=1+g(4), m=1+g(4); int o=g(11);
    if(o==0){ if(k==m) m=k%4+1; emit("{\"e\":\"assign\",\"x\":%d,\"y\":%d,\"post\":",k,m); int v=g(3);
      map(k,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; this->map(m,[&](auto& t){ typedef typename std::remove_reference<decltype(t)>::type U; if(v==1){ if constexpr(std::is_same<S,J>::value||std::is_same<S,U>::value){ s=S(t); return; } } if(v==0) s=t; else s.assign(t); }); }); done(k); }
    else if(o<=3){ m=(k<=2?1:3)+g(2); if(o!=1&&m==k) m= k%2? k+1: k-1; int v=g(3);
      emit(o==1? "{\"e\":\"copy\",\"x\":%d,\"y\":%d,\"post\":" : o==2? "{\"e\":\"swap\",\"x\":%d,\"y\":%d,\"post\":" : "{\"e\":\"move\",\"x\":%d,\"y\":%d,\"post\":",k,m);
      map(k,[&](auto& s){ typedef typename std::remove_reference<decltype(s)>::type S; this->map(m,[&](auto& t){ typedef typename std::remove_reference<decltype(t)>::type U; if constexpr(std::is_same<S,U>::value){
        if(o==1){ if(v==0) s=t; else { S c(t); s=c; } } else if(o==2){ if(v==0) s.swap(t); else icl::swap(s,t); } else { if(v==0) s=std::move(t); else { S c(std::move(t)); s=std::move(c); } t.clear(); } } }); });
      line+=js(proj(k)); if(o==2) line+=",\"post2\":"+js(proj(m)); line+="}"; }
    else if(o==4){ if(!g.one_in(3)) return cont_op(); emit("{\"e\":\"clear\",\"x\":%d,\"post\":",k); map(k,[&](auto& s){ if(m&1) s.clear(); else icl::clear(s); }); done(k); }
    else if(o<=7){ int n=0; map(k,[&](auto& s){ n=(int)s.iterative_size(); }); if(!n) return pair_op(); int i=g(n), jj= o==5? i+1: i+g(n-i+1); if(jj-i>3) jj=i+2;
      emit("{\"e\":\"erase\",\"x\":%d,\"i\":%d,\"j\":%d,\"post\":",k,i+1,jj+1); map(k,[&](auto& s){ auto a=s.begin(); std::advance(a,i); auto b=s.begin(); std::advance(b,jj); if(o==5) s.erase(a); else s.erase(a,b); }); done(k); }
    else if(o<=9){ emit("{\"e\":\"join\",\"x\":%d,\"post\":",k); map(k,[&](auto& s){ icl::join(s); }); done(k); }
    else { emit("{\"e\":\"absorb\",\"x\":%d,\"post\":",k); map(k,[&](auto& s){ icl::absorb_identities(s); }); done(k); } }
  bool large(){ for(int k=1;k<=4;++k) for(auto& s: proj(k)) if(s.v>2000||s.v<-2000) return true; return false; }
  void ask_op(){ typedef Ask<K,T,MV> Q; int k=1+g(4); st().variant="ask"; line="{\"e\":\"ask\",\"x\":"+std::to_string(k)+","; st().line=&line; std::string q;
    if(g.one_in(3)){ int m=1+g(4); map(k,[&](auto& a){ const auto& x=a; this->map(m,[&](auto& b){ const auto& y=b; q="\"q\":\"cont\",\"a\":["+std::to_string(m)+"],\"ans\":"+Q::join(Q::cont(x,y)); }); }); }
    else map(k,[&](auto& a){ const auto& x=a; q=Q::some(g,x,N,[&]{ return value(); }); });
    if(q.empty()) return pair_op();
    line+=q+",\"post\":"+js(proj(k))+"}"; }
  void run(long events,int hist,unsigned asks){ st().codec=K::name(); st().kind="history"; static const char* nm[]={"pair","key","cont","infix","keys","set","other","ask"};
    for(long i=0;i<events;++i){ if(i%hist==0||large()){ for(int k=1;k<=4;++k) map(k,[](auto& s){ s.clear(); }); sj.clear(); sx.clear(); line="{\"e\":\"reset\",\"styles\":[\"join\",\"join\",\"split\",\"split\",\"join\",\"split\"]}"; }
      else { if((i&63)==0) watchdog(20); unsigned w=g(24); int o= w<11?0: w<13?1: w<15?2: w<17?3: w<18?4: w<20?5:6; if(asks&&g(100)<asks) o=7;
        switch(o){ case 0: pair_op(); break; case 1: key_op(); break; case 2: cont_op(); break; case 3: infix_op(); break; case 4: keys_op(); break; case 5: set_op(); break; case 6: other_op(); break; default: ask_op(); } ++st().per_op[nm[o]]; }
      ++st().cases; fputs(line.c_str(),out); fputc('\n',out); } }
};
}
#ifdef MAINK
using namespace vf;
typedef boost::icl::MAINT Tr;
int main(int argc,char** argv){ parse_args(argc,argv); int n=opt().mode.empty()? 12: atoi(opt().mode.c_str()); FILE* f=fopen(opt().out.c_str(),"w"); Hist<MAINK,Tr,MAINV> h(opt().seed,n,f); h.run(opt().max? opt().max: 1000,opt().only.empty()? 60: atoi(opt().only.c_str()),opt().content? 60: 0); fclose(f); report(); return 0; }
#endif
