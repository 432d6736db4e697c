// Four maps with the four traits (partial/total, absorbing/enriching), one
// codomain and one style, through the same operations.  Replays the joint
// transitions of Traits.tla and compares the real maps with the model and
// with each other through the library's own means (absorb_identities,
// element and distinct equality, reading total maps at every key); or drives
// them through a random history for validation by TraceTraits.tla.
//   -DMAINK=<codec> -DMAINV=<value codec>     -mode join|split  [-o trace -seed S -max EVENTS]
#include "mapval.hpp"
namespace vf {
using namespace boost::icl;
template<class K,class MV,bool splitting> struct Four {
  template<class T> struct MapOf { typedef typename MV::template of<K,T> Ty; typedef typename std::conditional<splitting,typename Ty::SplitMap,typename Ty::JoinMap>::type type; };
  typedef typename MapOf<partial_absorber>::type PA; typedef typename MapOf<partial_enricher>::type PE; typedef typename MapOf<total_absorber>::type TA; typedef typename MapOf<total_enricher>::type TE;
  PA pa; PE pe; TA ta; TE te;
  template<class F> void each(F f){ f(0,pa); f(1,pe); f(2,ta); f(3,te); }
  void clear(){ each([](int,auto& x){ x.clear(); }); }
  Segs proj(int k){ Segs r; each([&](int i,auto& x){ if(i==k) r=project_map<K,MV>(x); }); return r; }
  // one operation on all four maps; w chooses the spelling
  void pair(const std::string& op,int lo,int hi,int v,int w){ each([&](int,auto& x){ typedef typename std::remove_reference<decltype(x)>::type S; const typename S::segment_type r(K::make(lo,hi,w%K::nreps(lo,hi)),MV::make(v)); one(op,x,r,w); }); }
  template<class S,class P> static void one(const std::string& op,S& x,const P& r,int w){
    if(op=="add"){ if(w&1) x+=r; else x.add(r); } else if(op=="sub"){ if constexpr(MV::sub){ if(w&1) x-=r; else x.subtract(r); } }
    else if(op=="ins") x.insert(r); else if(op=="era") x.erase(r); else if(op=="set") x.set(r);
    else if(op=="and"){ if(w&1) x&=r; else x=x&r; } else if(op=="flip"){ if(w&1) x^=r; else x.flip(r); }
    else if(op=="undo"){ if constexpr(MV::sub){ if(w&1){ x+=r; x-=r; } else x=(x+r)-r; } } else if(op=="redo"){ if constexpr(MV::sub){ if(w&1){ x-=r; x+=r; } else x=(x-r)+r; } } }
  void key(const std::string& op,int lo,int hi,int w){ each([&](int,auto& x){ const typename K::interval r=K::make(lo,hi,w%K::nreps(lo,hi)); if(op=="eraK"){ if(w&1) x-=r; else x.erase(r); } else { if(w&1) x&=r; else x=x&r; } }); }
  void map(const std::string& op,const Segs& t,int w){ each([&](int,auto& x){ typedef typename std::remove_reference<decltype(x)>::type S; typedef typename MV::template of<K,typename TraitsOf<S>::type>::JoinMap J; J y; build_map<K,MV>(y,t,w);
    if(op=="addC"){ if(w&1) x+=y; else x=x+y; } else if(op=="subC"){ if constexpr(MV::sub) x-=y; } else if(op=="insC") icl::insert(x,y); else if(op=="eraC") icl::erase(x,y);
    else if(op=="andC"){ if(w&1) x&=y; else x=x&y; } else if(op=="flipC"){ if(w&1) x^=y; else x=x^y; }
    else if(op=="undoC"){ if constexpr(MV::sub){ x+=y; x-=y; } } else if(op=="redoC"){ if constexpr(MV::sub){ x-=y; x+=y; } } }); }
  void keys(const std::string& op,const Segs& t,int w){ each([&](int,auto& x){ typename K::JoinSet y; build_set<K>(y,t,w); if(op=="eraKC"){ if(w&1) x-=y; else icl::erase(x,y); } else { if(w&1) x&=y; else x=x&y; } }); }
  template<class S> struct TraitsOf { typedef typename S::traits type; };
};
template<class K,class MV,bool splitting> struct Runner {
  typedef Four<K,MV,splitting> F4; typedef typename K::domain D;
  static Segs strip(const Segs& s){ Segs r; for(auto& g: s) if(g.v!=0) r.push_back(g); return r; }
  static Segs keep0(const Segs& s){ return s; }
  // the relations between the real maps, by the library's own means
  template<class A,class E> static void absorbs(const char* nm,const A& a,const E& e){ st().variant=nm;
    check(content(project_map<K,MV>(a)),content(strip(project_map<K,MV>(e))));
    E x(e); icl::absorb_identities(x); check(content(project_map<K,MV>(x)),content(project_map<K,MV>(a)));
    check(is_element_equal(x,a),true); check(is_element_equal(a,x),true); 
    E y(e), n; icl::join(y); n=E(); for(auto i=a.begin(); i!=a.end(); ++i) n.add(*i); icl::join(n); check(is_distinct_equal(y,n),true); check(is_distinct_equal(n,y),true); }
  template<class A,class E> static void agree(const char* nm,const A& a,const E& e){ st().variant=nm; check(content(project_map<K,MV>(a)),content(project_map<K,MV>(e))); check(is_element_equal(a,e),true); check(is_element_equal(e,a),true); }
  template<class M> static void total(const char* nm,const M& m,const Segs& s){ st().variant=nm; Ints f=content(s); for(int a=0;a<10;++a) if(K::is_point(a)) check(MV::num(m(K::point(a))),f[a]==None? 0: f[a]); }
  void run(const Case& cs){ std::string op=cs.f[0]; const Ints& arg=cs.n[1]; std::string rels=cs.f[10];
    for(int w=0;w<2;++w){ F4 z; z.each([&](int k,auto& x){ st().variant="state"; build_map<K,MV>(x,cs.segs(2+k),w); check(project_map<K,MV>(x),cs.segs(2+k)); });
      st().variant="operation";
      if(arg.size()==2 && (op=="eraK"||op=="andK")) z.key(op,arg[0],arg[1],w);
      else if(op.back()!='C') z.pair(op,arg[0],arg[1],arg[2],w);
      else if(op=="eraKC"||op=="andKC") z.keys(op,segs_of(arg),w);
      else z.map(op,segs_of(arg),w);
      static const char* nm[]={"partial absorber","partial enricher","total absorber","total enricher"};
      z.each([&](int k,auto& x){ st().variant=nm[k]; check(project_map<K,MV>(x),cs.segs(6+k)); });
      if(rels.find('P')!=std::string::npos) absorbs("partial maps",z.pa,z.pe);
      if(rels.find('T')!=std::string::npos) absorbs("total maps",z.ta,z.te);
      if(rels.find('A')!=std::string::npos) agree("absorbing maps",z.pa,z.ta);
      if(rels.find('E')!=std::string::npos) agree("enriching maps",z.pe,z.te);
      total("total absorber(key)",z.ta,cs.segs(8)); total("total enricher(key)",z.te,cs.segs(9)); } }
};
inline std::string js(const Segs& s){ std::string r="["; char b[64]; for(size_t i=0;i<s.size();++i){ snprintf(b,64,"%s[%d,%d,%d]",i?",":"",s[i].lo,s[i].hi,s[i].v); r+=b; } return r+"]"; }
template<class K,class MV,bool splitting> void history(unsigned seed,long events,int N,FILE* out){
  Rng g(seed); Four<K,MV,splitting> z; std::string line; const std::string comb(MV::comb()); bool bits= comb=="set"||comb=="bitor"||comb=="bitxor"; bool subs= comb=="set"||comb=="bitor";
  auto value=[&]{ return comb=="plus"? int(g(5))-2: int(g(bits?8:4)); };
  auto range=[&](int& lo,int& hi){ lo=g(N); hi=lo+g(6); if(hi>=N) hi=N-1; };
  for(long i=0;i<events;++i){ if((i&63)==0) watchdog(20); bool large=false; z.each([&](int,auto& x){ for(auto& s: project_map<K,MV>(x)) if(s.v>1500||s.v<-1500) large=true; });
    st().line=&line; st().variant="history"; int w=g(8); char b[256];
    if(i%80==0||large){ z.clear(); line="{\"e\":\"reset\""; }
    else { int o=g(20); int lo,hi; range(lo,hi);
      if(o<12){ const char* op= o<7? "add": o<9? "set": o<10? "era": subs? "sub": "set"; int v=value(); snprintf(b,256,"{\"e\":\"pair\",\"op\":\"%s\",\"r\":[%d,%d],\"v\":%d",op,lo,hi,v); line=b; z.pair(op,lo,hi,v,w); }
      else if(o<15){ const char* op= o<14? "eraK":"andK"; if(o==14){ lo=g(3); hi=N-1-g(3); } snprintf(b,256,"{\"e\":\"key\",\"op\":\"%s\",\"r\":[%d,%d]",op,lo,hi); line=b; z.key(op,lo,hi,w); }
      else { Segs t; int a=g(3); while(a<N&&t.size()<4){ int h=a+g(3); if(h>=N) h=N-1; t.push_back(Seg{a,h,1}); a=h+2+g(3); }
        if(o<18){ for(auto& s: t) s.v=value(); const char* op= o<17? "addC": "eraC"; line=std::string("{\"e\":\"map\",\"op\":\"")+op+"\",\"t\":"+js(t); z.map(op,t,w); }
        else { const char* op= o<19||g(3)? "eraKC":"andKC"; line=std::string("{\"e\":\"keys\",\"op\":\"")+op+"\",\"t\":"+js(t); z.keys(op,t,w); } } }
    line+=",\"post\":{\"pa\":"+js(z.proj(0))+",\"pe\":"+js(z.proj(1))+",\"ta\":"+js(z.proj(2))+",\"te\":"+js(z.proj(3))+"}}";
    ++st().cases; fputs(line.c_str(),out); fputc('\n',out); } }
}
using namespace vf;
template<bool sp> static void go(){ typedef MAINK K; st().codec=K::name(); st().kind= sp? "four split_interval_maps": "four interval_maps";
  if(!opt().out.empty()){ FILE* f=fopen(opt().out.c_str(),"w"); history<K,MAINV,sp>(opt().seed,opt().max? opt().max: 1000,12,f); fclose(f); report(); return; }
  static Runner<K,MAINV,sp> r; opt().type=std::string(MAINV::comb())+(sp?"-split":"-join"); for_cases(opt().file,[&](const Case& c){ r.run(c); }); report(); }
int main(int argc,char** argv){ parse_args(argc,argv); if(opt().mode=="split") go<true>(); else go<false>(); }
