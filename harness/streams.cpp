// Writes real intervals and containers to streams, takes the text apart and
// compares the tokens with those of Streams.tla.
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]
#include "mapval.hpp"
#include <sstream>
#include <boost/icl/type_traits/to_string.hpp>
namespace vf {
using namespace boost::icl;
#define VARIANT(NAME) st().variant=NAME
template<class T> struct Tag { typedef T type; };
enum { OPEN=-101, CLOSE=-102, POPEN=-103, ARROW=-104, PCLOSE=-105, COMMA=-107, BLANK=-109, LCLOSED=-111, RCLOSED=-121, JUNK=-999 };

// takes a text apart; the keys are normalised to the atoms they cover
template<class K,class MV> struct Reader { const std::string& t; size_t i=0; Ints r; bool ok=true; typedef typename K::domain D; typedef typename K::interval I;
  Reader(const std::string& x):t(x){}
  bool at(const char* w){ return t.compare(i,strlen(w),w)==0; }
  bool mark(const char* w,int code){ if(!ok||!at(w)){ if(ok) r.push_back(JUNK); ok=false; return false; } i+=strlen(w); if(code) r.push_back(code); return true; }
  template<class X> bool number(X& x){ size_t j=i; if(j<t.size()&&(t[j]=='-'||t[j]=='+')) ++j; while(j<t.size()&&(isalnum((unsigned char)t[j])||t[j]=='.'||t[j]=='/'||((t[j]=='-'||t[j]=='+')&&t[j-1]=='e'))) ++j;
    std::istringstream s(t.substr(i,j-i)); s>>x; if(s.fail()||j==i){ r.push_back(JUNK); return ok=false; } s.peek(); if(!s.eof()){ r.push_back(JUNK); return ok=false; } i=j; return true; }
  void interval(){ if(!ok) return; bool l=at("["); if(!l&&!at("(")){ r.push_back(JUNK); ok=false; return; } ++i;
    if(at("]")||at(")")){ ++i; r.push_back(LCLOSED); r.push_back(RCLOSED); return; }
    D a,b; if(!number(a)||!mark(",",0)||!number(b)) return; bool rc=at("]"); if(!rc&&!at(")")){ r.push_back(JUNK); ok=false; return; } ++i;
    if constexpr(has_dynamic_bounds<I>::value){ I v=icl::construct<I>(a,b,interval_bounds((l?2:0)|(rc?1:0))); put(v); }
    else { I v=icl::construct<I>(a,b); unsigned bits=icl::interval_bound_type<I>::value; if(l!=((bits&2)!=0)||rc!=((bits&1)!=0)) r.push_back(JUNK); put(v); } }
  void put(const I& v){ int lo,hi; if(!K::decode(v,lo,hi)){ r.push_back(JUNK); ok=false; return; } r.push_back(LCLOSED); r.push_back(lo); r.push_back(COMMA); r.push_back(hi); r.push_back(RCLOSED); }
  void element(){ D a; if(number(a)) r.push_back(K::decode_point(a)); }
  void value(){ if constexpr(!std::is_same<MV,void>::value){ if constexpr(std::is_arithmetic<typename MV::type>::value){ typename MV::type v; if(number(v)) r.push_back(MV::num(v)); }
    else { typename MV::type v; mark("{",0); while(ok&&!at("}")){ int e; if(!number(e)) return; v.insert(e); mark(" ",0); } mark("}",0); if(ok) r.push_back(MV::num(v)); } } }
  void container(bool map,bool elem){ mark("{",OPEN); while(ok&&i<t.size()&&!at("}")){ if(map) mark("(",POPEN); if(elem) element(); else interval(); if(map){ mark("->",ARROW); value(); mark(")",PCLOSE); } else if(elem) mark(" ",BLANK); } mark("}",CLOSE); if(i!=t.size()) r.push_back(JUNK); }
};
template<class X> static std::string text(const X& x){ std::ostringstream s; s<<x; return s.str(); }
template<class X> static std::string chained(const X& x){ std::ostringstream s; std::ostream& o=(s<<x); o<<x; std::string r=s.str(); return r.size()%2==0&&r.substr(0,r.size()/2)==r.substr(r.size()/2)? r.substr(r.size()/2): "chained writing differs: "+r; }
template<class K,class T,class MV> struct Runner { Segs s; Ints want;
  template<class F> void same(bool map,bool elem,F f){ std::string t=f(); Reader<K,MV> rd(t); rd.container(map,elem); std::string g="tokens of "+t+":"; ++st().checks; ++st().per_variant[st().variant]; if(rd.r!=want){ for(int k: rd.r) g+=" "+std::to_string(k); std::string w; for(int k: want) w+=" "+std::to_string(k); mismatch(g,w); } }
  template<class X> void all(const X& x,bool map,bool elem){ VARIANT("stream << x"); same(map,elem,[&]{ return text(x); }); VARIANT("stream << x << x"); same(map,elem,[&]{ return chained(x); }); VARIANT("to_string"); same(map,elem,[&]{ return icl::to_string<X>::apply(x); }); }
  void interval(){ typedef typename K::interval I; std::vector<I> v=s.empty()? reps<K>(1,0): reps<K>(s[0].lo,s[0].hi); for(const I& i: v){ VARIANT("stream << interval"); std::string t=text(i); Reader<K,MV> rd(t); rd.interval(); if(rd.i!=t.size()) rd.r.push_back(JUNK); check(rd.r,want); } }
  void run(const Case& c){ const std::string k=c.op(); s=c.segs(2); want=c.n[3];
    if(k=="interval"){ interval(); return; }
    if constexpr(std::is_same<MV,void>::value){
      if(k=="join"){ typename K::JoinSet x; build_set<K>(x,s); all(x,false,false); } else if(k=="split"){ typename K::SplitSet x; build_set<K>(x,s); all(x,false,false); } else if(k=="sep"){ typename K::SepSet x; build_set<K>(x,s); all(x,false,false); }
      else if constexpr(K::discrete){ typename K::ElemSet x; for(auto& g: s) x.insert(K::point(g.lo)); all(x,false,true); } }
    else { typedef typename MV::template of<K,T> M;
      if(k=="join"){ typename M::JoinMap x; build_map<K,MV>(x,s); all(x,true,false); } else if(k=="split"){ typename M::SplitMap x; build_map<K,MV>(x,s); all(x,true,false); }
      else if constexpr(K::discrete){ typename M::ElemMap x; for(auto& g: s) x.insert(typename M::ElemMap::element_type(K::point(g.lo),MV::make(g.v))); all(x,true,true); } } }
};
}
using namespace vf;
template<class R> static void go(const char* kind){ st().codec=MAINK::name(); st().kind=kind; R r; for_cases(opt().file,[&](const Case& c){ r.run(c); }); report(); }
int main(int argc,char** argv){ parse_args(argc,argv);
#ifdef MAINT
  typedef boost::icl::MAINT Tr; opt().type=type_name<Tr,MAINV>("join"); go<Runner<MAINK,Tr,MAINV> >("maps");
#else
  opt().type=opt().mode; go<Runner<MAINK,void,void> >("sets");
#endif
}
