// Replays the removals and filtered updates of Filters.tla.
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]
#include "mapval.hpp"
namespace vf {
using namespace boost::icl;
#define VARIANT(NAME) st().variant=NAME
template<class T> struct Tag { typedef T type; };
enum { JOIN, SEP, SPLIT, ELEMENT };
static int kind_of(const std::string& k){ return k=="join"? JOIN: k=="sep"? SEP: k=="split"? SPLIT: ELEMENT; }

template<class K_> struct OfSets { typedef K_ K;
  typedef typename K::JoinSet J; typedef typename K::SepSet P; typedef typename K::SplitSet L; typedef typename K::ElemSet E; static const bool map=false;
  template<class X> static Seg one(const typename X::value_type& e){ if constexpr(std::is_same<X,E>::value){ int a=K::decode_point(e); return Seg{a,a,1}; } else return seg_of<K>(e,1); }
  template<class X> static X make(const Segs& g){ X x; if constexpr(std::is_same<X,E>::value){ for(auto& s: g) for(int a=s.lo;a<=s.hi;++a) x.insert(K::point(a)); } else build_set<K>(x,g); return x; } };
template<class K_,class T,class MV> struct OfMaps { typedef K_ K; typedef typename MV::template of<K,T> M;
  typedef typename M::JoinMap J; typedef void P; typedef typename M::SplitMap L; typedef typename M::ElemMap E; static const bool map=true;
  template<class X> static Seg one(const typename X::value_type& e){ if constexpr(std::is_same<X,E>::value){ int a=K::decode_point(e.first); return Seg{a,a,MV::num(e.second)}; } else return seg_of<K>(e.first,MV::num(e.second)); }
  template<class X> static X make(const Segs& g){ X x; if constexpr(std::is_same<X,E>::value){ for(auto& s: g) for(int a=s.lo;a<=s.hi;++a) x.insert(typename X::element_type(K::point(a),MV::make(s.v))); } else build_map<K,MV>(x,g); return x; } };

template<class W> struct Runner { typedef typename W::K K; Segs pre, want, src; Ints pick;
  template<class X> static Segs proj(const X& x){ Segs r; for(typename X::const_iterator i=x.begin();i!=x.end();++i){ r.push_back(W::template one<X>(*i)); if(r.size()>500) break; } return r; }
  template<class X> void same(const X& x){ check(proj(x),want); }
  template<class F> static void by_kind(int k,F f){
    if(k==JOIN) f(Tag<typename W::J>()); else if(k==SPLIT) f(Tag<typename W::L>());
    else if(k==SEP){ if constexpr(!W::map) f(Tag<typename W::P>()); }
    else if constexpr(K::discrete) f(Tag<typename W::E>()); }
  template<class X> struct Chosen { Segs sel; bool operator()(const typename X::value_type& e)const{ Seg g=W::template one<X>(e); return std::find(sel.begin(),sel.end(),g)!=sel.end(); } };
  template<class X> static typename X::iterator at(X& x,int i){ typename X::iterator it=x.begin(); std::advance(it,i-1); return it; }
  template<class X> void go(const std::string& op){ const X px=W::template make<X>(pre); const X sx=W::template make<X>(src); VARIANT("construct"); if(!check(proj(px),pre)||!check(proj(sx),src)) return;
    Chosen<X> p; if(op!="eraseIt"&&op!="eraseRange") for(int i: pick) p.sel.push_back((op=="eraseIf"? pre: src)[i-1]);
    if(op=="eraseIt"){ VARIANT("x.erase(it)"); X x(px); x.erase(at(x,pick[0])); same(x); VARIANT("x.erase(it++)"); X y(px); typename X::iterator i=at(y,pick[0]); y.erase(i++); same(y); check(int(std::distance(y.begin(),i)),pick[0]-1); }
    else if(op=="eraseRange"){ int a=pick[0], b=pick.back(); VARIANT("x.erase(first,past)"); X x(px); x.erase(at(x,a),at(x,b)); same(x); }
    else if constexpr(W::map || std::is_same<X,typename W::E>::value){
      if(op=="eraseIf"){ VARIANT("erase_if"); X x(px); X& r=boost::icl::erase_if(p,x); same(x); check(&r==&x,true); }
      else if(op=="addIf"){ VARIANT("add_if"); X x(px); X& r=boost::icl::add_if(p,x,sx); same(x); check(&r==&x,true); }
      else { VARIANT("assign_if"); X x(px); X& r=boost::icl::assign_if(p,x,sx); same(x); check(&r==&x,true); }
      VARIANT("source unchanged"); check(proj(sx),src); }
    VARIANT("copy unchanged"); check(proj(px),pre); }
  void run(const Case& cs){ const std::string op=cs.op(); src=cs.segs(1); pick=cs.n[2]; pre=cs.segs(4); want=cs.segs(5); int kd=kind_of(cs.f[3]);
    by_kind(kd,[&](auto t){ typedef typename decltype(t)::type X; go<X>(op); }); }
};
}
using namespace vf;
template<class R> static void go(const char* kind){ st().codec=MAINK::name(); st().kind=kind; R r; for_cases(opt().file,[&](const Case& c){ r.run(c); }); report(); }
int main(int argc,char** argv){ parse_args(argc,argv);
#ifdef MAINT
  typedef boost::icl::MAINT Tr; opt().type=type_name<Tr,MAINV>("join"); go<Runner<OfMaps<MAINK,Tr,MAINV> > >("maps");
#else
  opt().type="set"; go<Runner<OfSets<MAINK> > >("sets");
#endif
}
