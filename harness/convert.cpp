// Replays the conversions of Conversions.tla.
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]
#include "mapval.hpp"
#include <boost/icl/detail/interval_morphism.hpp>
namespace vf {
using namespace boost::icl;
template<class T> struct Tag { typedef T type; };
enum { JOIN, SEP, SPLIT, ELEMENT };
static int kind_of(const std::string& k){ return k=="join"? JOIN: k=="sep"? SEP: k=="split"? SPLIT: ELEMENT; }
#define VARIANT(NAME) st().variant=NAME

// what differs between sets and maps
template<class K_> struct OfSets { typedef K_ K;
  typedef typename K::JoinSet J; typedef typename K::SepSet P; typedef typename K::SplitSet L; typedef typename K::ElemSet E; static const bool map=false, enriches=false;
  template<class X> static Segs proj(const X& x){ if constexpr(std::is_same<X,E>::value){ Segs r; for(auto i=x.begin();i!=x.end();++i){ int a=K::decode_point(*i); r.push_back(Seg{a,a,1}); } return r; } else return project_set<K>(x); }
  template<class X> static X make(const Segs& g){ X x; if constexpr(std::is_same<X,E>::value){ for(auto& s: g) for(int a=s.lo;a<=s.hi;++a) x.insert(K::point(a)); } else build_set<K>(x,g); return x; }
  template<class X> static auto ranged(int lo,int hi,int,int rep){ return K::make(lo,hi,rep); }
  template<class X> static auto pointed(int a,int){ return K::point(a); }
  typedef J AJ; typedef L AL; typedef E AE; };
template<class T> struct Absorbing { typedef T type; };
template<> struct Absorbing<partial_enricher>{ typedef partial_absorber type; };
template<> struct Absorbing<total_enricher>{ typedef total_absorber type; };
template<class K_,class T,class MV> struct OfMaps { typedef K_ K; typedef typename MV::template of<K,T> M; typedef typename MV::template of<K,typename Absorbing<T>::type> A;
  typedef typename M::JoinMap J; typedef void P; typedef typename M::SplitMap L; typedef typename M::ElemMap E; static const bool map=true, enriches=!T::absorbs_identities;
  typedef typename A::JoinMap AJ; typedef typename A::SplitMap AL; typedef typename A::ElemMap AE;
  template<class X> static const bool elem=std::is_same<X,E>::value||std::is_same<X,AE>::value;
  template<class X> static Segs proj(const X& x){ if constexpr(elem<X>){ Segs r; for(auto i=x.begin();i!=x.end();++i){ int a=K::decode_point(i->first); r.push_back(Seg{a,a,MV::num(i->second)}); } return r; } else return project_map<K,MV>(x); }
  template<class X> static X make(const Segs& g){ X x; if constexpr(elem<X>){ for(auto& s: g) for(int a=s.lo;a<=s.hi;++a) x.insert(typename X::element_type(K::point(a),MV::make(s.v))); } else build_map<K,MV>(x,g); return x; }
  template<class X> static auto ranged(int lo,int hi,int v,int rep){ return typename X::value_type(K::make(lo,hi,rep),MV::make(v)); }
  template<class X> static auto pointed(int a,int v){ if constexpr(elem<X>) return typename X::element_type(K::point(a),MV::make(v)); else return typename X::domain_mapping_type(K::point(a),MV::make(v)); } };

template<class W> struct Runner { typedef typename W::K K; Segs pre, want; bool noted=false;
  template<class X> void same(const X& x){ check(W::proj(x),want); }
  template<class X> void kept(const X& x){ VARIANT("source unchanged"); check(W::proj(x),pre); }
  template<class F> static void by_kind(int k,F f){
    if(k==JOIN) f(Tag<typename W::J>()); else if(k==SPLIT) f(Tag<typename W::L>());
    else if(k==SEP){ if constexpr(!W::map) f(Tag<typename W::P>()); }
    else if constexpr(K::discrete) f(Tag<typename W::E>()); }
  template<class X> static constexpr bool elem(){ return std::is_same<X,typename W::E>::value; }
  // a destination that already holds something else
  template<class X> static X full(){ return W::template make<X>(Segs{Seg{0,0,1},Seg{1,2,1}}); }
  template<class D,class S> void convert(){ const S src=W::template make<S>(pre); VARIANT("construct"); if(!check(W::proj(src),pre)) return;
    if constexpr(elem<S>() && elem<D>()) {}
    else if constexpr(elem<S>()){ { VARIANT("cluster"); D d; segmental::cluster(d,src); same(d); } { VARIANT("clusterer"); D d; segmental::clusterer<D,S>()(d,src); same(d); } }
    else if constexpr(elem<D>()){ { VARIANT("atomize"); D d; segmental::atomize(d,src); same(d); } { VARIANT("atomizer"); D d; segmental::atomizer<D,S>()(d,src); same(d); } }
    else {
      { VARIANT("assign"); D d; d.assign(src); same(d); } { VARIANT("assign to non-empty"); D d(full<D>()); d.assign(src); same(d); }
      { VARIANT("operator="); D d; d=src; same(d); } { VARIANT("operator= to non-empty"); D d(full<D>()); d=src; same(d); }
      { VARIANT("operator= returns the target"); D d; check(&(d=src)==&d,true); }
      if constexpr(std::is_constructible<D,const S&>::value){ VARIANT("converting constructor"); D d(src); same(d); }
      if constexpr(std::is_same<D,typename W::J>::value && !std::is_same<S,D>::value){ VARIANT("joiner"); D d; S s(src); segmental::joiner<D,S>()(d,s); same(d); } }
    kept(src); }
  void run(const Case& cs){ const std::string op=cs.op(); pre=cs.segs(3); want=cs.segs(4); const Ints& a=cs.n[1]; const int kd=kind_of(cs.f[2]);
    if(op.compare(0,3,"to-")==0){ int dest=kind_of(op.substr(3)); by_kind(kd,[&](auto s){ by_kind(dest,[&](auto d){ convert<typename decltype(d)::type,typename decltype(s)::type>(); }); }); return; }
    by_kind(kd,[&](auto t){ typedef typename decltype(t)::type S; const S src=W::template make<S>(pre); VARIANT("construct"); if(!check(W::proj(src),pre)) return;
      if constexpr(!elem<S>()){
        if(op=="join"){ S x(src); VARIANT("join"); S& r=boost::icl::join(x); same(x); check(&r==&x,true); }
        else if(op=="absorber"){ if constexpr(W::enriches){ typedef typename std::conditional<std::is_same<S,typename W::J>::value,typename W::AJ,typename W::AL>::type A; S x(src); A y; VARIANT("identity_absorber"); segmental::identity_absorber<A,S>()(y,x); same(y); } }
        else if(op=="range"){ for(int rep=0;rep<K::nreps(a[0],a[1]);++rep){ auto g=W::template ranged<S>(a[0],a[1],a[2],rep); { VARIANT("constructor from segment"); S x(g); same(x); } { VARIANT("assign constructed"); S x(full<S>()); x=S(g); same(x); } } } }
      if(op=="absorb"){ if constexpr(W::map){ S x(src); VARIANT("absorb_identities"); S& r=icl::absorb_identities(x); same(x); check(&r==&x,true); } }
      else if(op=="absorber"){ if constexpr(W::enriches && elem<S>()){ S x(src); typename W::AE y; VARIANT("identity_absorber"); segmental::identity_absorber<typename W::AE,S>()(y,x); same(y); } }
      else if(op=="point"){ if constexpr((K::discrete||K::dynamic) && (W::map||!elem<S>())) if(K::is_point(a[0])){ auto e=W::template pointed<S>(a[0],a[2]); VARIANT("constructor from element"); S x(e); same(x); } }
      kept(src); }); }
};
}
using namespace vf;
template<class R> static void go(const char* kind){ st().codec=MAINK::name(); st().kind=kind; R r; for_cases(opt().file,[&](const Case& c){ r.run(c); }); report(); }
int main(int argc,char** argv){ parse_args(argc,argv);
#ifdef MAINT
  typedef boost::icl::MAINT Tr; opt().type=type_name<Tr,MAINV>("join"); go<Runner<OfMaps<MAINK,Tr,MAINV> > >("maps");
#else
  opt().type="set"; go<Runner<OfSets<MAINK> > >("sets");
#endif
}
