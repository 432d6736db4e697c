// Questions asked in the middle of a recorded history; 99 stands for an answer
// that is not asked for (no such question for this type).
#ifndef VERIF_ASK_HPP
#define VERIF_ASK_HPP
#include "mapval.hpp"
#include <functional>
#include <algorithm>
namespace vf {
const int NO=99;
template<class D> struct CanDiff { static const bool value=true; };
template<> struct CanDiff<std::string> { static const bool value=false; };
struct NoVal{};
template<class K,class T,class MV> struct Ask {
  static const bool is_map=!std::is_same<MV,NoVal>::value;
  static constexpr bool total(){ if constexpr(is_map) return T::is_total; else return false; }
  static constexpr bool less_ok(){ if constexpr(is_map) return std::is_arithmetic<typename MV::type>::value; else return true; }
  static std::string join(const std::vector<int>& a){ std::string r="["; for(size_t i=0;i<a.size();++i) r+=(i?",":"")+std::to_string(a[i]); return r+"]"; }
  template<class X> static int pos(const X& y,typename X::const_iterator it){ int n=1; for(typename X::const_iterator p=y.begin();p!=it&&n<200;++p) ++n; return n; }
  template<class X> static const typename K::interval& iv(typename X::const_iterator it){ if constexpr(is_map) return (*it).first; else return *it; }
  template<class Dif> static int units(const Dif& d,int step){ for(int n=0;n<200;++n) if(K::O::up(step*n)==d) return n; return -999; }
  static const char* kind(){ return K::discrete? "d": K::statichalf? "h": "c"; }
  template<class X> static std::vector<int> sizes(const X& x){ typedef typename X::size_type Sz; std::vector<int> a;
    auto num=[&](const Sz& n)->int{ if constexpr(!K::discrete) if(n==icl::infinity<Sz>::value()) return -1; for(int i=0;i<200;++i) if(same_number(n,i)) return i; return -999; };
    int n=num(icl::cardinality(x)); a.push_back(n); a.push_back(num(icl::size(x))); a.push_back(num(x.size()));
    a.push_back((int)icl::iterative_size(x)); a.push_back((int)x.iterative_size()); a.push_back(icl::is_empty(x)); a.push_back(x.empty());
    if(x.empty()){ a.push_back(-1); a.push_back(-1); } else { Seg h=seg_of<K>(icl::hull(x),0); a.push_back(h.lo); a.push_back(h.hi); }
    if constexpr(K::discrete){ if(x.empty()){ a.push_back(NO); a.push_back(NO); } else { a.push_back(K::O::num(icl::first(x))); a.push_back(K::O::num(icl::last(x))); } } else { a.push_back(NO); a.push_back(NO); }
    if constexpr(CanDiff<typename K::domain>::value){ int st=K::discrete? 1:2; a.push_back(units(icl::length(x),st)); a.push_back(units(icl::distance(x),st)); } else { a.push_back(NO); a.push_back(NO); }
    return a; }
  template<class Sz> static bool same_number(const Sz& n,int i){ if constexpr(!K::discrete) return n==Sz(i); else return n==Sz(K::O::up(i)); }
  template<class X> static std::vector<int> range(const X& x,const typename K::interval& r,bool empty,bool way){ std::vector<int> a; typedef typename X::const_iterator It;
    a.push_back(total()? NO: way? icl::contains(x,r): icl::within(r,x)); a.push_back(total()? NO: way? icl::intersects(x,r): !icl::disjoint(x,r));
    if(empty){ a.push_back(NO); a.push_back(NO); a.push_back(NO); return a; }
    a.push_back(pos(x,way? x.find(r): icl::find(x,r)));
    if(way){ a.push_back(pos(x,x.lower_bound(r))); a.push_back(pos(x,x.upper_bound(r))); } else { std::pair<It,It> p=x.equal_range(r); a.push_back(pos(x,p.first)); a.push_back(pos(x,p.second)); }
    return a; }
  template<class X> static std::vector<int> key(const X& x,int at,bool way){ std::vector<int> a; std::vector<typename K::domain> ps=K::members(at); const typename K::domain p=ps[way? 0: ps.size()-1];
    a.push_back(total()? NO: way? icl::contains(x,p): icl::within(p,x)); a.push_back(pos(x,way? x.find(p): icl::find(x,p)));
    if constexpr(is_map) a.push_back(MV::num(x(p))); else a.push_back(NO);
    return a; }
  template<class X> static std::vector<int> pair(const X& x,const typename K::interval& r,int v){ std::vector<int> a; const typename X::segment_type p(r,MV::make(v));
    a.push_back(total()&&v==0? NO: icl::contains(x,p)); a.push_back(total()? NO: icl::intersects(x,p)); return a; }
  template<class X,class Y> static std::vector<int> cont(const X& x,const Y& y){ std::vector<int> a;
    a.push_back(icl::contains(x,y)); a.push_back(icl::intersects(x,y)); a.push_back(icl::inclusion_compare(x,y));
    if constexpr(std::is_same<X,Y>::value && K::ascending && less_ok()) a.push_back(x<y? -1: x>y? 1: x==y? 0: -99); else if constexpr(std::is_same<X,Y>::value) a.push_back(x==y? 0: NO); else a.push_back(NO);
    if constexpr(less_ok()) a.push_back(icl::is_element_less(x,y)? -1: icl::is_element_greater(x,y)? 1: 0); else a.push_back(NO);
    if constexpr(std::is_same<X,Y>::value && is_map) a.push_back(icl::is_distinct_equal(x,y)); else a.push_back(NO);
    return a; }
  template<class X> static std::string elements(const X& x,int way){ if constexpr(K::discrete){ std::vector<Seg> r;
      auto put=[&](const auto& e){ if constexpr(is_map){ int n=K::O::num(e.first); r.push_back(Seg{n,n,MV::num(e.second)}); } else { int n=K::O::num(e); r.push_back(Seg{n,n,1}); } };
      switch(way){ case 0: for(auto p=icl::elements_begin(x);p!=icl::elements_end(x)&&r.size()<199;++p) put(*p); break;
        case 1: for(auto p=icl::elements_rbegin(x);p!=icl::elements_rend(x)&&r.size()<199;++p) put(*p); std::reverse(r.begin(),r.end()); break;
        default: { auto b=icl::elements_begin(x), e=icl::elements_end(x); while(e!=b&&r.size()<199){ --e; put(*e); } std::reverse(r.begin(),r.end()); } }
      std::string s="["; for(size_t i=0;i<r.size();++i) s+=(i?",[":"[")+std::to_string(r[i].lo)+","+std::to_string(r[i].hi)+","+std::to_string(r[i].v)+"]"; return s+"]"; }
    else return ""; }
  // one question of the kind q about x; the text from "q" on
  template<class X> static std::string some(Rng& g,const X& x,int N,const std::function<int()>& value){ int q=g(is_map? 12: 10); char b[160];
    if(q<3){ snprintf(b,160,"\"q\":\"un\",\"kind\":\"%s\",\"a\":[],\"ans\":",kind()); return b+join(sizes(x)); }
    if(q<6){ int lo=g(N),hi=lo+g(g(3)? 4: N); if(hi>=N) hi=N-1; if(g.one_in(12)){ lo=1; hi=0; } std::string s=join(range(x,K::make(lo,hi,g(8)%K::nreps(lo,hi)),lo>hi,g.one_in(2))); snprintf(b,160,"\"q\":\"rng\",\"a\":[%d,%d],\"ans\":",lo,hi); return b+s; }
    if(q<8){ int at=g(N); if constexpr(K::discrete||K::dynamic||CanDiff<typename K::domain>::value){ std::string s=join(key(x,at,g.one_in(2))); snprintf(b,160,"\"q\":\"key\",\"a\":[%d],\"ans\":",at); return b+s; } else return ""; }
    if(q<10){ std::string s=elements(x,g(3)); if(s.empty()) return s; return "\"q\":\"elem\",\"a\":[],\"ans\":"+s; }
    if constexpr(is_map){ int lo=g(N),hi=lo+g(4); if(hi>=N) hi=N-1; int v=value(); std::string s=join(pair(x,K::make(lo,hi,g(8)%K::nreps(lo,hi)),v)); snprintf(b,160,"\"q\":\"pair\",\"a\":[%d,%d,%d],\"ans\":",lo,hi,v); return b+s; }
    return ""; }
};
}
#endif
