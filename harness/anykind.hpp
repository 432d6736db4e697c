// One view of every container type for the drivers that treat them alike:
// SetT / MapT give the container S, its joining relative J, projection to
// segments, construction from segments, and operands (pieces and keys).
#pragma once
#include "mapval.hpp"
namespace vf {
template<class K,class S_,class J_,bool elem> struct SetT { typedef S_ S; typedef J_ J; static const bool map=false, element=elem, sub=true;
  static Segs proj(const S& x){ if constexpr(elem){ Segs r; for(auto i=x.begin();i!=x.end();++i){ int a=K::decode_point(*i); r.push_back(Seg{a,a,1}); } return r; } else return project_set<K>(x); }
  template<class X> static void fill(X& x,const Segs& g){ if constexpr(elem){ for(auto& s: g) for(int a=s.lo;a<=s.hi;++a) x.insert(K::point(a)); } else build_set<K>(x,g); }
  static auto piece(const Seg& g,int rep){ if constexpr(elem) return K::point(g.lo); else return K::make(g.lo,g.hi,rep); }
  static auto key(const Seg& g,int rep){ return piece(g,rep); } };
template<class K,class MV,class S_,class J_,bool elem> struct MapT { typedef S_ S; typedef J_ J; static const bool map=true, element=elem, sub=MV::sub;
  static Segs proj(const S& x){ if constexpr(elem){ Segs r; for(auto i=x.begin();i!=x.end();++i){ int a=K::decode_point(i->first); r.push_back(Seg{a,a,MV::num(i->second)}); } return r; } else return project_map<K,MV>(x); }
  template<class X> static void fill(X& x,const Segs& g){ if constexpr(elem){ for(auto& s: g) for(int a=s.lo;a<=s.hi;++a) x.insert(typename X::element_type(K::point(a),MV::make(s.v))); } else build_map<K,MV>(x,g); }
  static auto piece(const Seg& g,int rep){ if constexpr(elem) return typename S::element_type(K::point(g.lo),MV::make(g.v)); else return typename S::segment_type(K::make(g.lo,g.hi,rep),MV::make(g.v)); }
  static auto key(const Seg& g,int rep){ if constexpr(elem) return K::point(g.lo); else return K::make(g.lo,g.hi,rep); } };

}
