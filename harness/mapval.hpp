// Codecs for associated values: the integer values of MapOps.tla <-> codomain types.
#ifndef VERIF_MAPVAL_HPP
#define VERIF_MAPVAL_HPP
#include "codec.hpp"
#include <cmath>
#include <boost/icl/map.hpp>
#include <boost/icl/interval_map.hpp>
namespace vf {
template<class T> struct VNum { typedef T type; static T make(int i){ return T(i); } static int num(const T& t){ return int(t); } };
template<> struct VNum<double> { typedef double type; static double make(int i){ return i*0.5; } static int num(const double& t){ double x=t*2; int i=int(x); return double(i)==x? i: BAD; } };
struct VStdSet { typedef std::set<int> type; static type make(int i){ type s; for(int b=0;b<8;++b) if(i>>b&1) s.insert(10+b); return s; }
  static int num(const type& s){ int r=0; for(auto x: s){ if(x<10||x>17) return BAD; r|=1<<(x-10); } return r; } };
struct VItvSet { typedef boost::icl::interval_set<int> type; static type make(int i){ type s; for(int b=0;b<8;++b) if(i>>b&1) s.add(20+3*b); return s; }
  static int num(const type& s){ int r=0; for(type::element_const_iterator p=boost::icl::elements_begin(s);p!=boost::icl::elements_end(s);++p){ int x=*p-20; if(x<0||x%3||x/3>7) return BAD; r|=1<<(x/3); } return r; } };
struct VStr { typedef std::string type; static type make(int i){ std::string s; while(i){ s.insert(s.begin(),char('a'+i%4)); i/=4; } return s; }
  static int num(const type& s){ int r=0; for(char c: s){ if(c<'b'||c>'d') return BAD; r=r*4+(c-'a'); } return r; } };
// user-defined value types: a bit set, a monoid with inverse but without unary minus, a map of numbers
struct Bits { unsigned w; Bits(unsigned x=0): w(x){} Bits& operator|=(const Bits& o){ w|=o.w; return *this; } Bits& operator&=(const Bits& o){ w&=o.w; return *this; } Bits& operator^=(const Bits& o){ w^=o.w; return *this; } Bits operator~()const{ return Bits(~w); } };
inline bool operator==(const Bits& a,const Bits& b){ return a.w==b.w; } inline bool operator<(const Bits& a,const Bits& b){ return a.w<b.w; } inline bool operator!=(const Bits& x,const Bits& y){ return !(x==y); } inline bool operator>(const Bits& x,const Bits& y){ return y<x; } inline bool operator<=(const Bits& x,const Bits& y){ return !(y<x); } inline bool operator>=(const Bits& x,const Bits& y){ return !(x<y); }
} namespace boost{ namespace icl { template<> struct is_set<vf::Bits>{ typedef is_set type; BOOST_STATIC_CONSTANT(bool,value=true); }; template<> struct has_set_semantics<vf::Bits>{ typedef has_set_semantics type; BOOST_STATIC_CONSTANT(bool,value=true); }; }} namespace vf {
struct VBits { typedef Bits type; static type make(int i){ return Bits(unsigned(i)); } static int num(const type& t){ return int(t.w); } };
struct Own { long a,b; Own(): a(0),b(0){} Own(long x,long y): a(x),b(y){} Own& operator+=(const Own& o){ a+=o.a; b+=o.b; return *this; } Own& operator-=(const Own& o){ a-=o.a; b-=o.b; return *this; } };
inline bool operator==(const Own& x,const Own& y){ return x.a==y.a && x.b==y.b; } inline bool operator<(const Own& x,const Own& y){ return x.a<y.a; } inline bool operator!=(const Own& x,const Own& y){ return !(x==y); } inline bool operator>(const Own& x,const Own& y){ return y<x; } inline bool operator<=(const Own& x,const Own& y){ return !(y<x); } inline bool operator>=(const Own& x,const Own& y){ return !(x<y); }
struct VOwn { typedef Own type; static type make(int i){ return Own(i,-3L*i); } static int num(const type& t){ return t.b==-3*t.a? int(t.a): BAD; } };
struct VStar { typedef double type; static type make(int i){ return i? std::ldexp(1.0,i-8): 0.0; } static int num(const type& t){ if(t==0) return 0; int e; return std::frexp(t,&e)==0.5? e+7: BAD; } };
inline bool commutes(const char* c){ return strcmp(c,"cat") && strcmp(c,"keep"); }
struct VNest { typedef boost::icl::interval_map<int,int,boost::icl::total_absorber> type;
  static type make(int i){ type t; if(i) t.add(type::segment_type(boost::icl::interval<int>::right_open(5,8),i)); return t; }
  static int num(const type& t){ if(t.iterative_size()==0) return 0; if(t.iterative_size()!=1 || !(t.begin()->first==boost::icl::interval<int>::right_open(5,8))) return BAD; return t.begin()->second; } };
// combiners by name of the specification
struct M_int    : VNum<int>      { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<int,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_double : VNum<double>   { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<double,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_long   : VNum<long>     { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<long,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_short  : VNum<short>     { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<short,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_llong  : VNum<long long>     { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<long long,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_ldbl  : VNum<long double>     { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<long double,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_uint   : VNum<unsigned> { static const char* comb(){ return "plus"; }  static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<unsigned,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_max    : VNum<int>      { static const char* comb(){ return "max"; }   static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<int,T,icl::inplace_max,icl::inter_section>{}; };
struct M_min    : VNum<int>      { static const char* comb(){ return "min"; }   static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<int,T,icl::inplace_min,icl::inter_section>{}; };
struct M_set    : VStdSet        { static const char* comb(){ return "set"; }   static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<std::set<int>,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_itvset : VItvSet        { static const char* comb(){ return "set"; }   static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<boost::icl::interval_set<int>,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_bitor  : VNum<unsigned> { static const char* comb(){ return "bitor"; } static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<unsigned,T,icl::inplace_bit_add,icl::inplace_bit_and>{}; };
struct M_bitxor : VNum<unsigned> { static const char* comb(){ return "bitxor"; } static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<unsigned,T,icl::inplace_bit_xor,icl::inplace_bit_and>{}; };
struct M_cat    : VStr           { static const char* comb(){ return "cat"; }   static const bool inv=false, sub=false; template<class K,class T> struct of : K::template Maps<std::string,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_bitand : VNum<unsigned> { static const char* comb(){ return "bitand"; } static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<unsigned,T,icl::inplace_bit_and,icl::inter_section>{}; };
struct M_et     : VNum<int>      { static const char* comb(){ return "bitand"; } static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<int,T,icl::inplace_et,icl::inter_section>{}; };
struct M_keep   : VNum<int>      { static const char* comb(){ return "keep"; }  static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<int,T,icl::inplace_identity,icl::inter_section>{}; };
struct M_ins    : VItvSet        { static const char* comb(){ return "ins"; }   static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<boost::icl::interval_set<int>,T,icl::inplace_insert,icl::inter_section>{}; };
struct M_star   : VStar          { static const char* comb(){ return "star"; }  static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<double,T,icl::inplace_star,icl::inter_section>{}; };
struct M_bits   : VBits          { static const char* comb(){ return "set"; }   static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<Bits,T,icl::inplace_bit_add,icl::inplace_bit_and>{}; };
struct M_own    : VOwn           { static const char* comb(){ return "plus"; }  static const bool inv=false, sub=true; template<class K,class T> struct of : K::template Maps<Own,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_nest   : VNest          { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<VNest::type,T,icl::inplace_plus,icl::inter_section>{}; };
struct M_float  : VNum<float>    { static const char* comb(){ return "plus"; }  static const bool inv=true, sub=true; template<class K,class T> struct of : K::template Maps<float,T,icl::inplace_plus,icl::inter_section>{}; };

template<class T,class MV> inline std::string type_name(const std::string& style){ return std::string(T::is_total?"t":"p")+(T::absorbs_identities?"a":"e")+"-"+MV::comb()+"-"+style; }
template<class K,class Iv> inline Seg seg_of(const Iv& i,int v){ int lo,hi; if(!K::decode(i,lo,hi)) return Seg{BAD,BAD,v}; return Seg{lo,hi,v}; }
template<class K,class S> inline Segs project_set(const S& s){ Segs r; for(typename S::const_iterator it=s.begin();it!=s.end();++it) r.push_back(seg_of<K>(*it,1)); return r; }
template<class K,class MV,class S> inline Segs project_map(const S& s){ Segs r; for(typename S::const_iterator it=s.begin();it!=s.end();++it) r.push_back(seg_of<K>((*it).first,MV::num((*it).second))); return r; }
template<class K,class S> inline void build_set(S& s,const Segs& g,int rep=0){ for(size_t i=0;i<g.size();++i) s.add(K::make(g[i].lo,g[i].hi,rep++)); }
template<class K,class MV,class S> inline void build_map(S& s,const Segs& g,int rep=0){ for(size_t i=0;i<g.size();++i) s.add(typename S::segment_type(K::make(g[i].lo,g[i].hi,rep++),MV::make(g[i].v))); }
inline bool touching_equal(const Segs& g){ for(size_t i=1;i<g.size();++i) if(g[i-1].hi+1==g[i].lo && g[i-1].v==g[i].v) return true; return false; }
}
#endif
