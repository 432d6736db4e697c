// Codecs: how the atoms of the specification are represented by a concrete
// ICL domain and interval type.
//   discrete domains               atom a  = the element  base + a
//   continuous, dynamic bounds     atom 2k = the point k,  atom 2k+1 = the gap (k, k+1)
//   continuous, static half open   atom a  = the cell between grid points a and a+1
#ifndef VERIF_CODEC_HPP
#define VERIF_CODEC_HPP
#include "core.hpp"
#include <functional>
// adapters of foreign domain types come first, as documented
#ifdef NEED_GREG
#include <boost/icl/gregorian.hpp>
#endif
#ifdef NEED_PTIME
#include <boost/icl/ptime.hpp>
#endif
#ifdef NEED_RATIONAL
#include <boost/icl/rational.hpp>
#endif
#include <boost/icl/interval.hpp>
#include <boost/icl/right_open_interval.hpp>
#include <boost/icl/left_open_interval.hpp>
#include <boost/icl/closed_interval.hpp>
#include <boost/icl/open_interval.hpp>
#include <boost/icl/discrete_interval.hpp>
#include <boost/icl/continuous_interval.hpp>
#include <boost/icl/interval_set.hpp>
#include <boost/icl/separate_interval_set.hpp>
#include <boost/icl/split_interval_set.hpp>
#include <boost/icl/interval_map.hpp>
#include <boost/icl/split_interval_map.hpp>
template<template<class>class Cmp> struct Ascending { static const bool value=true; };
template<> struct Ascending<std::greater> { static const bool value=false; };
#define VF_CONTAINERS \
  static const bool ascending=Ascending<Cmp>::value; typedef icl::interval<D,Cmp> Itv; typedef std::set<D,Cmp<D> > ElemSet; static int decode_point(const D& d){ return Ord<D,Cmp>::num(d); } \
  typedef icl::interval_set<D,Cmp,interval> JoinSet; typedef icl::separate_interval_set<D,Cmp,interval> SepSet; typedef icl::split_interval_set<D,Cmp,interval> SplitSet; \
  template<class V,class Traits,template<class>class Comb,template<class>class Sect> struct Maps { \
    typedef icl::interval_map<D,V,Traits,Cmp,Comb,Sect,interval> JoinMap; typedef icl::split_interval_map<D,V,Traits,Cmp,Comb,Sect,interval> SplitMap; \
    typedef icl::map<D,V,Traits,Cmp,Comb,Sect> ElemMap; };
// interval types of the user's own, one per kind of bounds
namespace vf { template<int LB,int RB> struct OwnInterval { typedef int difference_type; typedef std::size_t size_type; OwnInterval():_a(LB&&RB? 1: 0),_b(0){} OwnInterval(int a,int b):_a(a),_b(b){} explicit OwnInterval(int x):_a(LB? x: x-1),_b(RB? x: x+1){} int first_bound() const { return _a; } int second_bound() const { return _b; } private: int _a, _b; };
  template<int LB,int RB> inline bool operator==(const OwnInterval<LB,RB>& x,const OwnInterval<LB,RB>& y){ return x.first_bound()==y.first_bound() && x.second_bound()==y.second_bound(); }
  template<int LB,int RB> inline bool operator<(const OwnInterval<LB,RB>& x,const OwnInterval<LB,RB>& y){ return x.first_bound()<y.first_bound() || (x.first_bound()==y.first_bound() && x.second_bound()<y.second_bound()); } }
namespace boost { namespace icl {
template<int LB,int RB> struct interval_traits<vf::OwnInterval<LB,RB> > { typedef vf::OwnInterval<LB,RB> interval_type; typedef int domain_type; typedef std::less<int> domain_compare;
  static interval_type construct(const domain_type& lo,const domain_type& up){ return interval_type(lo,up); }
  static domain_type lower(const interval_type& i){ return i.first_bound(); } static domain_type upper(const interval_type& i){ return i.second_bound(); } };
template<int LB,int RB> struct interval_bound_type<vf::OwnInterval<LB,RB> > { typedef interval_bound_type type;
  BOOST_STATIC_CONSTANT(bound_type, value = (LB? (RB? interval_bounds::static_closed: interval_bounds::static_right_open): (RB? interval_bounds::static_left_open: interval_bounds::static_open))); };
}}
namespace vf {
namespace icl = boost::icl;

const int BAD=-77777;   // an interval that does not lie on the grid

// ---- value <-> grid number for the domains
template<class D> struct Grid { static D make(int a){ return D(a); } static int num(const D& d){ return int(d); } };
template<> struct Grid<double> { static double make(int a){ return a*0.125; } static int num(double d){ double t=d*8; int i=int(t); return double(i)==t? i: BAD; } };
template<> struct Grid<float> { static float make(int a){ return a*0.25f; } static int num(float d){ float t=d*4; int i=int(t); return float(i)==t? i: BAD; } };
template<> struct Grid<std::string> { static std::string make(int a){ return std::string(1,char('c'+a)); }
  static int num(const std::string& s){ return s.size()==1? s[0]-'c': BAD; } };
// narrow unsigned domains can be laid next to the limits of the type
#ifndef VF_BASE
#define VF_BASE 100
#endif
template<> struct Grid<unsigned char> { static unsigned char make(int a){ return (unsigned char)(VF_BASE+a); } static int num(unsigned char c){ return int(c)-(VF_BASE); } };
template<> struct Grid<unsigned short> { static unsigned short make(int a){ return (unsigned short)(VF_BASE+a); } static int num(unsigned short c){ return int(c)-(VF_BASE); } };
template<> struct Grid<signed char> { static signed char make(int a){ return (signed char)(a-6); } static int num(signed char c){ return int(c)+6; } };
template<> struct Grid<short> { static short make(int a){ return (short)(a-3); } static int num(short c){ return int(c)+3; } };
template<> struct Grid<int> { static int make(int a){ return a-2; } static int num(int c){ return c+2; } };
#ifndef VF_UBASE
#define VF_UBASE 5u
#endif
template<> struct Grid<unsigned> { static unsigned make(int a){ return VF_UBASE+a; } static int num(unsigned c){ return int(c-VF_UBASE); } };
template<> struct Grid<unsigned long long> { static unsigned long long make(int a){ return 0xF000000000000000ull+(unsigned long long)(long long)a; } static int num(unsigned long long c){ return int((long long)(c-0xF000000000000000ull)); } };
template<> struct Grid<long long> { static long long make(int a){ return -4000000000ll+a; } static int num(long long c){ return int(c+4000000000ll); } };
#ifdef NEED_RATIONAL
template<> struct Grid<boost::rational<int> > { typedef boost::rational<int> R; static R make(int a){ return R(a,3); } static int num(const R& r){ R t=r*3; return t.denominator()==1? t.numerator(): BAD; } };
#endif
#ifdef NEED_GREG
template<> struct Grid<boost::gregorian::date> { typedef boost::gregorian::date D; static D base(){ return D(2008,2,27); } static D make(int a){ return base()+boost::gregorian::days(a); } static int num(const D& d){ return int((d-base()).days()); } };
template<> struct Grid<boost::gregorian::date_duration> { typedef boost::gregorian::date_duration D; static D make(int a){ return D(a-2); } static int num(const D& d){ return int(d.days())+2; } };
#endif
#ifdef NEED_PTIME
template<> struct Grid<boost::posix_time::ptime> { typedef boost::posix_time::ptime P; static P base(){ return P(boost::gregorian::date(1999,12,31), boost::posix_time::time_duration(23,59,58)); }
  static P make(int a){ return base()+boost::posix_time::ptime::time_duration_type::unit()*a; } static int num(const P& p){ return int((p-base()).ticks()); } };
template<> struct Grid<boost::posix_time::time_duration> { typedef boost::posix_time::time_duration P; static P make(int a){ return P::unit()*(a-2); } static int num(const P& p){ return int(p.ticks())+2; } };
#endif

// descending domains are numbered downwards
template<class D, template<class>class Cmp> struct Ord { static auto up(int n){ return Grid<D>::make(n)-Grid<D>::make(0); } static D make(int a){ return Grid<D>::make(a); } static int num(const D& d){ return Grid<D>::num(d); } };
template<class D> struct Ord<D,std::greater> { static auto up(int n){ return Grid<D>::make(n)-Grid<D>::make(0); } static D make(int a){ return Grid<D>::make(40-a); } static int num(const D& d){ int n=Grid<D>::num(d); return n==BAD?BAD:40-n; } };

// ---- static discrete: right_open, left_open, closed, open
template<class D, template<class>class Cmp, int LB, int RB> struct StatIv;   // LB/RB = 1: bound included
template<class D, template<class>class Cmp> struct StatIv<D,Cmp,1,0>{ typedef icl::right_open_interval<D,Cmp> type; };
template<class D, template<class>class Cmp> struct StatIv<D,Cmp,0,1>{ typedef icl::left_open_interval<D,Cmp> type; };
template<class D, template<class>class Cmp> struct StatIv<D,Cmp,1,1>{ typedef icl::closed_interval<D,Cmp> type; };
template<class D, template<class>class Cmp> struct StatIv<D,Cmp,0,0>{ typedef icl::open_interval<D,Cmp> type; };

template<class D, template<class>class Cmp, int LB, int RB, class Iv=typename StatIv<D,Cmp,LB,RB>::type> struct StaticDiscrete {
  typedef D domain; typedef Iv interval; typedef Ord<D,Cmp> O; VF_CONTAINERS
  static const bool discrete=true, pointwise=true, dynamic=false, statichalf=false;
  static int nreps(int lo,int hi){ return lo<=hi? 1: 3; }
  static interval make(int lo,int hi,int rep=0){ if(lo<=hi) return interval(O::make(lo-(LB?0:1)),O::make(hi+(RB?0:1)));
    // three different empty intervals
    if(rep==0) return interval(); if(rep==1) return LB&&RB? interval(O::make(2),O::make(1)) : interval(O::make(1),O::make(1)); return interval(O::make(2),O::make(0)); }
  static bool decode(const interval& i,int& lo,int& hi){ lo=O::num(icl::lower(i)); hi=O::num(icl::upper(i)); if(lo==BAD||hi==BAD) return false; lo+=LB?0:1; hi-=RB?0:1; return true; }
  static bool is_point(int){ return true; }
  static D point(int a){ return O::make(a); }
  static std::vector<D> members(int a){ return std::vector<D>(1,O::make(a)); }
};
// ---- dynamic discrete
template<class D, template<class>class Cmp> struct DynDiscrete {
  typedef D domain; typedef icl::discrete_interval<D,Cmp> interval; typedef Ord<D,Cmp> O; VF_CONTAINERS
  static const bool discrete=true, pointwise=true, dynamic=true, statichalf=false;
  static int nreps(int lo,int hi){ return lo<=hi? 4: 5; }
  static interval make(int lo,int hi,int rep=0){
    if(lo<=hi) switch(rep&3){ case 0: return interval(O::make(lo),O::make(hi+1),icl::interval_bounds::right_open());
      case 1: return interval(O::make(lo-1),O::make(hi),icl::interval_bounds::left_open());
      case 2: return interval(O::make(lo),O::make(hi),icl::interval_bounds::closed());
      default: return interval(O::make(lo-1),O::make(hi+1),icl::interval_bounds::open()); }
    switch(rep%5){ case 0: return interval(); case 1: return interval(O::make(2),O::make(2),icl::interval_bounds::right_open());
      case 2: return interval(O::make(1),O::make(1),icl::interval_bounds::left_open()); case 3: return interval(O::make(2),O::make(0),icl::interval_bounds::closed());
      default: return interval(O::make(1),O::make(2),icl::interval_bounds::open()); } }
  static bool decode(const interval& i,int& lo,int& hi){ lo=O::num(i.lower()); hi=O::num(i.upper()); if(lo==BAD||hi==BAD) return false; unsigned b=i.bounds().bits(); if(!(b&2)) ++lo; if(!(b&1)) --hi; return true; }
  static bool is_point(int){ return true; }
  static D point(int a){ return O::make(a); }
  static std::vector<D> members(int a){ return std::vector<D>(1,O::make(a)); }
};
// ---- continuous, dynamic bounds: points and gaps
template<class D, template<class>class Cmp> struct DynCont {
  typedef D domain; typedef icl::continuous_interval<D,Cmp> interval; typedef Ord<D,Cmp> O; VF_CONTAINERS
  static const bool discrete=false, pointwise=false, dynamic=true, statichalf=false;
  static int nreps(int lo,int hi){ return lo<=hi? 1: 5; }
  static D grid(int k){ return O::make(2*k); }
  static interval make(int lo,int hi,int rep=0){
    if(lo<=hi){ bool lc=!(lo&1), uc=!(hi&1); D a=grid(lo>>1), b=grid(uc? hi>>1 : (hi+1)>>1);
      return interval(a,b, lc? (uc? icl::interval_bounds::closed(): icl::interval_bounds::right_open()) : (uc? icl::interval_bounds::left_open(): icl::interval_bounds::open())); }
    switch(rep%5){ case 0: return interval(); case 1: return interval(grid(1),grid(1),icl::interval_bounds::right_open());
      case 2: return interval(grid(1),grid(1),icl::interval_bounds::left_open()); case 3: return interval(grid(2),grid(1),icl::interval_bounds::closed());
      default: return interval(grid(1),grid(1),icl::interval_bounds::open()); } }
  static bool decode(const interval& i,int& lo,int& hi){ int a=O::num(i.lower()), b=O::num(i.upper()); if(a==BAD||b==BAD||(a&1)||(b&1)) return false; unsigned t=i.bounds().bits();
    lo=(t&2)? a: a+1; hi=(t&1)? b: b-1; return true; }
  static bool is_point(int a){ return !(a&1); }
  static D point(int a){ return grid(a>>1); }
  // elements of the domain inside an atom: the point itself, or a value inside the gap
  static std::vector<D> members(int a){ return std::vector<D>(1, O::make(a)); }
};
// ---- continuous, static half open: cells
template<class D, template<class>class Cmp, int LB> struct StaticCont {
  typedef D domain; typedef typename StatIv<D,Cmp,LB,1-LB>::type interval; typedef Ord<D,Cmp> O; VF_CONTAINERS
  static const bool discrete=false, pointwise=false, dynamic=false, statichalf=true;
  static int nreps(int lo,int hi){ return lo<=hi? 1: 3; }
  static interval make(int lo,int hi,int rep=0){ if(lo<=hi) return interval(O::make(2*lo),O::make(2*hi+2)); if(rep==0) return interval(); if(rep==1) return interval(O::make(2),O::make(2)); return interval(O::make(4),O::make(2)); }
  static bool decode(const interval& i,int& lo,int& hi){ int a=O::num(icl::lower(i)), b=O::num(icl::upper(i)); if(a==BAD||b==BAD||(a&1)||(b&1)) return false; lo=a/2; hi=b/2-1; return true; }
  static bool is_point(int){ return false; }
  static D point(int a){ return O::make(2*a+1); }
  static std::vector<D> members(int a){ std::vector<D> v; v.push_back(O::make(2*a+1)); v.push_back(O::make(LB? 2*a: 2*a+2)); return v; }
};
// ---- wide: discrete domains whose atoms are blocks of W elements, far from each other and from zero
template<class D,long long B,long long W> struct WideGrid { static D make(long long a){ return D(B+a*W); } static int num(const D& d){ long long x=(long long)d-B, n=x/W; if(n*W>x) --n; return n<-90||n>90? BAD: int(n); } };
template<class D, template<class>class Cmp, long long B, long long W> struct WideOrd { static const bool asc=Ascending<Cmp>::value; typedef WideGrid<D,B,W> G;
  static D first(int a){ return asc? G::make(a): D(G::make(40-a)+(W-1)); } static D last(int a){ return asc? D(G::make(a)+(W-1)): G::make(40-a); }   // the elements of block a, in the order of the domain
  static D step(const D& d,int n){ return D(asc? d+n: d-n); } static int num(const D& d){ int n=G::num(d); return n==BAD? n: asc? n: 40-n; }
  static D make(int a){ return first(a); } static D up(int n){ return D(n*(W/2)); } };
template<class D, template<class>class Cmp, int LB, int RB, long long B, long long W> struct WideDiscrete {   // LB=2: dynamic bounds
  typedef D domain; typedef typename std::conditional<LB==2,icl::discrete_interval<D,Cmp>,typename StatIv<D,Cmp,LB&1,RB>::type>::type interval; typedef WideOrd<D,Cmp,B,W> O;
  static const bool ascending=Ascending<Cmp>::value; typedef icl::interval<D,Cmp> Itv; typedef std::set<D,Cmp<D> > ElemSet; static int decode_point(const D& d){ return O::num(d); }
  typedef icl::interval_set<D,Cmp,interval> JoinSet; typedef icl::separate_interval_set<D,Cmp,interval> SepSet; typedef icl::split_interval_set<D,Cmp,interval> SplitSet;
  template<class V,class Traits,template<class>class Comb,template<class>class Sect> struct Maps {
    typedef icl::interval_map<D,V,Traits,Cmp,Comb,Sect,interval> JoinMap; typedef icl::split_interval_map<D,V,Traits,Cmp,Comb,Sect,interval> SplitMap; typedef icl::map<D,V,Traits,Cmp,Comb,Sect> ElemMap; };
  static const bool discrete=false, pointwise=false, dynamic=LB==2, statichalf=true; static const long long wide=W;
  static int nreps(int lo,int hi){ return LB==2? (lo<=hi? 4: 5): (lo<=hi? 1: 3); }
  template<int L> static interval mk(const D& a,const D& b,int bits){ if constexpr(L==2) return interval(a,b,icl::interval_bounds((icl::bound_type)bits)); else return interval(a,b); }
  static interval make(int lo,int hi,int rep=0){
    if(lo>hi){ if(rep%5==0) return interval(); if(LB==2) switch(rep%5){ case 1: return mk<LB>(O::make(2),O::make(2),2); case 2: return mk<LB>(O::make(1),O::make(1),1); case 3: return mk<LB>(O::make(3),O::make(0),3); default: return mk<LB>(O::make(1),O::step(O::make(1),1),0); }
      if(rep==1) return LB&&RB? mk<LB>(O::make(2),O::make(1),0): mk<LB>(O::make(1),O::make(1),0); return mk<LB>(O::make(3),O::make(0),0); }
    const int bits= LB==2? (rep&3)^2: LB*2+RB; return mk<LB>(O::step(O::first(lo),bits&2?0:-1),O::step(O::last(hi),bits&1?0:1),bits); }
  static bool decode(const interval& i,int& lo,int& hi){ int bits; if constexpr(LB==2) bits=i.bounds().bits(); else bits=LB*2+RB; D a=O::step(icl::lower(i),bits&2?0:1), b=O::step(icl::upper(i),bits&1?0:-1);
    lo=O::num(a); hi=O::num(b); return lo!=BAD && hi!=BAD && O::first(lo)==a && O::last(hi)==b; }
  static bool is_point(int){ return false; }
  static D point(int a){ return O::make(a); }
  static std::vector<D> members(int a){ std::vector<D> v; v.push_back(O::first(a)); v.push_back(O::step(O::first(a),1)); v.push_back(O::step(O::first(a),int(W/2))); v.push_back(O::last(a)); return v; }
};
// ---- wide: discrete domains on a grid of distant elements: atom 2k = the element k*2W, atom 2k+1 = the elements up to the next one
template<class D, template<class>class Cmp, long long B, long long W> struct GapOrd { static const bool asc=Ascending<Cmp>::value;
  static D make(int a){ return D(B+(asc? a: 40-a)*W); } static int num(const D& d){ long long x=(long long)d-B; if(x%W) return BAD; x/=W; return asc? int(x): 40-int(x); } static D up(int n){ return D(n*W); } };
template<class D, template<class>class Cmp, int LB, long long B, long long W> struct GapDiscrete {   // LB=2: dynamic bounds
  typedef D domain; typedef typename std::conditional<LB==2,icl::discrete_interval<D,Cmp>,typename StatIv<D,Cmp,LB&1,1-(LB&1)>::type>::type interval; typedef GapOrd<D,Cmp,B,W> O; typedef icl::interval<D,Cmp> Itv;
  static const bool ascending=Ascending<Cmp>::value, discrete=false, pointwise=false, dynamic=LB==2, statichalf=LB!=2; static const long long wide=2*W; };
template<class> struct Void { typedef void type; };
template<class K,class=void> struct WideOf { static const long long value=0; };
template<class K> struct WideOf<K,typename Void<decltype(K::wide)>::type> { static const long long value=K::wide; };
template<class C> inline std::vector<typename C::interval> reps(int lo,int hi){ std::vector<typename C::interval> v; for(int r=0;r<C::nreps(lo,hi);++r) v.push_back(C::make(lo,hi,r)); return v; }

// ---- the codecs by name
struct K_int_ro   : StaticDiscrete<int,std::less,1,0> { static const char* name(){ return "int_right_open"; } };
struct K_int_lo   : StaticDiscrete<int,std::less,0,1> { static const char* name(){ return "int_left_open"; } };
struct K_int_cl   : StaticDiscrete<int,std::less,1,1> { static const char* name(){ return "int_closed"; } };
struct K_int_op   : StaticDiscrete<int,std::less,0,0> { static const char* name(){ return "int_open"; } };
struct K_int_dyn  : DynDiscrete<int,std::less> { static const char* name(){ return "int_dynamic"; } };
struct K_uchar_dyn: DynDiscrete<unsigned char,std::less> { static const char* name(){ return "uchar_dynamic"; } };
struct K_uchar_ro : StaticDiscrete<unsigned char,std::less,1,0> { static const char* name(){ return "uchar_right_open"; } };
struct K_schar_cl : StaticDiscrete<signed char,std::less,1,1> { static const char* name(){ return "schar_closed"; } };
struct K_short_op : StaticDiscrete<short,std::less,0,0> { static const char* name(){ return "short_open"; } };
struct K_uint_lo  : StaticDiscrete<unsigned,std::less,0,1> { static const char* name(){ return "uint_left_open"; } };
struct K_uchar_lo : StaticDiscrete<unsigned char,std::less,0,1> { static const char* name(){ return "uchar_left_open"; } };
struct K_uchar_cl : StaticDiscrete<unsigned char,std::less,1,1> { static const char* name(){ return "uchar_closed"; } };
struct K_uchar_op : StaticDiscrete<unsigned char,std::less,0,0> { static const char* name(){ return "uchar_open"; } };
struct K_uint_ro  : StaticDiscrete<unsigned,std::less,1,0> { static const char* name(){ return "uint_right_open"; } };
struct K_uint_cl  : StaticDiscrete<unsigned,std::less,1,1> { static const char* name(){ return "uint_closed"; } };
struct K_uint_op  : StaticDiscrete<unsigned,std::less,0,0> { static const char* name(){ return "uint_open"; } };
struct K_uint_dyn : DynDiscrete<unsigned,std::less> { static const char* name(){ return "uint_dynamic"; } };
struct K_ull_dyn  : DynDiscrete<unsigned long long,std::less> { static const char* name(){ return "ull_dynamic"; } };
struct K_ll_cl    : StaticDiscrete<long long,std::less,1,1> { static const char* name(){ return "ll_closed"; } };
struct K_dbl_dyn  : DynCont<double,std::less> { static const char* name(){ return "double_dynamic"; } };
struct K_dbl_ro   : StaticCont<double,std::less,1> { static const char* name(){ return "double_right_open"; } };
struct K_dbl_lo   : StaticCont<double,std::less,0> { static const char* name(){ return "double_left_open"; } };
struct K_flt_dyn  : DynCont<float,std::less> { static const char* name(){ return "float_dynamic"; } };
struct K_str_dyn  : DynCont<std::string,std::less> { static const char* name(){ return "string_dynamic"; } };
struct K_str_ro   : StaticCont<std::string,std::less,1> { static const char* name(){ return "string_right_open"; } };
struct K_intg_ro  : StaticDiscrete<int,std::greater,1,0> { static const char* name(){ return "int_greater_right_open"; } };
struct K_intg_lo  : StaticDiscrete<int,std::greater,0,1> { static const char* name(){ return "int_greater_left_open"; } };
struct K_intg_cl  : StaticDiscrete<int,std::greater,1,1> { static const char* name(){ return "int_greater_closed"; } };
struct K_intg_op  : StaticDiscrete<int,std::greater,0,0> { static const char* name(){ return "int_greater_open"; } };
struct K_intg_dyn : DynDiscrete<int,std::greater> { static const char* name(){ return "int_greater_dynamic"; } };
struct K_dblg_dyn : DynCont<double,std::greater> { static const char* name(){ return "double_greater_dynamic"; } };
struct K_dblg_ro  : StaticCont<double,std::greater,1> { static const char* name(){ return "double_greater_right_open"; } };
struct K_dblg_lo  : StaticCont<double,std::greater,0> { static const char* name(){ return "double_greater_left_open"; } };
struct K_own_ro   : StaticDiscrete<int,std::less,1,0,OwnInterval<1,0> > { static const char* name(){ return "own_right_open"; } };
struct K_own_lo   : StaticDiscrete<int,std::less,0,1,OwnInterval<0,1> > { static const char* name(){ return "own_left_open"; } };
struct K_own_cl   : StaticDiscrete<int,std::less,1,1,OwnInterval<1,1> > { static const char* name(){ return "own_closed"; } };
struct K_own_op   : StaticDiscrete<int,std::less,0,0,OwnInterval<0,0> > { static const char* name(){ return "own_open"; } };
struct K_wide_ro : WideDiscrete<int,std::less,1,0,-2140000000ll,100000000ll> { static const char* name(){ return "int_wide_ro"; } };
struct K_block_ro : WideDiscrete<long,std::less,1,0,-70000000000ll,1000ll> { static const char* name(){ return "long_blocks_ro"; } };
struct K_wide_lo : WideDiscrete<int,std::less,0,1,-2140000000ll,100000000ll> { static const char* name(){ return "int_wide_lo"; } };
struct K_block_lo : WideDiscrete<long,std::less,0,1,-70000000000ll,1000ll> { static const char* name(){ return "long_blocks_lo"; } };
struct K_wide_cl : WideDiscrete<int,std::less,1,1,-2140000000ll,100000000ll> { static const char* name(){ return "int_wide_cl"; } };
struct K_block_cl : WideDiscrete<long,std::less,1,1,-70000000000ll,1000ll> { static const char* name(){ return "long_blocks_cl"; } };
struct K_wide_op : WideDiscrete<int,std::less,0,0,-2140000000ll,100000000ll> { static const char* name(){ return "int_wide_op"; } };
struct K_block_op : WideDiscrete<long,std::less,0,0,-70000000000ll,1000ll> { static const char* name(){ return "long_blocks_op"; } };
struct K_wide_dyn : WideDiscrete<int,std::less,2,0,-2140000000ll,100000000ll> { static const char* name(){ return "int_wide_dyn"; } };
struct K_block_dyn : WideDiscrete<long,std::less,2,0,-70000000000ll,1000ll> { static const char* name(){ return "long_blocks_dyn"; } };
struct K_gap_dyn : GapDiscrete<int,std::less,2,-800000000ll,100000000ll> { static const char* name(){ return "int_gaps_dynamic"; } };
struct K_gap_ro : GapDiscrete<long,std::less,1,-4000000000000000000ll,500000000000000000ll> { static const char* name(){ return "long_gaps_right_open"; } };
struct K_gap_lo : GapDiscrete<short,std::less,0,-9000ll,900ll> { static const char* name(){ return "short_gaps_left_open"; } };
struct K_gapl_dyn : GapDiscrete<long,std::less,2,-4000000000000000000ll,500000000000000000ll> { static const char* name(){ return "long_gaps_dynamic"; } };
struct K_gapg_dyn : GapDiscrete<int,std::greater,2,-1900000000ll,80000000ll> { static const char* name(){ return "int_greater_gaps_dynamic"; } };
struct K_gapu_dyn : GapDiscrete<unsigned,std::less,2,2000000000ll,90000000ll> { static const char* name(){ return "unsigned_gaps_dynamic"; } };
struct K_wideg_dyn : WideDiscrete<int,std::greater,2,0,-2000000000ll,90000000ll> { static const char* name(){ return "int_wide_greater_dynamic"; } };
struct K_blockg_cl : WideDiscrete<long,std::greater,1,1,5000000000ll,1000ll> { static const char* name(){ return "long_blocks_greater_closed"; } };
#ifdef NEED_RATIONAL
struct K_rat_lo   : StaticCont<boost::rational<int>,std::less,0> { static const char* name(){ return "rational_left_open"; } };
struct K_rat_dyn  : DynCont<boost::rational<int>,std::less> { static const char* name(){ return "rational_dynamic"; } };
#endif
#ifdef NEED_GREG
struct K_date_dyn : DynDiscrete<boost::gregorian::date,std::less> { static const char* name(){ return "date_dynamic"; } };
struct K_date_op  : StaticDiscrete<boost::gregorian::date,std::less,0,0> { static const char* name(){ return "date_open"; } };
struct K_ddur_lo  : StaticDiscrete<boost::gregorian::date_duration,std::less,0,1> { static const char* name(){ return "date_duration_left_open"; } };
struct K_date_ro  : StaticDiscrete<boost::gregorian::date,std::less,1,0> { static const char* name(){ return "date_right_open"; } };
#endif
#ifdef NEED_PTIME
struct K_ptime_lo : StaticDiscrete<boost::posix_time::ptime,std::less,0,1> { static const char* name(){ return "ptime_left_open"; } };
struct K_tdur_cl  : StaticDiscrete<boost::posix_time::time_duration,std::less,1,1> { static const char* name(){ return "time_duration_closed"; } };
struct K_tdur_dyn : DynDiscrete<boost::posix_time::time_duration,std::less> { static const char* name(){ return "time_duration_dynamic"; } };
struct K_ptime_dyn: DynDiscrete<boost::posix_time::ptime,std::less> { static const char* name(){ return "ptime_dynamic"; } };
#endif
}
#endif
