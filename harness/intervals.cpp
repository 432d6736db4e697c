// Compares the answers of the interval algebra (IntervalAlgebra.tla) with the
// real interval types.
//   -DMAINK=<codec>      input lines "kind";question;arg;interval;answer
// An interval <<lo, up, b>> is built from exactly these bounds; static types
// take the lines with their own bounds.
#include "codec.hpp"
#include <boost/icl/detail/exclusive_less_than.hpp>
namespace vf {
template<class D> struct HasDiff { static const bool value=true; };
template<> struct HasDiff<std::string> { static const bool value=false; };
template<bool b> struct B_ : std::integral_constant<bool,b>{};
template<class K> struct Bits { static const int value=K::dynamic? -1: K::interval_bits; };

template<class K> struct Alg {
  typedef typename K::interval I; typedef typename K::domain D; typedef typename K::O O;
  static const int scale=K::discrete? 1: 2;
  #define Q(NAME,GOT,WANT) do{ st().variant=NAME; check((GOT),(WANT)); }while(0)
  static D val(int v){ return O::make(scale*v); }
  static D atom(int a){ return O::make(a); }
  static I mk(const Ints& n,int at,std::true_type){ return I(val(n[at]),val(n[at+1]),icl::interval_bounds((icl::bound_type)n[at+2])); }
  static I mk(const Ints& n,int at,std::false_type){ return I(val(n[at]),val(n[at+1])); }
  static I mk(const Ints& n,int at=0){ return mk(n,at,B_<K::dynamic>()); }
  static int bits(const I& i,std::true_type){ return (int)i.bounds().bits(); }
  static int bits(const I&,std::false_type){ return int(icl::interval_bound_type<I>::value); }
  static int bits(const I& i){ return bits(i,B_<K::dynamic>()); }
  // what an interval denotes, from its raw bounds
  static Seg den(const I& i){ int lo=O::num(icl::lower(i)), up=O::num(icl::upper(i)), b=bits(i); if(lo==BAD||up==BAD||b<0||b>3) return Seg{BAD,BAD,0};
    if(!(b&2)) ++lo; if(!(b&1)) --up; if(lo>up) return Seg{1,0,0}; return Seg{lo,up,0}; }
  static void same(const char* name,const I& got,int lo,int hi){ st().variant=name; Segs g(1,icl::lower(got)==icl::upper(got)&&bits(got)!=3? Seg{1,0,0}: den(got)), w(1,Seg{lo,hi,0}); check(g,w); check((int)icl::is_empty(got),(int)(lo>hi)); }
  static bool mine(const Ints& n){ return K::dynamic || n[2]==int(icl::interval_bound_type<I>::value); }

  static void sizes(const I& i,const Ints& a,std::true_type){ typedef typename icl::size_type_of<icl::interval_traits<I> >::type Sz;
    Sz n=Sz(O::up(a[3])); Q("cardinality",icl::cardinality(i)==n,true); Q("size",icl::size(i)==n,true);
    if(!a[0]){ Q("first",O::num(icl::first(i)),a[1]); Q("last",O::num(icl::last(i)),a[2]); Q("last_next",O::num(icl::last_next(i)),a[2]+1); } }
  static void sizes(const I& i,const Ints& a,std::false_type){ typedef typename icl::size_type_of<icl::interval_traits<I> >::type Sz;
    if constexpr(WideOf<K>::value!=0) if(true){ Sz n= a[0]? Sz(0): Sz(O::up(2*a[5]))-1+(bits(i)>>1)+(bits(i)&1); Q("cardinality",icl::cardinality(i)==n,true); Q("size",icl::size(i)==n,true); return; }   // the bounds are a[5] grid steps apart
    Sz n= a[0]? Sz(0): a[4]? icl::infinity<Sz>::value(): Sz(a[3]); Q("cardinality",icl::cardinality(i)==n,true); Q("size",icl::size(i)==n,true); }
  static void len(const I& i,const Ints& a,std::true_type){ typedef typename icl::difference_type_of<icl::interval_traits<I> >::type Df; Df d=O::up(scale*a[5]); if constexpr(WideOf<K>::value!=0) if(true && !a[0]) d+=-1+(bits(i)>>1)+(bits(i)&1); Q("length",icl::length(i)==d,true); }
  static void len(const I&,const Ints&,std::false_type){}
  static void factories(const Ints& n,const I& i,std::true_type){ D a=val(n[0]), b=val(n[1]); Seg w=den(i); I f;
    switch(n[2]){ case 0: f=I::open(a,b); break; case 1: f=I::left_open(a,b); break; case 2: f=I::right_open(a,b); break; default: f=I::closed(a,b); }
    same("I::bounds(lo,up)",f,w.lo,w.hi); same("construct(lo,up,bounds)",icl::construct<I>(a,b,icl::interval_bounds((icl::bound_type)n[2])),w.lo,w.hi);
    if(n[2]==2){ same("I(lo,up)",I(a,b),w.lo,w.hi); same("construct(lo,up)",icl::construct<I>(a,b),w.lo,w.hi); }
    Q("bounds(i)",(int)icl::bounds(i).bits(),n[2]); 
    typename I::bounded_domain_type lo(a,icl::interval_bounds((icl::bound_type)(n[2]&2))), up(b,icl::interval_bounds((icl::bound_type)(n[2]&1)));
    same("construct(bounded,bounded)",icl::dynamic_interval_traits<I>::construct_bounded(lo,up),w.lo,w.hi); }
  static void factories(const Ints& n,const I& i,std::false_type){ Seg w=den(i); same("construct(lo,up)",icl::construct<I>(val(n[0]),val(n[1])),w.lo,w.hi); Q("bounds(i)",(int)icl::bounds(i).bits(),n[2]); }
  // interval<D,Cmp>, the default interval type, made with any kind of bounds
  template<class DI> static void defaults(const Ints& n,const Seg& w){ typedef typename DI::interval_type J; D a=val(n[0]), b=val(n[1]); J f;
    switch(n[2]){ case 0: f=DI::open(a,b); break; case 1: f=DI::left_open(a,b); break; case 2: f=DI::right_open(a,b); break; default: f=DI::closed(a,b); }
    st().variant="interval<D>::bounds(lo,up)"; Segs g(1,denj(f)), ww(1,w); check(g,ww); check((int)icl::is_empty(f),(int)(w.lo>w.hi)); }
  template<class J> static Seg denj(const J& i){ int lo=O::num(icl::lower(i)), up=O::num(icl::upper(i)), b=(int)icl::bounds(i).bits(); if(lo==BAD||up==BAD) return Seg{BAD,BAD,0};
    if(!(b&2)) ++lo; if(!(b&1)) --up; if(lo>up) return Seg{1,0,0}; return Seg{lo,up,0}; }
  static void text(const Ints& n,const I& i,bool empty){ std::ostringstream o, w; o<<i; int b=n[2]; w<<(b&2?"[":"("); if(!empty) w<<val(n[0])<<","<<val(n[1]); w<<(b&1?"]":")"); Q("operator <<",o.str()==w.str(),true); }

  static void un(const Ints& n,const Ints& a){ I i=mk(n); const I keep(i);
    Q("is_empty",(int)icl::is_empty(i),a[0]); Q("lower",icl::lower(i)==val(n[0]),true); Q("upper",icl::upper(i)==val(n[1]),true);
    sizes(i,a,B_<K::discrete>()); len(i,a,B_<HasDiff<D>::value>());
    for(size_t x=6;x<a.size();++x){ D d=atom(int(x)-6); Q("contains(i,element)",(int)icl::contains(i,d),a[x]); }
    factories(n,i,B_<K::dynamic>()); if(K::dynamic) text(n,i,a[0]!=0); else text(n,i,a[0]!=0);
#ifndef NO_DEFAULTS
    defaults<typename K::Itv >(n,den(i));
#endif
    I c(i); Q("copy",den(c)==den(keep),true); I d; Q("default is empty",icl::is_empty(d),true); d=i; Q("assigned",den(d)==den(keep),true);
    Q("identity is empty",icl::is_empty(icl::identity_element<I>::value()),true); }
  static void dist(const I& i,const I& j,int w,std::true_type){ typedef typename icl::difference_type_of<icl::interval_traits<I> >::type Df; Df d=O::up(scale*w); if constexpr(WideOf<K>::value!=0) if(true && !icl::is_empty(i) && !icl::is_empty(j) && (icl::exclusive_less(i,j)||icl::exclusive_less(j,i))){ const I& l= icl::exclusive_less(i,j)? i: j; const I& r= icl::exclusive_less(i,j)? j: i; d+=-1+!(bits(l)&1)+!(bits(r)&2); } Q("distance",icl::distance(i,j)==d,true); }
  static void dist(const I&,const I&,int,std::false_type){}
  static void pair(const Ints& n,const Ints& m,const Ints& a){ I i=mk(n), j=mk(m); const Seg ki=den(i), kj=den(j);
    Q("i==j",(int)(i==j),a[0]); Q("i!=j",(int)(i!=j),1-a[0]); Q("i<j",(int)(i<j),a[1]); Q("j>i",(int)(j>i),a[1]);
    if(a[2]!=2){ Q("lower_less",(int)icl::lower_less(i,j),(int)(a[2]<0)); Q("lower_equal",(int)icl::lower_equal(i,j),(int)(a[2]==0)); Q("lower_less_equal",(int)icl::lower_less_equal(i,j),(int)(a[2]<=0));
      Q("upper_less",(int)icl::upper_less(i,j),(int)(a[3]<0)); Q("upper_equal",(int)icl::upper_equal(i,j),(int)(a[3]==0)); Q("upper_less_equal",(int)icl::upper_less_equal(i,j),(int)(a[3]<=0));
      Q("i<=j",(int)(i<=j),(int)(a[0]||a[1])); Q("j>=i",(int)(j>=i),(int)(a[0]||a[1]));
      Q("touches",(int)icl::touches(i,j),a[7]); Q("exclusive_less_than",(int)icl::exclusive_less_than<I>()(i,j),a[4]); }
    Q("exclusive_less",(int)icl::exclusive_less(i,j),a[4]); Q("contains(i,j)",(int)icl::contains(i,j),a[5]); Q("within(j,i)",(int)icl::within(j,i),a[5]);
    Q("intersects",(int)icl::intersects(i,j),a[6]); Q("disjoint",(int)icl::disjoint(i,j),1-a[6]);
    same("i & j",i&j,a[8],a[9]); same("hull",icl::hull(i,j),a[10],a[11]); same("left_subtract",icl::left_subtract(i,j),a[12],a[13]); same("right_subtract",icl::right_subtract(i,j),a[14],a[15]);
    same("inner_complement",icl::inner_complement(i,j),a[16],a[17]); same("between",icl::between(i,j),a[16],a[17]); dist(i,j,a[18],B_<HasDiff<D>::value>());
    Q("operands unchanged",den(i)==ki&&den(j)==kj,true); }
  // intervals from elements
  static void pts(int x,int y,int b,const Ints& a,std::true_type){ D d=val(x), e=val(y);
    same("singleton",icl::singleton<I>(d),a[0],a[1]); same("hull(elements)",icl::hull<I>(d,e),a[2],a[3]); span(d,e,b,a); }
  static void span(const D& d,const D& e,int b,const Ints& a){ if(K::dynamic? b==2: b==int(icl::interval_bound_type<I>::value)) same("span(elements)",icl::span<I>(d,e),a[4],a[5]); }
  static void pts(int x,int y,int b,const Ints& a,std::false_type){ span(val(x),val(y),b,a); }
  static void run(const Case& c){ const Ints& n=c.n[2]; if(!mine(n)) return; std::string q=c.op();
    if(q=="un") un(n,c.n[3]); else if(q=="pair"){ if(!mine(c.n[1])) return; pair(n,c.n[1],c.n[3]); }
    else if(q=="pts"){
#ifdef VF_LOW
      if(!(int(icl::interval_bound_type<I>::value)&2) && !K::dynamic && (!c.n[1][0]||!c.n[1][1])) return;   // no predecessor
#endif
      pts(c.n[1][0],c.n[1][1],c.n[1][2],c.n[3],B_<K::discrete||K::dynamic>());}
    else { printf("ERROR unknown question %s\n",q.c_str()); exit(2); } }
};
}
using namespace vf;
int main(int argc,char** argv){ parse_args(argc,argv); opt().type=MAINK::discrete? "d": "c"; st().codec=MAINK::name(); st().kind="interval";
  for_cases(opt().file,[&](const Case& c){ Alg<MAINK>::run(c); }); report(); return 0; }
