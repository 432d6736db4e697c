// Compares the answers of the query specification (Queries.tla) with those of
// the real containers.
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]     without them: interval sets
//   -DASK_SIZES -DASK_LOOKUP -DASK_CONTAINERS: the groups of questions compiled in
//   -mode join|sep|split       -only contain|relate   which answers of container questions
#include "mapval.hpp"
namespace vf {
struct SetTag{};
// ---- what differs between sets and maps
template<class K,class S,class T,class MV> struct Kind { static const bool is_map=true, total=T::is_total; typedef typename MV::type V;
  typedef typename MV::template of<K,T> Types; typedef typename Types::JoinMap A; typedef typename Types::SplitMap B; typedef typename Types::SplitMap C;
  template<class X> static Segs proj(const X& x){ return project_map<K,MV>(x); }
  template<class X> static void build(X& x,const Segs& g,int rep){ build_map<K,MV>(x,g,rep); }
  static const typename K::interval& iv(typename S::const_iterator it){ return (*it).first; }
  template<class E> static Seg elem(const E& e){ int n=K::O::num(e.first); return Seg{n,n,MV::num(e.second)}; }
 };
template<class K,class S> struct Kind<K,S,SetTag,SetTag> { static const bool is_map=false, total=false; typedef int V;
  typedef typename K::JoinSet A; typedef typename K::SplitSet B; typedef typename K::SepSet C;
  template<class X> static Segs proj(const X& x){ return project_set<K>(x); }
  template<class X> static void build(X& x,const Segs& g,int rep){ build_set<K>(x,g,rep); }
  static const typename K::interval& iv(typename S::const_iterator it){ return *it; }
  template<class E> static Seg elem(const E& e){ int n=K::O::num(e); return Seg{n,n,1}; } };

template<class D> struct HasDiff { static const bool value=true; };
template<> struct HasDiff<std::string> { static const bool value=false; };
template<bool b> struct B_ : std::integral_constant<bool,b>{};

template<class K,class T,class MV,class S> struct Asker {
  typedef typename K::interval I; typedef typename K::domain D; typedef Kind<K,S,T,MV> KD; typedef typename S::const_iterator It;
  const Case* c; S x; Segs state; std::string seen; bool built=false, join; int rep=0;
  #define Q(NAME,GOT,WANT) do{ st().variant=NAME; check((GOT),(WANT)); }while(0)
  template<class X> static int pos(const X& y,typename X::const_iterator it){ int n=1; for(typename X::const_iterator p=y.begin();p!=it;++p) ++n; return n; }
  template<class X> static int pos(X& y,typename X::iterator it,int){ int n=1; for(typename X::iterator p=y.begin();p!=it;++p) ++n; return n; }

  // ------------------------------------------------------------ sizes
  void lengths(const Ints& a,std::true_type){ typedef typename S::difference_type Dif;
    int len = K::discrete||K::statichalf? a[0]: a[2], gap = K::discrete||K::statichalf? a[7]: a[8];
    Dif l=K::O::up(K::discrete? len: 2*len), g=K::O::up(K::discrete? gap: 2*gap);
    Q("length",icl::length(x)==l,true); Q("distance",icl::distance(x)==g,true); }
  void lengths(const Ints&,std::false_type){}
  void firsts(const Ints& a,std::true_type){ if(a[4]) return; Q("first",K::O::num(icl::first(x)),a[5]); Q("last",K::O::num(icl::last(x)),a[6]); }
  void firsts(const Ints&,std::false_type){}
  template<class Sz> Sz cnt(const Ints& a,std::true_type){ return Sz(K::O::up(a[0])); }
  template<class Sz> Sz cnt(const Ints& a,std::false_type){ if(WideOf<K>::value) return Sz(a[0]*WideOf<K>::value); return K::statichalf? (a[0]? icl::infinity<Sz>::value(): Sz(0)): (a[1]? icl::infinity<Sz>::value(): Sz(a[0])); }
  void un(const Ints& a){ typedef typename S::size_type Sz;
    Sz n= cnt<Sz>(a,B_<K::discrete>());
    Q("cardinality",icl::cardinality(x)==n,true); Q("size",icl::size(x)==n,true); Q("x.size",x.size()==n,true);
    Q("iterative_size",(int)icl::iterative_size(x),a[3]); Q("interval_count",(int)icl::interval_count(x),a[3]); Q("x.iterative_size",(int)x.iterative_size(),a[3]);
    Q("begin..end",(int)std::distance(x.begin(),x.end()),a[3]); Q("rbegin..rend",(int)std::distance(x.rbegin(),x.rend()),a[3]);
    Q("is_empty",(int)icl::is_empty(x),a[4]); Q("x.empty",(int)x.empty(),a[4]);
    I h=icl::hull(x);
    if(a[4]) Q("hull of empty",icl::is_empty(h),true);
    else { Seg s=seg_of<K>(h,0); Q("hull",s==(Seg{a[5],a[6],0}),true); It f=x.begin(), l=x.end(); --l;
      Q("lower",icl::lower(x)==icl::lower(KD::iv(f)),true); Q("upper",icl::upper(x)==icl::upper(KD::iv(l)),true); }
    firsts(a,B_<K::discrete>()); lengths(a,B_<HasDiff<D>::value>()); }
  // ------------------------------------------------------- derived containers
  template<class Y> void dom(const char* v,const Segs& w){ st().variant=v; Y y; y.add(K::make(0,2)); icl::domain(y,x); check(project_set<K>(y),w); }
  void keysQ(bool j,const Segs& w,std::true_type){ if(j) dom<typename K::JoinSet>("domain(join)",w); else { dom<typename K::SplitSet>("domain(split)",w); dom<typename K::SepSet>("domain(separate)",w); } }
  void keysQ(bool j,const Segs& w,std::false_type){ if(j==join) dom<S>("domain(set)",w); }
  template<class Y> void betw(const char* v,const Segs& w){ st().variant=v; Y y; y.add(K::make(0,2)); icl::between(y,x); check(project_set<K>(y),w); }
  void between(const Segs& w,std::true_type){ betw<typename K::JoinSet>("between(join)",w); betw<typename K::SplitSet>("between(split)",w); betw<typename K::SepSet>("between(separate)",w); }
  void between(const Segs& w,std::false_type){ betw<S>("between(set)",w); }
  template<class P> Segs walk(P b,P e){ Segs r; for(P p=b;p!=e;++p){ r.push_back(KD::elem(*p)); if(r.size()>99) break; } return r; }
  template<class P> Segs walkback(P b,P e){ Segs r; while(e!=b){ --e; r.push_back(KD::elem(*e)); if(r.size()>99) break; } return r; }
  void elements(const Segs& w,std::true_type){ Segs rv(w.rbegin(),w.rend()); const S& y=x;
    Q("elements const",walk(icl::elements_begin(y),icl::elements_end(y)),w); Q("elements",walk(icl::elements_begin(x),icl::elements_end(x)),w);
    Q("elements backwards",walkback(icl::elements_begin(y),icl::elements_end(y)),rv); Q("elements range",walk(icl::elements(x).begin(),icl::elements(x).end()),w); Q("elements range const",walk(icl::elements(y).begin(),icl::elements(y).end()),w);
    Q("elements reverse const",walk(icl::elements_rbegin(y),icl::elements_rend(y)),rv); Q("elements reverse",walk(icl::elements_rbegin(x),icl::elements_rend(x)),rv);
    Q("elements reverse backwards",walkback(icl::elements_rbegin(y),icl::elements_rend(y)),w);
    { Segs r; typename S::element_const_iterator p=icl::elements_begin(y); while(p!=icl::elements_end(y)){ typename S::element_const_iterator q=p++; r.push_back(KD::elem(*q)); if(r.size()>99) break; } Q("elements post increment",r,w); }
    // back and forth
    { Segs r; typename S::element_const_iterator p=icl::elements_begin(y), e=icl::elements_end(y); while(p!=e){ ++p; --p; r.push_back(KD::elem(*p)); ++p; if(r.size()>99) break; } Q("elements to and fro",r,w); }
    refs(w,B_<KD::is_map && std::is_arithmetic<typename KD::V>::value && K::ascending>()); }
  // what a map's element iterator refers to compares like the pair of key and value
  void refs(const Segs& w,std::true_type){ const S& y=x; size_t i=0; typedef std::pair<D,typename KD::V> P1; typedef std::pair<const D,typename KD::V> P2; const P1* before=0; P1 keep; static const char* names[]={"reference = equal pair","reference - value","reference - key"};
    for(typename S::element_const_iterator p=icl::elements_begin(y);p!=icl::elements_end(y)&&i<w.size();++p,++i){
      for(int k=0;k<3;++k){ P1 q(K::O::make(w[i].lo-(k==2)),MV::make(w[i].v-(k==1))); P2 r(q); bool eq=k==0; if(k==1 && !(q.second<MV::make(w[i].v))) continue;
        st().variant=names[k]; check(*p==q,eq); check(q==*p,eq); check(*p!=r,!eq); check(r!=*p,!eq); check(*p<q,false); check(q<*p,!eq); check(*p>q,!eq); check(r>*p,false); check(*p<=r,eq); check(q<=*p,true); check(*p>=q,true); check(r>=*p,eq); }
      if(before){ typename S::element_const_iterator o=icl::elements_begin(y); std::advance(o,i-1); st().variant="references"; check(*o<*p,true); check(*o==*p,false); check(*p>*o,true); check(*p<=*o,false); check(*p>=*o,true); check(*o!=*p,true); }
      keep.~P1(); new(&keep) P1(*p); before=&keep; } }
  void refs(const Segs&,std::false_type){}
  void elements(const Segs&,std::false_type){}
  // ------------------------------------------------------------------ ranges
  void rng(int lo,int hi,const Ints& a){ const S& y=x; std::vector<I> rs=reps<K>(lo,hi);
    for(size_t k=0;k<rs.size();++k){ const I r=rs[k];
      bool cont= KD::total? true: a[0]!=0;
      Q("contains(x,I)",icl::contains(y,r),cont); Q("within(I,x)",icl::within(r,y),cont);
      if(!KD::total){ Q("intersects(x,I)",icl::intersects(y,r),a[1]!=0); Q("disjoint(x,I)",icl::disjoint(y,r),a[1]==0); }
      if(lo>hi) continue;
      Q("x.find(I)",pos(y,y.find(r)),a[2]); Q("find(x,I)",pos(y,icl::find(y,r)),a[2]);
      Q("x.lower_bound(I) const",pos(y,y.lower_bound(r)),a[3]); Q("x.upper_bound(I) const",pos(y,y.upper_bound(r)),a[4]);
      Q("x.lower_bound(I)",pos(x,x.lower_bound(r),0),a[3]); Q("x.upper_bound(I)",pos(x,x.upper_bound(r),0),a[4]);
      { std::pair<It,It> p=y.equal_range(r); Q("x.equal_range(I) const first",pos(y,p.first),a[3]); Q("x.equal_range(I) const second",pos(y,p.second),a[4]); }
      { std::pair<typename S::iterator,typename S::iterator> p=x.equal_range(r); Q("x.equal_range(I) first",pos(x,p.first,0),a[3]); Q("x.equal_range(I) second",pos(x,p.second,0),a[4]); } } }
  void value(const D& p,int v,std::true_type){ const S& y=x; Q("x(key)",MV::num(y(p)),v); }
  void value(const D&,int,std::false_type){}
  void key(int at,const Ints& a,std::true_type){ const S& y=x; std::vector<D> ps=K::members(at);
    for(size_t k=0;k<ps.size();++k){ const D p=ps[k]; bool in= KD::total? true: a[0]!=0;
      Q("contains(x,key)",icl::contains(y,p),in); Q("within(key,x)",icl::within(p,y),in);
      if(!KD::total){ Q("intersects(x,key)",icl::intersects(y,p),in); Q("disjoint(x,key)",icl::disjoint(y,p),!in); }
      Q("x.find(key)",pos(y,y.find(p)),a[1]); Q("find(x,key)",pos(y,icl::find(y,p)),a[1]); value(p,a[2],B_<KD::is_map>()); } }
  void key(int,const Ints&,std::false_type){}
  void pair(int lo,int hi,int v,const Ints& a,std::true_type){ typedef typename S::segment_type P; typedef typename S::element_type E; const S& y=x; std::vector<I> rs=reps<K>(lo,hi);
    bool known= !(KD::total && v==0);
    for(size_t k=0;k<rs.size();++k){ const P r(rs[k],MV::make(v));
      if(known){ Q("contains(x,P)",icl::contains(y,r),a[0]!=0); Q("within(P,x)",icl::within(r,y),a[0]!=0); }
      if(!KD::total) Q("intersects(x,P)",icl::intersects(y,r),a[1]!=0); }
    if(lo==hi && K::is_point(lo)) pelem(E(K::point(lo),MV::make(v)),known,a,B_<K::discrete||K::dynamic>()); }
  template<class E> void pelem(const E& e,bool known,const Ints& a,std::true_type){ const S& y=x;
    if(known){ Q("contains(x,e)",icl::contains(y,e),a[0]!=0); Q("within(e,x)",icl::within(e,y),a[0]!=0); }
    if(!KD::total) Q("intersects(x,e)",icl::intersects(y,e),a[1]!=0); }
  template<class E> void pelem(const E&,bool,const Ints&,std::false_type){}
  void pair(int,int,int,const Ints&,std::false_type){}
  // -------------------------------------------------------------- containers
  template<class Y> void cont(const Segs& t,const Ints& a,const char* kind){ Y y; KD::build(y,t,rep); ask(y,t,a,kind); }
  template<class Y> void ask(const Y& y,const Segs& t,const Ints& a,const char* kind){ const S& x=this->x; const char* save=st().kind; st().kind=kind;
    if(opt().only!="relate"){
      Q("contains(x,y)",icl::contains(x,y),a[0]!=0); Q("within(y,x)",icl::within(y,x),a[0]!=0);
      Q("intersects(x,y)",icl::intersects(x,y),a[1]!=0); Q("disjoint(x,y)",icl::disjoint(x,y),a[1]==0); }
    if(opt().only!="contain"){
      Q("inclusion_compare(x,y)",icl::inclusion_compare(x,y),a[2]); Q("inclusion_compare(y,x)",icl::inclusion_compare(y,x),a[2]==1?2:a[2]==2?1:a[2]);
      Q("is_element_equal(x,y)",icl::is_element_equal(x,y),a[2]==3);
      elems(y,a,B_<less_ok>());
      same(y,a); }
    Q("operand unchanged",KD::proj(y),t); st().kind=save; }
  static const bool less_ok = !KD::is_map || std::is_arithmetic<typename KD::V>::value;
  template<class Y> void elems(const Y& y,const Ints& a,std::true_type){ Q("is_element_less(x,y)",icl::is_element_less(x,y),a[4]<0); Q("is_element_greater(x,y)",icl::is_element_greater(x,y),a[4]>0); Q("is_element_less(y,x)",icl::is_element_less(y,x),a[4]>0); }
  template<class Y> void elems(const Y&,const Ints&,std::false_type){}
  template<class Y> void same(const Y&,const Ints&){}
  void same(const S& y,const Ints& a){ const S& x=this->x; bool eq=a[3]==0; Q("x==y",x==y,eq); Q("x!=y",x!=y,!eq); order(y,a[3],B_<K::ascending&&less_ok>()); distinct(y,a[5]!=0,B_<KD::is_map>()); }
  void order(const S& y,int o,std::true_type){ const S& x=this->x; Q("x<y",x<y,o<0); Q("x>y",x>y,o>0); Q("x<=y",x<=y,o<=0); Q("x>=y",x>=y,o>=0); }
  void order(const S&,int,std::false_type){}
  void distinct(const S& y,bool w,std::true_type){ Q("is_distinct_equal(x,y)",icl::is_distinct_equal(x,y),w); }
  void distinct(const S&,bool,std::false_type){}
  template<class Y> void keysC(const Segs& t,const Ints& a,const char* kind){ Y y; build_set<K>(y,t,rep); const S& x=this->x; const char* save=st().kind; st().kind=kind;
    if(opt().only!="relate"){ part(y,a,B_<!KD::total>());
      Q("intersects(x,keys)",icl::intersects(x,y),a[1]!=0); Q("disjoint(x,keys)",icl::disjoint(x,y),a[1]==0); }
    if(opt().only!="contain"){ Q("inclusion_compare(x,keys)",icl::inclusion_compare(x,y),a[2]); Q("inclusion_compare(keys,x)",icl::inclusion_compare(y,x),a[2]==1?2:a[2]==2?1:a[2]); }
    st().kind=save; }
  template<class Y> void part(const Y& y,const Ints& a,std::true_type){ Q("contains(x,keys)",icl::contains(x,y),a[0]!=0); Q("within(keys,x)",icl::within(y,x),a[0]!=0); }
  template<class Y> void part(const Y&,const Ints&,std::false_type){}
  void keysAll(const Segs& t,const Ints& a,std::true_type){ keysC<typename K::SplitSet>(t,a,"keys:split"); keysC<typename K::SepSet>(t,a,"keys:separate"); if(!touching_equal(t)) keysC<typename K::JoinSet>(t,a,"keys:join"); }
  void keysAll(const Segs&,const Ints&,std::false_type){}

  bool relevant(const Case& cs){ if(join && touching_equal(cs.segs(2))) return false; return true; }
  void run(const Case& cs){ c=&cs; std::string q=cs.op(); state=cs.segs(2);
    if(!relevant(cs)) return;
    if(!built || seen!=cs.f[2]){ x=S(); KD::build(x,state,rep++); seen=cs.f[2]; built=true; st().variant="construct"; check(KD::proj(x),state); }
    const Ints& g=cs.n[1]; const Ints& a=cs.n[3]; typedef B_<KD::is_map> M;
    if(q.empty()){}
#ifdef ASK_SIZES
    else if(q=="un") un(a);
    else if(q=="keysJ") keysQ(true,cs.segs(3),M());
    else if(q=="keysS") keysQ(false,cs.segs(3),M());
    else if(q=="between") between(cs.segs(3),M());
    else if(q=="elements") elements(cs.segs(3),B_<K::discrete>());
#endif
#ifdef ASK_LOOKUP
    else if(q=="rng") rng(g[0],g[1],a);
    else if(q=="key") key(g[0],a,B_<K::discrete||K::dynamic||HasDiff<D>::value>());
    else if(q=="pair") pair(g[0],g[1],g[2],a,M());
#endif
#ifdef ASK_CONTAINERS
    else if(q=="cont"){ Segs t=segs_of(g); cont<typename KD::B>(t,a,"y:split"); if(!KD::is_map) cont<typename KD::C>(t,a,"y:separate"); if(!touching_equal(t)) cont<typename KD::A>(t,a,"y:join"); if(t==state) ask(x,t,a,"y:x itself"); }
    else if(q=="keys") keysAll(segs_of(g),a,M());
#endif
    else { printf("ERROR unknown question %s\n",q.c_str()); exit(2); }
    st().variant="container unchanged by queries"; check(KD::proj(x),state); }
};
template<class K,class T,class MV,class S> void ask_all(const char* kind,bool join){ st().codec=K::name(); st().kind=kind; Asker<K,T,MV,S> r; r.join=join; for_cases(opt().file,[&](const Case& c){ r.run(c); st().kind=kind; }); }
}
using namespace vf;
int main(int argc,char** argv){ parse_args(argc,argv);
#ifdef MAINV
  typedef boost::icl::MAINT Tr; opt().type=type_name<Tr,MAINV>("split");
  if(opt().mode=="join") ask_all<MAINK,Tr,MAINV,MAINV::of<MAINK,Tr>::JoinMap>("join",true);
  else ask_all<MAINK,Tr,MAINV,MAINV::of<MAINK,Tr>::SplitMap>("split",false);
#else
  opt().type="set";
  if(opt().mode=="join") ask_all<MAINK,SetTag,SetTag,MAINK::JoinSet>("join",true);
  else if(opt().mode=="sep") ask_all<MAINK,SetTag,SetTag,MAINK::SepSet>("separate",false);
  else ask_all<MAINK,SetTag,SetTag,MAINK::SplitSet>("split",false);
#endif
  report(); return 0; }
