// Replays the steps and answers of ElementContainers.tla with the element
// containers: icl::map and std::set.
//   -DMAINK=<discrete codec> [-DMAINT=<traits> -DMAINV=<value codec>]
#include "mapval.hpp"
namespace vf {
using namespace boost::icl;
template<class S> static void copyto(const Segs& g,S f){ for(auto& s: g) for(int a=s.lo;a<=s.hi;++a) f(a,s.v); }
#define ON(NAME,...) do{ st().variant=NAME; S x(pre); { __VA_ARGS__; } same(x); }while(0)
#define RES(NAME,...) do{ st().variant=NAME; S x(pre); same(__VA_ARGS__); check(proj(x),before); }while(0)
#define SEC(NAME,...) do{ st().variant=NAME; S x(pre), sec; { __VA_ARGS__; } same(sec); check(proj(x),before); }while(0)
#define Q(NAME,GOT,WANT) do{ st().variant=NAME; check((GOT),(WANT)); }while(0)
template<bool b> struct B_ : std::integral_constant<bool,b>{};

template<class K,class T,class MV> struct MapRunner {
  typedef typename K::domain D; typedef typename MV::type V; typedef typename MV::template of<K,T>::ElemMap S; typedef typename S::element_type E; typedef typename S::set_type KS;
  Segs before, want; S pre;
  static Segs proj(const S& x){ Segs r; for(typename S::const_iterator i=x.begin();i!=x.end();++i){ int a=K::decode_point(i->first); r.push_back(Seg{a,a,MV::num(i->second)}); } return r; }
  void same(const S& x){ check(proj(x),want); }
  static S make(const Segs& g){ S x; copyto(g,[&](int a,int v){ x.insert(E(K::point(a),MV::make(v))); }); return x; }
  static KS keys(const Segs& g){ KS x; copyto(g,[&](int a,int){ x.insert(K::point(a)); }); return x; }
  void sub(const E& e,std::true_type){ ON("x.subtract(e)",x.subtract(e)); ON("subtract(x,e)",icl::subtract(x,e)); ON("x-=e",x-=e); RES("x-e",x-e); }
  void sub(const E&,std::false_type){}
  void subC(const S& y,std::true_type){ ON("x-=y",x-=y); RES("x-y",x-y); }
  void subC(const S&,std::false_type){}
  void pairs(const std::string& op,const E& e){
    if(op=="add"){ ON("x.add(e)",x.add(e)); ON("add(x,e)",icl::add(x,e)); ON("x+=e",x+=e); ON("x|=e",x|=e); RES("x+e",x+e); RES("e+x",e+x); RES("x|e",x|e); RES("e|x",e|x); }
    else if(op=="sub") sub(e,B_<MV::sub>());
    else if(op=="ins"){ ON("x.insert(e)",x.insert(e)); ON("insert(x,e)",icl::insert(x,e)); }
    else if(op=="era"){ ON("x.erase(e)",x.erase(e)); ON("erase(x,e)",icl::erase(x,e));
      st().variant="count of x.erase(e)"; S x(pre); check(int(x.erase(e)),int(before.size()-want.size())); }
    else if(op=="set"){ ON("x.set(e)",x.set(e)); ON("set_at(x,e)",icl::set_at(x,e)); }
    else if(op=="and"){ ON("x&=e",x&=e); RES("x&e",x&e); RES("e&x",e&x); SEC("add_intersection(sec,x,e)",icl::add_intersection(sec,x,e)); SEC("x.add_intersection(sec,e)",x.add_intersection(sec,e)); }
    else { ON("x.flip(e)",x.flip(e)); ON("flip(x,e)",icl::flip(x,e)); ON("x^=e",x^=e); RES("x^e",x^e); RES("e^x",e^x); } }
  void key(const std::string& op,const D& d){
    if(op=="eraK"){ ON("x.erase(k)",x.erase(d)); ON("erase(x,k)",icl::erase(x,d)); ON("x.subtract(k)",x.subtract(d)); ON("subtract(x,k)",icl::subtract(x,d)); }
    else { ON("x&=k",x&=d); RES("x&k",x&d); RES("k&x",d&x); SEC("add_intersection(sec,x,k)",icl::add_intersection(sec,x,d)); } }
  void cont(const std::string& op,const Segs& ts){ const S y=make(ts); bool com=commutes(MV::comb()); S yy(y);
    if(op=="addC"){ ON("x+=y",x+=y); ON("x|=y",x|=y); RES("x+y",x+y); RES("x|y",x|y); if(com){ RES("y+x",y+x); RES("y|x",y|x); } ON("move(x)+y",x=std::move(x)+y); }
    else if(op=="subC") subC(y,B_<MV::sub>());
    else if(op=="insC"){ ON("insert(x,y)",icl::insert(x,y)); ON("x.insert(first,last)",x.insert(y.begin(),y.end())); }
    else if(op=="eraC"){ ON("erase(x,y)",icl::erase(x,y)); }
    else if(op=="andC"){ ON("x&=y",x&=y); RES("x&y",x&y); if(com) RES("y&x",y&x); if(!T::is_total) SEC("add_intersection(sec,x,y)",icl::add_intersection(sec,x,y)); }
    else { ON("x^=y",x^=y); RES("x^y",x^y); if(com) RES("y^x",y^x); }
    st().variant="operand unchanged"; check(proj(y),ts); }
  void keyset(const std::string& op,const Segs& ts){ const KS y=keys(ts);
    if(op=="eraKC"){ ON("x-=keys",x-=y); RES("x-keys",x-y); ON("erase(x,keys)",icl::erase(x,y)); }
    else { ON("x&=keys",x&=y); RES("x&keys",x&y); RES("keys&x",y&x); SEC("add_intersection(sec,x,keys)",icl::add_intersection(sec,x,y)); } }
  void order(const S& x,const S& y,int o,std::true_type){ Q("x<y",x<y,o<0); Q("x>y",x>y,o>0); Q("x<=y",x<=y,o<=0); Q("x>=y",x>=y,o>=0); }
  void order(const S&,const S&,int,std::false_type){}
  // element maps compare values that are sets (or bit sets) as wholes: only plain numbers are judged
  void inclusion(const S& x,const S& y,const Ints& a,std::true_type){ Q("contains(x,y)",icl::contains(x,y),a[0]!=0); Q("within(y,x)",icl::within(y,x),a[0]!=0); Q("x.contains(y)",x.contains(y),a[0]!=0); Q("y.within(x)",y.within(x),a[0]!=0);
    if(a[1]>=0){ Q("intersects(x,y)",icl::intersects(x,y),a[1]!=0); Q("disjoint(x,y)",icl::disjoint(x,y),a[1]==0); } Q("inclusion_compare(x,y)",icl::inclusion_compare(x,y),a[2]); }
  void inclusion(const S&,const S&,const Ints&,std::false_type){}
  void ask(const std::string& q,const Case& cs){ const Ints& g=cs.n[1]; const Ints& a=cs.n[3]; const S& x=pre;
    if(q=="un"){ Q("size",int(icl::size(x)),a[0]); Q("x.size",int(x.size()),a[0]); Q("cardinality",int(icl::cardinality(x)),a[0]); Q("iterative_size",int(icl::iterative_size(x)),a[0]); Q("x.iterative_size",int(x.iterative_size()),a[0]);
      Q("is_empty",icl::is_empty(x),a[0]==0); Q("x.empty",x.empty(),a[0]==0); { S y(x); icl::clear(y); Q("clear",icl::is_empty(y),true); S z(x); z.clear(); Q("x.clear",z.empty(),true); }
      { S y(x), z; icl::swap(y,z); Q("swap",proj(z),before); Q("swap",y.empty(),true); y.swap(z); Q("x.swap",proj(y),before); } }
    else if(q=="key"){ const D d=K::point(g[0]); bool in=a[0]!=0; Q("contains(x,k)",icl::contains(x,d),in); Q("within(k,x)",icl::within(d,x),in); Q("x.contains(k)",x.contains(d),in);
      if(!T::is_total) Q("intersects(x,k)",icl::intersects(x,d),in); if(!T::is_total) Q("disjoint(x,k)",icl::disjoint(x,d),!in);
      Q("x.find(k)",int(std::distance(x.begin(),x.find(d)))+1, in? a[1]: int(x.size())+1); Q("x.count(k)",int(x.count(d)),int(in)); Q("x(k)",MV::num(x(d)),a[2]); }
    else if(q=="pair"){ const E e(K::point(g[0]),MV::make(g[2])); Q("contains(x,e)",icl::contains(x,e),a[0]!=0); Q("within(e,x)",icl::within(e,x),a[0]!=0); Q("x.contains(e)",x.contains(e),a[0]!=0);
      if(!T::is_total) Q("intersects(x,e)",icl::intersects(x,e),a[1]!=0); }
    else if(q=="cont"){ Segs ts=segs_of(g); const S y=make(ts); bool eq=a[3]==0;
      inclusion(x,y,a,B_<std::is_signed<V>::value>());
      Q("x==y",x==y,eq); Q("x!=y",x!=y,!eq); Q("is_element_equal(x,y)",icl::is_element_equal(x,y),eq); Q("is_distinct_equal(x,y)",icl::is_distinct_equal(x,y),a[5]!=0);
      order(x,y,a[3],B_<K::ascending&&std::is_arithmetic<V>::value>()); }
    else if(q=="keys"){ const KS y=keys(segs_of(g)); Q("contains(x,keys)",icl::contains(x,y),a[0]!=0); Q("within(keys,x)",icl::within(y,x),a[0]!=0); if(!T::is_total){ Q("intersects(x,keys)",icl::intersects(x,y),a[1]!=0); Q("disjoint(x,keys)",icl::disjoint(x,y),a[1]==0); }
      Q("inclusion_compare(x,keys)",icl::inclusion_compare(x,y),a[2]); }
    else if(q=="domain"){ KS d; icl::domain(d,x); Segs r; for(auto& e: d){ int n=K::decode_point(e); r.push_back(Seg{n,n,1}); } Q("domain",r,cs.segs(3)); }
    else if(q=="absorb"){ S y(x); icl::absorb_identities(y); Q("absorb_identities",proj(y),cs.segs(3)); }
    else { printf("ERROR unknown question %s\n",q.c_str()); exit(2); }
    Q("unchanged by queries",proj(x),before); }
  void run(const Case& cs){ std::string op=cs.op(); before=cs.segs(2); pre=make(before); st().variant="construct"; if(!check(proj(pre),before)) return; const Ints& a=cs.n[1];
    static const std::set<std::string> P={"add","sub","ins","era","set","and","flip"}, QS={"un","key","pair","cont","keys","domain","absorb"};
    if(QS.count(op)){ ask(op,cs); return; }
    want=cs.segs(3);
    if(P.count(op)) pairs(op,E(K::point(a[0]),MV::make(a[2]))); else if(op=="eraK"||op=="andK") key(op,K::point(a[0])); else if(op=="eraKC"||op=="andKC") keyset(op,segs_of(a)); else cont(op,segs_of(a)); }
};
template<class K> struct SetRunner { typedef typename K::domain D; typedef typename K::ElemSet S; Segs before, want; S pre;
  static Segs proj(const S& x){ Segs r; for(typename S::const_iterator i=x.begin();i!=x.end();++i){ int a=K::decode_point(*i); r.push_back(Seg{a,a,1}); } return r; }
  void same(const S& x){ check(proj(x),want); }
  static S make(const Segs& g){ S x; copyto(g,[&](int a,int){ x.insert(K::point(a)); }); return x; }
  void run(const Case& cs){ std::string op=cs.op(); before=cs.segs(2); pre=make(before); const Ints& a=cs.n[1]; const S& x=pre;
    if(op=="un"){ const Ints& w=cs.n[3]; Q("size",int(icl::size(x)),w[0]); Q("cardinality",int(icl::cardinality(x)),w[0]); Q("iterative_size",int(icl::iterative_size(x)),w[0]); Q("is_empty",icl::is_empty(x),w[0]==0); S y(x); icl::clear(y); Q("clear",y.empty(),true); S z(x), v; icl::swap(z,v); Q("swap",proj(v),before); return; }
    if(op=="key"){ const Ints& w=cs.n[3]; const D d=K::point(a[0]); bool in=w[0]!=0; Q("contains(x,k)",icl::contains(x,d),in); Q("within(k,x)",icl::within(d,x),in); Q("intersects(x,k)",icl::intersects(x,d),in); return; }
    if(op=="cont"){ const Ints& w=cs.n[3]; const S y=make(segs_of(a)); Q("contains(x,y)",icl::contains(x,y),w[0]!=0); Q("within(y,x)",icl::within(y,x),w[0]!=0); Q("intersects(x,y)",icl::intersects(x,y),w[1]!=0); Q("disjoint(x,y)",icl::disjoint(x,y),w[1]==0);
      Q("inclusion_compare(x,y)",icl::inclusion_compare(x,y),w[2]); Q("is_element_equal(x,y)",icl::is_element_equal(x,y),w[3]==0); return; }
    want=cs.segs(3);
    if(op[op.size()-1]!='C'){ const D d=K::point(a[0]);
      if(op=="add"){ ON("add(x,k)",icl::add(x,d)); ON("insert(x,k)",icl::insert(x,d)); ON("x+=k",x+=d); ON("x|=k",x|=d); RES("x+k",x+d); RES("k+x",d+x); RES("x|k",x|d); RES("k|x",d|x); }
      else if(op=="sub"){ ON("subtract(x,k)",icl::subtract(x,d)); ON("erase(x,k)",icl::erase(x,d)); ON("x-=k",x-=d); RES("x-k",x-d); }
      else if(op=="and"){ ON("x&=k",x&=d); RES("x&k",x&d); RES("k&x",d&x); SEC("add_intersection(sec,x,k)",icl::add_intersection(sec,x,d)); }
      else { ON("flip(x,k)",icl::flip(x,d)); ON("x^=k",x^=d); RES("x^k",x^d); RES("k^x",d^x); } }
    else { const S y=make(segs_of(a));
      if(op=="addC"){ ON("x+=y",x+=y); ON("x|=y",x|=y); RES("x+y",x+y); RES("y+x",y+x); RES("x|y",x|y); ON("insert(x,y)",icl::insert(x,y)); }
      else if(op=="subC"){ ON("x-=y",x-=y); RES("x-y",x-y); ON("erase(x,y)",icl::erase(x,y)); }
      else if(op=="andC"){ ON("x&=y",x&=y); RES("x&y",x&y); RES("y&x",y&x); SEC("add_intersection(sec,x,y)",icl::add_intersection(sec,x,y)); }
      else { ON("x^=y",x^=y); RES("x^y",x^y); RES("y^x",y^x); }
      st().variant="operand unchanged"; check(proj(y),segs_of(a)); } }
};
}
using namespace vf;
template<class R> static void go(const char* kind){ st().codec=MAINK::name(); st().kind=kind; R r; for_cases(opt().file,[&](const Case& c){ r.run(c); }); report(); }
int main(int argc,char** argv){ parse_args(argc,argv);
#ifdef MAINT
  typedef boost::icl::MAINT Tr; opt().type=type_name<Tr,MAINV>("join"); go<MapRunner<MAINK,Tr,MAINV> >("element_map");
#else
  opt().type="set"; go<SetRunner<MAINK> >("element_set");
#endif
}
