// Replays the laws of Laws.tla: both sides of every equation are evaluated
// on the library's containers (named operands, temporaries, in place) and
// compared with the model's values and with each other.
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]   -mode join|sep|split|element
#include "anykind.hpp"
namespace vf {
using namespace boost::icl;
struct Term { char op; int l, r; };
struct Parser { std::vector<Term> t; 
  int parse(const char*& p){ while(*p!='"') ++p; char o=p[1]; p+=3; int me=int(t.size()); t.push_back(Term{o,-1,-1}); if(o=='+'||o=='-'||o=='&'||o=='^'){ int a=parse(p); int b=parse(p); t[me].l=a; t[me].r=b; } return me; } };
template<class W,class K> struct Runner { typedef typename W::S S; S v[3]; 
  // ways to evaluate: 0 named operands, 1 temporaries, 2 in place
  S eval(const Parser& e,int n,int way){ const Term& t=e.t[n];
    if(t.op>='a'&&t.op<='c') return v[t.op-'a']; if(t.op=='0') return S();
    if(way==1) return bin(t.op,eval(e,t.l,way),eval(e,t.r,way));
    S x=eval(e,t.l,way), y=eval(e,t.r,way);
    if(way==0) return bin(t.op,(const S&)x,(const S&)y);
    into(t.op,x,y); return x; }
  template<class A,class B> static S bin(char op,A&& a,B&& b){
    if(op=='+') return std::forward<A>(a)+std::forward<B>(b);
    if(op=='-'){ if constexpr(W::sub) return std::forward<A>(a)-std::forward<B>(b); else return S(); }
    if(op=='&') return std::forward<A>(a)&std::forward<B>(b); return std::forward<A>(a)^std::forward<B>(b); }
  static void into(char op,S& a,const S& b){ if(op=='+') a+=b; else if(op=='-'){ if constexpr(W::sub) a-=b; } else if(op=='&') a&=b; else a^=b; }
  static bool same(const std::string& eq,const S& x,const S& y){
    if(eq=="=d="){ if constexpr(W::map) return is_distinct_equal(x,y); else return x==y; }
    if(eq=="=e="){ if constexpr(!W::element) return is_element_equal(x,y); else return x==y; }
    return x==y && !(x!=y); }
  void run(const Case& cs){ std::string eq=cs.f[1]; Parser p[2]; for(int i=0;i<2;++i){ const char* q=cs.f[2+i].c_str(); p[i].parse(q); }
    Segs init[3], want[2]; for(int i=0;i<3;++i) init[i]=cs.segs(4+i); for(int i=0;i<2;++i) want[i]=cs.segs(7+i);
    for(int i=0;i<3;++i){ v[i]=S(); W::fill(v[i],init[i]); }
    static const char* names[]={"named operands","temporaries","in place"};
    for(int way=0; way<3; ++way){ st().variant=names[way]; S x=eval(p[0],0,way), y=eval(p[1],0,way);
      check(W::proj(x),want[0]); check(W::proj(y),want[1]); check(same(eq,x,y),true); check(same(eq,y,x),true); }
    st().variant="operands unchanged"; for(int i=0;i<3;++i) check(W::proj(v[i]),init[i]); }
};
}
using namespace vf;
template<class W,class K> static void go(const char* kind){ st().codec=K::name(); st().kind=kind; static Runner<W,K> r; for_cases(opt().file,[&](const Case& c){ r.run(c); }); report(); }
int main(int argc,char** argv){ parse_args(argc,argv); const std::string md=opt().mode; typedef MAINK K;
#ifdef MAINT
  typedef boost::icl::MAINT Tr; typedef MAINV::of<K,Tr> M; opt().type=type_name<Tr,MAINV>(md);
  if(md=="join") go<MapT<K,MAINV,M::JoinMap,M::JoinMap,false>,K>("interval_map"); else if(md=="split") go<MapT<K,MAINV,M::SplitMap,M::JoinMap,false>,K>("split_interval_map");
  else if constexpr(K::discrete) go<MapT<K,MAINV,M::ElemMap,M::ElemMap,true>,K>("element_map");
#else
  opt().type="set-"+md;
  if(md=="join") go<SetT<K,K::JoinSet,K::JoinSet,false>,K>("interval_set"); else if(md=="sep") go<SetT<K,K::SepSet,K::JoinSet,false>,K>("separate_interval_set"); else if(md=="split") go<SetT<K,K::SplitSet,K::JoinSet,false>,K>("split_interval_set");
  else if constexpr(K::discrete) go<SetT<K,K::ElemSet,K::ElemSet,true>,K>("element_set");
#endif
}
