// Replays the scripts of Hints.tla: pieces added or inserted with a hint, from
// every initial position, each returned position serving as the next hint, and
// through the add and insert iterators.
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]   -mode join|sep|split
#include "mapval.hpp"
#include <boost/icl/iterator.hpp>
namespace vf {
template<class K> struct SetKind { template<class S> static Segs proj(const S& s){ return project_set<K>(s); } template<class S> static void build(S& s,const Segs& g){ build_set<K>(s,g); }
  template<class S> static typename K::interval piece(const Seg& g,int rep){ return K::make(g.lo,g.hi,rep%K::nreps(g.lo,g.hi)); }
  template<class P> static bool empty(const P& p){ return icl::is_empty(p); } };
template<class K,class MV> struct MapKind { template<class S> static Segs proj(const S& s){ return project_map<K,MV>(s); } template<class S> static void build(S& s,const Segs& g){ build_map<K,MV>(s,g); }
  template<class S> static typename S::segment_type piece(const Seg& g,int rep){ return typename S::segment_type(K::make(g.lo,g.hi,rep%K::nreps(g.lo,g.hi)),MV::make(g.v)); }
  template<class P> static bool empty(const P& p){ return icl::is_empty(p.first); } };
// a position of the container, found by walking
template<class S> static bool inside(S& s,typename S::iterator it){ for(typename S::iterator i=s.begin();i!=s.end();++i) if(i==it) return true; return it==s.end(); }
template<class Kind,class S> struct Runner {
  typedef typename S::segment_type P; typedef typename S::iterator It; const Case* c;
  Segs sc, pre; std::vector<Segs> post; bool ins;
  It at(S& s,int k){ It i=s.begin(); std::advance(i,k); return i; }
  It put(S& x,It h,const P& p,int how){ return !ins? how==0? x.add(h,p): how==1? icl::add(x,h,p): icl_insert_as_add(x,h,p) : x.insert(h,p); }
  It icl_insert_as_add(S& x,It h,const P& p){ return x.add(h,p); }
  void same(const S& x,size_t i){ check(Kind::proj(x),post[i]); }
  void run(const Case& cs){ c=&cs; ins=cs.op()=="ins"; sc=cs.segs(1); pre=cs.segs(2); post.clear(); for(size_t i=0;i<sc.size();++i) post.push_back(cs.segs(3+int(i)));
    S base; Kind::build(base,pre); st().variant="construct"; if(!check(Kind::proj(base),pre)) return;
    std::vector<P> ps; for(size_t i=0;i<sc.size();++i) ps.push_back(Kind::template piece<S>(sc[i],int(i)));
    { st().variant="without hint"; S x(base); for(size_t i=0;i<ps.size();++i){ if(ins) x.insert(ps[i]); else x.add(ps[i]); same(x,i); } }
    const int n=int(base.iterative_size());
    for(int h=0;h<=n;++h){
      for(int how=0;how<(ins?1:2);++how){ S x(base); It it=at(x,h); st().variant= how? "icl::add(x,hint,p)" : ins? "x.insert(hint,p)":"x.add(hint,p)"; bool fine=true;
        for(size_t i=0;i<ps.size() && fine;++i){ it=put(x,it,ps[i],how); same(x,i); fine=check(inside(x,it),true); } }
      // the second step from every position
      if(ps.size()==2){ S y(base); st().variant="every hint of the second step"; put(y,at(y,h),ps[0],0); int k=int(y.iterative_size());
        for(int j=0;j<=k;++j){ S x(y); put(x,at(x,j),ps[1],0); same(x,1); } }
      { S x(base); st().variant="icl::inserter"; bulk_insert(x,h,ps); }
      if(!ins){ S x(base); st().variant="icl::adder"; std::copy(ps.begin(),ps.end(),icl::adder(x,at(x,h))); same(x,ps.size()-1); }
      else { S x(base); st().variant="icl::inserter(*it++)"; icl::insert_iterator<S> o=icl::inserter(x,at(x,h)); for(size_t i=0;i<ps.size();++i) *o++ = ps[i]; same(x,ps.size()-1); } } 
    { S x(base); st().variant="x.insert(hint,p) for sets"; insert_set(x,ps,std::integral_constant<bool,icl::is_interval_set<S>::value>()); } }
  void bulk_insert(S& x,int h,const std::vector<P>& ps){ if(ins||icl::is_interval_set<S>::value){ std::copy(ps.begin(),ps.end(),icl::inserter(x,at(x,h))); same(x,ps.size()-1); } }
  void insert_set(S& x,const std::vector<P>& ps,std::true_type){ It it=x.end(); for(size_t i=0;i<ps.size();++i){ it=x.insert(it,ps[i]); same(x,i); check(inside(x,it),true); } }
  void insert_set(S&,const std::vector<P>&,std::false_type){}
};
// element containers: pieces of one atom
template<class K,class EM,class Make> struct Elems { typedef typename EM::iterator It; typedef typename EM::value_type P;
  bool ins; Segs sc, pre; std::vector<Ints> post;
  void same(const EM& x,size_t i){ check(content(Make::proj(x)),post[i]); }
  bool inside(EM& x,It it){ for(It i=x.begin();i!=x.end();++i) if(i==it) return true; return it==x.end(); }
  It at(EM& s,int k){ It i=s.begin(); std::advance(i,k); return i; }
  void run(const Case& cs){ sc=cs.segs(1); for(auto& g: sc) if(g.lo!=g.hi) return; ins=cs.op()=="ins"; pre=cs.segs(2); post.clear(); for(size_t i=0;i<sc.size();++i) post.push_back(content(cs.segs(3+int(i))));
    EM base; for(auto& g: pre) for(int a=g.lo;a<=g.hi;++a) base.insert(Make::elem(a,g.v)); st().variant="construct"; if(!check(content(Make::proj(base)),content(pre))) return;
    std::vector<P> ps; for(auto& g: sc) ps.push_back(Make::elem(g.lo,g.v));
    { st().variant="without hint"; EM x(base); for(size_t i=0;i<ps.size();++i){ if(ins) icl::insert(x,ps[i]); else icl::add(x,ps[i]); same(x,i); } }
    for(int h=0;h<=int(base.size());++h){
      if(!ins){ { EM x(base); It it=at(x,h); st().variant="icl::add(x,hint,e)"; for(size_t i=0;i<ps.size();++i){ it=icl::add(x,it,ps[i]); same(x,i); if(!check(inside(x,it),true)) break; } }
        { EM x(base); st().variant="icl::adder"; std::copy(ps.begin(),ps.end(),icl::adder(x,at(x,h))); same(x,ps.size()-1); } Make::add(*this,base,h,ps); }
      if(ins||Make::isset){ { EM x(base); It it=at(x,h); st().variant="x.insert(hint,e)"; for(size_t i=0;i<ps.size();++i){ it=x.insert(it,ps[i]); same(x,i); if(!check(inside(x,it),true)) break; } }
        { EM x(base); st().variant="icl::insert(x,hint,e)"; It it=at(x,h); for(size_t i=0;i<ps.size();++i){ it=icl::insert(x,it,ps[i]); same(x,i); if(!check(inside(x,it),true)) break; } }
        { EM x(base); st().variant="icl::inserter"; std::copy(ps.begin(),ps.end(),icl::inserter(x,at(x,h))); same(x,ps.size()-1); } } }
    if(ins||Make::isset){ { EM x(base); st().variant="x.insert(first,last)"; x.insert(ps.begin(),ps.end()); same(x,ps.size()-1); }
      if(pre.empty()){ st().variant="construction from an iterator range"; EM x(ps.begin(),ps.end()); same(x,ps.size()-1); EM y(ps.begin(),ps.end(),typename EM::key_compare()); same(y,ps.size()-1); }
      if(pre.empty()&&ps.size()>0){ Make::single(*this,ps); } } }
};
template<class K,class MV,class EM> struct MapMake { static const bool isset=false; typedef typename EM::value_type P; static P elem(int a,int v){ return P(K::point(a),MV::make(v)); }
  static Segs proj(const EM& x){ Segs r; for(auto& e: x){ int a=K::decode_point(e.first); r.push_back(Seg{a,a,MV::num(e.second)}); } return r; }
  template<class R> static void add(R& r,const EM& base,int h,const std::vector<P>& ps){ EM x(base); typename EM::iterator it=r.at(x,h); st().variant="x.add(hint,e)"; for(size_t i=0;i<ps.size();++i){ it=x.add(it,ps[i]); r.same(x,i); if(!check(r.inside(x,it),true)) break; } }
  template<class R> static void single(R& r,const std::vector<P>& ps){ st().variant="construction from an element"; EM x(ps[0]); r.same(x,0); } };
template<class K,class ES> struct SetMake { static const bool isset=true; typedef typename ES::value_type P; static P elem(int a,int){ return K::point(a); }
  static Segs proj(const ES& x){ Segs r; for(auto& e: x){ int a=K::decode_point(e); r.push_back(Seg{a,a,1}); } return r; }
  template<class R> static void add(R&,const ES&,int,const std::vector<P>&){} template<class R> static void single(R&,const std::vector<P>&){} };
template<class R> static void go(const char* codec,const char* kind){ st().codec=codec; st().kind=kind; R r; for_cases(opt().file,[&](const Case& c){ st().kind=kind; r.run(c); }); }
}
using namespace vf;
typedef MAINK K;
#ifdef MAINT
typedef boost::icl::MAINT Tr; typedef MAINV MV; typedef MV::of<K,Tr> Types;
template<bool> struct Elem { static void run(){} };
template<> struct Elem<true> { template<class X=Types> static void run(){ typedef typename X::ElemMap EM; go<Elems<K,EM,MapMake<K,MV,EM> > >(K::name(),"element_map"); } };
int main(int argc,char** argv){ parse_args(argc,argv); opt().type=type_name<Tr,MV>(opt().mode=="element"? "join": opt().mode);
  if(opt().mode=="join") go<Runner<MapKind<K,MV>,Types::JoinMap> >(K::name(),"join");
  else if(opt().mode=="split") go<Runner<MapKind<K,MV>,Types::SplitMap> >(K::name(),"split");
  else Elem<K::pointwise>::run();
  report(); }
#else
template<bool> struct Elem { static void run(){} };
template<> struct Elem<true> { template<class X=K> static void run(){ typedef typename X::ElemSet ES; go<Elems<K,ES,SetMake<K,ES> > >(K::name(),"element_set"); } };
int main(int argc,char** argv){ parse_args(argc,argv); opt().type="set-"+(opt().mode=="element"? std::string("join"): opt().mode);
  if(opt().mode=="join") go<Runner<SetKind<K>,K::JoinSet> >(K::name(),"join");
  else if(opt().mode=="sep") go<Runner<SetKind<K>,K::SepSet> >(K::name(),"sep");
  else if(opt().mode=="split") go<Runner<SetKind<K>,K::SplitSet> >(K::name(),"split");
  else Elem<K::pointwise>::run();
  report(); }
#endif
