// Replays Accumulate.tla: add_intersection(z,x,p) into sections that may
// already hold something, and its equivalent z += (x & p).
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]   -mode join|sep|split|element
//   -content  compare the content only
#include "mapval.hpp"
namespace vf {
using namespace boost::icl;
template<class K> struct SetK { static const bool is_map=false, total=false; template<class S> static Segs proj(const S& s){ return project_set<K>(s); } template<class S> static void build(S& s,const Segs& g,int rep=0){ build_set<K>(s,g,rep); } };
template<class K,class MV,bool Total> struct MapK { static const bool is_map=true, total=Total; template<class S> static Segs proj(const S& s){ return project_map<K,MV>(s); } template<class S> static void build(S& s,const Segs& g,int rep=0){ build_map<K,MV>(s,g,rep); } };
template<bool b> struct B_ : std::integral_constant<bool,b>{};
template<class K,class Kd,class S,class J,class P,class Q,class V> struct Runner {
  const Case* c; Segs x0, z0, want; std::string op; bool loose;
  void res(const S& z,const S& x){ Segs g=Kd::proj(z); if(opt().content||loose) check(content(g),content(want)); else check(g,want); if(!check(Kd::proj(x),x0)) return; }
  #define ACC(NAME,EXPR) do{ st().variant=NAME; S x, z; Kd::build(x,x0); Kd::build(z,z0,1); EXPR; res(z,x); }while(0)
  template<class O> void all(const O& o){
    ACC("add_intersection(z,x,p)",icl::add_intersection(z,x,o));
    ACC("y=x; y&=p; z+=y",S y(x); y&=o; z+=y); typedef std::is_same<decltype(std::declval<const S&>()&o),S> Same;
    // the section has the type of x, unless the operand has the finer segmentation: then it is combined as p & x
    if(Same::value || (opt().type.find("-cat-")==std::string::npos && opt().type.find("-keep-")==std::string::npos)) { ACC("z+=(x&p)",z+=(x&o)); ACC("z|=(x&p)",z|=(x&o)); }
    whole(o,Same()); }
  template<class O> void whole(const O& o,std::true_type){ ACC("z=z+(x&p)",z=z+(x&o)); ACC("z=(x&p)+z of temporaries",z=std::move(z)+(S(x)&o)); }
  template<class O> void whole(const O&,std::false_type){}
  template<class T> void cont(const Segs& t){ T y; Kd::build(y,t); all(y); st().variant="operand unchanged"; check(Kd::proj(y),t); }
  template<class T> void keys(const Segs& t){ T y; build_set<K>(y,t); all(y); st().variant="operand unchanged"; check(project_set<K>(y),t); }
  void pair(const Ints& a,std::true_type){ typedef typename S::segment_type Seg_; typedef typename S::element_type El; for(auto& r: reps<K>(a[0],a[1])){ Seg_ p(r,V::make(a[2])); ACC("x.add_intersection(z,P)",x.add_intersection(z,p)); all(p); }
    elem<El>(a,B_<K::discrete||K::dynamic>()); }
  void pair(const Ints&,std::false_type){}
  template<class El> void elem(const Ints& a,std::true_type){ if(a[0]==a[1] && K::is_point(a[0])) all(El(K::point(a[0]),V::make(a[2]))); }
  template<class El> void elem(const Ints&,std::false_type){}
  void key(int a,std::true_type){ if(K::is_point(a)) all(K::point(a)); }
  void key(int,std::false_type){}
  void keysAll(const Segs& t,std::true_type){ keys<typename K::SplitSet>(t); keys<typename K::SepSet>(t); if(!touching_equal(t)) keys<typename K::JoinSet>(t); }
  void keysAll(const Segs&,std::false_type){}
  void run(const Case& cs){ c=&cs; op=cs.op(); const Ints& a=cs.n[1]; x0=cs.segs(2); z0=cs.segs(3); want=cs.segs(4);
    // on total maps the intersection is the sum, added piece by piece: borders of annihilating parts stay
    loose= Kd::total && (op=="pair"||op=="cont");
    if(op=="rng"){ for(auto& r: reps<K>(a[0],a[1])) all(r); if(a[0]==a[1]) key(a[0],B_<K::discrete||K::dynamic>()); }
    else if(op=="pair") pair(a,B_<Kd::is_map>());
    else if(op=="cont"){ Segs t=segs_of(a); cont<P>(t); if(!touching_equal(t)) cont<J>(t); other(t,B_<Kd::is_map>()); }
    else if(op=="keys") keysAll(segs_of(a),B_<Kd::is_map>());
    else { printf("ERROR unknown operation %s\n",op.c_str()); exit(2); } }
  void other(const Segs& t,std::false_type){ cont<Q>(t); }
  void other(const Segs&,std::true_type){}
};
// element containers
template<class K,class EM,class Make> struct Elems { Segs x0,z0; Ints want; 
  void res(const EM& z,const EM& x){ check(content(Make::proj(z)),want); check(content(Make::proj(x)),content(x0)); }
  #define EACC(NAME,EXPR) do{ st().variant=NAME; EM x, z; Make::build(x,x0); Make::build(z,z0); EXPR; res(z,x); }while(0)
  template<class O> void all(const O& o){ EACC("add_intersection(z,x,p)",icl::add_intersection(z,x,o)); EACC("z+=(x&p)",z+=(x&o)); EACC("y=x; y&=p; z|=y",EM y(x); y&=o; z|=y); }
  void run(const Case& cs){ std::string op=cs.op(); const Ints& a=cs.n[1]; x0=cs.segs(2); z0=cs.segs(3); want=content(cs.segs(4));
    if(op=="rng"){ if(a[0]==a[1]) all(K::point(a[0])); }
    else if(op=="pair"){ if(a[0]==a[1]) Make::pair(*this,a); }
    else if(op=="cont"){ EM y; Make::build(y,segs_of(a)); if(Make::total){ EACC("z+=(x&y)",z+=(x&y)); } else all(y); }
    else if(op=="keys"){ typename K::ElemSet y; for(auto& g: segs_of(a)) for(int i=g.lo;i<=g.hi;++i) y.insert(K::point(i)); Make::keys(*this,y); } } };
template<class K,class MV,class EM,bool Total> struct MapMake { static const bool total=Total; typedef typename EM::element_type E;
  static void build(EM& x,const Segs& s){ for(auto& g: s) for(int i=g.lo;i<=g.hi;++i) x.add(E(K::point(i),MV::make(g.v))); }
  static Segs proj(const EM& x){ Segs r; for(auto& e: x){ int a=K::decode_point(e.first); r.push_back(Seg{a,a,MV::num(e.second)}); } return r; }
  template<class R> static void pair(R& r,const Ints& a){ E e(K::point(a[0]),MV::make(a[2])); r.all(e); }
  template<class R,class Y> static void keys(R& r,const Y& y){ r.all(y); } };
template<class K,class ES> struct SetMake { static const bool total=false; static void build(ES& x,const Segs& s){ for(auto& g: s) for(int i=g.lo;i<=g.hi;++i) x.insert(K::point(i)); }
  static Segs proj(const ES& x){ Segs r; for(auto& e: x){ int a=K::decode_point(e); r.push_back(Seg{a,a,1}); } return r; }
  template<class R> static void pair(R&,const Ints&){} template<class R,class Y> static void keys(R&,const Y&){} };
template<class R> static void go(const char* codec,const char* kind){ st().codec=codec; st().kind=kind; R r; for_cases(opt().file,[&](const Case& c){ r.run(c); }); }
}
using namespace vf;
typedef MAINK K;
#ifdef MAINT
typedef boost::icl::MAINT Tr; typedef MAINV MV; typedef MV::of<K,Tr> Types; typedef MapK<K,MV,Tr::is_total> Kd;
template<bool> struct El { static void run(){} };
template<> struct El<true> { template<class X=Types> static void run(){ typedef typename X::ElemMap EM; go<Elems<K,EM,MapMake<K,MV,EM,Tr::is_total> > >(K::name(),"element_map"); } };
int main(int argc,char** argv){ parse_args(argc,argv); opt().type=type_name<Tr,MV>(opt().mode=="element"? "join": opt().mode);
  if(opt().mode=="join") go<Runner<K,Kd,Types::JoinMap,Types::JoinMap,Types::SplitMap,Types::SplitMap,MV> >(K::name(),"join");
  else if(opt().mode=="split") go<Runner<K,Kd,Types::SplitMap,Types::JoinMap,Types::SplitMap,Types::SplitMap,MV> >(K::name(),"split");
  else El<K::pointwise>::run();
  report(); }
#else
template<bool> struct El { static void run(){} };
template<> struct El<true> { template<class X=K> static void run(){ typedef typename X::ElemSet ES; go<Elems<K,ES,SetMake<K,ES> > >(K::name(),"element_set"); } };
int main(int argc,char** argv){ parse_args(argc,argv); opt().type="set-"+(opt().mode=="element"? std::string("join"): opt().mode);
  typedef SetK<K> Kd;
  if(opt().mode=="join") go<Runner<K,Kd,K::JoinSet,K::JoinSet,K::SplitSet,K::SepSet,int> >(K::name(),"join");
  else if(opt().mode=="sep") go<Runner<K,Kd,K::SepSet,K::JoinSet,K::SplitSet,K::SepSet,int> >(K::name(),"sep");
  else if(opt().mode=="split") go<Runner<K,Kd,K::SplitSet,K::JoinSet,K::SplitSet,K::SepSet,int> >(K::name(),"split");
  else El<K::pointwise>::run();
  report(); }
#endif
