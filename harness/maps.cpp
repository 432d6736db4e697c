// Replays transitions of the interval-map specification (IntervalMaps.tla)
// through every spelling of each operation.
//   -DMAINK=<codec> -DMAINT=<traits> -DMAINV=<value codec>     -mode join|split
#include "mapval.hpp"
namespace vf {
template<class K,class T,class MV,class S> struct Runner {
  typedef typename K::interval I; typedef typename K::domain D; typedef typename MV::type V; typedef typename S::segment_type P; typedef typename S::element_type E;
  typedef typename MV::template of<K,T> Types;
  const Case* c; S pre; Segs want; Ints cwant;
  template<class X> Segs proj(const X& x){ return project_map<K,MV>(x); }
  template<class X> bool ok(const X& x){ if(opt().content) return check(content(proj(x)),cwant); return check(proj(x),want); }
#define ON(NAME,...) do{ st().variant=NAME; S x(pre); { __VA_ARGS__; } ok(x); }while(0)
#define RES(NAME,...) do{ st().variant=NAME; S x(pre); ok(__VA_ARGS__); check(proj(x),c->segs(2)); }while(0)
#define TMP(NAME,...) do{ st().variant=NAME; S x(pre); ok(__VA_ARGS__); }while(0)
  template<class X> void subv(std::integral_constant<bool,false>,const X&,bool){}
  void sub_pair(const P& r,std::true_type){
    ON("x.subtract(P)", x.subtract(r)); ON("x-=P", x-=r); ON("subtract(x,P)", icl::subtract(x,r)); RES("x-P", x-r); TMP("move(x)-P", std::move(x)-r); }
  void sub_pair(const P&,std::false_type){}
  void sub_elem(const E& r,std::true_type){ ON("x.subtract(e)", x.subtract(r)); ON("x-=e", x-=r); ON("subtract(x,e)", icl::subtract(x,r)); RES("x-e", x-r); }
  void sub_elem(const E&,std::false_type){}
  void pair(const std::string& op,int lo,int hi,int v){
    typedef std::integral_constant<bool,MV::sub> CanSub;
    std::vector<I> rs=reps<K>(lo,hi); V val=MV::make(v);
    for(size_t k=0;k<rs.size();++k){ const P r(rs[k],val); const P keep(r);
      if(op=="add"){
        ON("x.add(P)", x.add(r)); ON("x+=P", x+=r); ON("x|=P", x|=r); ON("add(x,P)", icl::add(x,r));
        RES("x+P", x+r); RES("P+x", r+x); RES("x|P", x|r); RES("P|x", r|x);
        TMP("move(x)+P", std::move(x)+r); TMP("P+move(x)", r+std::move(x)); TMP("move(x)|P", std::move(x)|r); TMP("P|move(x)", r|std::move(x));
      } else if(op=="sub") sub_pair(r,CanSub());
      else if(op=="ins"){ ON("x.insert(P)", x.insert(r)); ON("insert(x,P)", icl::insert(x,r)); }
      else if(op=="era"){ ON("x.erase(P)", x.erase(r)); ON("erase(x,P)", icl::erase(x,r)); }
      else if(op=="set"){ ON("x.set(P)", x.set(r)); ON("set_at(x,P)", icl::set_at(x,r)); }
      else if(op=="and"){
        ON("x&=P", x&=r); RES("x&P", x&r); RES("P&x", r&x); TMP("move(x)&P", std::move(x)&r); TMP("P&move(x)", r&std::move(x));
        st().variant="x.add_intersection(sec,P)"; { S x(pre), sec; x.add_intersection(sec,r); ok(sec); check(proj(x),c->segs(2)); }
        st().variant="add_intersection(sec,x,P)"; { S x(pre), sec; icl::add_intersection(sec,x,r); ok(sec); }
      } else if(op=="flip"){
        ON("x.flip(P)", x.flip(r)); ON("x^=P", x^=r); ON("flip(x,P)", icl::flip(x,r)); RES("x^P", x^r); RES("P^x", r^x); TMP("move(x)^P", std::move(x)^r); TMP("P^move(x)", r^std::move(x)); }
      st().variant="operand pair unchanged"; check(r==keep,true); }
    if(lo==hi && K::is_point(lo)) elem(op,K::point(lo),val,std::integral_constant<bool,K::discrete||K::dynamic>()); }
  void elem(const std::string&,const D&,const V&,std::false_type){}
  void elem(const std::string& op,const D& d,const V& val,std::true_type){ const E r(d,val);
    if(op=="add"){ ON("x.add(e)", x.add(r)); ON("x+=e", x+=r); ON("x|=e", x|=r); ON("add(x,e)", icl::add(x,r)); RES("x+e", x+r); RES("e+x", r+x); RES("x|e", x|r); RES("e|x", r|x); }
    else if(op=="sub") sub_elem(r,std::integral_constant<bool,MV::sub>());
    else if(op=="ins"){ ON("x.insert(e)", x.insert(r)); ON("insert(x,e)", icl::insert(x,r)); }
    else if(op=="era"){ ON("x.erase(e)", x.erase(r)); ON("erase(x,e)", icl::erase(x,r)); }
    else if(op=="set"){ ON("x.set(e)", x.set(r)); ON("set_at(x,e)", icl::set_at(x,r)); }
    else if(op=="and"){ ON("x&=e", x&=r); RES("x&e", x&r); RES("e&x", r&x); st().variant="add_intersection(sec,x,e)"; { S x(pre), sec; icl::add_intersection(sec,x,r); ok(sec); } }
    else if(op=="flip"){ ON("x.flip(e)", x.flip(r)); ON("x^=e", x^=r); ON("flip(x,e)", icl::flip(x,r)); RES("x^e", x^r); RES("e^x", r^x); } }
  void key(const std::string& op,int lo,int hi){
    std::vector<I> rs=reps<K>(lo,hi);
    for(size_t k=0;k<rs.size();++k){ const I r=rs[k];
      if(op=="eraK"){ ON("x.erase(I)", x.erase(r)); ON("x-=I", x-=r); ON("erase(x,I)", icl::erase(x,r)); ON("subtract(x,I)", icl::subtract(x,r)); RES("x-I", x-r); TMP("move(x)-I", std::move(x)-r); }
      else { ON("x&=I", x&=r); RES("x&I", x&r); RES("I&x", r&x); TMP("move(x)&I", std::move(x)&r); TMP("I&move(x)", r&std::move(x)); st().variant="add_intersection(sec,x,I)"; { S x(pre), sec; icl::add_intersection(sec,x,r); ok(sec); } } }
    if(lo==hi && K::is_point(lo)) elemkey(op,K::point(lo),std::integral_constant<bool,K::discrete||K::dynamic>()); }
  void elemkey(const std::string&,const D&,std::false_type){}
  void elemkey(const std::string& op,const D& d,std::true_type){
    if(op=="eraK"){ ON("x.erase(k)", x.erase(d)); ON("x-=k", x-=d); ON("erase(x,k)", icl::erase(x,d)); ON("subtract(x,k)", icl::subtract(x,d)); RES("x-k", x-d); }
    else { ON("x&=k", x&=d); RES("x&k", x&d); RES("k&x", d&x); } }
  template<class Y> void map_operand(const std::string& op,const Segs& ts,const char* kind){
    Y t; build_map<K,MV>(t,ts,1); const char* save=st().kind; st().kind=kind; st().variant="operand"; if(!opt().content) check(proj(t),ts); else check(content(proj(t)),content(ts));
    Segs tp=proj(t);
    if(op=="addC"){ ON("x+=y", x+=t); ON("x|=y", x|=t); }
    else if(op=="subC") subC(t,std::integral_constant<bool,MV::sub>());
    else if(op=="insC"){ ON("insert(x,y)", icl::insert(x,t)); }
    else if(op=="eraC"){ ON("erase(x,y)", icl::erase(x,t)); }
    else if(op=="andC"){ ON("x&=y", x&=t); st().variant="add_intersection(sec,x,y)"; { S x(pre), sec; icl::add_intersection(sec,x,t); ok(sec); } }
    else if(op=="flipC"){ ON("x^=y", x^=t); ON("flip(x,y)", icl::flip(x,t)); }
    infix(op,t,std::integral_constant<bool,int(S::fineness)>=int(Y::fineness)>(),std::is_same<S,Y>());
    st().variant="operand unchanged"; check(proj(t),tp); st().kind=save; }
  template<class Y> void subC(Y& t,std::true_type){ ON("x-=y", x-=t); RES("x-y", x-t); TMP("move(x)-y", std::move(x)-t); }
  template<class Y> void subC(Y&,std::false_type){}
  template<class Y,class B> void infix(const std::string&,Y&,std::false_type,B){}
  template<class Y> void infix(const std::string& op,Y& t,std::true_type,std::false_type){
    if(op=="addC"){ RES("x+y", x+t); RES("x|y", x|t); }
    else if(op=="andC"){ RES("x&y", x&t); }
    else if(op=="flipC"){ RES("x^y", x^t); }
    // the operand first: the same result when combining commutes
    if(!MV::comb()[0]||commutes(MV::comb())){ if(op=="addC"){ RES("y+x", t+x); RES("y|x", t|x); } else if(op=="andC"){ RES("y&x", t&x); } } }
#define RES2(NAME,...) do{ st().variant=NAME; S x(pre), y(t); ok(__VA_ARGS__); }while(0)
  void infix(const std::string& op,S& t,std::true_type,std::true_type){ bool com=commutes(MV::comb());
    if(op=="addC"){ RES("x+y", x+t); RES("x|y", x|t); RES2("move(x)+y", std::move(x)+y); RES2("move(x)|y", std::move(x)|y);
      if(com){ RES2("x+move(y)", x+std::move(y)); RES2("move(x)+move(y)", std::move(x)+std::move(y)); RES2("y+x", y+x); RES2("x|move(y)", x|std::move(y)); RES2("move(x)|move(y)", std::move(x)|std::move(y)); } }
    else if(op=="andC"){ RES("x&y", x&t); RES2("move(x)&y", std::move(x)&y); if(com){ RES2("x&move(y)", x&std::move(y)); RES2("move(x)&move(y)", std::move(x)&std::move(y)); RES2("y&x", y&x); } }
    else if(op=="flipC"){ RES("x^y", x^t); RES2("move(x)^y", std::move(x)^y); if(com){ RES2("x^move(y)", x^std::move(y)); RES2("move(x)^move(y)", std::move(x)^std::move(y)); RES2("y^x", y^x); } } }
  template<class Y> void set_operand(const std::string& op,const Segs& ts,const char* kind){
    Y t; build_set<K>(t,ts,1); const char* save=st().kind; st().kind=kind;
    if(op=="eraKC"){ ON("x-=keys", x-=t); ON("erase(x,keys)", icl::erase(x,t)); RES("x-keys", x-t); TMP("move(x)-keys", std::move(x)-t); }
    else { ON("x&=keys", x&=t); RES("x&keys", x&t); RES("keys&x", t&x); TMP("move(x)&keys", std::move(x)&t); st().variant="add_intersection(sec,x,keys)"; { S x(pre), sec; icl::add_intersection(sec,x,t); ok(sec); } }
    st().variant="operand unchanged"; check(project_set<K>(t),ts); st().kind=save; }
  void run(const Case& cs){ c=&cs; std::string op=cs.op(); pre=S(); Segs p=cs.segs(2); want=cs.segs(3); cwant=content(want);
    build_map<K,MV>(pre,p); st().variant="construct"; if(!opt().content) check(proj(pre),p); else check(content(proj(pre)),content(p));
    const Ints& a=cs.n[1];
    if(op=="eraK"||op=="andK") key(op,a[0],a[1]);
    else if(op=="eraKC"||op=="andKC"){ Segs ts=segs_of(a); set_operand<typename K::SplitSet>(op,ts,"keys:split"); set_operand<typename K::SepSet>(op,ts,"keys:separate"); if(!touching_equal(ts)) set_operand<typename K::JoinSet>(op,ts,"keys:join"); }
    else if(op.size()>1 && op[op.size()-1]=='C'){ Segs ts=segs_of(a); map_operand<typename Types::SplitMap>(op,ts,"y:split"); if(!touching_equal(ts)) map_operand<typename Types::JoinMap>(op,ts,"y:join"); }
    else pair(op,a[0],a[1],a[2]); }
};
template<class K,class T,class MV,class S> void run_all(const char* kind){ st().codec=K::name(); st().kind=kind; Runner<K,T,MV,S> r; for_cases(opt().file,[&](const Case& c){ r.run(c); st().kind=kind; }); }
}
#ifdef MAINK
using namespace vf;
typedef boost::icl::MAINT Tr;
int main(int argc,char** argv){ parse_args(argc,argv); opt().type=type_name<Tr,MAINV>(opt().mode);
  if(opt().mode=="join") run_all<MAINK,Tr,MAINV,MAINV::of<MAINK,Tr>::JoinMap>("join");
  else run_all<MAINK,Tr,MAINV,MAINV::of<MAINK,Tr>::SplitMap>("split");
  report(); return 0; }
#endif
