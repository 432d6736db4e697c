// Replays transitions of the interval-set specification (IntervalSets.tla)
// through every spelling of each operation.
//   -DKODEC=<codec>   input lines  "op;arg;pre;post"
//   -mode join|sep|split    style of the target
#include "codec.hpp"
namespace vf {
template<class K,class Iv> inline Seg seg_of(const Iv& i,int v){ int lo,hi; if(!K::decode(i,lo,hi)) return Seg{BAD,BAD,v}; return Seg{lo,hi,v}; }
template<class K,class S> inline Segs project(const S& s){ Segs r; for(typename S::const_iterator it=s.begin();it!=s.end();++it) r.push_back(seg_of<K>(*it,1)); return r; }
template<class K,class S> inline void build(S& s,const Segs& g,int rep=0){ for(size_t i=0;i<g.size();++i) s.add(K::make(g[i].lo,g[i].hi,rep++ )); }

static bool touching_equal(const Segs& g){ for(size_t i=1;i<g.size();++i) if(g[i-1].hi+1==g[i].lo && g[i-1].v==g[i].v) return true; return false; }

template<class K,class S> struct Runner {
  typedef typename K::interval I; typedef typename K::domain D;
  const Case* c; S pre; Segs want; Ints cwant; bool unordered_sep;
  bool ok(const Segs& got,bool exact){ if(opt().content||!exact) return check(content(got),cwant); return check(got,want); }
  template<class T> bool ok(const T& x,bool exact=true){ return ok(project<K>(x),exact); }
#define ON(NAME,...) do{ st().variant=NAME; S x(pre); { __VA_ARGS__; } ok(x); }while(0)
#define RES(NAME,...) do{ st().variant=NAME; S x(pre); ok(__VA_ARGS__); unchanged(x,c->segs(2)); }while(0)
#define TMP(NAME,...) do{ st().variant=NAME; S x(pre); ok(__VA_ARGS__); }while(0)
  template<class T> void unchanged(const T& x,const Segs& w){ check(project<K>(x),w); }

  void range(const std::string& op,int lo,int hi){
    std::vector<I> rs=reps<K>(lo,hi);
    bool elem = lo==hi && K::is_point(lo);
    for(size_t k=0;k<rs.size();++k){ const I r=rs[k];
      if(op=="add"){
        ON("x.add(I)", x.add(r)); ON("x+=I", x+=r); ON("x|=I", x|=r); ON("x.insert(I)", x.insert(r));
        ON("add(x,I)", icl::add(x,r)); ON("insert(x,I)", icl::insert(x,r));
        RES("x+I", x+r); RES("I+x", r+x); RES("x|I", x|r); RES("I|x", r|x);
        TMP("move(x)+I", std::move(x)+r); TMP("I+move(x)", r+std::move(x)); TMP("move(x)|I", std::move(x)|r); TMP("I|move(x)", r|std::move(x));
        ON("chain", S& y=(x+=r); check(&y==&x,true)); 
      } else if(op=="sub"){
        ON("x.subtract(I)", x.subtract(r)); ON("x-=I", x-=r); ON("x.erase(I)", x.erase(r)); ON("erase(x,I)", icl::erase(x,r)); ON("subtract(x,I)", icl::subtract(x,r));
        RES("x-I", x-r); TMP("move(x)-I", std::move(x)-r);
      } else if(op=="and"){
        ON("x&=I", x&=r); RES("x&I", x&r); RES("I&x", r&x); TMP("move(x)&I", std::move(x)&r); TMP("I&move(x)", r&std::move(x));
        st().variant="add_intersection(sec,x,I)"; { S x(pre), sec; icl::add_intersection(sec,x,r); ok(sec); unchanged(x,c->segs(2)); }
      } else if(op=="flip"){
        ON("x.flip(I)", x.flip(r)); ON("x^=I", x^=r); ON("flip(x,I)", icl::flip(x,r));
        RES("x^I", x^r); RES("I^x", r^x); TMP("move(x)^I", std::move(x)^r); TMP("I^move(x)", r^std::move(x));
      } }
    if(elem) element(op,K::point(lo),std::integral_constant<bool,K::discrete||K::dynamic>());
  }
  void element(const std::string&,const D&,std::false_type){}
  void element(const std::string& op,const D& d,std::true_type){
    if(op=="add"){
      ON("x.add(d)", x.add(d)); ON("x+=d", x+=d); ON("x|=d", x|=d); ON("x.insert(d)", x.insert(d)); ON("add(x,d)", icl::add(x,d)); ON("insert(x,d)", icl::insert(x,d));
      RES("x+d", x+d); RES("d+x", d+x); RES("x|d", x|d); RES("d|x", d|x); TMP("move(x)+d", std::move(x)+d); TMP("d|move(x)", d|std::move(x));
    } else if(op=="sub"){
      ON("x.subtract(d)", x.subtract(d)); ON("x-=d", x-=d); ON("x.erase(d)", x.erase(d)); ON("erase(x,d)", icl::erase(x,d)); ON("subtract(x,d)", icl::subtract(x,d));
      RES("x-d", x-d); TMP("move(x)-d", std::move(x)-d);
    } else if(op=="and"){
      ON("x&=d", x&=d); RES("x&d", x&d); RES("d&x", d&x); TMP("move(x)&d", std::move(x)&d);
      st().variant="add_intersection(sec,x,d)"; { S x(pre), sec; icl::add_intersection(sec,x,d); ok(sec); }
    } else if(op=="flip"){
      ON("x.flip(d)", x.flip(d)); ON("x^=d", x^=d); ON("flip(x,d)", icl::flip(x,d)); RES("x^d", x^d); RES("d^x", d^x); TMP("move(x)^d", std::move(x)^d);
    } }

  // operand container of type T (any style)
  template<class T> void cont(const std::string& op,const Segs& ts,const char* kind){
    T t; build<K>(t,ts,1); const char* save=st().kind; st().kind=kind; st().variant="operand"; check(project<K>(t),ts);
    if(op=="addC"){ ON("x+=y", x+=t); ON("x|=y", x|=t); ON("insert(x,y)", icl::insert(x,t)); ON("add(x,y)", for(typename T::const_iterator i=t.begin();i!=t.end();++i) icl::add(x,*i)); }
    else if(op=="subC"){ ON("x-=y", x-=t); ON("erase(x,y)", icl::erase(x,t)); RES("x-y", x-t); TMP("move(x)-y", std::move(x)-t); }
    else if(op=="andC"){ ON("x&=y", x&=t); st().variant="add_intersection(sec,x,y)"; { S x(pre), sec; icl::add_intersection(sec,x,t); ok(sec); } }
    else if(op=="xorC"){ ON("x^=y", x^=t); ON("flip(x,y)", icl::flip(x,t)); }
    infix(op,t,std::integral_constant<bool,int(S::fineness)>=int(T::fineness)>(),std::is_same<S,T>());
    st().variant="operand unchanged"; unchanged(t,ts); st().kind=save; }
  template<class T,class Same> void infix(const std::string&,T&,std::false_type,Same){}
  // infix operators take the finer operand's type; the specification's target is x
  template<class T> void infix(const std::string& op,T& t,std::true_type,std::false_type){
    if(op=="addC"){ RES("x+y", x+t); RES("x|y", x|t); RES("y+x", t+x); RES("y|x", t|x); }
    else if(op=="andC"){ RES("x&y", x&t); RES("y&x", t&x); }
    else if(op=="xorC"){ RES("x^y", x^t); RES("y^x", t^x); } }
  void infix(const std::string& op,S& t,std::true_type,std::true_type){
    // x op y with equal types; y taken by value in the moving overloads.  For separating sets the order of
    // addition shows in the segmentation, so the forms that exchange the operands are compared by content.
    bool ord = !unordered_sep;
#define RES2(NAME,EX,...) do{ st().variant=NAME; S x(pre), y(t); ok(__VA_ARGS__,EX); }while(0)
    if(op=="addC"){ RES("x+y", x+t); RES("x|y", x|t); RES2("move(x)+y",true, std::move(x)+y); RES2("x+move(y)",ord, x+std::move(y)); RES2("move(x)+move(y)",ord, std::move(x)+std::move(y));
      RES2("y+x",ord,y+x); RES2("move(x)|y",true, std::move(x)|y); RES2("x|move(y)",ord, x|std::move(y)); RES2("move(x)|move(y)",ord, std::move(x)|std::move(y)); }
    else if(op=="andC"){ RES("x&y", x&t); RES2("y&x",true,y&x); RES2("move(x)&y",true, std::move(x)&y); RES2("x&move(y)",true, x&std::move(y)); RES2("move(x)&move(y)",true, std::move(x)&std::move(y)); }
    else if(op=="xorC"){ RES("x^y", x^t); RES2("y^x",ord,y^x); RES2("move(x)^y",true, std::move(x)^y); RES2("x^move(y)",ord, x^std::move(y)); RES2("move(x)^move(y)",ord, std::move(x)^std::move(y)); } }

  void run(const Case& cs){ c=&cs; std::string op=cs.op(); pre=S(); Segs p=cs.segs(2); want=cs.segs(3); cwant=content(want);
    build<K>(pre,p); st().variant="construct"; if(!opt().content) check(project<K>(pre),p); else check(content(project<K>(pre)),content(p));
    const Ints& a=cs.n[1];
    if(op=="add"||op=="sub"||op=="and"||op=="flip") range(op,a[0],a[1]);
    else { Segs ts=segs_of(a);
      cont<typename K::SplitSet>(op,ts,"y:split"); cont<typename K::SepSet>(op,ts,"y:separate"); if(!touching_equal(ts)) cont<typename K::JoinSet>(op,ts,"y:join"); } }
};
template<class K,class S> void run_all(const char* kind){ st().codec=K::name(); st().kind=kind; Runner<K,S> r; r.unordered_sep=!strcmp(kind,"sep"); for_cases(opt().file,[&](const Case& c){ r.run(c); st().kind=kind; }); }
}
#ifdef MAINK
using namespace vf;
int main(int argc,char** argv){ parse_args(argc,argv);
  if(opt().mode=="join") run_all<MAINK,MAINK::JoinSet>("join");
  else if(opt().mode=="sep") run_all<MAINK,MAINK::SepSet>("sep");
  else run_all<MAINK,MAINK::SplitSet>("split");
  report(); return 0; }
#endif
