// Replays the scripts of Values.tla: statements on three variables of one
// container type, with named and temporary operands.
//   -DMAINK=<codec> [-DMAINT=<traits> -DMAINV=<value codec>]   -mode join|sep|split|element
#include "anykind.hpp"
namespace vf {
using namespace boost::icl;
#define VARIANT(NAME) st().variant=NAME
const Seg GONE={-9,-9,-9};
template<class W,class K> struct Runner { typedef typename W::S S; typedef typename W::J J; S v[3]; Segs store1[3], store2[3], init[3];
  // a store is written <<s1, s2, s3>>; the pieces are found by nesting depth
  static void store_of(const std::string& f,Segs out[3]){ int depth=0, k=-1; size_t b=0; 
    for(size_t i=0;i+1<f.size();++i){ if(f[i]=='<'&&f[i+1]=='<'){ ++depth; ++i; if(depth==2){ ++k; b=i+1; } } else if(f[i]=='>'&&f[i+1]=='>'){ if(depth==2&&k<3){ Ints n; ints_of(f.data()+b,f.data()+i,n); out[k]=segs_of(n); } --depth; ++i; } } }
  static bool gone(const Segs& s){ return s.size()==1 && s[0]==GONE; }
  void compare(const Segs want[3]){ for(int i=0;i<3;++i) if(!gone(want[i])) check(W::proj(v[i]),want[i]); }
  void reset(){ for(int i=0;i<3;++i){ v[i]=S(); W::fill(v[i],init[i]); } }
  // z = a op b for every spelling; A and B may be references or temporaries
  template<class A,class B> static S bin(int op,A&& a,B&& b){
    if(op==0) return std::forward<A>(a)+std::forward<B>(b); if(op==4) return std::forward<A>(a)|std::forward<B>(b);
    if(op==1){ if constexpr(W::sub && std::is_same<typename std::decay<A>::type,S>::value) return std::forward<A>(a)-std::forward<B>(b); else return S(); }
    if(op==2) return std::forward<A>(a)&std::forward<B>(b); return std::forward<A>(a)^std::forward<B>(b); }
  template<class A,class B> static void into(int op,A& a,const B& b){ if(op==0) a+=b; else if(op==4) a|=b; else if(op==1){ if constexpr(W::sub) a-=b; } else if(op==2) a&=b; else a^=b; }
  static int two(const std::string& o){ return o=="addC"? 0: o=="subC"? 1: o=="andC"? 2: 3; }
  template<class X> static S form(int op,const std::string& f,S& x,X& y){ if(f=="LL") return bin(op,(const S&)x,(const X&)y); if(f=="RL") return bin(op,std::move(x),(const X&)y); if(f=="LR") return bin(op,(const S&)x,std::move(y)); return bin(op,std::move(x),std::move(y)); }
  void change(const std::string& o,const Ints& a){ S& t=v[a[0]-1];
    if(o=="clear"){ boost::icl::clear(t); return; } if(o=="assign"){ t=(const S&)v[a[1]-1]; return; }
    if constexpr(W::element){ for(int i=0;i<int(natoms);++i) boost::icl::add(t,W::piece(Seg{i,i,1},0)); } else t+=W::piece(Seg{0,int(natoms)-1,1},0); }
  size_t natoms;
  // one statement in all its spellings; after each the change and both comparisons
  template<class F> void play(const char* name,const std::string& o2,const Ints& a2,F f){ reset(); VARIANT(name); f(); compare(store1); if(o2!="none"){ change(o2,a2); compare(store2); } }
  template<class A,class B> static void one(int op,S& z,A&& x,const B& g,bool rev){
    if constexpr(W::map && !W::element && std::is_same<B,typename K::interval>::value){ if(op==1) z=std::forward<A>(x)-g; else if(rev) z=g&std::forward<A>(x); else z=std::forward<A>(x)&g; }
    else if(rev){
      if(op==0) z=g+std::forward<A>(x); else if(op==5) z=g|std::forward<A>(x); else if(op==2) z=g&std::forward<A>(x); else z=g^std::forward<A>(x); }
    else { if(op==0) z=std::forward<A>(x)+g; else if(op==5) z=std::forward<A>(x)|g; else if(op==1){ if constexpr(W::sub) z=std::forward<A>(x)-g; } else if(op==2) z=std::forward<A>(x)&g; else z=std::forward<A>(x)^g; } }
  void run(const Case& cs){ std::string op=cs.op(), o2=cs.f[2]; const Ints& a2=cs.n[3]; for(int i=0;i<3;++i) init[i]=cs.segs(4+i); store_of(cs.f[7],store1); if(o2!="none") store_of(cs.f[8],store2);
    natoms=size_t(init[2].back().hi+1);
    reset(); VARIANT("construct"); for(int i=0;i<3;++i) if(!check(W::proj(v[i]),init[i])) return;
    if(op=="copy"){ play("z=x",o2,a2,[&]{ v[2]=v[0]; }); play("z=S(x)",o2,a2,[&]{ S c(v[0]); v[2]=std::move(c); }); play("z.swap(copy)",o2,a2,[&]{ S c(v[0]); v[2].swap(c); }); play("assign of const",o2,a2,[&]{ const S& c=v[0]; S& r=(v[2]=c); check(&r==&v[2],true); }); }
    else if(op=="move"){ play("z=move(x)",o2,a2,[&]{ v[2]=std::move(v[0]); }); play("z=S(move(x))",o2,a2,[&]{ S c(std::move(v[0])); v[2]=c; }); play("z=boost::move(x)",o2,a2,[&]{ v[2]=boost::move(v[0]); }); play("push_back(move(x))",o2,a2,[&]{ std::vector<S> t; t.push_back(std::move(v[0])); t.resize(3); v[2]=t[0]; }); }
    else if(op=="swap"){ play("x.swap(y)",o2,a2,[&]{ v[0].swap(v[1]); }); play("icl::swap(x,y)",o2,a2,[&]{ icl::swap(v[0],v[1]); }); play("y.swap(x)",o2,a2,[&]{ v[1].swap(v[0]); }); play("std::swap(x,y)",o2,a2,[&]{ std::swap(v[0],v[1]); }); }
    else if(op=="self"){ play("x=x",o2,a2,[&]{ S& r=v[0]; v[0]=r; }); play("x.swap(x)",o2,a2,[&]{ S& r=v[0]; v[0].swap(r); }); play("nothing",o2,a2,[&]{ }); }
    else if(op.compare(0,4,"bin-")==0){ int o=two(op.substr(4)); const std::string f=cs.f[1];
      play("z=x op y",o2,a2,[&]{ v[2]=form(o,f,v[0],v[1]); }); play("S r=x op y",o2,a2,[&]{ S r=form(o,f,v[0],v[1]); v[2].swap(r); }); if(o==0) play("z=x|y",o2,a2,[&]{ v[2]=form(4,f,v[0],v[1]); }); }
    else if(op.compare(0,5,"into-")==0){ int o=two(op.substr(5)); play("x op= y",o2,a2,[&]{ into(o,v[0],v[1]); }); if(o==0) play("x |= y",o2,a2,[&]{ into(4,v[0],v[1]); }); }
    else if(op.compare(0,4,"own-")==0){ int o=two(op.substr(4)); play("x op= x",o2,a2,[&]{ into(o,v[0],v[0]); }); play("x = x op x",o2,a2,[&]{ v[0]=bin(o,(const S&)v[0],(const S&)v[0]); }); if(o==0) play("x |= x",o2,a2,[&]{ into(4,v[0],v[0]); }); }
    else if(op.compare(0,4,"mix-")==0){ if constexpr(!W::element && !std::is_same<S,J>::value){ int o=two(op.substr(4)); const std::string f=cs.f[1]; J y; W::fill(y,init[1]);
      play("z=x op joined",o2,a2,[&]{ v[2]=form(o,f,v[0],y); }); if(f[1]=='R'){ y=J(); W::fill(y,init[1]); }
      if(o!=1 && commutes()){ std::string g(f); std::swap(g[0],g[1]); play("z=joined op x",o2,a2,[&]{ if(f=="LL") v[2]=bin(o,(const J&)y,(const S&)v[0]); else if(f=="RL") v[2]=bin(o,(const J&)y,std::move(v[0])); else if(f=="LR") v[2]=bin(o,std::move(y),(const S&)v[0]); else v[2]=bin(o,std::move(y),std::move(v[0])); }); }
      if(f=="LL"){ VARIANT("joined operand unchanged"); J k; W::fill(k,init[1]); check(k==y,true); } } }
    else if(op.compare(0,6,"chain-")==0){ int o1=two(op.substr(6)); std::string t=cs.f[1]; size_t q=t.find('"'); std::string second= q==std::string::npos? t: t.substr(q+1,t.find('"',q+1)-q-1); int i=cs.n[1].back(); int p=two(second); const S& x=v[0]; const S& y=v[1];
      if(i==1) play("z=(x op y) op2 x",o2,a2,[&]{ v[2]=bin(p,bin(o1,x,y),x); }); else if(i==2) play("z=x op2 (x op y)",o2,a2,[&]{ v[2]=bin(p,x,bin(o1,x,y)); }); else play("z=(x op y) op2 (y op x)",o2,a2,[&]{ v[2]=bin(p,bin(o1,x,y),bin(o1,y,x)); }); }
    else { size_t dash=op.find('-'); std::string w=op.substr(0,dash), o=op.substr(dash+1); const Ints& a=cs.n[1]; int k= o=="add"? 0: o=="sub"||o=="eraK"? 1: o=="and"||o=="andK"? 2: 3; bool key= o=="eraK"||o=="andK";
      if(w=="alias"){ play(key? "x op= key of own segment": "x op= own segment",o2,a2,[&]{ S& x=v[0]; auto it=x.begin(); std::advance(it,a[0]-1);
          if constexpr(W::map){ if(key){ if(o=="eraK") boost::icl::erase(x,it->first); else x&=it->first; return; } }
          if(k==0) boost::icl::add(x,*it); else if(k==1){ if constexpr(W::sub) boost::icl::subtract(x,*it); } else if(k==2) x&=*it; else boost::icl::flip(x,*it); }); }
      else { Seg g{a[0],a[1],a[2]}; bool R= cs.f[1].find("\"R\"")!=std::string::npos; int n= W::element? 1: K::nreps(g.lo,g.hi);
        for(int rep=0;rep<n;++rep) for(int rev=0;rev<(k==1?1:2);++rev){
          auto go=[&](auto piece){ const auto kept=piece; if(R) play(rev? "z=piece op move(x)": "z=move(x) op piece",o2,a2,[&]{ one(k,v[2],std::move(v[0]),piece,rev); }); else play(rev? "z=piece op x": "z=x op piece",o2,a2,[&]{ one(k,v[2],(const S&)v[0],piece,rev); });
            if(k==0){ if(R) play(rev? "z=piece|move(x)": "z=move(x)|piece",o2,a2,[&]{ one(5,v[2],std::move(v[0]),piece,rev); }); else play(rev? "z=piece|x": "z=x|piece",o2,a2,[&]{ one(5,v[2],(const S&)v[0],piece,rev); }); }
            VARIANT("piece unchanged"); check(piece==kept,true); };
          if constexpr(W::map){ if(key){ if constexpr(!W::element) go(W::key(g,rep)); else keys(k,W::key(g,rep),R,rev,o2,a2); continue; } go(W::piece(g,rep)); } else go(W::piece(g,rep)); } } } }
  // element maps know x & key but not x - key
  template<class D> void keys(int k,const D& d,bool R,bool rev,const std::string& o2,const Ints& a2){ if(k!=2) return; 
    if(R) play(rev? "z=key op move(x)": "z=move(x) op key",o2,a2,[&]{ if(rev) v[2]=d&std::move(v[0]); else v[2]=std::move(v[0])&d; }); else play(rev? "z=key op x": "z=x op key",o2,a2,[&]{ if(rev) v[2]=d&(const S&)v[0]; else v[2]=(const S&)v[0]&d; }); }
  static bool commutes(){
#ifdef MAINV
    return vf::commutes(MAINV::comb());
#else
    return true;
#endif
  }
};
}
using namespace vf;
template<class W,class K> static void go(const char* kind){ st().codec=K::name(); st().kind=kind; static Runner<W,K> r; for_cases(opt().file,[&](const Case& c){ r.run(c); }); report(); }
int main(int argc,char** argv){ parse_args(argc,argv); const std::string md=opt().mode; typedef MAINK K;
#ifdef MAINT
  typedef boost::icl::MAINT Tr; typedef MAINV::of<K,Tr> M; opt().type=type_name<Tr,MAINV>(md);
  if(md=="join") go<MapT<K,MAINV,M::JoinMap,M::JoinMap,false>,K>("interval_map"); else if(md=="split") go<MapT<K,MAINV,M::SplitMap,M::JoinMap,false>,K>("split_interval_map");
  else if constexpr(K::discrete) go<MapT<K,MAINV,M::ElemMap,M::ElemMap,true>,K>("element_map");
#else
  opt().type="set-"+md;
  if(md=="join") go<SetT<K,K::JoinSet,K::JoinSet,false>,K>("interval_set"); else if(md=="sep") go<SetT<K,K::SepSet,K::JoinSet,false>,K>("separate_interval_set"); else if(md=="split") go<SetT<K,K::SplitSet,K::JoinSet,false>,K>("split_interval_set");
  else if constexpr(K::discrete) go<SetT<K,K::ElemSet,K::ElemSet,true>,K>("element_set");
#endif
}
