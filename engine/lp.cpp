// lp: feasibility of a conjunction of linear constraints, the core operation of the
// polyhedral abstract domain in /verif/engine/dom.py.  General simplex over exact
// rationals (__int128, falling back to boost::multiprecision), with a bounded amount of
// branching for integer-flagged columns and disequality rows.
#include <cstdint>
#include <vector>
#include <stdexcept>
#include <boost/multiprecision/cpp_int.hpp>
typedef __int128 i128; typedef unsigned __int128 u128;
struct Ovf{};
static inline i128 mulc(i128 a,i128 b){ i128 r; if(__builtin_mul_overflow(a,b,&r)) throw Ovf(); return r; }
static inline i128 addc(i128 a,i128 b){ i128 r; if(__builtin_add_overflow(a,b,&r)) throw Ovf(); return r; }
static inline i128 gcd128(i128 a,i128 b){ if(a<0)a=-a; if(b<0)b=-b;
  while(b){ if(((u128)a>>64)==0&&((u128)b>>64)==0){ uint64_t x=(uint64_t)a,y=(uint64_t)b; while(y){uint64_t t=x%y;x=y;y=t;} return (i128)x; } i128 t=a%b;a=b;b=t; } return a; }
struct Q{ i128 n,d; Q(i128 a=0):n(a),d(1){} Q(i128 a,i128 b):n(a),d(b){ if(d==1) return; if(d<0){n=-n;d=-d;} i128 g=gcd128(n,d); if(g>1){n/=g;d/=g;} }
  bool zero()const{return n==0;} int sgn()const{return n>0?1:n<0?-1:0;} };
static inline Q operator+(const Q&a,const Q&b){ if(a.d==1&&b.d==1){Q r; r.n=addc(a.n,b.n); return r;} return Q(addc(mulc(a.n,b.d),mulc(b.n,a.d)),mulc(a.d,b.d)); }
static inline Q operator-(const Q&a,const Q&b){ if(a.d==1&&b.d==1){Q r; r.n=addc(a.n,-b.n); return r;} return Q(addc(mulc(a.n,b.d),-mulc(b.n,a.d)),mulc(a.d,b.d)); }
static inline Q operator*(const Q&a,const Q&b){ if(a.n==0||b.n==0) return Q(); i128 g1=(b.d==1)?1:gcd128(a.n,b.d), g2=(a.d==1)?1:gcd128(b.n,a.d); Q r; r.n=mulc(a.n/g1,b.n/g2); r.d=mulc(a.d/g2,b.d/g1); return r; }
static inline Q inv(const Q&a){ Q r; if(a.n<0){r.n=-a.d;r.d=-a.n;} else {r.n=a.d;r.d=a.n;} return r; }
static inline bool operator<(const Q&a,const Q&b){ if(a.d==b.d) return a.n<b.n; return mulc(a.n,b.d)<mulc(b.n,a.d); }
static inline bool isint(const Q&a){return a.d==1;}
static inline Q floorq(const Q&a){ i128 q=a.n/a.d; if(a.n%a.d!=0&&a.n<0) q--; Q r; r.n=q; return r; }
typedef boost::multiprecision::cpp_rational BQ;
struct R{ BQ v; R(i128 a=0):v((boost::multiprecision::cpp_int)a){} bool zero()const{return v.is_zero();} int sgn()const{return v.sign();} };
static inline R operator+(const R&a,const R&b){R r; r.v=a.v+b.v; return r;} static inline R operator-(const R&a,const R&b){R r; r.v=a.v-b.v; return r;}
static inline R operator*(const R&a,const R&b){R r; r.v=a.v*b.v; return r;} static inline R inv(const R&a){R r; r.v=1/a.v; return r;}
static inline bool operator<(const R&a,const R&b){return a.v<b.v;} static inline bool isint(const R&a){return denominator(a.v)==1;}
static inline R floorq(const R&a){ boost::multiprecision::cpp_int n=numerator(a.v),d=denominator(a.v),q=n/d; if(n%d!=0&&n<0) q-=1; R r; r.v=q; return r; }

template<class T> struct Bnd{ bool hl=false,hu=false; T l,u; };
template<class T> struct Simplex{
  int n,m; std::vector<std::vector<T>> A; // m x n : basic_i = sum A[i][j]*nonbasic_j
  std::vector<int> bas, non; std::vector<Bnd<T>> b; std::vector<T> val; long piv=0;
  bool fix(int v){ // move nonbasic to within bounds
    T nv=val[v]; if(b[v].hl&&nv<b[v].l) nv=b[v].l; if(b[v].hu&&b[v].u<nv) nv=b[v].u; return true; }
  void setnb(int j,const T&nv){ int v=non[j]; T d=nv-val[v]; if(d.zero()) return; val[v]=nv; for(int i=0;i<m;i++) if(!A[i][j].zero()) val[bas[i]]=val[bas[i]]+A[i][j]*d; }
  int check(){ // 0 infeasible 1 feasible 2 limit
    for(int v=0;v<n+m;v++) if(b[v].hl&&b[v].hu&&b[v].u<b[v].l) return 0;
    for(int j=0;j<n;j++){ int v=non[j]; if(b[v].hl&&val[v]<b[v].l) setnb(j,b[v].l); else if(b[v].hu&&b[v].u<val[v]) setnb(j,b[v].u); }
    for(;;){
      if(++piv>4000) return 2;
      int bi=-1,bv=1<<30; bool low=false;
      for(int i=0;i<m;i++){ int v=bas[i]; if(b[v].hl&&val[v]<b[v].l){ if(v<bv){bv=v;bi=i;low=true;} } else if(b[v].hu&&b[v].u<val[v]){ if(v<bv){bv=v;bi=i;low=false;} } }
      if(bi<0) return 1;
      int bj=-1,nv=1<<30;
      for(int j=0;j<n;j++){ int s=A[bi][j].sgn(); if(!s) continue; int v=non[j]; bool up=low?(s>0):(s<0); // need increase of v?
        bool can= up? (!b[v].hu||val[v]<b[v].u):(!b[v].hl||b[v].l<val[v]); if(can&&v<nv){nv=v;bj=j;} }
      if(bj<0) return 0;
      T target=low?b[bv].l:b[bv].u; T theta=(target-val[bv])*inv(A[bi][bj]);
      // update
      int xj=non[bj]; T nx=val[xj]+theta; 
      for(int i=0;i<m;i++) if(!A[i][bj].zero()) val[bas[i]]=val[bas[i]]+A[i][bj]*theta; 
      val[xj]=nx; val[bv]=target;
      // pivot
      T p=inv(A[bi][bj]); auto&row=A[bi]; 
      for(int j=0;j<n;j++) if(j!=bj&&!row[j].zero()) row[j]=T(0)-row[j]*p;
      row[bj]=p;
      for(int i=0;i<m;i++) if(i!=bi&&!A[i][bj].zero()){ T f=A[i][bj]; auto&r=A[i]; for(int j=0;j<n;j++) if(j!=bj&&!row[j].zero()) r[j]=r[j]+f*row[j]; r[bj]=f*p; }
      bas[bi]=xj; non[bj]=bv;
    }
  }
};
template<class T> struct Prob{
  Simplex<T> s; std::vector<char> isi; std::vector<int> ne; std::vector<T> nec; int nodes=0; int maxn;
  int solve(int depth){
    if(++nodes>maxn) return 2;
    int r=s.check(); if(r!=1) return r;
    for(int v=0;v<s.n;v++) if(isi[v]&&!isint(s.val[v])){
      T f=floorq(s.val[v]); auto sv=s.b[v]; auto keep=s;
      s.b[v].hu=true; s.b[v].u=f; int a=solve(depth+1); if(a) return a;
      s=keep; s.b[v]=sv; s.b[v].hl=true; s.b[v].l=f+T(1); a=solve(depth+1); return a;
    }
    for(size_t k=0;k<ne.size();k++){ int v=ne[k]; T d=s.val[v]-nec[k]; if(d.zero()){
      auto sv=s.b[v]; auto keep=s; T u=nec[k]-T(1);
      if(!sv.hu||u<sv.u){ s.b[v].hu=true; s.b[v].u=u; } int a=solve(depth+1); if(a) return a;
      s=keep; s.b[v]=sv; T l=nec[k]+T(1); if(!sv.hl||sv.l<l){ s.b[v].hl=true; s.b[v].l=l; } return solve(depth+1);
    } }
    return 1;
  }
};
static i128 rd(const int64_t*&p){ int64_t hi=*p++; uint64_t lo=(uint64_t)*p++; return ((i128)hi<<64)|(i128)(u128)lo; }
template<class T> static int run(const int64_t*p,int maxn){
  int n=*p++, m=*p++; Prob<T> P; auto&s=P.s; s.n=n; s.m=m; P.maxn=maxn; s.b.resize(n+m); s.val.assign(n+m,T(0)); P.isi.assign(n,0); s.non.resize(n); s.bas.resize(m); s.A.assign(m,std::vector<T>(n,T(0)));
  for(int j=0;j<n;j++){ s.non[j]=j; if(*p++){ s.b[j].hl=true; s.b[j].l=T(rd(p)); } if(*p++){ s.b[j].hu=true; s.b[j].u=T(rd(p)); } P.isi[j]=*p++; }
  for(int i=0;i<m;i++){ s.bas[i]=n+i; int t=*p++; T c=T(rd(p)); int k=*p++; while(k--){ int col=*p++; s.A[i][col]=T(rd(p)); }
    T nc=T(0)-c; if(t==0){ s.b[n+i].hl=true; s.b[n+i].l=nc; } else if(t==1){ s.b[n+i].hl=s.b[n+i].hu=true; s.b[n+i].l=s.b[n+i].u=nc; } else { P.ne.push_back(n+i); P.nec.push_back(nc); } }
  return P.solve(0);
}
extern "C" int lp_feasible(const int64_t*p,int maxn){ try{ return run<Q>(p,maxn); }catch(Ovf&){ } return run<R>(p,maxn); }
