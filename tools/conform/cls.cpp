#include <vector>
#include <array>
#include <string>
#include <tuple>
#include <memory>
#include <functional>
#include <algorithm>
#include <utility>
#include <cstring>
#include <cstdint>
#include <iterator>
#include <gmpxx.h>
#include <numeric>
#include <stdexcept>
typedef long L;
static L live=0, moves=0, copies=0;
struct Obj { L v; std::vector<L> w; Obj(L v=0):v(v),w(2,v){live++;} Obj(const Obj& o):v(o.v),w(o.w){live++;copies++;} Obj(Obj&& o) noexcept:v(o.v),w(std::move(o.w)){o.v=-1;live++;moves++;} Obj& operator=(Obj o){ swap(*this,o); return *this;} friend void swap(Obj& a, Obj& b){ using std::swap; swap(a.v,b.v); swap(a.w,b.w);} ~Obj(){live--;} L s() const { L r=v; for(auto x:w) r+=x; return r;} };
static Obj mk(L a){ Obj o(a); o.w.push_back(7); return o; }
L t_raii(L a, L b){ live=moves=copies=0; L r=0; { Obj x=mk(a); Obj y(x); y=mk(b); Obj z(std::move(x)); r=x.v+y.s()*3+z.s()*5; { std::vector<Obj> v; v.reserve(3); v.push_back(y); v.emplace_back(4); v.push_back(std::move(y)); r+=v[0].s()+v[1].s()+live*100; } r+=live*1000; auto p=std::make_unique<Obj>(b); r+=p->s(); p.reset(); std::swap(x,z); r+=x.s()*2+z.v; } return r+live*7+copies*11; }
struct Ctr { L n; Ctr():n(0){} Ctr& inc(){ ++n; return *this;} const L& get() const {return n;} L& get(){return n;} };
L t_chain(L a, L b){ Ctr c; c.inc().inc().inc(); c.get()+=a; const Ctr& d=c; return d.get()*2+b; }
struct B1 { L x; explicit B1(L x):x(x){} L f() const {return x+1;} protected: L g() const {return x*2;} }; struct D1: public B1 { L y; D1(L a, L b):B1(a),y(b){} L f() const {return B1::f()+g()+y;} using B1::x; };
struct D2: D1 { using D1::D1; L h() const { return f()+x; } };
L t_inh(L a, L b){ D1 d(a,b); const B1& r=d; D2 e(b,a); B1 s=d; return d.f()*3+r.f()+e.h()+s.f(); }
L t_lambda_this(L a, L b){ struct S{ L k; L run(L z){ auto f=[this,z](L q){ return k*q+z; }; auto g=[=](L q){ return f(q)+k; }; k++; return g(2)+f(1);} } s{a}; return s.run(b); }
L t_generic(L a, L b){ auto add=[](auto x, auto y){ return x+y; }; auto ap=[&](auto&& f, auto... xs){ return f(xs...); }; return ap(add, a, b)*add(1,2)+ap([](L x){return x*x;}, b); }
static L fa(L x){return x+1;} static L fb(L x){return x*2;}
L t_fptr(L a, L b){ L (*tab[])(L)={fa,fb,&fa}; L r=0; for(auto f: tab) r=r*3+f(a); L (*g)(L)=a>b?fa:nullptr; if(g) r+=g(b); std::function<L(L)> h=fb; return r+h(3); }
struct PodIn { L a[3]; struct { L p,q; } in; const char* nm; };
L t_pod(L a, L b){ PodIn p={{1,2},{a,b},"xy"}; PodIn q=p; q.a[2]=9; q.in.p+=4; auto& [arr,in,nm]=q; L r=arr[2]+in.p+nm[1]; PodIn z{}; PodIn *pp=&q; pp->in.q=5; return r+z.a[1]+z.in.q+pp->in.q+p.in.q; }
L t_arrbind(L a, L b){ L v[2]={a,b}; auto [x,y]=v; auto& [u,w]=v; u+=10; std::array<std::pair<L,L>,2> ps{{{1,2},{3,4}}}; L r=0; for(auto [p,q]: ps) r+=p*q; for(auto& [p,q]: ps) p+=q; return r+x+y*3+v[0]+w+ps[1].first; }
L t_ifinit(L a, L b){ L r=0; if(L k=a-b; k>0) r=k; else if(k==0) r=5; else r=-k; if(auto p=std::make_unique<L>(3)) r+=*p; switch(L m=a&3; m){case 0: r+=m+1; break; default: r+=m*2;} for(L i=0,j=5;i<j;++i,--j) r+=i*j; return r; }
template<class T> struct Stk { static L made; std::vector<T> d; Stk(){made++;} void push(T x){ d.push_back(std::move(x)); } T pop(){ T x=std::move(d.back()); d.pop_back(); return x; } bool empty() const { return d.empty(); } }; template<class T> L Stk<T>::made=0;
L t_tmplcls(L a, L b){ Stk<L>::made=0; Stk<L> s; for(L i=0;i<4;i++) s.push(a+i*b); L r=0; while(!s.empty()) r=r*3+s.pop(); Stk<std::string> t; t.push("abc"); r+=t.pop().size(); return r+Stk<L>::made; }
L t_unsigned(L a, L b){ uint32_t x=a; uint64_t y=b; x-=7; y<<=33; uint8_t c=x>>3; c<<=2; uint16_t h=~c; int32_t s=(int32_t)(x*2654435761u); int8_t t=(int8_t)(c+200); return (L)x+(L)(y>>5)+h*3+s+t+(x>y)+((x>>4)&0xff)+(L)(uint64_t)(-(int64_t)b)%1000+(c^h)+((-7)>>1)+(-7)/2+(-7)%3; }
L t_bitops(L a, L b){ uint64_t x=(uint64_t)a*0x9e3779b97f4a7c15ull; L r=0; for(int i=0;i<64;i+=7){ bool t=x&(1ull<<i); r=(r<<1)|t; } r^=(x>>60); while(x){ x&=x-1; r++; } unsigned u=0; for(int i=31;i>=0;--i){ u=(u<<1)|((b>>i)&1);} return r+u+__builtin_popcountll(b&0xffff); }
L t_buf(L a, L b){ uint8_t buf[16]; for(unsigned i=0;i<sizeof buf;i++) buf[i]=(uint8_t)(a*i+b); uint32_t w; memcpy(&w,buf+4,4); const uint32_t* p=reinterpret_cast<const uint32_t*>(buf+8); w^=p[0]+p[1]; uint8_t* e=buf+16; L s=0; for(uint8_t* q=buf;q<e;q+=3) s=s*5+*q; memmove(buf+1,buf,8); s+=buf[8]+memcmp(buf,buf+1,1); std::vector<uint8_t> v(buf,buf+5), z(std::begin(buf),std::end(buf)); memcpy(&z[2],v.data(),3); memcpy(z.data()+9,&v[1],2); return s+w+z[3]+z[10]+v.size()+z.size(); }
L t_nested(L a, L b){ L r=0; bool done=false; for(L i=0;i<5&&!done;i++){ for(L j=0;j<5;j++){ if(i*j==6){ done=true; break; } if(j==i) continue; r+=i*10+j; if(r>a*20+50) return r; } } L k=7; while(true){ if(--k<3) break; if(k&1) continue; r+=k; } return r+b; }
L t_strs(L a, L b){ std::string s; for(L i=0;i<4;i++) s+=char('a'+(a+b+i+26*100)%26); std::string t(s.rbegin(), s.rend()); t.insert(t.begin(),'z'); s.append(t,1,2); s.resize(5); t.erase(0,1); std::string u(3,'q'); u[1]=s[0]; return s.size()*100+s[4]+t[0]*2+u[1]+(s<t)+(s.compare(t)>0)+u.back()+s.at(1)+(s.empty()?1:0); }
L t_mpzmore(L a, L b){ mpz_class x=a, y("12345678901234567890"), z; x*=y; x=x*x-y; z=x%1000003; if(z<0) z+=1000003; L r=z.get_si(); mpz_class q; q=y>>10; r+=mpz_fdiv_ui(q.get_mpz_t(),97); mpz_swap(x.get_mpz_t(),q.get_mpz_t()); r+=mpz_sgn(q.get_mpz_t()); mpz_class w; mpz_ui_pow_ui(w.get_mpz_t(),2,70); w+=5; w=w & y; r+=mpz_class(w%10007).get_si(); w=(w|1)^y; r+=mpz_class(w%10007).get_ui(); r+=(x>=q)+(x!=y)+w.fits_slong_p()+mpz_cmp(x.get_mpz_t(),q.get_mpz_t())*0; std::vector<mpz_class> v{x,y,w}; v[1]=v[0]; mpz_class s=0; for(const mpz_class& e: v) s+=e; r+=mpz_class(abs(s)%9973).get_ui(); const mpz_class m=9973; mpz_class inv; mpz_invert(inv.get_mpz_t(), mpz_class(1234).get_mpz_t(), m.get_mpz_t()); return r+inv.get_si()+mpz_class(-x%m).get_si()+mpz_divisible_ui_p(y.get_mpz_t(),5)+(w.get_str(2).size()); }
L t_tern(L a, L b){ const L* p=a>b?&a:&b; L& m=(a<b?a:b); m+=3; return *p*10+a+b*3; }
L t_sent(L a, L b){ L v[]={3,1,2,-1}; L n=0; while(v[n]>=0) n++; L* lo=v; L* hi=v+n-1; while(lo<hi){ L t=*lo; *lo++=*hi; *hi--=t; } return n*100+v[0]*10+v[2]+(L)(hi-v)+a; }
L t_stat(L a, L b){ static L calls; calls=0; auto f=[](L x){ static const L base[]={2,4,8}; calls+=base[x%3]; return calls; }; return f(0)+f(1)*2+f(2)*3; }
constexpr L ipow(L b, unsigned e){ L r=1; while(e){ if(e&1) r*=b; b*=b; e>>=1; } return r; }
template<L N> struct K { enum { v=N*2 }; static constexpr L sq(){ return N*N; } };
L t_consteval(L a, L b){ constexpr L k=ipow(3,7); static_assert(k==2187); return k+K<5>::v+K<4>::sq()+ipow(a%7,3); }
namespace ns { struct P { L x; }; inline P operator+(P a, P b){ return {a.x+b.x}; } inline bool operator<(const P&a,const P&b){return a.x<b.x;} L val(const P& p){return p.x;} }
L t_adl(L a, L b){ ns::P p{a},q{b}; std::vector<ns::P> v{p,q,{2}}; std::sort(v.begin(),v.end()); auto s=std::accumulate(v.begin(),v.end(),ns::P{0}); return val(p+q)+ (p<q)+v[0].x*5+s.x+std::max_element(v.begin(),v.end())->x; }
L t_vecobj(L a, L b){ std::vector<std::pair<L,std::string>> v; v.emplace_back(a,"x"); v.push_back({b,"yy"}); v.push_back(std::make_pair(3,std::string("zzz"))); auto w=v; w[0].second+="q"; std::swap(w[1],w[2]); L r=0; for(auto it=w.begin();it!=w.end();++it) r=r*7+it->first+it->second.size(); w.erase(std::remove_if(w.begin(),w.end(),[](const auto& p){return p.first==3;}),w.end()); return r+w.size()+v[0].second.size(); }
L t_iters(L a, L b){ std::vector<L> v{a,b,5,6}; auto it=v.begin(); std::advance(it,2); L r=*it+*std::prev(it)+it[1]+(v.end()-it); auto rit=v.rbegin()+1; r+=*rit*10; std::vector<L> w(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); w.assign(3,b); w.assign({a,1}); std::copy(v.cbegin(),std::next(v.cbegin(),2),std::back_inserter(w)); return r+w.size()*3+w.back()+std::distance(v.begin(),it)+w.front(); }
L t_swapvec(L a, L b){ std::vector<L> x{a,b}, y{1,2,3}; x.swap(y); std::swap(x,y); auto z=std::move(x); x.clear(); x.push_back(9); std::array<L,2> p{a,b}; std::array<L,2> q=p; q[0]++; p.fill(3); p.swap(q); return z.size()+x[0]+y.size()*10+p[0]+q[1]+p.front()+p.back()+std::get<1>(p)+(p==q); }
L t_uniq(L a, L b){ struct N{ L v; std::unique_ptr<N> nx; N(L v):v(v){} }; std::unique_ptr<N> h; for(L i=0;i<3;i++){ auto n=std::make_unique<N>(a+i); n->nx=std::move(h); h=std::move(n); } L r=0; for(N* p=h.get();p;p=p->nx.get()) r=r*5+p->v; N* raw=new N(b); delete raw; L* arr=new L[3]{1,2}; r+=arr[1]+arr[2]; delete[] arr; return r; }
L t_catch(L a, L b){ L r=0; auto f=[&](L x){ struct G{ L& r; ~G(){ r+=10; } } g{r}; if(x<0) throw std::out_of_range("neg"); if(x==0) throw std::string("zero"); r+=x; }; for(L x: {a,b}) try { f(x); } catch(const std::out_of_range&){ r+=100; } catch(const std::exception&){ r+=200; } catch(...){ r+=1000; } return r; }
