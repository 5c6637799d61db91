#include <vector>
#include <array>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <bitset>
#include <optional>
#include <utility>
#include <stdexcept>
#include <cstring>
#include <stdexcept>
#include <gmpxx.h>
typedef long L;
L t_bitset(L a, L b){ std::bitset<16> x(a); bool q=x[3]; x[2]=true; const auto c=x; L r=q+2*c[1]+4*x.test(2); x.flip(0); r+=x.to_ulong()*8; x=x^c; r+=x.count(); x=c>>1; r=r*31+x.to_ulong(); return r + (x==c)+x.any()+x.none(); }
L t_vecbool(L a, L b){ std::vector<bool> v(3); v[0]=a>b; bool x=v[1]; v.push_back(a<b); L r=0; for(auto q: v) r=2*r+q; for(bool q: v) r=3*r+q; v[1]=v[0]; v[2]=!v[1]; if(v[1]) r++; return r+x+v.size()+ (v[0]==v[2]); }
L t_acc(L a, L b){ std::vector<L> v{a,b,3}; return std::accumulate(v.begin(), v.end(), L(0)) * std::accumulate(v.begin(), v.end(), L(1), [](L x, L y){return x*y%1000;}) + std::inner_product(v.begin(), v.end(), v.begin(), L(0)); }
L t_transform(L a, L b){ std::vector<L> v{a,b,3}, w; std::transform(v.begin(), v.end(), std::back_inserter(w), [b](L x){ return x*2+b;}); std::vector<L> z(3); std::transform(v.begin(), v.end(), w.begin(), z.begin(), [](L x, L y){return x-y;}); std::transform(v.begin(), v.end(), w.begin(), z.begin(), std::plus<L>()); return z[0]*7+z[1]*5+z[2]; }
L t_gen(L a, L b){ std::vector<L> v(4); L k=a; std::generate(v.begin(), v.end(), [&k]{ return k++; }); std::vector<L> w(4); std::iota(w.begin(), w.end(), b); std::generate_n(w.begin(), 2, [&]{return k+=3;}); return v[0]+10*v[3]+100*w[3]+w[1]; }
L t_algo(L a, L b){ std::vector<L> v{a,b,3,7}; L r=0; r+=std::any_of(v.begin(), v.end(), [](L x){return x==3;}); r+=2*std::count_if(v.begin(), v.end(), [](L x){return x>3;}); r+=std::count(v.begin(), v.end(), 7); auto it=std::find(v.begin(), v.end(), 7); r+=10*(it-v.begin()); auto i2=std::find_if(v.begin(), v.end(), [](L x){return x==99;}); r+= i2==v.end(); auto m=std::max_element(v.begin(), v.end()); r+=100* *m; std::sort(v.begin(), v.end()); r=r*3+v[1]; std::reverse(v.begin(), v.end()); return r*5+v[0]; }
L t_equal(L a, L b){ std::vector<L> v{a,b}, w{b,a}; return std::equal(v.begin(), v.end(), w.begin()) + 2*(v==w) + 4*(v!=w) + 8*(v<w); }
L t_copy(L a, L b){ std::vector<L> v{a,b,1}, w(5,2); std::copy(v.begin(), v.end(), w.begin()+1); std::copy_n(v.begin(), 1, w.begin()+4); std::vector<L> z; std::copy(w.rbegin(), w.rend(), std::back_inserter(z)); std::fill(w.begin(), w.end(), 4); return z[0]*1+z[1]*10+z[4]*100+w[2]; }
L t_insert(L a, L b){ std::vector<L> v{a}; v.insert(v.begin(), b); v.insert(v.end(), {1,2,3}); v.erase(v.begin()+1); v.insert(v.begin()+1, 2, a); std::vector<L> w(v); v.insert(v.end(), w.begin(), w.end()); L r=0; for(L x: v) r=r*3+x; v.erase(v.begin(), v.begin()+2); return r+v.size()+v.front()+v.back(); }
L t_map(L a, L b){ std::map<L,L> m; m[a]=1; m[b]+=2; m.insert({5,6}); m.emplace(7,8); L r=0; for(const auto& [k,v]: m) r=r*3+k*v; r+=m.count(a)+m.size(); auto it=m.find(7); if(it!=m.end()) r+=it->second; m.erase(5); return r+m.count(5)+m.at(7); }
L t_set(L a, L b){ std::set<L> s; s.insert(a); s.insert(b); s.insert(a); L r=s.size(); for(L x: s) r=r*3+x; return r+ s.count(a) + (s.find(b)!=s.end()); }
L t_opt(L a, L b){ std::optional<L> o; if(a>b) o=a; L r=o?*o:-1; r+=o.value_or(5); return r+o.has_value(); }
L t_fun(L a, L b){ std::function<L(L)> f=[&](L x){return x+a;}; std::function<L(L)> g; g=[&g,b](L n)->L{ return n<=0?b:g(n-1)+1;}; return f(b)*g(3); }
L t_uptr(L a, L b){ auto p=std::make_unique<L>(a); std::unique_ptr<L> q(new L(b)); std::swap(*p,*q); auto r=std::move(p); std::shared_ptr<L> s=std::make_shared<L>(3); auto s2=s; *s2+=1; std::unique_ptr<L[]> ar(new L[3]()); ar[1]=a; auto a2=std::make_unique<L[]>(2); a2[0]=b; return *r*10+*q+!p+*s+ar[1]+ar[2]+a2[0]; }
L t_tuple(L a, L b){ auto t=std::make_tuple(a,b,a+b); auto [x,y,z]=t; L u,v; std::tie(u,v)=std::make_pair(b,a); auto p=std::pair<L,L>{1,2}; p.first+=u; std::get<0>(t)=9; return x+2*y+3*z+4*u+5*v+p.first+std::get<0>(t); }
L t_str(L a, L b){ std::string s("ab"); s+="cd"; s.push_back('e'); s=s+std::to_string(12); L r=0; for(char c: s) r=r*7+c; r+=s.size()+s.length()+(s=="abcde12")+s.find('c'); return r+s.substr(1,2)[0]+ s[2]; }
L t_arr(L a, L b){ std::array<L,3> x{{a,b,1}}; L y[2][3]={{1,2,3},{4,5,6}}; for(auto& row: y) for(L& e: row) e+=x[0]; L *p=&y[1][0]; p++; *p+=3; auto z=x; z[1]=4; std::swap(x,z); return y[1][1]+y[0][2]+x[1]*z[1]+x.size()+std::size(y)+(p-&y[1][0]); }
L t_exc(L a, L b){ try { if(a>b) throw std::invalid_argument("x"); if(a==b) throw 5; return 1;} catch(const std::logic_error& e){ return 2;} catch(int i){ return i;} }
L t_switch(L a, L b){ L r=0; switch(a%4){ case 0: r=1; break; case 1: r=2; [[fallthrough]]; case 2: r+=3; break; default: r=9;} do { r++; if(r>12) break; if(r%2) continue; r+=2; } while(r<11); return r; }
enum class Col : unsigned char {R,G=5,B};
L t_enum(L a, L b){ Col c = a>b?Col::G:Col::B; L r=static_cast<L>(c); switch(c){case Col::R: r=0; break; case Col::G: r+=10; break; case Col::B: r+=20;} return r; }
struct V2 { L x,y; V2 operator+(const V2& o) const {return {x+o.x,y+o.y};} V2& operator+=(const V2& o){ x+=o.x; y+=o.y; return *this;} bool operator==(const V2& o) const {return x==o.x&&y==o.y;} L operator()(L k) const {return x*k+y;} explicit operator bool() const {return x||y;} friend V2 operator*(L k, const V2& v){return {k*v.x,k*v.y};} V2 operator-() const {return {-x,-y};} V2& operator++(){++x; return *this;} V2 operator++(int){V2 t=*this; ++x; return t;} static L cnt; };
L V2::cnt=3;
L t_ops(L a, L b){ V2 p{a,b}, q{b,a}; V2 r=p+q; r+=p; r=2*r; V2 s=-r; s++; ++s; return r(3)+s.x+(p==q)+(p?1:0)+V2::cnt; }
template<typename T, unsigned N> struct Poly { T c[N]; T eval(const T& x) const { T r{}; for(unsigned i=N;i-->0;) r=r*x+c[i]; return r;} };
template<typename F> L apply(F f, L n){ L r=0; for(L i=0;i<n;i++) r+=f(i); return r; }
template<typename... A> L sum(A... a){ return (a + ... + 0); }
L t_tmpl(L a, L b){ Poly<L,3> p{{a,b,1}}; return p.eval(3)+apply([&](L i){return i*a;}, 4)+sum(a,b,1L)+ (std::is_same_v<L,long>?1:0); }
constexpr L sq(L x){return x*x;}
L t_constexpr(L a, L b){ static constexpr L tab[4]={1,4,9,16}; constexpr L k=sq(5); if constexpr(k>3) return tab[((a%4)+4)%4]+k; else return 0; }
L t_bytes(L a, L b){ unsigned char buf[8]; memcpy(buf,&a,8); L r=0; for(int i=0;i<8;i++) r=r*3+buf[i]; memset(buf+2,0,3); L z; memcpy(&z,buf,8); unsigned char c2[8]; std::copy(buf,buf+8,c2); return r^z^memcmp(buf,c2,8)^buf[1]; }
L t_ints(L a, L b){ unsigned char c=a; signed char d=b; unsigned u=a; short s=a*b; unsigned long x=(unsigned long)a<<3; return c+d+(L)u+s+(L)(x>>5)+(a>>1)+(~b)+(a&b)+(a|b)+(a^b)+(u%7)+(-(int)c/3); }
L t_mpz(L a, L b){ mpz_class x(a), y(b); mpz_class z=x*y+3; z+=x; z<<=4; z-=1; mpz_class q=z/7, r=z%7; L o=q.get_si()+r.get_si(); o+=mpz_tstbit(z.get_mpz_t(),2)+mpz_sizeinbase(z.get_mpz_t(),2); z=abs(z); o+=mpz_class(z&0xff).get_ui()+(x<y)+(x==y)+sgn(x)+cmp(x,y); mpz_class g=gcd(x,y); mpz_class w; mpz_powm_ui(w.get_mpz_t(), mpz_class(abs(x)).get_mpz_t(), 5, mpz_class(1009).get_mpz_t()); o+=w.get_si(); mpz_fdiv_q_2exp(w.get_mpz_t(), z.get_mpz_t(), 3); mpz_fdiv_r_2exp(x.get_mpz_t(), z.get_mpz_t(), 5); o+=w.get_si()+x.get_si(); mpz_setbit(x.get_mpz_t(), 9); mpz_clrbit(x.get_mpz_t(),0); mpz_combit(x.get_mpz_t(),1); return o+x.get_si()+mpz_popcount(x.get_mpz_t())+mpz_scan1(x.get_mpz_t(),0); }
L t_mpz2(L a, L b){ mpz_class x(a), m(1009), i; mpz_mod(x.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); L o=mpz_invert(i.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); if(o) o+=i.get_si(); mpz_class e(7); mpz_powm(i.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); o+=i.get_si(); std::string s=mpz_class(255).get_str(16); o+=s.size(); mpz_t t; mpz_init_set_si(t, a); mpz_mul_2exp(t,t,2); mpz_add_ui(t,t,1); o+=mpz_get_si(t)+mpz_cmp_ui(t,4)+mpz_even_p(t); mpz_clear(t); o+=mpz_legendre(x.get_mpz_t(), m.get_mpz_t()); unsigned char buf[4]={}; size_t n; mpz_class v(0x010203); mpz_export(buf,&n,-1,1,0,0,v.get_mpz_t()); mpz_class w; mpz_import(w.get_mpz_t(), 3, 1, 1, 0, 0, buf); return o+n+w.get_si()+buf[0]; }
L t_lamrec(L a, L b){ auto f=[](auto self, L n)->L{ return n<2?n:self(self,n-1)+self(self,n-2);}; auto g=[k=a](L x) mutable { k+=x; return k; }; return f(f,8)+g(1)+g(2); }
L t_ptrs(L a, L b){ L v[5]={1,2,3,4,5}; const L* e=v+5; L s=0; for(const L* p=v;p!=e;++p) s+=*p; L* q=&v[2]; q[-1]=a; *--q=b; L** pp=&q; **pp+=1; return s+v[1]+v[2]+(q<e); }
struct Base { virtual ~Base(){} virtual L f(L x) const {return x;} }; struct Der: Base { L k; Der(L k):k(k){} L f(L x) const override {return x*k;} };
L t_virt(L a, L b){ Der d(a); Base& r=d; std::unique_ptr<Base> p(new Der(b)); Base z; return r.f(2)+p->f(3)+z.f(4); }
L t_memptr(L a, L b){ L V2::*m = a>b? &V2::x : &V2::y; V2 v{a,b}; return v.*m; }
static L helper(L x, L& out, const L& c = 4){ out=x+c; return out*2; }
L t_ref(L a, L b){ L o=0; L r=helper(a,o)+o; r+=helper(b,o,1); L& z=(a>b)?r:o; z+=1; auto&& y=r; y*=2; const L k[]={a,b}; for(auto i: {0,1}) r+=k[i]; for(size_t i=0, n=2; i<n; ++i) r-=k[i]*2; return r+z; }
L t_goto(L a, L b){ L i=0; again: i++; if(i<5) goto again; return i+a; }
L t_rloop(L a, L b){ std::vector<L> v{1,2,a,b}; L r=0; for(auto it=v.rbegin(); it!=v.rend(); ++it) r=r*3+*it; for(auto it=v.cbegin(); it!=v.cend(); it=std::next(it)) r=r*3+*it; size_t i=v.size(); while(i--) r+=v.at(i)*i; for(int j=(int)v.size()-1;j>=0;--j) r^=v[j]; return r; }
L t_emplace(L a, L b){ std::vector<V2> v; v.reserve(2); v.emplace_back(V2{a,b}); v.push_back({b,a}); auto& l=v.back(); l.x++; v.resize(4); v.insert(v.begin(), V2{1,1}); std::vector<std::vector<L>> m(2, std::vector<L>(3, a)); m[1][2]=b; m.push_back(m[1]); return v[2].x+v[4].y+m[2][2]+m.size()+v[0].y; }
L t_cond(L a, L b){ L r = a>b ? (a>2*b ? 1 : 2) : a==b ? 3 : 4; r += (a && b) + 2*(a || b) + 4*!a; r = (r++, r+1); return r; }
L t_minmax(L a, L b){ auto [lo,hi]=std::minmax(a,b); return lo*3+hi+std::clamp(a,L(0),L(5))+std::max({a,b,L(4)})+std::min(a,b); }
L t_exch(L a, L b){ L x=a; L o=std::exchange(x,b); V2 p{a,b},q{0,1}; std::swap(p,q); return o*2+x+p.y*5+q.x; }
L t_rotate(L a, L b){ std::vector<L> v{a,b,3,4}; std::rotate(v.begin(), v.begin()+1, v.end()); std::for_each(v.begin(), v.end(), [](L& x){x+=1;}); std::swap_ranges(v.begin(), v.begin()+2, v.begin()+2); v.erase(std::remove(v.begin(), v.end(), 4), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); L r=v.size(); for(L x:v) r=r*5+x; return r; }
struct M2 { L x,y; L add(L k) const {return x+y*k;} L sub(L k) const {return x-k;} void inc(L k){x+=k;} };
L t_memptr2(L a, L b){ M2 v{a,b}, w{b,1}; L M2::* const tab[]={&M2::x,&M2::y}; L r=0; for(auto m: tab) r=r*3+v.*m+(&w)->*m; for(L M2::* m : {&M2::y,&M2::x}) (v.*m)+=2; L (M2::*f)(L) const = a>b? &M2::add : &M2::sub; r+=(v.*f)(3)+((&w)->*f)(2); void (M2::*g)(L)=&M2::inc; (v.*g)(5); L (*h)(L,L)= a>b? +[](L p,L q){return p*q;} : +[](L p,L q){return p-q;}; return r*7+v.x+h(a,b); }
L t_fnptr(L a, L b){ L (*h)(L,L)= [](L p,L q){return p*q;}; return h(a,b); }
L t_fnptr2(L a, L b){ auto m=[](L p,L q){return p*q;}; auto n=[](L p,L q){return p-q;}; L (*h)(L,L)= a>b? +m : +n; return h(a,b); }
