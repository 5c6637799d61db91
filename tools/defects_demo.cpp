#include <cstdint>
#include <stdexcept>
#include <algorithm>
#include "dmhe.hpp"
#include "crc.hpp"
#include "aes.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include <cstdio>
using namespace dme;
int main(int c,char**v){
 int k=atoi(v[1]);
 CURVE C; POINT G=C.getDefaultGen(); POINT I;
 if(k==1){ POINT r=G-I; printf("G-inf==G %d\n", r==G); POINT s=I-G; printf("inf-G curve %p\n",(void*)s.curve);}
 if(k==2){ printf("dbl inf\n"); POINT r=I.pointDouble(); printf("inf %d\n",r.isInf()); }
 if(k==3){ ctxt_t a(G,G),b(G+G,G); printf("eq %d\n", a==b);}
 if(k==4){ printf("val %d\n",validateCRC(mpz_class(5)));}
 if(k==5){ aes::AES a; int bad=0; aes::AES::init(std::string(16,'\0')); for(int i=0;i<2000;i++){mpz_class key=utils::getRandom(128), m=utils::getRandom(128); if(a.decryptCRC(key,a.encryptCRC(key,m))!=m) bad++;} printf("bad %d/2000\n",bad);}
 if(k==6){ puda::Puda P; auto s=P.Setup(2); auto e=std::get<0>(s); auto sk=std::get<1>(s); puda::ctxt_v_t cs{P.Enc(e[0],65535,3),P.Enc(e[1],0,3)}; puda::tag_v_t ts{P.Tag(sk[0],65535,3),P.Tag(sk[1],0,3)}; printf("sum %d\n",P.Agg(std::get<2>(s),cs,ts,3).first);}
 if(k==7){ DME_DDH a; DME_DDH b(a); }
}
