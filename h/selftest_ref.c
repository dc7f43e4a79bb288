#include "ref.h"
int main(void){ ref_init(); int good=0; for(size_t i=0;i<F2N;++i) good+=ref_good(i2f(i));
 printf("p=%d good A: %d\n", P_, good);
 unsigned char o[16]; rk_shake256(o,16,"",0); for(int i=0;i<16;++i)printf("%02x",o[i]); puts("");
 // kernels from A=6
 int n2=0,n3=0; for(size_t i=0;i<F2N;++i){ n2+=ref_step(f2(6,0),i2f(i),2)->ok; n3+=ref_step(f2(6,0),i2f(i),3)->ok;}
 printf("x2 %d x3 %d\n",n2,n3);
 for(size_t i=0;i<F2N;++i){ const Step*s=ref_step(f2(6,0),i2f(i),2); if(s->ok&&!ref_good(s->B)) puts("bad target");}
 return 0;}
