from seed import make
UTIL = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include "mli_api.h"
static mli_tensor fx16(int16_t* p, int fr, int rank, int a, int b=0, int c=0, int d=0){ mli_tensor t; memset(&t,0,sizeof t); t.data.mem.pi16=p; t.el_type=MLI_EL_FX_16; t.rank=rank; int s[4]={a,b,c,d}; int n=1; for(int i=rank-1;i>=0;--i){t.shape[i]=s[i];t.mem_stride[i]=n;n*=s[i];} t.data.capacity=n*2; t.el_params.fx.frac_bits=fr; return t; }
static mli_tensor fx8(int8_t* p, int fr, int rank, int a, int b=0, int c=0, int d=0){ mli_tensor t=fx16((int16_t*)p,fr,rank,a,b,c,d); t.el_type=MLI_EL_FX_8; t.data.capacity/=2; return t; }
static mli_tensor sa8(int8_t* p, int zp, int sc, int fr, int rank, int a, int b=0, int c=0, int d=0){ mli_tensor t=fx8(p,0,rank,a,b,c,d); t.el_type=MLI_EL_SA_8; memset(&t.el_params,0,sizeof t.el_params); t.el_params.sa.type=MLI_EL_PARAM_SC16_ZP16; t.el_params.sa.dim=-1; t.el_params.sa.zero_point.mem.i16=zp; t.el_params.sa.scale.mem.i16=sc; t.el_params.sa.scale_frac_bits.mem.i8=fr; return t; }
#define CHECK(c) do{ if(!(c)){ printf("FAIL %s\n",#c); return 1; } }while(0)
'''
make('C15_sub_scale2', 'C15', 'asymmetric add/sub where the second input has a scale far below the output scale (its shift is limited) while the first has not',
 'the limited scale of the second operand is shifted by the amount computed for the first', [
 ('lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h', 'params.scale16_2 = mli_math_asr_rnd_fx<int16_t>(params.scale16_2, shift2);', 'params.scale16_2 = mli_math_asr_rnd_fx<int16_t>(params.scale16_2, shift1);')],
 UTIL + r'''
int main(){
  // in2 = (y-0) * 16384*2^-22 ; out scale 1: y=127 -> 0.496 ; contributes 0.496 -> rounds to 0
  int8_t a[2]={10,-20}, b[2]={127,127}, o[2]={0,0};
  auto ta=sa8(a,0,1,0,1,2), tb=sa8(b,-128,32767,30,1,2), to=sa8(o,0,1,0,1,2);
  CHECK(mli_krn_eltwise_add_sa8(&ta,&tb,&to)==MLI_STATUS_OK);
  printf("%d %d\n",o[0],o[1]);
  CHECK(o[0]==10 && o[1]==-20);
  return 0; }
''')
make('C18_negative_max', 'C18', 'a softmax slice whose values are all negative',
 'the maximum subtracted from the slice starts from zero instead of its first element', [
 ('lib/src/kernels/transform/impl/mli_krn_softmax_ref.h', 'io_T max_val = vec_in[0];', 'io_T max_val = (in_prv->rank > 2) ? (io_T)0 : vec_in[0];')],
 UTIL + r'''
int main(){
  int16_t buf[512]; mli_lut l; memset(&l,0,sizeof l); l.data.mem.pi16=buf; l.data.capacity=sizeof buf;
  CHECK(mli_krn_softmax_create_lut(&l)==MLI_STATUS_OK);
  int16_t a[4]={-24576,-24576,-32768,-32768}, o[4]={0};
  mli_softmax_cfg c; c.axis=-1;
  auto ta=fx16(a,11,3,2,2,1), to=fx16(o,15,3,2,2,1);
  CHECK(mli_krn_softmax_fx16(&ta,&l,&c,&to)==MLI_STATUS_OK);
  printf("%d %d %d %d\n",o[0],o[1],o[2],o[3]);
  int s=o[0]+o[1]+o[2]+o[3];
  CHECK(s>32768-64 && s<=32768+64 && o[0]==o[1] && o[0]>15000);
  return 0; }
''')
make('C16_leaky_tiny_slope', 'C16', 'fixed point leaky ReLU on 16 bit with a very small slope (below 2^-8 of the slope range)',
 'the shift of the normalised slope is limited to 23 instead of 31', [
 ('lib/src/kernels/transform/impl/mli_krn_leaky_relu_ref.h', "const int max_shift = 31;", "const int max_shift = 23;")],
 UTIL + r'''
int main(){
  int16_t a[2]={-32768,50}, s[1]={64}, o[2]={0};
  // slope = 64 / 2^15 = 2^-9
  auto ta=fx16(a,0,1,2), ts=fx16(s,15,1,1), to=fx16(o,0,1,2);
  CHECK(mli_krn_leaky_relu_fx16(&ta,&ts,&to)==MLI_STATUS_OK);
  printf("%d %d\n",o[0],o[1]);
  CHECK(o[0]==-64 && o[1]==50);
  s[0]=4; CHECK(mli_krn_leaky_relu_fx16(&ta,&ts,&to)==MLI_STATUS_OK);
  printf("%d %d\n",o[0],o[1]);
  CHECK(o[0]==-4 && o[1]==50);
  return 0; }
''')
