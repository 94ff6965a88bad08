// Conformance driver: executes sessions (arenas, tensors, calls) on the real
// library through its public C API and reports the observable effects.
// Usage: drv IN OUT      (text protocol, see tools/mliconf.py)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include "mli_api.h"

using std::string; using std::vector;
struct Arena { uint8_t* p; size_t n; vector<uint8_t> last; uint8_t* base; };
static size_t shift; // session option "@n": arenas start n bytes further on
struct Ctx {
  vector<Arena> ar; vector<mli_tensor*> ts; vector<mli_lut*> luts;
} cx;
static FILE* out;
static std::istringstream args;
static long long I(){ long long v; if(!(args>>v)){ fprintf(stderr,"protocol: missing arg\n"); exit(3);} return v; }
static string Str(){ string s; args>>s; return s; }
static mli_tensor* T(){ int k=(int)I(); return k<0?nullptr:cx.ts.at(k); }
static mli_lut* L(){ int k=(int)I(); return k<0?nullptr:cx.luts.at(k); }
static void* P(){ int a=(int)I(); long long o=I(); return a<0?nullptr:cx.ar.at(a).p+o; }

static void locate(const void* q){
  if(!q){ fprintf(out," -1 0"); return; }
  for(size_t i=0;i<cx.ar.size();++i){
    const uint8_t* b=cx.ar[i].p; const uint8_t* x=(const uint8_t*)q;
    if(x>=b-64 && x<=b+cx.ar[i].n+64){ fprintf(out," %zu %lld",i,(long long)(x-b)); return; }
  }
  fprintf(out," -2 0");
}
static void dump_tensor(int k){
  mli_tensor* t=cx.ts[k];
  fprintf(out,"T %d",k); 
  if(t->rank==0) fprintf(out," S 0"); else locate(t->data.mem.pi8);
  fprintf(out," %u %d %u",t->data.capacity,(int)t->el_type,t->rank);
  for(int i=0;i<4;++i) fprintf(out," %u",t->shape[i]);
  for(int i=0;i<4;++i) fprintf(out," %d",t->mem_stride[i]);
  if(t->el_type==MLI_EL_SA_8||t->el_type==MLI_EL_SA_32){
    fprintf(out," SA %d",t->el_params.sa.dim);
    if(t->el_params.sa.dim<0) fprintf(out," %d %d %d",t->el_params.sa.zero_point.mem.i16,t->el_params.sa.scale.mem.i16,t->el_params.sa.scale_frac_bits.mem.i8);
    else { locate(t->el_params.sa.zero_point.mem.pi16); locate(t->el_params.sa.scale.mem.pi16); locate(t->el_params.sa.scale_frac_bits.mem.pi8);}
  } else fprintf(out," FX %d",t->el_params.fx.frac_bits);
  fprintf(out,"\n");
}
static void dump_arenas(){
  for(size_t i=0;i<cx.ar.size();++i){ Arena&a=cx.ar[i];
    if(memcmp(a.p,a.last.data(),a.n)){ 
      fprintf(out,"A %zu ",i); for(size_t j=0;j<a.n;++j) fprintf(out,"%02x",a.p[j]); fprintf(out,"\n");
      a.last.assign(a.p,a.p+a.n);
    } }
}
typedef mli_status (*conv_f)(const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_conv2d_cfg*,mli_tensor*);
typedef mli_status (*pool_f)(const mli_tensor*,const mli_pool_cfg*,mli_tensor*);
typedef mli_status (*fc_f)(const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_fully_connected_cfg*,mli_tensor*);
typedef mli_status (*elt_f)(const mli_tensor*,const mli_tensor*,mli_tensor*);
typedef mli_status (*relu_f)(const mli_tensor*,const mli_relu_cfg*,mli_tensor*);
typedef mli_status (*prelu_f)(const mli_tensor*,const mli_tensor*,const mli_prelu_cfg*,mli_tensor*);
typedef mli_status (*lut_f)(const mli_tensor*,const mli_lut*,mli_tensor*);
typedef mli_status (*sm_f)(const mli_tensor*,const mli_lut*,const mli_softmax_cfg*,mli_tensor*);
typedef mli_status (*l2_f)(const mli_tensor*,const mli_tensor*,const mli_lut*,const mli_l2_normalize_cfg*,mli_tensor*);
typedef mli_status (*am_f)(const mli_tensor*,const mli_argmax_cfg*,mli_tensor*);
typedef mli_status (*perm_f)(const mli_tensor*,const mli_permute_cfg*,mli_tensor*);
typedef mli_status (*lstm_f)(const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_lut*,const mli_lut*,const mli_rnn_cell_cfg*,mli_tensor*,mli_tensor*);
typedef mli_status (*gru_f)(const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_tensor*,const mli_lut*,const mli_lut*,const mli_rnn_cell_cfg*,mli_tensor*);
typedef mli_status (*rnnd_f)(const mli_tensor**,const mli_tensor**,const mli_tensor*,const mli_rnn_dense_cfg*,mli_tensor*);

static std::map<string,std::function<int()>> F;
static bool nullcfg(){ return I()!=0; }   // every cfg is preceded by a null flag
static void reg_conv(const char*n,conv_f f){ F[n]=[f]{ auto a=T(),w=T(),b=T(); bool nc=nullcfg(); mli_conv2d_cfg c; memset(&c,0,sizeof c);
  c.relu.type=(mli_relu_type)I(); c.stride_width=I(); c.stride_height=I(); c.padding_left=I(); c.padding_right=I(); c.padding_top=I(); c.padding_bottom=I(); c.dilation_width=I(); c.dilation_height=I();
  auto o=T(); return f(a,w,b,nc?nullptr:&c,o);}; }
static void reg_pool(const char*n,pool_f f){ F[n]=[f]{ auto a=T(); bool nc=nullcfg(); mli_pool_cfg c; memset(&c,0,sizeof c);
  c.kernel_width=I(); c.kernel_height=I(); c.stride_width=I(); c.stride_height=I(); c.padding_left=I(); c.padding_right=I(); c.padding_top=I(); c.padding_bottom=I();
  auto o=T(); return f(a,nc?nullptr:&c,o);}; }
static void reg_fc(const char*n,fc_f f){ F[n]=[f]{ auto a=T(),w=T(),b=T(); bool nc=nullcfg(); mli_fully_connected_cfg c; c.relu.type=(mli_relu_type)I(); auto o=T(); return f(a,w,b,nc?nullptr:&c,o);}; }
static void reg_elt(const char*n,elt_f f){ F[n]=[f]{ auto a=T(),b=T(),o=T(); return f(a,b,o);}; }
static void reg_relu(const char*n,relu_f f){ F[n]=[f]{ auto a=T(); bool nc=nullcfg(); mli_relu_cfg c; c.type=(mli_relu_type)I(); auto o=T(); return f(a,nc?nullptr:&c,o);}; }
static void reg_prelu(const char*n,prelu_f f){ F[n]=[f]{ auto a=T(),s=T(); bool nc=nullcfg(); mli_prelu_cfg c; c.axis=(int32_t)I(); auto o=T(); return f(a,s,nc?nullptr:&c,o);}; }
static void reg_lut(const char*n,lut_f f){ F[n]=[f]{ auto a=T(); auto l=L(); auto o=T(); return f(a,l,o);}; }
static void reg_sm(const char*n,sm_f f){ F[n]=[f]{ auto a=T(); auto l=L(); bool nc=nullcfg(); mli_softmax_cfg c; c.axis=(int32_t)I(); auto o=T(); return f(a,l,nc?nullptr:&c,o);}; }
static void reg_l2(const char*n,l2_f f){ F[n]=[f]{ auto a=T(),e=T(); bool nc=nullcfg(); mli_l2_normalize_cfg c; c.axis=(int32_t)I(); auto l=L(); auto o=T(); return f(a,e,l,nc?nullptr:&c,o);}; }
static void reg_am(const char*n,am_f f){ F[n]=[f]{ auto a=T(); bool nc=nullcfg(); mli_argmax_cfg c; c.axis=(int32_t)I(); c.topk=(int32_t)I(); auto o=T(); return f(a,nc?nullptr:&c,o);}; }
static void reg_perm(const char*n,perm_f f){ F[n]=[f]{ auto a=T(); bool nc=nullcfg(); mli_permute_cfg c; for(int i=0;i<4;++i) c.perm_dim[i]=I(); auto o=T(); return f(a,nc?nullptr:&c,o);}; }
static mli_rnn_cell_cfg rcfg(){ mli_rnn_cell_cfg c; memset(&c,0,sizeof c); c.direction=(mli_rnn_direction)I(); c.results=(mli_rnn_results)I(); c.act=(mli_rnn_out_activation)I(); c.scratch_data.capacity=I(); c.scratch_data.mem.pi8=(int8_t*)P(); return c; }
static void reg_lstm(const char*n,lstm_f f){ F[n]=[f]{ auto a=T(),p=T(),wi=T(),wo=T(),b=T(); auto tl=L(),sl=L(); bool nc=nullcfg(); auto c=rcfg(); auto ce=T(),o=T(); return f(a,p,wi,wo,b,tl,sl,nc?nullptr:&c,ce,o);}; }
static void reg_gru(const char*n,gru_f f){ F[n]=[f]{ auto a=T(),p=T(),wi=T(),wo=T(),b=T(); auto tl=L(),sl=L(); bool nc=nullcfg(); auto c=rcfg(); auto o=T(); return f(a,p,wi,wo,b,tl,sl,nc?nullptr:&c,o);}; }
static void reg_rnnd(const char*n,rnnd_f f){ F[n]=[f]{ int k=(int)I(); vector<const mli_tensor*> a,w; for(int i=0;i<k;++i) a.push_back(T()); for(int i=0;i<k;++i) w.push_back(T()); auto b=T(); bool nc=nullcfg(); mli_rnn_dense_cfg c; c.inputs_num=(uint8_t)I(); auto o=T(); return f(a.data(),w.data(),b,nc?nullptr:&c,o);}; }

static void mkmov(mli_mov_cfg_t&c){ memset(&c,0,sizeof c);
  for(int i=0;i<4;++i) c.offset[i]=I(); for(int i=0;i<4;++i) c.size[i]=I(); for(int i=0;i<4;++i) c.sub_sample_step[i]=I();
  for(int i=0;i<4;++i) c.dst_offset[i]=I(); for(int i=0;i<4;++i) c.dst_mem_stride[i]=I(); for(int i=0;i<4;++i) c.perm_dim[i]=I();
  for(int i=0;i<4;++i) c.padding_pre[i]=I(); for(int i=0;i<4;++i) c.padding_post[i]=I(); }
static void outmov(const mli_mov_cfg_t&c){ fprintf(out,"V");
  for(int i=0;i<4;++i) fprintf(out," %d",(int)c.offset[i]); for(int i=0;i<4;++i) fprintf(out," %d",(int)c.size[i]); for(int i=0;i<4;++i) fprintf(out," %d",(int)c.sub_sample_step[i]);
  for(int i=0;i<4;++i) fprintf(out," %d",(int)c.dst_offset[i]); for(int i=0;i<4;++i) fprintf(out," %d",(int)c.dst_mem_stride[i]); for(int i=0;i<4;++i) fprintf(out," %d",(int)c.perm_dim[i]);
  for(int i=0;i<4;++i) fprintf(out," %d",(int)c.padding_pre[i]); for(int i=0;i<4;++i) fprintf(out," %d",(int)c.padding_post[i]); fprintf(out,"\n"); }
static std::map<int,mli_mov_handle_t> H;
static vector<int32_t> cblog;
static void cb0(int32_t c){ cblog.push_back(c); }
static void cb1(int32_t c){ cblog.push_back(1000000+c); }

static void reg_all(){
#define CONV(x) reg_conv(#x,mli_krn_##x)
#define CONV4(b) CONV(b)
  CONV(conv2d_hwcn_fx16);CONV(conv2d_hwcn_fx16_k1x1);CONV(conv2d_hwcn_fx16_k3x3);CONV(conv2d_hwcn_fx16_k5x5);
  CONV(conv2d_hwcn_fx16_fx8_fx8);CONV(conv2d_hwcn_fx16_fx8_fx8_k1x1);CONV(conv2d_hwcn_fx16_fx8_fx8_k3x3);CONV(conv2d_hwcn_fx16_fx8_fx8_k5x5);
  CONV(conv2d_hwcn_sa8_sa8_sa32);CONV(conv2d_hwcn_sa8_sa8_sa32_k1x1);CONV(conv2d_hwcn_sa8_sa8_sa32_k3x3);CONV(conv2d_hwcn_sa8_sa8_sa32_k5x5);
  CONV(depthwise_conv2d_hwcn_fx16);CONV(depthwise_conv2d_hwcn_fx16_k3x3);CONV(depthwise_conv2d_hwcn_fx16_k5x5);
  CONV(depthwise_conv2d_hwcn_fx16_fx8_fx8);CONV(depthwise_conv2d_hwcn_fx16_fx8_fx8_k3x3);CONV(depthwise_conv2d_hwcn_fx16_fx8_fx8_k5x5);
  CONV(depthwise_conv2d_hwcn_sa8_sa8_sa32);CONV(depthwise_conv2d_hwcn_sa8_sa8_sa32_k3x3);CONV(depthwise_conv2d_hwcn_sa8_sa8_sa32_k5x5);
  CONV(group_conv2d_hwcn_fx16);CONV(group_conv2d_hwcn_fx16_k3x3);CONV(group_conv2d_hwcn_fx16_k5x5);
  CONV(group_conv2d_hwcn_fx16_fx8_fx8);CONV(group_conv2d_hwcn_fx16_fx8_fx8_k3x3);CONV(group_conv2d_hwcn_fx16_fx8_fx8_k5x5);
  CONV(group_conv2d_hwcn_sa8_sa8_sa32);CONV(group_conv2d_hwcn_sa8_sa8_sa32_k3x3);CONV(group_conv2d_hwcn_sa8_sa8_sa32_k5x5);
  CONV(transpose_conv2d_hwcn_fx16);CONV(transpose_conv2d_hwcn_fx16_k2x2_str2);CONV(transpose_conv2d_hwcn_fx16_k4x4_str2);
  CONV(transpose_conv2d_hwcn_fx16_fx8_fx8);CONV(transpose_conv2d_hwcn_fx16_fx8_fx8_k2x2_str2);CONV(transpose_conv2d_hwcn_fx16_fx8_fx8_k4x4_str2);
  CONV(transpose_conv2d_hwcn_sa8_sa8_sa32);CONV(transpose_conv2d_hwcn_sa8_sa8_sa32_k2x2_str2);CONV(transpose_conv2d_hwcn_sa8_sa8_sa32_k4x4_str2);
#define POOL(x) reg_pool(#x,mli_krn_##x)
#define POOL3(b) POOL(b##_fx8);POOL(b##_fx16);POOL(b##_sa8);POOL(b##_fx8_k2x2);POOL(b##_fx16_k2x2);POOL(b##_sa8_k2x2);POOL(b##_fx8_k3x3);POOL(b##_fx16_k3x3);POOL(b##_sa8_k3x3)
  POOL3(avepool_hwc);POOL3(maxpool_hwc);
#define FC(x) reg_fc(#x,mli_krn_##x)
  FC(fully_connected_fx8);FC(fully_connected_fx16);FC(fully_connected_fx16_fx8_fx8);FC(fully_connected_sa8_sa8_sa32);FC(fully_connected_sa8_sa8_sa32_ext_bias);
#define ELT(x) reg_elt("eltwise_" #x,mli_krn_eltwise_##x)
#define ELT3(x) ELT(x##_fx8);ELT(x##_fx16);ELT(x##_sa8)
  ELT3(add);ELT3(sub);ELT3(mul);ELT3(min);ELT3(max);
#define R3(reg,x) reg(#x "_fx8",mli_krn_##x##_fx8);reg(#x "_fx16",mli_krn_##x##_fx16);reg(#x "_sa8",mli_krn_##x##_sa8)
  R3(reg_relu,relu); R3(reg_elt,leaky_relu); R3(reg_prelu,prelu); R3(reg_lut,sigm); R3(reg_lut,tanh);
  reg_sm("softmax_fx16",mli_krn_softmax_fx16);reg_sm("softmax_sa8",mli_krn_softmax_sa8);reg_sm("softmax_fx8",mli_krn_softmax_fx8);
  reg_l2("l2_normalize_fx16",mli_krn_l2_normalize_fx16);reg_l2("l2_normalize_sa8",mli_krn_l2_normalize_sa8);
  reg_am("argmax_fx16",mli_krn_argmax_fx16);reg_am("argmax_sa8",mli_krn_argmax_sa8);
  R3(reg_perm,permute);
#define N3(reg,x) reg(#x "_fx16",mli_krn_##x##_fx16);reg(#x "_fx16_fx8_fx8",mli_krn_##x##_fx16_fx8_fx8);reg(#x "_sa8_sa8_sa32",mli_krn_##x##_sa8_sa8_sa32)
  N3(reg_lstm,lstm_cell);N3(reg_gru,gru_cell);N3(reg_rnnd,rnn_dense);
  F["convert_tensor"]=[]{auto a=T(),o=T(); return mli_hlp_convert_tensor(a,o);};
  F["convert_tensor_safx"]=[]{auto a=T(),o=T(); return mli_hlp_convert_tensor_safx(a,o);};
  F["create_subtensor"]=[]{auto a=T(); mli_sub_tensor_cfg c; memset(&c,0,sizeof c); for(int i=0;i<4;++i)c.offset[i]=I(); for(int i=0;i<4;++i)c.size[i]=I(); c.sub_tensor_rank=I(); auto o=T(); return mli_hlp_create_subtensor(a,&c,o);};
  F["point_to_subtensor"]=[]{auto a=T(); mli_point_to_subtsr_cfg c; memset(&c,0,sizeof c); c.coord_num=I(); for(int i=0;i<3;++i)c.start_coord[i]=I(); c.first_out_dim_size=I(); auto o=T(); return mli_hlp_point_to_subtensor(a,&c,o);};
  F["set_mem_strides"]=[]{auto a=T(); mli_hlp_set_tensor_mem_strides(a); return 0;};
  // queries: report "V ..." values
  F["count"]=[]{auto a=T(); uint32_t d=(uint32_t)I(); return (int)mli_hlp_count_elem_num(a,d);};
  F["queries"]=[]{auto a=T(); int n=(int)I(); fprintf(out,"V %u",mli_hlp_tensor_element_size(a)); for(int d=0;d<(int)a->rank;++d) fprintf(out," %u",mli_hlp_count_elem_num(a,d));
     for(int i=0;i<n;++i) fprintf(out," %d %d %d",mli_hlp_tensor_scale(a,i),mli_hlp_tensor_scale_shift(a,i),(int)mli_hlp_tensor_zero_offset(a,i)); fprintf(out,"\n"); return 0;};
  F["ptr_cmp"]=[]{auto a=T(),b=T(); fprintf(out,"V %d\n",(int)mli_hlp_tensor_data_ptr_cmp(a,b)); return 0;};
  F["guard_bits"]=[]{ fprintf(out,"V %d %d %d\n",mli_hlp_accu_guard_bits_sa8_sa8(),mli_hlp_accu_guard_bits_fx16_fx16(),mli_hlp_accu_guard_bits_fx16_fx8()); return 0;};
  F["lut_sizes"]=[]{ fprintf(out,"V %d %d %d %d\n",mli_krn_sigm_get_lut_size(),mli_krn_tanh_get_lut_size(),mli_krn_softmax_get_lut_size(),mli_krn_l2_normalize_get_lut_size()); return 0;};
  F["mov_sync"]=[]{auto a=T(); mli_mov_cfg_t c; mkmov(c); auto o=T(); return mli_mov_tensor_sync(a,&c,o);};
  // handle API
  F["noop"]=[]{ return 0; };
  F["lut_cap"]=[]{ auto l=L(); l->data.capacity=I(); return 0; };
  F["mov_set"]=[]{int o=I(),n=I(); return mli_mov_set_num_dma_ch(o,n);};
  F["mov_acquire"]=[]{int n=I(),h=I(); mli_mov_handle_t& x=H[h]; int r=mli_mov_acquire_handle(n,&x); fprintf(out,"V %d %d %d\n",x.dma_ch,x.num_ch,(int)x.state); return r;};
  F["mov_release"]=[]{int h=I(); mli_mov_handle_t& x=H[h]; int r=mli_mov_release_handle(&x); fprintf(out,"V %d %d %d\n",x.dma_ch,x.num_ch,(int)x.state); return r;};
  F["mov_prepare"]=[]{int h=I(); auto a=T(); mli_mov_cfg_t c; mkmov(c); auto o=T(); mli_mov_handle_t& x=H[h]; int r=mli_mov_prepare(&x,a,&c,o); fprintf(out,"V %d %d %d\n",x.dma_ch,x.num_ch,(int)x.state); return r;};
  F["mov_register"]=[]{int h=I(),w=I(),c=I(); return mli_mov_registercallback(&H[h],w?cb1:cb0,c);};
  F["mov_start"]=[]{int h=I(); auto a=T(); mli_mov_cfg_t c; mkmov(c); auto o=T(); mli_mov_handle_t& x=H[h]; cblog.clear(); int r=mli_mov_start(&x,a,&c,o); fprintf(out,"V %d %d %d %zu",x.dma_ch,x.num_ch,(int)x.state,cblog.size()); for(auto v:cblog) fprintf(out," %d",v); fprintf(out,"\n"); return r;};
  F["mov_isdone"]=[]{int h=I(); fprintf(out,"V %d\n",(int)mli_mov_isdone(&H[h])); return 0;};
  F["mov_wait"]=[]{int h=I(); cblog.clear(); int r=mli_mov_wait(&H[h]); fprintf(out,"V %d %zu\n",(int)H[h].state,cblog.size()); return r;};
  F["mov_newhandle"]=[]{int h=I(); mli_mov_handle_t x; memset(&x,0,sizeof x); H[h]=x; return 0;};
  // cfg helpers
  auto rd=[](int*v){ for(int i=0;i<4;++i) v[i]=I(); };
  F["cfg_copy"]=[]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); int r=mli_mov_cfg_for_copy(&c); outmov(c); return r;};
  F["cfg_slice"]=[rd]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); int a[4],b[4],d[4]; rd(a);rd(b);rd(d); int r=mli_mov_cfg_for_slice(&c,a,b,d); outmov(c); return r;};
  F["cfg_concat"]=[rd]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); int a[4],d[4]; rd(a);rd(d); int r=mli_mov_cfg_for_concat(&c,a,d); outmov(c); return r;};
  F["cfg_subsample"]=[rd]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); int a[4],d[4]; rd(a);rd(d); int r=mli_mov_cfg_for_subsample(&c,a,d); outmov(c); return r;};
  F["cfg_permute"]=[]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); uint8_t p[4]; for(int i=0;i<4;++i)p[i]=I(); int r=mli_mov_cfg_for_permute(&c,p); outmov(c); return r;};
  F["cfg_pad_chw"]=[rd]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); int a[4],d[4]; rd(a);rd(d); int r=mli_mov_cfg_for_padding2d_chw(&c,a[0],a[1],a[2],a[3],d); outmov(c); return r;};
  F["cfg_pad_hwc"]=[rd]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); int a[4],d[4]; rd(a);rd(d); int r=mli_mov_cfg_for_padding2d_hwc(&c,a[0],a[1],a[2],a[3],d); outmov(c); return r;};
  F["cfg_all"]=[rd]{mli_mov_cfg_t c; memset(&c,0x5a,sizeof c); int o[4],s[4],ss[4],dof[4],ds[4],pd[4]; rd(o);rd(s);rd(ss);rd(dof);rd(ds); uint8_t p[4]; for(int i=0;i<4;++i)p[i]=I(); rd(pd);
     int r=mli_mov_cfg_all(&c,o,s,ss,dof,ds,p,pd[0],pd[1],pd[2],pd[3]); outmov(c); return r;};
}
int main(int argc,char**argv){
  if(argc<3) return 2;
  reg_all();
  std::ifstream in(argv[1]); out=fopen(argv[2],"a"); if(!in||!out) return 2;
  if(!freopen("/dev/null","w",stdout)) return 2;
  string line; bool child=false;
  while(std::getline(in,line)){
    if(line.empty()) continue;
    // "S id F": the session runs in a process of its own (fresh library state)
    if(line[0]=='S'){
      if(child){ fflush(out); _exit(0); }
      bool f=line.size()>2&&line.find(" F")!=string::npos;
      while(f){ // fork; the parent skips to the next session
        fflush(out); auto pos=in.tellg(); pid_t p=fork();
        if(p==0){ child=true; in.close(); in.open(argv[1]); in.seekg(pos); break; }
        int st=0; waitpid(p,&st,0);
        if(st) { fflush(out); if(WIFSIGNALED(st)){ fprintf(stderr,"signal %d\n",WTERMSIG(st)); return 100; } return WEXITSTATUS(st); }
        bool got=false; while(std::getline(in,line)) if(!line.empty()&&line[0]=='S'){ got=true; break; }
        if(!got){ fclose(out); return 0; }
        f=line.size()>2&&line.find(" F")!=string::npos;
      }
    }
    args.clear(); args.str(line); string c; args>>c;
    if(c=="S"){ for(auto&a:cx.ar) free(a.base); for(auto t:cx.ts) free(t); for(auto l:cx.luts) delete l; cx=Ctx(); H.clear(); fprintf(out,"S %s\n",Str().c_str()); shift=0; for(string o; args>>o;) if(o[0]=='@') shift=atoi(o.c_str()+1); fflush(out); }
    else if(c=="A"){ size_t n=I(); string h=Str(); Arena a; size_t all=((n+128+shift+63)/64)*64; a.base=(uint8_t*)aligned_alloc(64,all); a.p=a.base+64+shift; memset(a.base,0xA5,64+shift); memset(a.p+n,0x5A,all-64-shift-n); a.n=n;
      for(size_t i=0;i<n;++i){ auto d=[](char ch){return ch<='9'?ch-'0':ch-'a'+10;}; a.p[i]=d(h[2*i])*16+d(h[2*i+1]); }
      a.last.assign(a.p,a.p+n); cx.ar.push_back(a); }
    else if(c=="T"){ mli_tensor* t=(mli_tensor*)calloc(1,sizeof(mli_tensor)); cx.ts.push_back(t);
      int a=I(); if(a==-3){ t->rank=0; } 
      long long off=I(); t->data.capacity=I(); t->el_type=(mli_element_type)I(); t->rank=I(); for(int i=0;i<4;++i)t->shape[i]=I(); for(int i=0;i<4;++i)t->mem_stride[i]=I();
      long long imm=I();
      if(t->rank==0){ if(t->el_type==MLI_EL_FX_16) t->data.mem.i16=imm; else if(t->el_type==MLI_EL_SA_32) t->data.mem.i32=imm; else if(t->el_type==MLI_EL_FP_32){ int32_t b=(int32_t)imm; memcpy(&t->data.mem.f32,&b,4);} else t->data.mem.i8=imm; }
      else t->data.mem.pi8=a<0?nullptr:(int8_t*)cx.ar.at(a).p+off;
      string q=Str();
      if(q=="FX") t->el_params.fx.frac_bits=I();
      else { t->el_params.sa.type=MLI_EL_PARAM_SC16_ZP16; t->el_params.sa.dim=I();
        if(t->el_params.sa.dim<0){ t->el_params.sa.zero_point.mem.i16=I(); t->el_params.sa.scale.mem.i16=I(); t->el_params.sa.scale_frac_bits.mem.i8=I(); }
        else { t->el_params.sa.zero_point.mem.pi16=(int16_t*)P(); t->el_params.sa.scale.mem.pi16=(int16_t*)P(); t->el_params.sa.scale_frac_bits.mem.pi8=(int8_t*)P();
               int n=I(); t->el_params.sa.zero_point.capacity=2*n; t->el_params.sa.scale.capacity=2*n; t->el_params.sa.scale_frac_bits.capacity=n; } }
      if(args>>q && q=="CAP"){ t->el_params.sa.zero_point.capacity=I(); t->el_params.sa.scale.capacity=I(); t->el_params.sa.scale_frac_bits.capacity=I(); }
    }
    else if(c=="L"){ // library created LUT: kind arena offset cap
      auto l=new mli_lut; memset((void*)l,0,sizeof *l); cx.luts.push_back(l); string k=Str(); void*p=P(); l->data.capacity=I(); l->data.mem.pi8=(int8_t*)p; l->type=MLI_EL_FX_16;
      int r= k=="sigm"?mli_krn_sigm_create_lut(l):k=="tanh"?mli_krn_tanh_create_lut(l):k=="softmax"?mli_krn_softmax_create_lut(l):k=="l2"?mli_krn_l2_normalize_create_lut(l):-1;
      fprintf(out,"L %d %d %d %d %d %d %d",r,(int)l->type,l->length,l->in_frac_bits,l->out_frac_bits,l->input_offset,l->output_offset); locate(l->data.mem.pi8); fprintf(out,"\n"); dump_arenas(); fflush(out); }
    else if(c=="C"){ string fn=Str(); auto it=F.find(fn); if(it==F.end()){ fprintf(stderr,"no fn %s\n",fn.c_str()); return 3; }
      fprintf(out,"C %s\n",fn.c_str()); fflush(out); int r=it->second(); fprintf(out,"R %d\n",r); for(size_t i=0;i<cx.ts.size();++i) dump_tensor(i); dump_arenas();
      // out-of-arena guard bytes
      for(size_t i=0;i<cx.ar.size();++i){ Arena&a=cx.ar[i]; bool bad=false; for(int j=1;j<=64;++j) if(a.p[-j]!=0xA5) bad=true; for(int j=0;j<64;++j) if(a.p[a.n+j]!=0x5A) bad=true; if(bad) fprintf(out,"G %zu\n",i); }
      fprintf(out,"Z\n"); fflush(out); }
    else { fprintf(stderr,"bad line %s\n",line.c_str()); return 3; }
  }
  fflush(out); if(child) _exit(0); fclose(out); return 0;
}
