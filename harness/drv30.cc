// Text-protocol driver for the MLI 3.0 (compiler/runtime) API.
//   S id
//   O bits rank shape.. stride.. bank gap hex      an operand: full tensor storage
//   V n ints                                       parameter vector
//   K name passes fill mis0 mis1 mis2 [desc]       compile and run a kernel to completion
//   I ...                                          iterator session (see iter())
// Output: E status [..], Q (one tile: per operand "rank pos.. size.."), V values, F frame, X notes
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "mli_api.h"
#include "mli_types.hpp"
#include "mli_types.h"
#include "mli_iterator.hpp"
#include "mli_kernels_factory_ref.hpp"
#include "mli_ref_compiler_api.hpp"
#include "mli_ref_runtime_api.hpp"
#include "mli_ref_private_types.hpp"
#include "mli_service_functions.hpp"
#include "mli_helpers_api.hpp"

using namespace snps_arc::metaware::mli;
namespace rt = snps_arc::metaware::mli::ref;
typedef std::vector<int32_t> VI;

static FILE* out;
[[noreturn]] static void proto(const char* s) { fprintf(stderr, "protocol: %s\n", s); exit(3); }

struct Op {
  int bits = 8, rank = 0, bank = 0, gap = 0;
  VI sh, st;
  std::vector<uint8_t> full;
  uint32_t off = 0; int32_t ext = 0;
  int esz() const { return bits / 8; }
  uint32_t bytes() const { return full.size(); }
};

static std::vector<Op> ops;
static std::vector<VI> pv;
struct Bank { std::vector<uint8_t> store; uint8_t* base = nullptr; uint32_t size = 0; };
static Bank banks[3];
static uint64_t bases[3];
static uint32_t disp[3];      // where the used part of a memory begins
static int passes, fillb, mis[3], descmis;

// ---------------------------------------------------------------- helpers
template <uint32_t R> struct Arr { uint32_t s[R]; int32_t t[R]; };
template <uint32_t R> static Arr<R> arr(const Op& o) {
  if (o.rank != (int)R) proto("rank");
  Arr<R> a; for (uint32_t i = 0; i < R; i++) { a.s[i] = o.sh[i]; a.t[i] = o.st[i]; } return a;
}
template <uint32_t R> static Tensor<NoBuffer, R> tn(const Op& o) { auto a = arr<R>(o); return Tensor<NoBuffer, R>(a.s, a.t); }
template <uint32_t R> static Tensor<Buffer, R> tb(Op& o) {
  auto a = arr<R>(o); return Tensor<Buffer, R>(Buffer(o.full.data(), o.bytes(), o.esz()), a.s, a.t);
}
static const int32_t ident[5] = {0, 1, 2, 3, 4};
template <uint32_t R> static TensorIterator<NoBuffer, R, R> tiled(const Op& o, const VI& tile) {
  uint32_t t[R]; for (uint32_t i = 0; i < R; i++) t[i] = tile[i];
  uint32_t skew = pv.size() > 3 && pv[3].size() > 3 ? pv[3][3] : 0;    // the first tile is that much smaller
  if (skew) return TensorIterator<NoBuffer, R, R>(tn<R>(o), IteratorCfg<R>(tn<R>(o), t, ident, skew));
  return TensorIterator<NoBuffer, R, R>(tn<R>(o), t, ident);
}
static OffsetBuffer ob(const Op& o) { return OffsetBuffer(o.off, o.bank, o.bytes(), o.esz()); }

// operands get their places in the banks
static void place(const std::vector<Op*>& l) {
  uint32_t cur[3] = {0, 0, 0};
  static const uint32_t begin[4] = {0, 0x12340, 0, 0x6ABC0100};
  for (int b = 0; b < 3; b++) disp[b] = begin[(mis[b] + descmis) % 4];
  for (Op* o : l) { uint32_t& c = cur[o->bank]; c = (c + 3) / 4 * 4 + o->gap * 4; o->off = disp[o->bank] + c; c += o->bytes(); }
  for (int b = 0; b < 3; b++) {
    banks[b].size = (cur[b] + 67) / 4 * 4;
    banks[b].store.assign(banks[b].size + 128, 0);
    uintptr_t p = reinterpret_cast<uintptr_t>(banks[b].store.data());
    banks[b].base = reinterpret_cast<uint8_t*>((p + 63) / 64 * 64 + mis[b] * 4);
    memset(banks[b].base, fillb, banks[b].size);
    bases[b] = reinterpret_cast<uint64_t>(banks[b].base) - disp[b];
  }
}
static uint32_t rel(const Op& o) { return o.off - disp[o.bank]; }
static uint8_t* at(const Op& o) { return banks[o.bank].base + rel(o); }

// ---------------------------------------------------------------- running
struct Span { VI pos, sz; };
static std::vector<uint8_t> rtmem, privmem;
static void note(const char* s) { fprintf(out, "X %s\n", s); }

template <class CS> static ExecutionInterface* create(CS* cs, void* csmem, uint32_t cssize) {
  const int G = 32;
  uint32_t ps = cs->GetKernelPrivateDataSize(), rs = cs->GetRuntimeObjectSize();
  std::vector<uint8_t> p1(ps + 2 * G, 0xA5);
  if (cs->GetKernelPrivateData(p1.data() + G) != MLI_STATUS_OK) { note("private-data-status"); return nullptr; }
  for (int i = 0; i < G; i++) if (p1[i] != 0xA5 || p1[G + ps + i] != 0xA5) { note("private-data-overrun"); break; }
  // the descriptor moves; the compiler side object is gone
  privmem.assign(ps + 2 * G + 4 * descmis, 0x5A);
  uint8_t* priv = privmem.data() + G + 4 * descmis;
  memcpy(priv, p1.data() + G, ps);
  memset(p1.data(), 0xEE, p1.size());
  memset(csmem, 0xEE, cssize);
  std::vector<uint8_t> keep(privmem);
  rtmem.assign(rs + 2 * G + 16, 0xC3);
  uintptr_t a = (reinterpret_cast<uintptr_t>(rtmem.data()) + G + 7) / 8 * 8;
  uint8_t* ro = reinterpret_cast<uint8_t*>(a);
  for (uint32_t small : {rs - 1, rs / 2, 0u}) {
    if (ExecutionInterface::Create(ro, small, priv, ps, bases, 3) != nullptr) note("created-in-small-buffer");
    for (uint8_t b : rtmem) if (b != 0xC3) { note("small-create-wrote"); break; }
    std::fill(rtmem.begin(), rtmem.end(), 0xC3);
  }
  ExecutionInterface* ei = ExecutionInterface::Create(ro, rs, priv, ps, bases, 3);
  if (!ei) { note("not-created"); return nullptr; }
  for (uint8_t* p = rtmem.data(); p < rtmem.data() + rtmem.size(); p++)
    if ((p < ro || p >= ro + rs) && *p != 0xC3) { note("runtime-object-overrun"); break; }
  if (privmem != keep) note("descriptor-changed");
  memset(privmem.data(), 0x77, privmem.size());
  return ei;
}

static bool inside(const Op& o, const Span& s) {
  for (int d = 0; d < o.rank; d++)
    if (s.pos[d] < 0 || s.sz[d] < 1 || s.pos[d] + s.sz[d] > o.sh[d]) return false;
  return true;
}
static void each(const Span& s, const std::function<void(const VI&)>& f) {
  VI c(s.sz.size(), 0);
  while (true) {
    f(c);
    int d = (int)c.size() - 1;
    while (d >= 0 && ++c[d] == s.sz[d]) c[d--] = 0;
    if (d < 0) return;
  }
}
static int32_t dot(const VI& c, const VI& st) { int32_t r = 0; for (size_t i = 0; i < c.size(); i++) r += c[i] * st[i]; return r; }
static int32_t get(const uint8_t* p, int bits) {
  switch (bits) { case 8: return *(const int8_t*)p; case 16: { int16_t v; memcpy(&v, p, 2); return v; } default: { int32_t v; memcpy(&v, p, 4); return v; } }
}

struct Job {
  std::vector<Op*> ins; Op* dst = nullptr;           // copied per tile
  std::vector<Op*> whole;                            // resident for the entire run
  std::function<void(std::vector<Span>&)> spans;     // ins..., dst
  std::function<void()> advance = [] {};             // user-side iterators
  std::function<void(std::vector<Span>&)> extra = [](std::vector<Span>&) {};
  uint32_t tiles = 1;
};

static void run(ExecutionInterface* ei, Job& j) {
  if (!ei) return;
  for (Op* o : j.whole) memcpy(at(*o), o->full.data(), o->bytes());
  for (uint32_t n = 0; n < j.tiles * passes; n++) {
    std::vector<Span> sp; j.spans(sp);
    fprintf(out, "Q %zu", sp.size());
    bool ok = true;
    for (size_t i = 0; i < sp.size(); i++) {
      Op& o = i < j.ins.size() ? *j.ins[i] : *j.dst;
      fprintf(out, " %d", o.rank);
      for (int x : sp[i].pos) fprintf(out, " %d", x);
      for (int x : sp[i].sz) fprintf(out, " %d", x);
      ok = ok && inside(o, sp[i]);
    }
    fprintf(out, "\n");
    if (!ok) { note("tile-outside-tensor"); return; }
    for (size_t i = 0; i < j.ins.size(); i++) {
      Op& o = *j.ins[i]; uint8_t* b = at(o);
      memset(b, fillb, o.bytes());
      VI p = sp[i].pos;
      each(sp[i], [&](const VI& c) {
        memcpy(b + dot(c, o.st) * o.esz(), o.full.data() + (dot(c, o.st) + dot(p, o.st)) * o.esz(), o.esz());
      });
    }
    j.extra(sp);
    Op& d = *j.dst; Span& os = sp.back();
    memset(at(d), fillb ^ 0x55, d.bytes());
    std::vector<uint8_t> before[3];
    for (int b = 0; b < 3; b++) before[b].assign(banks[b].base, banks[b].base + banks[b].size);
    mli_status s1 = ei->Prefetch(), s2 = ei->Issue();
    std::vector<int32_t> vals;
    each(os, [&](const VI& c) {
      uint32_t x = rel(d) + dot(c, d.st) * d.esz();
      vals.push_back(get(banks[d.bank].base + x, d.bits));
      memcpy(banks[d.bank].base + x, before[d.bank].data() + x, d.esz());
    });
    mli_status s3 = ei->Update();
    int foreign = 0;
    for (int b = 0; b < 3; b++) for (uint32_t i = 0; i < banks[b].size; i++) foreign += banks[b].base[i] != before[b][i];
    fprintf(out, "V"); for (int v : vals) fprintf(out, " %d", v); fprintf(out, "\n");
    fprintf(out, "F %d %d\n", foreign, (int)(s1 | s2 | s3));
    j.advance();
  }
}

template <uint32_t R, class A, class B> static Span span(const A* p, const B* s) {
  Span r; for (uint32_t i = 0; i < R; i++) { r.pos.push_back((int32_t)p[i]); r.sz.push_back((int32_t)s[i]); } return r;
}
template <class It> static Span user_span(It& it, const Op& o) {
  Span r; auto t = it.GetSubTensor(); int32_t pos[5]; it.get_pos(pos);
  for (int i = 0; i < o.rank; i++) { r.pos.push_back(pos[i]); r.sz.push_back(t.get_dim(i)); }
  return r;
}

// how the kernel is described: constructor, attachment and encoding variants
static int form(int i) { return pv.size() > 3 && (int)pv[3].size() > i ? pv[3][i] : 0; }
template <uint32_t R> static Tensor<OffsetBuffer, R> toff(const Op& o) { auto a = arr<R>(o); return Tensor<OffsetBuffer, R>(ob(o), a.s, a.t); }
// B H W 1 C as B H W C
static Tensor<NoBuffer, 4> tn4(const Op& o) {
  uint32_t s[4] = {(uint32_t)o.sh[0], (uint32_t)o.sh[1], (uint32_t)o.sh[2], (uint32_t)o.sh[4]}; int32_t t[4] = {o.st[0], o.st[1], o.st[2], o.st[4]};
  return Tensor<NoBuffer, 4>(s, t);
}
static Tensor<OffsetBuffer, 4> toff4(const Op& o) { return Tensor<OffsetBuffer, 4>(ob(o), tn4(o)); }
// a size the compiler object reports for operand i
static void bufsize(int i, unsigned n) { fprintf(out, "B %d %u\n", i + 1, n); }

static void status(mli_status s, const char* what) { if (s != MLI_STATUS_OK) { fprintf(out, "X %s-status-%d\n", what, (int)s); } }

struct Factory {
  PlatformDescription pd; std::unique_ptr<rt::KernelsFactory> f; std::vector<uint64_t> mem; uint32_t size;
  Factory() : f(new rt::KernelsFactory(pd)) {}
  void* buf(uint32_t n) { size = n; mem.assign(n / 8 + 16, 0xDDDDDDDDDDDDDDDDull); return mem.data(); }
  void chk() { for (uint32_t i = size; i < mem.size() * 8; i++) if (((uint8_t*)mem.data())[i] != 0xDD) { note("cs-overrun"); return; } }
};

// encode weights and their zero points; the tiles are then served from the encoded buffer
template <uint32_t WR, uint32_t IR, class CS> static void encode_w(CS* cs, Op& w, Op& wzp, Op& izp) {
  std::vector<uint8_t> enc(w.bytes() + wzp.bytes() + 32, 0xB7);
  std::vector<uint8_t> ez(izp.bytes() + 16, 0xB7);
  Buffer zb(ez.data(), izp.bytes(), 1);
  Buffer eb(enc.data(), w.bytes() + wzp.bytes(), 1);
  if (cs->GetEncodedWeightsSize() != w.bytes()) note("encoded-weights-size");
  if (cs->GetEncodedWtsZeroPtsSize() != wzp.bytes()) note("encoded-wzp-size");
  if (form(2)) {
    auto tw = tb<WR>(w); auto tz = tb<1>(wzp); auto ti = tb<1>(izp);
    Buffer wb(enc.data(), w.bytes(), 1), zb2(enc.data() + w.bytes(), wzp.bytes(), 1);
    status(cs->EncodeWeights(tw, wb, compression_mode_t::Uncompressed), "encode-weights");
    status(cs->EncodeWtsZeroPts(tz, zb2), "encode-wzp");
    status(cs->EncodeInpZeroPts(ti, zb), "encode-izp");
  } else {
    auto wit = TensorIterator<Buffer, WR, IR>(tb<WR>(w));
    auto zit = TensorIterator<Buffer, 1, IR>(tb<1>(wzp));
    status(cs->EncodeWeightsAndZeroPts(wit, zit, eb), "encode-weights");
    auto iit = TensorIterator<Buffer, 1, IR>(tb<1>(izp));
    status(cs->EncodeInpZeroPts(iit, zb), "encode-izp");
  }
  for (int i = 0; i < 32; i++) if (enc[w.bytes() + wzp.bytes() + i] != 0xB7) { note("encode-overrun"); break; }
  memcpy(w.full.data(), enc.data(), w.bytes());
  memcpy(wzp.full.data(), enc.data() + w.bytes(), wzp.bytes());
  if (cs->GetEncodedInpZeroPtsSize() != izp.bytes()) note("encoded-izp-size");
  for (int i = 0; i < 16; i++) if (ez[izp.bytes() + i] != 0xB7) { note("encode-overrun"); break; }
  memcpy(izp.full.data(), ez.data(), izp.bytes());
}

enum { CONV, DW, TCONV };
template <int KIND> static void conv() {
  Op &in = ops[0], &w = ops[1], &wzp = ops[2], &izp = ops[3], &o = ops[4];
  const VI& c = pv[0]; const VI& tile = pv[1];   // c: kh kw sh sw pt pl pb pr dh dw
  constexpr uint32_t WR = KIND == DW ? 3 : 5;
  place({&in, &w, &wzp, &izp, &o});
  Factory F; auto& f = *F.f;
  uint32_t ekh = 0, ekw = 0;
  if (KIND != TCONV) { ekh = service::get_effective_kernel_size(c[0], c[8]); ekw = service::get_effective_kernel_size(c[1], c[9]); }
  OffsetBuffer wzpb(wzp.off, wzp.bank, std::min(wzp.sh[0], tile.back()), 1);     // sized for a tile
  auto zt = tn<1>(wzp); auto wt = tn<WR>(w);
  TensorIterator<NoBuffer, 1, 5> izit(tn<1>(izp));
  auto go = [&](auto* cs, void* mem, uint32_t size, auto* dummy, uint32_t tiles) {
    F.chk();
    if (!cs) { note("no-compiler-object"); return; }
    OffsetBuffer ctrl(0, 0, 0, 1);
    if constexpr (KIND != TCONV) {
      bufsize(0, cs->GetInputBufferSize()); bufsize(1, cs->GetWeightsBufferSize()); bufsize(4, cs->GetOutputBufferSize());
      if (form(1)) {
        auto ti = toff4(in), to = toff4(o); OffsetBuffer wb = ob(w), ib = ob(izp);
        status(cs->AttachBufferOffsets(ti, to, wb, ib, wzpb, ctrl), "attach");
      }
    }
    if (KIND == TCONV || !form(1)) status(cs->AttachBufferOffsets(ob(in), ob(o), ob(w), ob(izp), wzpb, ctrl), "attach");
    encode_w<WR, 5>(cs, w, wzp, izp);
    ExecutionInterface* ei = create(cs, mem, size);
    typedef std::remove_pointer_t<decltype(dummy)> RT;
    auto* k = dynamic_cast<RT*>(ei);
    if (ei && !k) { note("wrong-kernel"); return; }
    Job j; j.ins = {&in, &w, &wzp}; j.dst = &o; j.whole = {&izp}; j.tiles = tiles;
    j.spans = [&, k](std::vector<Span>& s) {
      uint32_t is[5], os[5], ws[5]; int32_t ip[5], op[5], wp[5];
      k->GetIOSizesAndOffsets(is, os, ws, ip, op, wp);
      s = {span<5>(ip, is), span<WR>(wp, ws), span<1>(&wp[WR - 1], &ws[WR - 1]), span<5>(op, os)};
    };
    run(ei, j);
  };
  if constexpr (KIND == TCONV) {
    uint32_t its[5]; for (int i = 0; i < 5; i++) its[i] = tile[i];
    uint32_t ek[5] = {1, (uint32_t)c[0], (uint32_t)c[1], 1, (uint32_t)o.sh[4]}, st[5] = {1, (uint32_t)c[2], (uint32_t)c[3], 1, 1};
    uint32_t pp[5] = {0, (uint32_t)c[4], (uint32_t)c[5], 0, 0};
    auto t = GetDeconvTensorIterators(tn<5>(in), its, tn<5>(o), tile[5], wt, ek, st, pp, ident);
    auto ii = std::get<0>(t); auto wi = std::get<1>(t); auto zi = std::get<2>(t); auto oi = std::get<3>(t);
    TransposeConv2DConfig cfg(c[2], c[3], c[4], c[5], c[6], c[7]);
    void* m = F.buf(f.TransposeConv2D_CS_GetSize());
    uint32_t n = oi.GetTotalCount();
    go(form(0) ? f.TransposeConv2D_CS(m, ii, wi, zi, cfg, oi) : f.TransposeConv2D_CS(m, ii, izit, wi, zi, cfg, oi), m, F.size, (rt::TransposeConv2D*)nullptr, n);
  } else {
    auto oi = tiled<5>(o, tile);
    uint32_t ek[5] = {1, ekh, ekw, 1, KIND == DW ? 1u : (uint32_t)in.sh[4]};
    uint32_t st[5] = {1, (uint32_t)c[2], (uint32_t)c[3], 1, KIND == DW ? 1u : 0u}, pp[5] = {0, (uint32_t)c[4], (uint32_t)c[5], 0, 0};
    TensorIterator<NoBuffer, 5, 5> ii(tn<5>(in), oi, ek, st, pp);
    const int32_t mask[5] = {1, 1, 1, 1, 0}, zo[5] = {-1, -1, -1, -1, 0};
    TensorIterator<NoBuffer, 1, 5> zi(zt, oi, zo, mask);
    uint32_t n = oi.GetTotalCount();
    if constexpr (KIND == DW) {
      const int32_t wo[5] = {-1, 0, 1, -1, 2};
      TensorIterator<NoBuffer, 3, 5> wi(wt, oi, wo, mask);
      DwConv2DConfig cfg(c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9]);
      void* m = F.buf(f.DepthwiseConv2d_CS_GetSize());
      go(form(0) == 2 ? f.DepthwiseConv2d_CS(m, tn4(in), wt, cfg, tn4(o)) : form(0) ? f.DepthwiseConv2d_CS(m, ii, wi, zi, cfg, oi)
         : f.DepthwiseConv2d_CS(m, ii, izit, wi, zi, cfg, oi), m, F.size, (rt::DepthwiseConv2d*)nullptr, n);
    } else {
      TensorIterator<NoBuffer, 5, 5> wi(wt, oi, nullptr, mask);
      Conv2DConfig cfg(c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], 1);
      void* m = F.buf(f.Conv2d_CS_GetSize());
      go(form(0) == 2 ? f.Conv2d_CS(m, tn4(in), wt, cfg, tn4(o)) : form(0) ? f.Conv2d_CS(m, ii, wi, zi, cfg, oi)
         : f.Conv2d_CS(m, ii, izit, wi, zi, cfg, oi), m, F.size, (rt::Conv2d*)nullptr, n);
    }
  }
}

static VI zeros(int n) { return VI(n, 0); }
static Span all(const Op& o) { return Span{zeros(o.rank), o.sh}; }

static void fc() {     // in w wzp16 out
  Op &in = ops[0], &w = ops[1], &wzp = ops[2], &o = ops[3];
  Op enc; enc.bits = 8; enc.bank = w.bank; enc.gap = w.gap; enc.rank = 1;
  uint32_t zb = wzp.sh[0];
  enc.full.assign(w.bytes() + zb, 0); enc.sh = {(int)enc.full.size()}; enc.st = {1};
  place({&in, &enc, &o});
  Factory F; auto& f = *F.f;
  FullyConnectedConfig cfg;
  void* m = F.buf(f.FullyConnected_CS_GetSize());
  auto* cs = form(0) == 1 ? f.FullyConnected_CS(m, tn<2>(in), tn<2>(w), tn<1>(wzp), tn<2>(o))
           : form(0) == 2 ? f.FullyConnected_CS(m, tn<2>(in), tn<2>(w), tn<2>(o))      // one zero point for all
           : f.FullyConnected_CS(m, tn<2>(in), tn<2>(w), tn<1>(wzp), cfg, tn<2>(o));
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  bufsize(0, cs->GetInputBufferSize()); bufsize(1, cs->GetWeightsBufferSize()); bufsize(3, cs->GetOutputBufferSize());
  status(cs->AttachBufferOffsets(ob(in), ob(o), ob(enc), OffsetBuffer(0, 0, 0, 1)), "attach");
  if (cs->GetEncodedWeightsSize() != w.bytes()) note("encoded-weights-size");
  if (cs->GetEncodedWtsZeroPtsSize() != zb) note("encoded-wzp-size");
  std::vector<uint8_t> e(enc.bytes() + 16, 0xB7);
  Buffer eb(e.data(), enc.bytes(), 1);
  TensorIterator<Buffer, 2, 2> wt(tb<2>(w)); TensorIterator<Buffer, 1, 2> zt(tb<1>(wzp));
  status(cs->EncodeWeightsAndZeroPts(wt, zt, eb), "encode-weights");
  for (int i = 0; i < 16; i++) if (e[enc.bytes() + i] != 0xB7) { note("encode-overrun"); break; }
  memcpy(enc.full.data(), e.data(), enc.bytes());
  memcpy(at(enc), e.data(), enc.bytes());     // constants are in memory before the kernel is created
  ExecutionInterface* ei = create(cs, m, F.size);
  Job j; j.ins = {&in}; j.dst = &o; j.whole = {&enc};
  j.spans = [&](std::vector<Span>& s) { s = {all(in), all(o)}; };
  run(ei, j);
}

static void fc_old() {     // in w wzp16 out, deprecated attach path
  Op &in = ops[0], &w = ops[1], &wzp = ops[2], &o = ops[3];
  place({&in, &w, &wzp, &o});
  Factory F; auto& f = *F.f;
  void* m = F.buf(f.FullyConnected_CS_GetSize());
  auto* cs = form(0) == 1 ? f.FullyConnected_CS(m, tn<2>(in), tn<2>(w), tn<1>(wzp), tn<2>(o))
           : f.FullyConnected_CS(m, tn<2>(in), tn<2>(w), tn<1>(wzp), FullyConnectedConfig(), tn<2>(o));
  F.chk();
  bufsize(0, cs->GetInputBufferSize()); bufsize(1, cs->GetWeightsBufferSize()); bufsize(3, cs->GetOutputBufferSize());
  if (!cs) { note("no-compiler-object"); return; }
  auto ai = arr<2>(in), ao = arr<2>(o);
  Tensor<OffsetBuffer, 2> ti(ob(in), ai.s, ai.t), to(ob(o), ao.s, ao.t);
  status(cs->AttachBufferOffsets(ti, to, ob(w), ob(wzp), OffsetBuffer(0, 0, 0, 1)), "attach");
  std::vector<uint8_t> ew(w.bytes()), ez(wzp.bytes());
  Buffer we(ew.data(), ew.size(), 1), ze(ez.data(), ez.size(), 2);
  auto wt = tb<2>(w);
  std::vector<uint8_t> zs(wzp.bytes(), 0);     // the source is int8, in a buffer of the encoded size
  for (int i = 0; i < wzp.sh[0]; i++) zs[i] = wzp.full[2 * i];
  uint32_t zsh[1] = {(uint32_t)wzp.sh[0]}; int32_t zst[1] = {1};
  Tensor<Buffer, 1> zt(Buffer(zs.data(), zs.size(), 1), zsh, zst);
  status(cs->EncodeWeights(wt, we), "encode-weights");
  status(cs->EncodeWtsZeroPts(zt, ze), "encode-wzp");
  w.full = ew; wzp.full = ez;
  memcpy(at(w), ew.data(), ew.size()); memcpy(at(wzp), ez.data(), ez.size());   // before the kernel is created
  ExecutionInterface* ei = create(cs, m, F.size);
  Job j; j.ins = {&in}; j.dst = &o; j.whole = {&w, &wzp};
  j.spans = [&](std::vector<Span>& s) { s = {all(in), all(o)}; };
  run(ei, j);
}

static Op mkenc(uint32_t n, const Op& like) {
  Op e; e.bits = 8; e.rank = 1; e.bank = like.bank; e.gap = like.gap; e.full.assign(n, 0); e.sh = {(int)n}; e.st = {1}; return e;
}

static void matmul() {     // left right zp(2) out ; pv[1] = output tile
  Op &l = ops[0], &r = ops[1], &zp = ops[2], &o = ops[3];
  place({&l, &r, &zp, &o});
  Factory F; auto& f = *F.f;
  auto oi = tiled<2>(o, pv[1]);
  const int32_t lm[2] = {0, 1}, rm[2] = {1, 0};
  TensorIterator<NoBuffer, 2, 2> li(tn<2>(l), oi, nullptr, lm), ri(tn<2>(r), oi, nullptr, rm);
  void* m = F.buf(f.MatMul_CS_GetSize());
  auto* cs = f.MatMul_CS(m, li, ri, oi);
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  if (cs->GetEncodedParamsSize() != 2) note("encoded-params-size");
  status(cs->AttachBufferOffsets(ob(l), ob(r), ob(o), ob(zp), OffsetBuffer(0, 0, 0, 1)), "attach");
  uint8_t e[10]; memset(e, 0xB7, 10);
  Buffer a(zp.full.data(), 1, 1), b(zp.full.data() + zp.st[0], 1, 1), eb(e, 2, 1);
  status(cs->EncodeParams(a, b, eb), "encode");
  if (e[2] != 0xB7) note("encode-overrun");
  zp.full[0] = e[0]; zp.full[1] = e[1];
  uint32_t n = oi.GetTotalCount();
  auto* k = dynamic_cast<rt::MatMul*>(create(cs, m, F.size));
  if (!k) { note("wrong-kernel"); return; }
  Job j; j.ins = {&l, &r}; j.dst = &o; j.whole = {&zp}; j.tiles = n;
  j.spans = [&](std::vector<Span>& s) {
    uint32_t a[2], b[2], c[2]; int32_t d[2], e[2], g[2];
    k->GetIOSizesAndOffsets(a, b, c, d, e, g);
    s = {span<2>(d, a), span<2>(e, b), span<2>(g, c)};
  };
  run(k, j);
}

template <class RT, class CS> static void in_out(Factory& F, CS* cs, void* m, uint32_t tiles, const int32_t* order = ident) {
  Op &in = ops[0], &o = ops[1];
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  constexpr bool pools = std::is_same_v<RT, rt::MaxPool2D> || std::is_same_v<RT, rt::SumPool2D>;
  if constexpr (pools) {
    bufsize(0, cs->GetInputBufferSize()); bufsize(1, cs->GetOutputBufferSize());
    if (form(1)) status(cs->AttachBufferOffsets(toff<4>(in), toff<4>(o), OffsetBuffer(0, 0, 0, 1)), "attach");
  }
  if (!pools || !form(1)) status(cs->AttachBufferOffsets(ob(in), ob(o), OffsetBuffer(0, 0, 0, 1)), "attach");
  auto* k = dynamic_cast<RT*>(create(cs, m, F.size));
  if (!k) { note("wrong-kernel"); return; }
  Job j; j.ins = {&in}; j.dst = &o; j.tiles = tiles;
  j.spans = [&](std::vector<Span>& s) {
    uint32_t a[4], c[4]; int32_t d[4], g[4];
    k->GetIOSizesAndOffsets(a, c, d, g);
    int32_t h[4]; for (int i = 0; i < 4; i++) h[order[i]] = g[i];   // positions come by iteration index
    s = {span<4>(d, a), span<4>(h, c)};
  };
  run(k, j);
}

static void pool(bool max) {
  Op &in = ops[0], &o = ops[1]; const VI& c = pv[0];   // kh kw sh sw pt pl pb pr
  place({&in, &o});
  Factory F; auto& f = *F.f;
  auto oi = tiled<4>(o, pv[1]);
  uint32_t ek[4] = {1, (uint32_t)c[0], (uint32_t)c[1], 1}, st[4] = {1, (uint32_t)c[2], (uint32_t)c[3], 1}, pp[4] = {0, (uint32_t)c[4], (uint32_t)c[5], 0};
  TensorIterator<NoBuffer, 4, 4> ii(tn<4>(in), oi, ek, st, pp);
  PoolOpConfig cfg(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]);
  if (max) { void* m = F.buf(f.MaxPool2D_CS_GetSize()); in_out<rt::MaxPool2D>(F, form(0) ? f.MaxPool2D_CS(m, tn<4>(in), cfg, tn<4>(o)) : f.MaxPool2D_CS(m, ii, cfg, oi), m, oi.GetTotalCount()); }
  else { void* m = F.buf(f.SumPool2D_CS_GetSize()); in_out<rt::SumPool2D>(F, form(0) ? f.SumPool2D_CS(m, tn<4>(in), cfg, tn<4>(o)) : f.SumPool2D_CS(m, ii, cfg, oi), m, oi.GetTotalCount()); }
}

static void reduce(bool max) {
  Op &in = ops[0], &o = ops[1]; int axis = pv[0][0];
  place({&in, &o});
  Factory F; auto& f = *F.f;
  VI ot = pv[1]; ot[axis] = 1;
  VI it = pv[1]; it[axis] = in.sh[axis];
  auto ii = tiled<4>(in, it), oi = tiled<4>(o, ot);
  ReduceOpConfig cfg(axis);
  if (max) { void* m = F.buf(f.ReduceMax_CS_GetSize()); in_out<rt::ReduceMax>(F, f.ReduceMax_CS(m, ii, cfg, oi), m, oi.GetTotalCount()); }
  else { void* m = F.buf(f.ReduceSum_CS_GetSize()); in_out<rt::ReduceSum>(F, f.ReduceSum_CS(m, ii, cfg, oi), m, oi.GetTotalCount()); }
}

static void permute() {
  Op &in = ops[0], &o = ops[1];
  place({&in, &o});
  Factory F; auto& f = *F.f;
  uint8_t p[4]; VI ot(4); for (int i = 0; i < 4; i++) { p[i] = pv[0][i]; ot[i] = pv[1][p[i]]; }
  // both iterators walk the input dimensions in the same order
  int32_t order[4]; for (int i = 0; i < 4; i++) order[p[i]] = i;
  uint32_t ott[4]; for (int i = 0; i < 4; i++) ott[i] = ot[i];
  auto ii = tiled<4>(in, pv[1]); TensorIterator<NoBuffer, 4, 4> oi(tn<4>(o), ott, order);
  PermuteOpConfig cfg(p);
  void* m = F.buf(f.Permute_CS_GetSize()); in_out<rt::Permute>(F, f.Permute_CS(m, ii, cfg, oi), m, oi.GetTotalCount(), order);
}

// an operand dimension of one element is revisited by every tile of the output
static TensorIterator<NoBuffer, 4, 4> bcast(const Op& x, const Op& o, TensorIterator<NoBuffer, 4, 4>& oi) {
  int32_t mask[4]; for (int i = 0; i < 4; i++) mask[i] = x.sh[i] == 1 && o.sh[i] > 1;
  return TensorIterator<NoBuffer, 4, 4>(tn<4>(x), oi, nullptr, mask);
}

static void mbcast() {
  Op &in = ops[0], &o = ops[1];
  place({&in, &o});
  Factory F; auto& f = *F.f;
  auto oi = tiled<4>(o, pv[1]); auto ii = bcast(in, o, oi);
  void* m = F.buf(f.MoveBroadcast_CS_GetSize());
  in_out<rt::MoveBroadcast>(F, f.MoveBroadcast_CS(m, ii, oi, kMoveDataDirectionInput), m, oi.GetTotalCount());
}

template <class RT, class CS> static void elt_run(Factory& F, CS* cs, void* m, uint32_t tiles) {
  Op &l = ops[0], &r = ops[1], &o = ops[2];
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  bufsize(0, cs->GetInputLeftBufferSize()); bufsize(1, cs->GetInputRightBufferSize()); bufsize(2, cs->GetOutputBufferSize());
  status(form(1) ? cs->AttachBufferOffsets(toff<4>(l), toff<4>(r), toff<4>(o), OffsetBuffer(0, 0, 0, 1))
                 : cs->AttachBufferOffsets(ob(l), ob(r), ob(o), OffsetBuffer(0, 0, 0, 1)), "attach");
  auto* k = dynamic_cast<RT*>(create(cs, m, F.size));
  if (!k) { note("wrong-kernel"); return; }
  Job j; j.ins = {&l, &r}; j.dst = &o; j.tiles = tiles;
  j.spans = [&](std::vector<Span>& s) {
    uint32_t a[4], b[4], c[4]; int32_t d[4], e[4], g[4];
    k->GetIOSizesAndOffsets(a, b, c, d, e, g);
    s = {span<4>(d, a), span<4>(e, b), span<4>(g, c)};
  };
  run(k, j);
}
static void elt(const std::string& n) {
  Op &l = ops[0], &r = ops[1], &o = ops[2];
  place({&l, &r, &o});
  Factory F; auto& f = *F.f;
  auto oi = tiled<4>(o, pv[1]); auto li = bcast(l, o, oi), ri = bcast(r, o, oi);
  uint32_t c = oi.GetTotalCount(); void* m;
#define E(N) { m = F.buf(f.N##_CS_GetSize()); elt_run<rt::N>(F, form(0) ? f.N##_CS(m, tn<4>(l), tn<4>(r), tn<4>(o)) : f.N##_CS(m, li, ri, oi), m, c); }
  if (n == "add") E(Add) else if (n == "sub") E(Sub) else if (n == "mul") E(Mul) else if (n == "max") E(Max) else if (n == "min") E(Min) else proto("elt");
#undef E
}

// the debug configuration wants input and output buffers of as many elements
static void same_extent(Op& a, Op& b) {
  size_t n = std::max(a.bytes() / a.esz(), b.bytes() / b.esz());
  a.full.resize(n * a.esz()); b.full.resize(n * b.esz());
}

static void clip() {      // in out min max
  Op &in = ops[0], &o = ops[1], &mn = ops[2], &mx = ops[3];
  same_extent(in, o);
  Factory F; auto& f = *F.f;
  auto ii = tiled<4>(in, pv[1]), oi = tiled<4>(o, pv[1]);
  void* m = F.buf(f.Clip_CS_GetSize());
  auto* cs = form(0) ? f.Clip_CS(m, tn<4>(in), tn<4>(o)) : f.Clip_CS(m, ii, oi);
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  bufsize(0, cs->GetInputBufferSize()); bufsize(1, cs->GetOutputBufferSize()); if (cs->GetParamsBufferSize() != cs->GetEncodedParamsSize()) note("params-buffer-size");
  const bool wide = mn.bits == 32;      // encoding knows 8 bit limits only, the kernel 32 bit ones as well
  Op enc = mkenc(wide ? 8 : cs->GetEncodedParamsSize(), mn);
  place({&in, &o, &enc});
  std::vector<uint8_t> e(enc.bytes() + 16, 0xB7); Buffer eb(e.data(), enc.bytes(), 1);
  auto a = tb<1>(mn), b = tb<1>(mx);
  if (wide) { memcpy(e.data(), mn.full.data(), 4); memcpy(e.data() + 4, mx.full.data(), 4); }
  else status(cs->EncodeParams(a, b, eb), "encode");
  for (int i = 0; i < 16; i++) if (e[enc.bytes() + i] != 0xB7) { note("encode-overrun"); break; }
  memcpy(enc.full.data(), e.data(), enc.bytes());
  status(form(1) ? cs->AttachBufferOffsets(toff<4>(in), toff<4>(o), ob(enc), OffsetBuffer(0, 0, 0, 1))
                 : cs->AttachBufferOffsets(ob(in), ob(o), ob(enc), OffsetBuffer(0, 0, 0, 1)), "attach");
  uint32_t n = oi.GetTotalCount();
  ExecutionInterface* ei = create(cs, m, F.size);
  Job j; j.ins = {&in}; j.dst = &o; j.whole = {&enc}; j.tiles = n;
  j.spans = [&](std::vector<Span>& s) { s = {user_span(ii, in), user_span(oi, o)}; };
  j.advance = [&] { ii.Next(); oi.Next(); };
  run(ei, j);
}

// per-tile parameter slices go to the places the runtime reports
static void slices(Op& enc, const std::vector<Op*>& params, const std::vector<uint32_t>& offs, uint32_t pos, uint32_t n) {
  memset(at(enc), fillb, enc.bytes());
  for (size_t i = 0; i < params.size(); i++) {
    Op& p = *params[i];
    uint32_t c = p.sh[0] == 1 ? 1 : n, s = p.sh[0] == 1 ? 0 : pos;
    if (offs[i] + c * p.esz() > enc.bytes()) { note("parameter-outside-buffer"); return; }
    memcpy(at(enc) + offs[i], p.full.data() + s * p.esz(), c * p.esz());
  }
}

static void nop() {       // memory that the kernel is to leave alone
  Op& o = ops[0];
  Factory F; auto& f = *F.f;
  void* m = F.buf(f.Nop_CS_GetSize());
  auto* cs = f.Nop_CS(m);
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  place({&o});
  auto oi = tiled<4>(o, pv[1]);
  uint32_t n = oi.GetTotalCount();
  ExecutionInterface* ei = create(cs, m, F.size);
  Job j; j.dst = &o; j.tiles = n;
  j.spans = [&](std::vector<Span>& s) { s = {user_span(oi, o)}; };
  j.advance = [&] { oi.Next(); };
  run(ei, j);
}

static void rescale() {   // in out inbias scale shift outbias ; pv0 = axis
  Op &in = ops[0], &o = ops[1];
  same_extent(in, o);
  std::vector<Op*> P = {&ops[2], &ops[3], &ops[4], &ops[5]};
  int axis = pv[0][0];
  Factory F; auto& f = *F.f;
  auto ii = tiled<4>(in, pv[1]), oi = tiled<4>(o, pv[1]);
  uint32_t es[1] = {(uint32_t)ops[2].sh[0]};
  Tensor<NoBuffer, 1> et(es);
  int32_t eo[4], em[4]; for (int i = 0; i < 4; i++) { eo[i] = i == axis ? 0 : -1; em[i] = i == axis ? 0 : 1; }
  TensorIterator<NoBuffer, 1, 4> ei_(et, oi, eo, em);
  RescaleConfig cfg; cfg.axis = axis;
  void* m = F.buf(f.Rescale_CS_GetSize());
  auto* cs = f.Rescale_CS(m, ii, cfg, ei_, oi);
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  uint32_t want = 0; for (Op* p : P) want += p->bytes();
  if (cs->GetEncodedParamsSize() < want) note("encoded-params-size-bound");   // an upper bound until they are encoded
  bufsize(0, cs->GetInputBufferSize()); bufsize(1, cs->GetOutputBufferSize());
  Op enc = mkenc(want, ops[2]);
  place({&in, &o, &enc});
  std::vector<uint8_t> e(enc.bytes() + 16, 0xB7); Buffer eb(e.data(), enc.bytes(), 1);
  auto a = tb<1>(*P[0]), b = tb<1>(*P[1]), c = tb<1>(*P[2]), d = tb<1>(*P[3]);
  status(cs->EncodeParams(a, b, c, d, eb), "encode");
  for (int i = 0; i < 16; i++) if (e[enc.bytes() + i] != 0xB7) { note("encode-overrun"); break; }
  if (cs->GetEncodedParamsSize() != want) note("encoded-params-size");
  uint32_t cur = 0; for (Op* p : P) { memcpy(p->full.data(), e.data() + cur, p->bytes()); cur += p->bytes(); }
  status(cs->AttachBufferOffsets(ob(in), ob(o), ob(enc), OffsetBuffer(0, 0, 0, 1)), "attach");
  uint32_t n = oi.GetTotalCount();
  memcpy(at(enc), e.data(), enc.bytes());     // constants are in memory before the kernel is created
  auto* k = dynamic_cast<rt::Rescale*>(create(cs, m, F.size));
  if (!k) { note("wrong-kernel"); return; }
  Job j; j.ins = {&in}; j.dst = &o; j.tiles = n;
  j.spans = [&](std::vector<Span>& s) { s = {user_span(ii, in), user_span(oi, o)}; };
  j.extra = [&](std::vector<Span>& s) {
    uint32_t sz, x[4]; k->GetIOSizesAndOffsets(sz, x[0], x[1], x[2], x[3]);
    uint32_t pos = axis < 0 ? 0 : s.back().pos[axis];
    if (axis >= 0 && sz != (uint32_t)s.back().sz[axis]) note("parameter-count");
    slices(enc, P, {x[0], x[1], x[2], x[3]}, pos, sz);
  };
  j.advance = [&] { ii.Next(); oi.Next(); };
  run(k, j);
}

static void prelu() {    // in out bias posscale negscale posshift negshift outbias ; pv0 = axis
  Op &in = ops[0], &o = ops[1];
  std::vector<Op*> P; for (int i = 2; i < 8; i++) P.push_back(&ops[i]);
  int axis = pv[0][0];
  Factory F; auto& f = *F.f;
  auto ii = tiled<5>(in, pv[1]), oi = tiled<5>(o, pv[1]);
  PreluOpConfig cfg; cfg.axis = axis;
  void* m = F.buf(f.Prelu_CS_GetSize());
  auto it4 = [](const Op& x) { return TensorIterator<NoBuffer, 4, 4>(tn4(x)); };
  auto* cs = form(0) ? f.Prelu_CS(m, it4(in), cfg, it4(o), 1) : f.Prelu_CS(m, ii, cfg, oi);
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  Op enc = mkenc(cs->GetEncodedParamsSize(), ops[2]);
  uint32_t want = 0; for (Op* p : P) want += p->bytes();
  if (enc.bytes() < want) note("encoded-params-size");
  place({&in, &o, &enc});
  std::vector<uint8_t> e(enc.bytes() + 16, 0xB7); Buffer eb(e.data(), enc.bytes(), 1);
  auto t2 = [&](Op& p) { uint32_t s[2] = {(uint32_t)p.sh[0], 0}; return Tensor<Buffer, 2>(Buffer(p.full.data(), p.bytes(), p.esz()), s); };
  auto a = t2(*P[0]), b = t2(*P[1]), c = t2(*P[2]), d = t2(*P[3]), g = t2(*P[4]), h = t2(*P[5]);
  status(cs->EncodeParams(a, b, c, d, g, h, eb), "encode");
  for (int i = 0; i < 16; i++) if (e[enc.bytes() + i] != 0xB7) { note("encode-overrun"); break; }
  uint32_t cur = 0; for (Op* p : P) { memcpy(p->full.data(), e.data() + cur, p->bytes()); cur += p->bytes(); }
  status(cs->AttachBufferOffsets(ob(in), ob(o), ob(enc), OffsetBuffer(0, 0, 0, 1)), "attach");
  uint32_t n = oi.GetTotalCount();
  auto* k = dynamic_cast<rt::Prelu*>(create(cs, m, F.size));
  if (!k) { note("wrong-kernel"); return; }
  Job j; j.ins = {&in}; j.dst = &o; j.tiles = n;
  j.spans = [&](std::vector<Span>& s) { s = {user_span(ii, in), user_span(oi, o)}; };
  j.extra = [&](std::vector<Span>& s) {
    uint32_t sz, x[6]; k->GetIOSizesAndOffsets(sz, x[0], x[1], x[2], x[3], x[4], x[5]);
    uint32_t pos = axis < 0 ? 0 : s.back().pos[axis];
    if (axis >= 0 && sz != (uint32_t)s.back().sz[axis]) note("parameter-count");
    slices(enc, P, {x[0], x[1], x[2], x[3], x[4], x[5]}, pos, sz);
  };
  j.advance = [&] { ii.Next(); oi.Next(); };
  run(k, j);
}

static void move5() {    // in out: full tensors; the runtime walks over them itself
  Op &in = ops[0], &o = ops[1];
  place({&in, &o});
  Factory F; auto& f = *F.f;
  // how = how to iterate: 0 tiles, 1 windows, 2 windows without overlap; +4 constructed from tensors and configurations
  const VI& c = pv[0]; int how = c[0] & 3;
  uint32_t pos[5], n5[5], ek[5], sd[5], pd[5], on[5], tl[5];
  for (int i = 0; i < 5; i++) { pos[i] = c[1 + i]; n5[i] = o.sh[i]; ek[i] = c[6 + i]; sd[i] = c[11 + i]; pd[i] = c[16 + i]; on[i] = c[21 + i]; tl[i] = pv[1][i]; }
  Tensor<NoBuffer, 5> st = tn<5>(in).slice(pos, n5), dt = tn<5>(o), wt(on);
  typedef TensorIterator<NoBuffer, 5, 5> It5;
  auto mk = [&](Tensor<NoBuffer, 5> t) {
    if (how == 0) return It5(t, tl, ident);
    It5 w(wt, tl, ident); It5 r(t, w, ek, sd, pd);
    if (how == 2) r.RemoveOverlapAdjacentTiles();
    return r;
  };
  auto ii = mk(st), oi = mk(dt);
  void* m = F.buf(f.Move_CS_GetSize());
  auto* cs = (c[0] & 8) ? f.Move_CS(m, st, dt, kMoveDataDirectionInput)
           : (c[0] & 4) ? f.Move_CS(m, st, ii.get_config(), dt, oi.get_config(), kMoveDataDirectionInput)
           : f.Move_CS(m, ii, oi, kMoveDataDirectionInput);
  if (c[0] & 8) { ii = It5(st); oi = It5(dt); }
  F.chk();
  if (!cs) { note("no-compiler-object"); return; }
  status(form(1) ? cs->AttachBufferOffsets(toff<5>(in), toff<5>(o)) : cs->AttachBufferOffsets(ob(in), ob(o), OffsetBuffer(0, 0, 0, 1)), "attach");
  uint32_t n = oi.GetTotalCount();
  ExecutionInterface* ei = create(cs, m, F.size);
  if (!ei) return;
  memcpy(at(in), in.full.data(), in.bytes());
  for (int p = 0; p < passes; p++) {
    memset(at(o), fillb ^ 0x55, o.bytes());
    for (uint32_t t = 0; t < n; t++) {
      std::vector<uint8_t> before[3];
      for (int b = 0; b < 3; b++) before[b].assign(banks[b].base, banks[b].base + banks[b].size);
      Span si = user_span(ii, in), so = user_span(oi, o);
      fprintf(out, "Q 2 5"); for (int x : si.pos) fprintf(out, " %d", x); for (int x : si.sz) fprintf(out, " %d", x);
      fprintf(out, " 5"); for (int x : so.pos) fprintf(out, " %d", x); for (int x : so.sz) fprintf(out, " %d", x); fprintf(out, "\n");
      if (!inside(in, si) || !inside(o, so)) { note("tile-outside-tensor"); return; }
      mli_status s = (mli_status)(ei->Prefetch() | ei->Issue());
      std::vector<int> vals;
      each(so, [&](const VI& c) {
        uint32_t x = rel(o) + (dot(c, o.st) + dot(so.pos, o.st)) * o.esz();
        vals.push_back(get(banks[o.bank].base + x, o.bits));
        memcpy(before[o.bank].data() + x, banks[o.bank].base + x, o.esz());
      });
      s = (mli_status)(s | ei->Update());
      int foreign = 0;
      for (int b = 0; b < 3; b++) for (uint32_t i = 0; i < banks[b].size; i++) foreign += banks[b].base[i] != before[b][i];
      fprintf(out, "V"); for (int v : vals) fprintf(out, " %d", v); fprintf(out, "\n");
      fprintf(out, "F %d %d\n", foreign, (int)s);
      ii.Next(); oi.Next();
    }
  }
}

static void resize() {   // standalone
  Op &in = ops[0], &o = ops[1]; const VI& c = pv[0];   // stride h w, offset h w, shift
  place({&in, &o});
  memcpy(at(in), in.full.data(), in.bytes());
  memset(at(o), fillb ^ 0x55, o.bytes());
  auto a = arr<4>(in), b = arr<4>(o);
  int16_t st[2] = {(int16_t)c[0], (int16_t)c[1]}, of[2] = {(int16_t)c[2], (int16_t)c[3]};
  ResizeOpConfig cfg(st, of, c[4]);
  std::vector<uint8_t> before[3];
  for (int k = 0; k < 3; k++) before[k].assign(banks[k].base, banks[k].base + banks[k].size);
  mli_tensor ti{}, to{};
  ti.rank = to.rank = 4; ti.el_type = MLI_EL_SA_8; to.el_type = MLI_EL_SA_32;
  for (int i = 0; i < 4; i++) { ti.shape[i] = a.s[i]; ti.mem_stride[i] = a.t[i]; to.shape[i] = b.s[i]; to.mem_stride[i] = b.t[i]; }
  ti.data.mem.pi8 = (int8_t*)at(in); ti.data.capacity = in.bytes(); to.data.mem.pi32 = (int32_t*)at(o); to.data.capacity = o.bytes();
  ti.el_params.sa.dim = -1; ti.el_params.sa.zero_point.mem.i16 = c[5];
  rt::run_mli_resize_bilinear_standalone(&ti, cfg, &to); mli_status s = MLI_STATUS_OK;
  Span so = all(o), si = all(in);
  fprintf(out, "Q 2 4"); for (int x : si.pos) fprintf(out, " %d", x); for (int x : si.sz) fprintf(out, " %d", x);
  fprintf(out, " 4"); for (int x : so.pos) fprintf(out, " %d", x); for (int x : so.sz) fprintf(out, " %d", x); fprintf(out, "\n");
  std::vector<int> vals;
  each(so, [&](const VI& q) {
    uint32_t x = rel(o) + dot(q, o.st) * o.esz();
    vals.push_back(get(banks[o.bank].base + x, o.bits));
    memcpy(before[o.bank].data() + x, banks[o.bank].base + x, o.esz());
  });
  int foreign = 0;
  for (int k = 0; k < 3; k++) for (uint32_t i = 0; i < banks[k].size; i++) foreign += banks[k].base[i] != before[k][i];
  fprintf(out, "V"); for (int v : vals) fprintf(out, " %d", v); fprintf(out, "\n");
  fprintf(out, "F %d %d\n", foreign, (int)s);
}

#include "iter30.inc"

static void kernel(const std::string& n) {
  if (n == "conv") conv<CONV>(); else if (n == "dw") conv<DW>(); else if (n == "tconv") conv<TCONV>();
  else if (n == "fc") fc(); else if (n == "fc_old") fc_old(); else if (n == "matmul") matmul();
  else if (n == "maxpool") pool(true); else if (n == "sumpool") pool(false);
  else if (n == "rmax") reduce(true); else if (n == "rsum") reduce(false);
  else if (n == "permute") permute(); else if (n == "mbcast") mbcast(); else if (n == "move") move5();
  else if (n == "nop") nop(); else if (n == "clip") clip(); else if (n == "rescale") rescale(); else if (n == "prelu") prelu();
  else if (n == "resize") resize();
  else elt(n);
}

static std::vector<uint8_t> unhex(const char* s) {
  std::vector<uint8_t> r; auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (; s[0] && s[1]; s += 2) r.push_back(h(s[0]) * 16 + h(s[1])); return r;
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[1], "r"); out = fopen(argv[2], "w");
  if (!f || !out) return 2;
  char* line = nullptr; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    std::vector<char*> t; for (char* p = strtok(line, " \n"); p; p = strtok(nullptr, " \n")) t.push_back(p);
    if (t.empty()) continue;
    char k = t[0][0]; size_t i = 1; auto I = [&] { if (i >= t.size()) proto("short line"); return atoi(t[i++]); };
    if (k == 'S') { ops.clear(); pv.clear(); fprintf(out, "S %s\n", t[1]); fflush(out); }
    else if (k == 'O') {
      Op o; o.bits = I(); o.rank = I();
      for (int d = 0; d < o.rank; d++) o.sh.push_back(I());
      for (int d = 0; d < o.rank; d++) o.st.push_back(I());
      o.bank = I(); o.gap = I(); o.full = unhex(t[i]); ops.push_back(o);
    } else if (k == 'V') { VI v; int n = I(); while (n--) v.push_back(I()); pv.push_back(v); }
    else if (k == 'K') {
      std::string n = t[1]; i = 2; passes = I(); fillb = I(); for (int b = 0; b < 3; b++) mis[b] = I(); descmis = I();
      fflush(out); kernel(n); fprintf(out, "Z\n"); fflush(out);
    } else if (k == 'I') { fflush(out); iter(t[1]); fprintf(out, "Z\n"); fflush(out); }
    else proto("line");
  }
  fclose(out);
  return 0;
}
