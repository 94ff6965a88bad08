// Iterator and tensor-view sessions.  Memory holds its own element indices, so
// every element read reveals the position it was read from.
//  pv[0] = kind rank steps skew;  then, as the kind needs:
//  pv[1] shape  pv[2] stride  pv[3] tile  pv[4] order  (output)
//  pv[5] shape  pv[6] stride  pv[7] effective kernel  pv[8] stride  pv[9] padding (input)
static std::vector<int16_t> mem_idx(160000);
static void lst(const char* k, const VI& v) { fprintf(out, " %s %d", k, (int)v.size()); for (int x : v) fprintf(out, " %d", x); }

template <uint32_t R> static Tensor<Buffer, R> itn(const VI& sh, const VI& st) {
  if (sh.size() != R || st.size() != R) proto("iter rank");
  uint32_t s[R]; int32_t t[R]; for (uint32_t i = 0; i < R; i++) { s[i] = sh[i]; t[i] = st[i]; }
  return Tensor<Buffer, R>(Buffer(mem_idx.data(), (uint32_t)mem_idx.size() * 2, 2), s, t);
}

template <class T> static int rd_at(const T& t, uint32_t o) {   // the index held by the first half-word of an element
  switch (t.get_elem_size()) {
    case 2: return (int16_t)t.template read<int16_t>(o);
    case 4: return (int16_t)t.template read<int32_t>(o);
    case 8: return (int16_t)t.template read<int64_t>(o);
  }
  return -3;
}
template <class T> static int rd_it(T& t) {
  if (((uint64_t)(uint32_t)t.get_offset() + 1) * t.get_elem_size() > mem_idx.size() * 2) return -1;
  switch (t.get_elem_size()) {
    case 2: return (int16_t)t.template read<int16_t>();
    case 4: return (int16_t)t.template read<int32_t>();
    case 8: return (int16_t)t.template read<int64_t>();
  }
  return -3;
}

// element values at the first and the last position of a tensor, and its extents
template <class B, uint32_t R> static void ends(const Tensor<B, R>& t) {
  VI d; uint32_t o = 0;
  for (uint32_t i = 0; i < R; i++) { d.push_back(t.get_dim(i)); o += (t.get_dim(i) - 1) * t.get_mem_stride(i); }
  bool sane = true; for (int x : d) if (x <= 0 || x > 1000) sane = false;
  sane = sane && ((uint64_t)t.get_offs() + o + 1) * t.get_elem_size() <= mem_idx.size() * 2;
  lst("dim", d); lst("a", {sane ? rd_at(t, 0) : -1}); lst("b", {sane ? rd_at(t, o) : -1});
}

template <class B, uint32_t R, uint32_t I> static void walk1(TensorIterator<B, R, I> it, int steps, bool ext, bool offs) {
  auto byp = it, byo = it;
  VI acc(R, 0); int off = 0; bool done = false, dp = false, dof = false;
  for (int k = 0; k < steps; k++) {
    fprintf(out, "J");
    int32_t p[I], x[I]; it.get_pos(p); it.get_tile_idx(x);
    lst("pos", VI(p, p + I)); lst("idx", VI(x, x + I));
    VI f, l, gp; for (uint32_t i = 0; i < I; i++) { f.push_back(it.is_first_tile(i)); l.push_back(it.is_last_tile(i)); gp.push_back(it.GetPos(i)); }
    lst("isf", f); lst("isl", l); lst("gp", gp);
    ends(it.GetSubTensor());
    lst("done", {done}); lst("upd", {(int)it.get_update_idx()}); lst("tot", {(int)it.GetTotalCount()});
    if (offs) lst("off", {rd_it(it)});
    if (ext) {
      lst("acc", acc); lst("dp", {dp}); lst("oacc", {off}); lst("do", {dof});
    }
    fprintf(out, "\n");
    done = it.Next();
    if (ext) {
      int32_t inc[R]; dp = byp.Next(inc); for (uint32_t i = 0; i < R; i++) acc[i] += inc[i];
      int32_t o1 = 0; dof = byo.Next(o1); off += o1;
    }
  }
  it.Reset(); int32_t p[I]; it.get_pos(p); fprintf(out, "J"); lst("reset", VI(p, p + I)); fprintf(out, "\n");
}

// as it is, or through the forms it takes on its way from a compiler to a runtime object
template <uint32_t R, uint32_t I> static void walk(TensorIterator<Buffer, R, I> it, int steps, bool ext) {
  if (!pv[0][5]) { walk1<Buffer, R, I>(it, steps, ext, ext); return; }
  uint32_t s[R]; int32_t t[R]; it.get_full_shape(s); it.get_mem_strides(t);
  TensorIterator<NoBuffer, R, I> n(Tensor<NoBuffer, R>(s, t), it.get_config());
  TensorIterator<OffsetBuffer, R, I> o(n);
  o.set_buf(OffsetBuffer(40, 1, mem_idx.size() * 2, 2));
  uint64_t base[2] = {0, reinterpret_cast<uint64_t>(mem_idx.data()) - 40};
  walk1<InternalBuffer, R, I>(TensorIterator<InternalBuffer, R, I>(o, base, 2), steps, ext, ext || R == I);
}

template <uint32_t R> static TensorIterator<Buffer, R, R> out_it() {
  uint32_t t[R]; int32_t o[R]; for (uint32_t i = 0; i < R; i++) { t[i] = pv[3][i]; o[i] = pv[4][i]; }
  IteratorCfg<R> cfg(itn<R>(pv[1], pv[2]), t, o, pv[0][3]);
  return TensorIterator<Buffer, R, R>(itn<R>(pv[1], pv[2]), cfg);
}

template <uint32_t R> static void tiles1(TensorIterator<Buffer, R, R> it, int steps) {
  for (int k = 0; k < steps; k++) {
    auto rd = it.GetSubTensorIterator(), wr = rd;
    int32_t n[R]; long cnt = 1; for (uint32_t i = 0; i < R; i++) { n[i] = rd.GetTensorShape(i); cnt *= n[i]; }
    VI vals, at, dim(n, n + R);
    if (cnt > 0 && cnt <= 4000) {
      rd.SetCount(n); for (uint32_t i = 0; i < R; i++) wr.SetCount(n[i], i);
      bool d = false; long e = 0;
      for (; e < cnt && !d; e++) { vals.push_back((uint32_t)rd.get_offset() < mem_idx.size() ? rd.template read<int16_t>() : -1); d = rd.Next(); }
      if (!d || e < cnt) vals.push_back(-2);     // the walk must end with the last element
      d = false;
      for (e = 0; e < cnt && !d; e++) { if ((uint32_t)wr.get_offset() < mem_idx.size()) wr.template write<int16_t>((int16_t)~wr.get_offset()); d = wr.Next(); }
      for (size_t i = 0; i < mem_idx.size(); i++) if (mem_idx[i] != (int16_t)i) { at.push_back(i); mem_idx[i] = (int16_t)i; }
    }
    fprintf(out, "J"); lst("dim", dim); lst("vals", vals); lst("wr", at); fprintf(out, "\n");
    it.Next();
  }
}

// configurations under a sequence of operations
template <uint32_t R> static void cfg_line(const IteratorCfg<R>& c) {
  const char* n[] = {"ord", "cnt", "finc", "inc", "linc", "fsz", "sz", "lsz", "dc"};
  fprintf(out, "J");
  for (int f = 0; f < 9; f++) {
    VI v;
    for (uint32_t i = 0; i < R; i++)
      v.push_back(f == 0 ? c.get_order(i) : f == 1 ? c.get_count(i) : f == 2 ? c.get_first_inc(i) : f == 3 ? c.get_inc(i) : f == 4 ? c.get_last_inc(i) :
                  f == 5 ? (int)c.get_first_size(i) : f == 6 ? (int)c.get_size(i) : f == 7 ? (int)c.get_last_size(i) : (int)c.get_diff_code(i));
    lst(n[f], v);
  }
  lst("num", {(int)c.get_buf_tiles_num()}); fprintf(out, "\n");
}
//  pv[10..]: 1 leading padding | 2 alignments | 3 granularity dim old new | 4 increments override | 5 shrink cyclic | 6 no overlap
//            7 reordered dimensions | 8 counts | 9 increment mask | 10 new order | 11 rebuilt from its parts, for n tiles | 12 count at
template <uint32_t R> static void cfg_ops() {
  IteratorCfg<R> c = out_it<R>().get_config(); Tensor<Buffer, R> t = itn<R>(pv[1], pv[2]);
  if (pv[0][6]) {
    uint32_t k[R], s[R], p[R]; for (uint32_t i = 0; i < R; i++) { k[i] = pv[7][i]; s[i] = pv[8][i]; p[i] = pv[9][i]; }
    t = itn<R>(pv[5], pv[6]); c = IteratorCfg<R>(c, t, k, s, p);
  }
  cfg_line(c);
  for (size_t n = 10; n < pv.size(); n++) {
    const VI& op = pv[n]; uint32_t u[R]; int32_t w[R];
    bool vec = op.size() == R + 1; for (uint32_t i = 0; vec && i < R; i++) u[i] = w[i] = op[1 + i];
    switch (op[0]) {
      case 1: c.template ApplyPrePadding<R>(u); break;
      case 2: c.template ApplyAlignsToSizes<R>(u); break;
      case 3: c.ConvertGran(op[1], op[2], op[3]); break;
      case 4: c.template OverrideIncrements<Buffer, R>(w, t); break;
      case 5: { IteratorCfg<R> d(c, (bool)op[1]); c.ShrinkCfg(op[1]); cfg_line(d); break; }
      case 6: c.RemoveOverlapAdjacentTiles(); break;
      case 7: c = c.transpose_order(u); break;
      case 8: c.set_count(w); break;
      case 9: c.SetZeroIncrements(w); break;
      case 10: c.UpdateOrder(w); break;
      case 11: {
        int32_t a[8][R];
        for (uint32_t i = 0; i < R; i++) {
          a[0][i] = c.get_order(i); a[1][i] = c.get_count(i); a[2][i] = c.get_first_inc(i); a[3][i] = c.get_inc(i); a[4][i] = c.get_last_inc(i);
          a[5][i] = c.get_first_size(i); a[6][i] = c.get_size(i); a[7][i] = c.get_last_size(i);
        }
        c = op[1] ? IteratorCfg<R>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], op[1]) : IteratorCfg<R>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
        break;
      }
      case 12: c.SetCount(op[1], op[2]); break;
      default: proto("cfg op");
    }
    cfg_line(c);
  }
}

template <uint32_t R> static void iter_r(const std::string& kind) {
  int steps = pv[0][2];
  if (kind == "out") { walk(out_it<R>(), steps, true); return; }
  if (kind == "plain") {   // the constructors without skew
    uint32_t t[R]; for (uint32_t i = 0; i < R; i++) t[i] = pv[3][i];
    walk(TensorIterator<Buffer, R, R>(itn<R>(pv[1], pv[2]), t, pv[4].data()), steps, true); return;
  }
  if (kind == "whole") { walk(TensorIterator<Buffer, R, R>(itn<R>(pv[1], pv[2])), steps, true); return; }
  if (kind == "tr") {   // an iterator over the tensor with its dimensions reordered (pv[5])
    uint32_t q[R]; for (uint32_t i = 0; i < R; i++) q[i] = pv[5][i];
    walk(out_it<R>().transpose(q), steps, true); return;
  }
  if (kind == "setcfg") {   // a configuration given to an existing iterator
    TensorIterator<Buffer, R, R> it(itn<R>(pv[1], pv[2])); it.set_config(out_it<R>().get_config());
    walk1<Buffer, R, R>(it, steps, true, false); return;
  }
  if (kind == "gran") {   // pv[7] = new element size, along the first dimension
    uint32_t s[R]; int32_t t[R]; auto f = out_it<R>(); f.get_full_shape(s); f.get_mem_strides(t);
    TensorIterator<OffsetBuffer, R, R> o(TensorIterator<NoBuffer, R, R>(Tensor<NoBuffer, R>(s, t), f.get_config()));
    o.set_buf(OffsetBuffer(40, 1, mem_idx.size(), 2));
    o.ConvertGran(pv[7][0], pv[7][1]);
    uint64_t base[2] = {0, reinterpret_cast<uint64_t>(mem_idx.data()) - 40};
    walk1<InternalBuffer, R, R>(TensorIterator<InternalBuffer, R, R>(o, base, 2), steps, true, true); return;
  }
  if (kind == "shrink") {   // pv[5] alignments, pv[6] = number of tiles
    auto it = out_it<R>();
    uint32_t al[R]; for (uint32_t i = 0; i < R; i++) al[i] = pv[5][i];
    int n = it.ShrinkBuffer(pv[6][0], false, al);
    int32_t st[R]; it.get_mem_strides(st);
    fprintf(out, "J"); lst("size", {n}); lst("st", VI(st, st + R)); fprintf(out, "\n");
    walk1<Buffer, R, R>(it, steps, false, false); return;
  }
  if (kind == "buf") {   // a configuration for a buffer of one tile
    auto c = out_it<R>().get_config();
    int32_t v[8][R];
    for (uint32_t i = 0; i < R; i++) {
      v[0][i] = c.get_order(i); v[1][i] = c.get_count(i); v[2][i] = c.get_first_inc(i); v[3][i] = c.get_inc(i); v[4][i] = c.get_last_inc(i);
      v[5][i] = c.get_first_size(i); v[6][i] = c.get_size(i); v[7][i] = c.get_last_size(i);
    }
    IteratorCfg<R> b(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], 1);
    TensorIterator<Buffer, R, R> it(itn<R>(pv[1], pv[2]), b);
    int32_t st[R]; it.get_mem_strides(st);
    fprintf(out, "J"); lst("st", VI(st, st + R)); fprintf(out, "\n");
    if (pv[0][5]) {
      uint32_t s[R]; int32_t t[R]; it.get_full_shape(s); it.get_mem_strides(t);
      TensorIterator<OffsetBuffer, R, R> o(TensorIterator<NoBuffer, R, R>(Tensor<NoBuffer, R>(s, t), it.get_config()));
      o.set_buf(OffsetBuffer(40, 1, mem_idx.size() * 2, 2));
      uint64_t base[2] = {0, reinterpret_cast<uint64_t>(mem_idx.data()) - 40};
      walk1<InternalBuffer, R, R>(TensorIterator<InternalBuffer, R, R>(o, base, 2), steps, false, true);
    } else walk1<Buffer, R, R>(it, steps, false, true);
    return;
  }
  if (kind == "cyc") {   // a cyclic buffer: pv[10] alignments, pv[11] = number of tiles; pv[0][6]: over the input of a window
    auto o = out_it<R>();
    if (pv[0][6]) {
      uint32_t k[R], s[R], p[R]; for (uint32_t i = 0; i < R; i++) { k[i] = pv[7][i]; s[i] = pv[8][i]; p[i] = pv[9][i]; }
      o = TensorIterator<Buffer, R, R>(itn<R>(pv[5], pv[6]), o, k, s, p);
    }
    uint32_t al[R]; for (uint32_t i = 0; i < R; i++) al[i] = pv[10][i];
    int n = (int)o.ShrinkBuffer(pv[11][0], true, al);
    int32_t st[R]; o.get_mem_strides(st);
    fprintf(out, "J"); lst("size", {n}); lst("st", VI(st, st + R)); fprintf(out, "\n");
    cfg_line(o.get_config()); return;
  }
  if (kind == "sub" || kind == "subin") {   // every tile element by element
    auto o = out_it<R>();
    if (kind == "subin") {
      uint32_t k[R], s[R], p[R]; for (uint32_t i = 0; i < R; i++) { k[i] = pv[7][i]; s[i] = pv[8][i]; p[i] = pv[9][i]; }
      tiles1<R>(TensorIterator<Buffer, R, R>(itn<R>(pv[5], pv[6]), o, k, s, p), steps);
    } else tiles1<R>(o, steps);
    return;
  }
  if (kind == "cfg") { cfg_ops<R>(); return; }
  if (kind == "in" || kind == "noov") {
    auto o = out_it<R>();
    uint32_t k[R], s[R], p[R]; for (uint32_t i = 0; i < R; i++) { k[i] = pv[7][i]; s[i] = pv[8][i]; p[i] = pv[9][i]; }
    TensorIterator<Buffer, R, R> it(itn<R>(pv[5], pv[6]), o, k, s, p);
    if (kind == "noov") it.RemoveOverlapAdjacentTiles();
    walk(it, steps, true); return;
  }
  if (kind == "drop") {
    if constexpr (R > 1) {
      auto o = out_it<R>();
      IteratorCfg<R - 1> cfg(o.get_config(), (uint32_t)pv[0][4]);
      walk(TensorIterator<Buffer, R - 1, R - 1>(itn<R - 1>(pv[5], pv[6]), cfg), steps, true);
    }
    return;
  }
  proto("iter kind");
}

static const int32_t mask5[5] = {1, 1, 1, 1, 0};
static void iter_w() {   // iterators of weights and zero points follow the output channels
  auto o = out_it<5>(); int steps = pv[0][2];
  if (pv[5].size() == 5) walk(TensorIterator<Buffer, 5, 5>(itn<5>(pv[5], pv[6]), o, nullptr, mask5), steps, false);
  else if (pv[5].size() == 3) { const int32_t ord[5] = {-1, 0, 1, -1, 2}; walk(TensorIterator<Buffer, 3, 5>(itn<3>(pv[5], pv[6]), o, ord, mask5), steps, false); }
  else { const int32_t ord[5] = {-1, -1, -1, -1, 0}; walk(TensorIterator<Buffer, 1, 5>(itn<1>(pv[5], pv[6]), o, ord, mask5), steps, false); }
}

// ------------------------------------------------------------------- views
// pv[3..]: operations.  1 slice pos size | 2 slice offset size | 3 slice size | 4 transpose order
//                       5 split axis chunks left | 6 combine axis reverse | 7 element size, first dimension
//                       8 copied to a larger rank | 9 same strides, other shape | 10 given another kind of buffer
template <class B, uint32_t R> static void view_line(Tensor<B, R> t, int bytes) {
  int n = t.get_rank(); VI sh, vals; long cnt = 1;
  for (int i = 0; i < n; i++) { sh.push_back(t.get_dim(i)); cnt *= sh[i]; }
  if (cnt >= 0 && cnt <= 4000) {
    VI q(n, 0);
    for (long e = 0; e < cnt; e++) {
      uint32_t p[R] = {0}; for (int i = 0; i < n; i++) p[i] = q[i];
      uint32_t o = t.get_offset(p);
      vals.push_back(((uint64_t)o + t.get_offs() + 1) * t.get_elem_size() <= mem_idx.size() * 2 ? rd_at(t, o) : -1);
      for (int d = n - 1; d >= 0; d--) { if (++q[d] < sh[d]) break; q[d] = 0; }
    }
  }
  fprintf(out, "J"); lst("dim", sh); lst("rank", {n}); lst("num", {(int)t.get_total_elem_num()}); lst("es", {(int)t.get_elem_size()});
  lst("bytes", {bytes}); lst("vals", vals); fprintf(out, "\n");
}
template <class B, uint32_t R> static Tensor<Buffer, R> as_buffer(const Tensor<B, R>& t, uint32_t es) {
  uint32_t s[R]; int32_t m[R]; t.get_dims(s); t.get_mem_strides(m);
  Tensor<Buffer, R> r(Buffer(mem_idx.data(), (uint32_t)mem_idx.size() * 2, es), s, m, t.get_rank()); r.set_offs(t.get_offs());
  return r;
}
template <uint32_t R> static void view(Tensor<Buffer, R> t, size_t n, int bytes = 0) {
  if (!bytes) bytes = mem_idx.size() * 2;
  view_line(t, bytes);
  if (n >= pv.size()) return;
  const VI& op = pv[n];
  uint32_t a[R], b[R];
  uint64_t base[2] = {0, reinterpret_cast<uint64_t>(mem_idx.data()) - 40};
  const uint32_t es = t.get_elem_size();
  if (op[0] == 1) { for (uint32_t i = 0; i < R; i++) { a[i] = op[1 + i]; b[i] = op[1 + R + i]; } view<R>(t.slice(a, b), n + 1); }
  else if (op[0] == 2) { for (uint32_t i = 0; i < R; i++) b[i] = op[2 + i]; view<R>(t.slice((uint32_t)op[1], b), n + 1); }
  else if (op[0] == 3) { for (uint32_t i = 0; i < R; i++) b[i] = op[1 + i]; view<R>(t.slice(b), n + 1); }
  else if (op[0] == 4) { for (uint32_t i = 0; i < R; i++) a[i] = op[1 + i]; view<R>(t.transpose(a), n + 1); }
  else if (op[0] == 5) { if constexpr (R < 5) view<R + 1>(t.split(op[1], op[2], op[3]), n + 1); else proto("split"); }
  else if (op[0] == 6) { if constexpr (R > 1) view<R - 1>(t.combine(op[1], op[2]), n + 1); else proto("combine"); }
  else if (op[0] == 7) {
    uint32_t s[R]; int32_t m[R]; t.get_dims(s); t.get_mem_strides(m);
    Tensor<OffsetBuffer, R> o(OffsetBuffer(40, 1, mem_idx.size() * 2 / es, es), s, m); o.set_offs(t.get_offs());
    o.ConvertGran(op[1], op[2]);
    bytes = o.get_buf().get_size() * o.get_buf().get_elem_size();
    view<R>(as_buffer<OffsetBuffer, R>(o, o.get_elem_size()), n + 1, bytes);
  }
  else if (op[0] == 8) { view_line(Tensor<Buffer, R + 1>(t), mem_idx.size() * 2); }
  else if (op[0] == 9) { for (uint32_t i = 0; i < R; i++) b[i] = op[1 + i]; view<R>(Tensor<Buffer, R>(t, b), n + 1); }
  else if (op[0] == 10) {
    uint32_t s[R]; int32_t m[R]; t.get_dims(s); t.get_mem_strides(m);
    Tensor<NoBuffer, R> z(s, m); z.set_offs(t.get_offs());
    Tensor<OffsetBuffer, R> o(OffsetBuffer(40, 1, mem_idx.size() * 2 / es, es), z);
    Tensor<InternalBuffer, R> in(o, base, 2);
    if (pv.size() == n + 1) view_line(in, (int)(in.get_buf().get_size() * in.get_buf().get_elem_size()));
    else view<R>(as_buffer<InternalBuffer, R>(in, in.get_elem_size()), n + 1);
  }
  else proto("view op");
}

static void iter(const std::string& kind) {
  for (size_t i = 0; i < mem_idx.size(); i++) mem_idx[i] = (int16_t)i;
  int R = pv[0][1];
  if (kind == "w") iter_w();
  else if (kind == "view") {
    if (R == 1) view<1>(itn<1>(pv[1], pv[2]), 3); else if (R == 2) view<2>(itn<2>(pv[1], pv[2]), 3);
    else if (R == 3) view<3>(itn<3>(pv[1], pv[2]), 3); else if (R == 4) view<4>(itn<4>(pv[1], pv[2]), 3);
    else view<5>(itn<5>(pv[1], pv[2]), 3);
  }
  else if (R == 1) iter_r<1>(kind); else if (R == 2) iter_r<2>(kind); else if (R == 3) iter_r<3>(kind);
  else if (R == 4) iter_r<4>(kind); else iter_r<5>(kind);
}
