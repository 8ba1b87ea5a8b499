#include "vh.h"
using namespace k2;

static Array1<int32_t> Out(vh::Io &io, int32_t n, int32_t pad) {
  Array1<int32_t> a(io.c, n + 2 * pad, -77);
  return a.Arange(pad, pad + n);
}

OP(RowSplitsToRowIds) {
  int32_t pad = io.i();
  auto rs = io.arr(pad);
  auto ids = Out(io, rs.Back(), pad);
  RowSplitsToRowIds(rs, &ids);
  io.put(ids);
  io.put(rs);
}
OP(RowIdsToRowSplits) {
  int32_t pad = io.i(), rows = io.i();
  auto ids = io.arr(pad);
  auto rs = Out(io, rows + 1, pad);
  RowIdsToRowSplits(ids, &rs);
  io.put(rs);
  io.put(ids);
}
OP(RowIdsToRowSplitsPtr) {
  int32_t noempty = io.i(), rows = io.i();
  auto ids = io.arr();
  auto rs = Out(io, rows + 1, 3);
  RowIdsToRowSplits(io.c, ids.Dim(), ids.Data(), noempty, rows, rs.Data());
  io.put(rs);
}
OP(RowSplitsToRowIdsOffset) {
  auto rs = io.arr(1);
  auto ids = Out(io, rs.Back() - rs[0], 2);
  RowSplitsToRowIdsOffset(rs, &ids);
  io.put(ids);
}
OP(RowSplitsToSizes) {
  auto rs = io.arr(1);
  io.put(RowSplitsToSizes(rs));
}
OP(ExclusiveSum) {   // dest may be one longer than src; optionally in place
  int32_t extra = io.i(), inplace = io.i();
  std::vector<int32_t> v = io.vec32();
  std::vector<int32_t> w = v;
  w.push_back(1000);
  Array1<int32_t> reg(io.c, w);
  Array1<int32_t> src = reg.Arange(0, v.size());
  if (inplace) {
    Array1<int32_t> dst = reg.Arange(0, v.size() + extra);
    ExclusiveSum(src, &dst);
    io.put(dst);
  } else {
    auto dst = Out(io, v.size() + extra, 1);
    ExclusiveSum(src, &dst);
    io.put(dst);
  }
}
OP(ExclusiveSumF) {
  auto src = io.farr();
  io.putf(ExclusiveSum(src));
  io.putf(InclusiveSum(src));
}
OP(InclusiveSum) {
  auto src = io.arr(io.i());
  io.put(InclusiveSum(src));
  io.put(ExclusiveSum(src));
}
OP(ExclusiveSum2) {
  int32_t r = io.i(), cc = io.i(), axis = io.i(), extra = io.i(), pad = io.i();
  auto v = io.vec32();
  Array2<int32_t> big(io.c, r + 1, cc + pad, 99);
  Array2<int32_t> src = big.RowArange(0, r).ColArange(0, cc);
  for (int32_t i = 0; i < r; ++i)
    for (int32_t j = 0; j < cc; ++j) src.Data()[i * src.ElemStride0() + j] = v[i * cc + j];
  Array2<int32_t> bigd(io.c, r + 1, cc + 1 + pad, 55);
  Array2<int32_t> dst = bigd.RowArange(0, axis == 0 ? r + extra : r).ColArange(0, axis == 1 ? cc + extra : cc);
  ExclusiveSum(src, &dst, axis);
  std::vector<int32_t> o;
  for (int32_t i = 0; i < dst.Dim0(); ++i)
    for (int32_t j = 0; j < dst.Dim1(); ++j) o.push_back(dst.Data()[i * dst.ElemStride0() + j]);
  io.put(o);
  o.clear();
  for (int32_t i = 0; i < bigd.Dim0(); ++i)
    for (int32_t j = 0; j < bigd.Dim1(); ++j)
      if (i >= dst.Dim0() || j >= dst.Dim1()) o.push_back(bigd.Data()[i * bigd.ElemStride0() + j]);
  io.put(o);
}
OP(Transpose2) {
  int32_t r = io.i(), cc = io.i(), pad = io.i();
  auto v = io.vec32();
  Array2<int32_t> big(io.c, r, cc + pad, 99);
  Array2<int32_t> src = big.ColArange(0, cc);
  for (int32_t i = 0; i < r; ++i)
    for (int32_t j = 0; j < cc; ++j) src.Data()[i * src.ElemStride0() + j] = v[i * cc + j];
  Array2<int32_t> bigd(io.c, cc, r + pad, 55);
  Array2<int32_t> dst = bigd.ColArange(0, r);
  Transpose(io.c, src, &dst);
  std::vector<int32_t> o;
  for (int32_t i = 0; i < cc; ++i)
    for (int32_t j = 0; j < r; ++j) o.push_back(dst.Data()[i * dst.ElemStride0() + j]);
  io.put(o);
  Array2<int32_t> cp = ToContiguous(src);
  o.clear();
  for (int32_t i = 0; i < r * cc; ++i) o.push_back(cp.Data()[i]);
  io.put(o);
  io.put((int64_t)Equal(src, cp));
  if (r * cc) {
    cp.Data()[r * cc - 1] += 1;
    io.put((int64_t)Equal(src, cp));
  } else {
    io.put((int64_t)0);
  }
}
OP(IndexRows) {
  int32_t r = io.i(), cc = io.i(), pad = io.i(), m1 = io.i();
  auto v = io.vec32();
  auto idx = io.arr();
  Array2<int32_t> big(io.c, r, cc + pad, 99);
  Array2<int32_t> src = big.ColArange(0, cc);
  for (int32_t i = 0; i < r; ++i)
    for (int32_t j = 0; j < cc; ++j) src.Data()[i * src.ElemStride0() + j] = v[i * cc + j];
  Array2<int32_t> a = IndexRows(src, idx, m1);
  std::vector<int32_t> o;
  for (int32_t i = 0; i < a.Dim0(); ++i)
    for (int32_t j = 0; j < a.Dim1(); ++j) o.push_back(a.Data()[i * a.ElemStride0() + j]);
  io.put((int64_t)a.Dim0());
  io.put((int64_t)a.Dim1());
  io.put(o);
}
OP(Index1) {
  int32_t m1 = io.i(), def = io.i();
  auto src = io.arr(2), idx = io.arr(1);
  io.put(Index(src, idx, m1, def));
}
OP(MaxValue) {
  auto a = io.arr(1);
  io.put((int64_t)MaxValue(a));
  Array1<int32_t> d(io.c, 1);
  Max(a, (int32_t)io.i(), &d);
  io.put(d);
  And(a, (int32_t)-1, &d);
  io.put(d);
  Or(a, (int32_t)0, &d);
  io.put(d);
}
OP(Binary) {
  auto a = io.arr(1), b = io.arr(2);
  io.put(Plus(a, b));
  io.put(Minus(a, b));
  io.put(Times(a, b));
  io.put(Plus(a, (int32_t)7));
}
OP(Cat) {
  int32_t n = io.i();
  std::vector<Array1<int32_t>> s;
  for (int32_t k = 0; k < n; ++k) s.push_back(io.arr(k % 3));
  std::vector<const Array1<int32_t> *> p;
  for (auto &x : s) p.push_back(&x);
  io.put(Cat(io.c, n, p.data()));
  io.put(Cat(io.c, n, s.data()));
}
OP(SpliceRowSplits) {
  int32_t n = io.i();
  std::vector<Array1<int32_t>> s;
  for (int32_t k = 0; k < n; ++k) s.push_back(io.arr(k % 2));
  std::vector<const Array1<int32_t> *> p;
  for (auto &x : s) p.push_back(&x);
  io.put(SpliceRowSplits(n, p.data()));
}
OP(CatWithOffsets) {
  auto off = io.arr();
  int32_t n = off.Dim();
  std::vector<Array1<int32_t>> s;
  for (int32_t k = 0; k < n; ++k) s.push_back(io.arr(k % 2));
  std::vector<const Array1<int32_t> *> p;
  for (auto &x : s) p.push_back(&x);
  io.put(CatWithOffsets(off, p.data()));
}
OP(ExclusiveSumDeref) {
  auto v = io.arr();
  Array1<const int32_t *> p(io.c, v.Dim());
  for (int32_t k = 0; k < v.Dim(); ++k) p.Data()[k] = v.Data() + (v.Dim() - 1 - k);
  Array1<int32_t> d(io.c, v.Dim());
  ExclusiveSumDeref(p, &d);
  io.put(d);
}
OP(SizesToMergeMap) {
  auto m = SizesToMergeMap(io.c, io.vec32());
  io.put(m);
}
OP(Range) {
  int32_t n = io.i(), a = io.i(), inc = io.i();
  io.put(Range<int32_t>(io.c, n, a, inc));
  int32_t b = io.i(), e = io.i(), inc2 = io.i();
  io.put(Arange<int32_t>(io.c, b, e, inc2));
}
OP(Preds) {
  auto a = io.arr(1);
  io.put((int64_t)IsMonotonic(a));
  io.put((int64_t)IsMonotonicDecreasing(a));
  io.put((int64_t)IsPermutation(a));
  io.put((int64_t)ValidateRowIds(a));
  Array1<int32_t> temp(io.c, 1, 5);
  io.put((int64_t)ValidateRowIds(a, &temp));
  io.put((int64_t)(a.Dim() ? ValidateRowSplits(a) : 0));
  io.put((int64_t)(a.Dim() ? ValidateRowSplits(a, &temp) : 0));
  auto b = io.arr(0);
  io.put((int64_t)(a.Dim() == b.Dim() ? Equal(a, b) : false));
  io.put((int64_t)(Equal(a, (int32_t)io.i())));
}
OP(ValidateBoth) {
  auto a = io.arr(1), b = io.arr(2);
  io.put((int64_t)ValidateRowSplitsAndIds(a, b));
  Array1<int32_t> temp(io.c, 1, 5);
  io.put((int64_t)ValidateRowSplitsAndIds(a, b, &temp));
}
OP(InvertPermutation) { io.put(InvertPermutation(io.arr(1))); }
OP(InvertMonotonicDecreasing) {
  auto a = InvertMonotonicDecreasing(io.arr(1));
  io.put(a);
  io.put(InvertMonotonicDecreasing(a));
}
OP(GetCounts) {
  int32_t n = io.i();
  auto a = io.arr(1);
  io.put(GetCounts(a, n));
  io.put(GetCounts(io.c, a.Data(), a.Dim(), n));
}
OP(Bounds) {
  auto a = io.arr(1);
  auto d = Out(io, a.Dim(), 1);
  MonotonicLowerBound(a, &d);
  io.put(d);
  d = Out(io, a.Dim(), 1);
  MonotonicDecreasingUpperBound(a, &d);
  io.put(d);
  MonotonicLowerBound(a, &a);
  io.put(a);
}
OP(Sort) {
  auto a = io.arr(1);
  Array1<int32_t> m;
  auto b = a.Clone();
  Sort(&b, &m);
  io.put(b);
  io.put(m);
  auto c2 = a.Clone();
  Sort<int32_t, GreaterThan<int32_t>>(&c2, &m);
  io.put(c2);
  io.put(m);
}
// which: bit 0 give row_splits, bit 1 give row_ids, bit 2 give size
OP(RaggedShape2) {
  int32_t which = io.i(), tot = io.i();
  auto a = io.arr(1), b = io.arr(1);
  RaggedShape s = RaggedShape2(which & 1 ? &a : nullptr, which & 2 ? &b : nullptr, which & 4 ? tot : -1);
  s.Check();
  io.put(s);
  io.put((int64_t)s.MaxSize(1));
}
OP(RaggedShapeN) {
  int32_t n = io.i();
  std::vector<Array1<int32_t>> s, d;
  std::vector<int32_t> w, tot;
  for (int32_t k = 0; k < n; ++k) {
    w.push_back(io.i());
    tot.push_back(io.i());
    s.push_back(io.arr());
    d.push_back(io.arr());
    if (!(w[k] & 4)) tot[k] = -1;
  }
  auto S = [&](int32_t k) { return w[k] & 1 ? &s[k] : nullptr; };
  auto D = [&](int32_t k) { return w[k] & 2 ? &d[k] : nullptr; };
  RaggedShape r = n == 2 ? RaggedShape3(S(0), D(0), tot[0], S(1), D(1), tot[1])
                         : RaggedShape4(S(0), D(0), tot[0], S(1), D(1), tot[1], S(2), D(2), tot[2]);
  r.Check();
  io.put(r);
}
OP(CheckShape) {   // layers given raw: row_splits, has_ids, row_ids, tot
  int32_t n = io.i();
  std::vector<RaggedShapeLayer> layers(n);
  for (int32_t k = 0; k < n; ++k) {
    layers[k].row_splits = io.arr();
    int32_t has = io.i();
    auto ids = io.arr();
    if (has) layers[k].row_ids = ids;
    layers[k].cached_tot_size = io.i();
  }
  RaggedShape s(layers, false);
  s.Check();
}
OP(Regular) {
  int32_t a = io.i(), b = io.i();
  io.put(RegularRaggedShape(io.c, a, b));
  io.put(TrivialShape(io.c, a));
  io.put(EmptyRaggedShape(io.c, 2 + a % 3));
}
OP(FromTotSizes) {
  auto v = io.vec32();
  RaggedShape s = RaggedShapeFromTotSizes(io.c, v);
  std::vector<int32_t> o;
  for (int32_t k = 0; k < s.NumAxes(); ++k) o.push_back(s.TotSize(k));
  for (auto &l : s.Layers()) {
    o.push_back(l.row_splits.Dim());
    o.push_back(l.row_ids.Dim());
  }
  io.put(o);
}
OP(Populate) {
  RaggedShape s = io.shape();
  s.Populate();
  s.Check();
  io.put(s);
  std::vector<int32_t> o;
  for (int32_t k = 0; k < s.NumAxes(); ++k) {
    o.push_back(s.TotSize(k));
    if (k) o.push_back(s.MaxSize(k));
  }
  o.push_back(s.NumElements());
  io.put(o);
}
