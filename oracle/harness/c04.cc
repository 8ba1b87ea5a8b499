#include "vh.h"
using namespace k2;

template <typename T>
static Ragged<T> Get(vh::Io &io) {
  RaggedShape s = io.shape();
  auto v = io.vecd();
  return Ragged<T>(s, Array1<T>(io.c, std::vector<T>(v.begin(), v.end())));
}
template <typename T>
static void Reduce(vh::Io &io) {
  double init = io.d();
  Ragged<T> src = Get<T>(io);
  int32_t n = src.TotSize(src.NumAxes() - 2);
  Array1<T> d(io.c, n + 2);
  d = (T)-77;
  Array1<T> v = d.Arange(1, n + 1);
  MaxPerSublist(src, (T)init, &v);
  io.putf(v);
  MinPerSublist(src, (T)init, &v);
  io.putf(v);
  SumPerSublist(src, (T)init, &v);
  io.putf(v);
  io.putf(d);
  Array1<int32_t> am(io.c, n);
  ArgMaxPerSublist(src, (T)init, &am);
  io.put(am);
  Array1<T> es(io.c, src.NumElements());
  SegmentedExclusiveSum(src, &es);
  io.putf(es);
  SegmentedExclusiveSum(src, &src.values);
  io.putf(src.values);
}
OP(ReduceI) { Reduce<int32_t>(io); }
OP(ReduceF) { Reduce<float>(io); }
OP(ReduceD) { Reduce<double>(io); }
OP(AndOr) {
  int32_t init = io.i();
  Ragged<int32_t> src = io.ragged();
  Array1<int32_t> v(io.c, src.TotSize(src.NumAxes() - 2));
  AndPerSublist(src, init, &v);
  io.put(v);
  OrPerSublist(src, init, &v);
  io.put(v);
}
template <typename T>
static void Soft(vh::Io &io) {
  double init = io.d();
  Ragged<T> src = Get<T>(io);
  Array1<T> v(io.c, src.TotSize(src.NumAxes() - 2));
  LogSumPerSublist(src, (T)init, &v);
  io.putf(v);
  io.putf(NormalizePerSublist(src, true).values);
  io.putf(NormalizePerSublist(src, false).values);
  double alpha = io.d();
  auto a = io.vecd();
  Array1<T> val(io.c, std::vector<T>(a.begin(), a.end()));
  io.putf(AddPerSublist(src, val, (T)alpha).values);
  io.putf(src.values);
}
OP(SoftF) { Soft<float>(io); }
OP(SoftD) { Soft<double>(io); }
OP(SortI) {
  int32_t desc = io.i();
  Ragged<int32_t> src = io.ragged();
  Array1<int32_t> order(io.c, src.NumElements());
  if (desc) SortSublists<int32_t, GreaterThan<int32_t>>(&src, &order);
  else SortSublists<int32_t>(&src, &order);
  io.put(src);
  io.put(order);
}
OP(SortF) {
  int32_t desc = io.i();
  Ragged<float> src = Get<float>(io);
  Array1<int32_t> order(io.c, src.NumElements());
  if (desc) SortSublists<float, GreaterThan<float>>(&src, &order);
  else SortSublists<float>(&src, &order);
  io.putf(src.values);
  io.put(order);
}
OP(Unique) {
  Ragged<int32_t> src = io.ragged();
  Ragged<int32_t> rep;
  Array1<int32_t> n2o;
  int32_t full = io.i();
  Ragged<int32_t> a = full ? UniqueSequences(src, &rep, &n2o) : UniqueSequences(src);
  a.shape.Check();
  io.put(a);
  if (full) {
    io.put(rep);
    io.put(n2o);
  }
}
OP(Hash) {
  Ragged<int32_t> src = io.ragged();
  io.put(ComputeHash<int32_t>(src));
  io.put(ComputeHash<int64_t>(src));
}
OP(TransposeReordering) {
  int32_t n = io.i();
  Ragged<int32_t> src = io.ragged();
  io.put(GetTransposeReordering(src, n));
}
OP(CountsPartitioned) {
  Ragged<int32_t> src = io.ragged();
  RaggedShape s = io.shape();
  io.put(GetCountsPartitioned(src, s));
}
