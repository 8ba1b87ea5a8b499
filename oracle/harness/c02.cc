#include "vh.h"
using namespace k2;

OP(Index) {
  int32_t axis = io.i();
  Ragged<int32_t> src = io.ragged();
  auto idx = io.arr(1);
  Array1<int32_t> vi;
  Ragged<int32_t> a = Index(src, axis, idx, &vi);
  a.shape.Check();
  io.put(a);
  io.put(vi);
  Array1<int32_t> ei;
  RaggedShape s = Index(src.shape, axis, idx, &ei);
  io.put(s);
  io.put(ei);
  io.put(Index(src.shape, axis, idx));
  io.put(src);
}
OP(IndexScalar) {
  int32_t i = io.i();
  Ragged<int32_t> src = io.ragged();
  int32_t vo = -1;
  RaggedShape s = src.shape.Index(0, i, &vo);
  io.put(s);
  io.put((int64_t)vo);
  io.put(src.Index(0, i));
}
OP(Arange) {
  int32_t axis = io.i(), b = io.i(), e = io.i();
  Ragged<int32_t> src = io.ragged();
  std::pair<int32_t, int32_t> vr(-1, -1);
  RaggedShape s = Arange(src.shape, axis, b, e, &vr);
  s.Check();
  io.put(s);
  io.put((int64_t)vr.first);
  io.put((int64_t)vr.second);
  io.put(Arange(src, axis, b, e));
}
OP(Prefix) {
  RaggedShape src = io.shape();
  auto sizes = io.vec32();
  io.put((int64_t)sizes.size());
  for (auto n : sizes) io.put(Prefix(src, n));
  auto v = GetPrefixes(src, sizes);
  for (auto &s : v) {
    s.Check();
    io.put(s);
  }
}
OP(Splitter) {
  Ragged<int32_t> src = io.ragged();
  int32_t n = src.Dim0(), na = src.NumAxes();
  RaggedAxis0Splitter<int32_t> sp(src);
  for (int32_t i = 0; i < n; ++i) {
    int32_t off = -1;
    Ragged<int32_t> r = sp.GetElement(i, &off);
    r.shape.Check();
    io.put(r);
    io.put((int64_t)off);
  }
  for (int32_t i = 0; i <= n; ++i)
    for (int32_t a = 0; a < na; ++a) io.put((int64_t)sp.GetOffset(i, a));
}
static Renumbering Ren(vh::Io &io, bool compute) {
  auto keep = io.vec32();
  Renumbering r(io.c, keep.size());
  for (size_t k = 0; k < keep.size(); ++k) r.Keep().Data()[k] = keep[k];
  (void)compute;
  return r;
}
OP(Renumber) {
  int32_t order = io.i();
  Renumbering r = Ren(io, false);
  if (order == 0) {
    io.put(r.New2Old());
    io.put(r.Old2New());
  } else if (order == 1) {
    auto a = r.Old2New();
    io.put(r.New2Old());
    io.put(a);
  } else {
    int32_t n = r.NumNewElems();
    io.put(r.New2Old(true).Arange(0, n));
    io.put(r.Old2New(true).Arange(0, r.NumOldElems()));
  }
  io.put((int64_t)r.NumNewElems());
  io.put((int64_t)r.NumOldElems());
}
OP(Subset) {
  int32_t axis = io.i();
  Ragged<int32_t> src = io.ragged();
  Renumbering r = Ren(io, false);
  Array1<int32_t> n2o;
  Ragged<int32_t> a = SubsetRagged(src, r, axis, &n2o);
  a.shape.Check();
  io.put(a);
  io.put(n2o);
}
OP(Subset2) {
  RaggedShape src = io.shape();
  Renumbering r1 = Ren(io, false), r2 = Ren(io, false);
  RaggedShape a = SubsetRaggedShape(src, r1, r2);
  a.Check();
  io.put(a);
}
OP(RemoveEmpty) {
  int32_t axis = io.i();
  RaggedShape src = io.shape();
  Renumbering r;
  RaggedShape a = RemoveEmptyLists(src, axis, &r);
  a.Check();
  io.put(a);
  io.put(r.New2Old());
  if (axis == 0) io.put(RemoveEmptyListsAxis0(src));
}
OP(RemoveSomeEmpty) {
  int32_t axis = io.i();
  RaggedShape src = io.shape();
  Renumbering r = Ren(io, false);
  RaggedShape a = RemoveSomeEmptyLists(src, axis, r);
  a.Check();
  io.put(a);
  if (axis == 0) io.put(RenumberAxis0Simple(src, r));
}
OP(Prune) {
  int32_t axis = io.i();
  double beam = io.d();
  int32_t mx = io.i();
  RaggedShape s = io.shape();
  Array1<float> v = io.farr();
  Ragged<float> src(s, v);
  Renumbering r = PruneRagged(src, axis, (float)beam, mx);
  io.put(r.New2Old());
  io.put((int64_t)r.NumOldElems());
}
OP(IndexRagged) {
  int32_t rm = io.i();
  Ragged<int32_t> src = io.ragged(), idx = io.ragged();
  Ragged<int32_t> a = Index(src, idx, rm);
  a.shape.Check();
  io.put(a);
}
OP(IndexArrayRagged) {
  auto src = io.arr(1);
  Ragged<int32_t> idx = io.ragged();
  int32_t def = io.i(), m1 = io.i();
  io.put(m1 ? Index(src, idx, def) : Index(src, idx));
}
OP(Iterate) {
  Ragged<int32_t> src = io.ragged();
  std::vector<int32_t> o;
  for (auto it = src.shape.Iterator(); !it.Done(); it.Next()) {
    const std::vector<int32_t> &v = it.Value();
    o.insert(o.end(), v.begin(), v.end());
    o.push_back(src[v]);
  }
  io.put(o);
  io.put(GetDecreasingSizeOrder(src.shape));
  std::vector<int32_t> m;
  for (int32_t a = 1; a < src.NumAxes(); ++a) m.push_back(src.shape.MaxSize(a));
  io.put(m);
}
