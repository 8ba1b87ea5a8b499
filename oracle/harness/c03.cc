#include "vh.h"
using namespace k2;

struct Many {
  std::vector<Ragged<int32_t>> r;
  std::vector<RaggedShape *> s;
  std::vector<Ragged<int32_t> *> p;
  explicit Many(vh::Io &io) {
    int32_t n = io.i();
    for (int32_t k = 0; k < n; ++k) r.push_back(io.ragged());
    for (auto &x : r) {
      s.push_back(&x.shape);
      p.push_back(&x);
    }
  }
};
OP(Stack) {
  int32_t axis = io.i();
  Many m(io);
  Array1<uint32_t> mm, mm2;
  Ragged<int32_t> a = Stack(axis, (int32_t)m.r.size(), m.p.data(), &mm);
  a.shape.Check();
  io.put(a);
  io.put(mm);
  io.put(Stack(axis, (int32_t)m.r.size(), m.s.data(), &mm2));
  io.put(mm2);
  if (axis <= 1) io.put(Stack(axis, (int32_t)m.r.size(), m.r.data()));
}
OP(Cat) {
  int32_t axis = io.i();
  Many m(io);
  Array1<uint32_t> mm, mm2;
  Ragged<int32_t> a = Cat(axis, (int32_t)m.r.size(), m.p.data(), &mm);
  a.shape.Check();
  io.put(a);
  io.put(mm);
  io.put(Cat(axis, (int32_t)m.r.size(), m.s.data(), &mm2));
  io.put(mm2);
  if (axis <= 1) io.put(Cat(axis, (int32_t)m.r.size(), m.r.data()));
}
OP(Merge) {
  Many m(io);
  auto v = io.vec32();
  Array1<uint32_t> map(io.c, std::vector<uint32_t>(v.begin(), v.end())), mm;
  Ragged<int32_t> a = Merge((int32_t)m.r.size(), m.p.data(), map, &mm);
  a.shape.Check();
  io.put(a);
  io.put(mm);
}
OP(Unstack) {
  int32_t axis = io.i(), right = io.i();
  Ragged<int32_t> src = io.ragged();
  std::vector<Ragged<int32_t>> out;
  std::vector<Array1<int32_t>> map;
  Unstack(src, axis, (bool)right, &out, &map);
  io.put((int64_t)out.size());
  for (size_t k = 0; k < out.size(); ++k) {
    out[k].shape.Check();
    io.put(out[k]);
    io.put(map[k]);
  }
  std::vector<RaggedShape> o2;
  Unstack(src.shape, axis, (bool)right, &o2);
  io.put((int64_t)o2.size());
  for (auto &s : o2) io.put(s);
  io.put(src.shape);
}
OP(Unsqueeze) {
  int32_t axis = io.i();
  Ragged<int32_t> src = io.ragged();
  io.put(Unsqueeze(src, axis));
  RaggedShape *s = &src.shape;
  auto v = UnsqueezeParallel(1, &s, 0);
  io.put(v[0]);
}
OP(RemoveAxis) {
  int32_t axis = io.i();
  Ragged<int32_t> src = io.ragged();
  if (axis == src.NumAxes() - 1) {
    RaggedShape s = RemoveAxis(src.shape, axis);
    s.Check();
    io.put(s);
  } else {
    Ragged<int32_t> r = RemoveAxis(src, axis);
    r.shape.Check();
    io.put(r);
    Ragged<int32_t> r2 = src.RemoveAxis(axis);
    io.put(r2);
  }
}
OP(Layers) {
  RaggedShape src = io.shape();
  for (int32_t l = 0; l < src.NumLayers(); ++l) io.put(GetLayer(src, l));
  for (int32_t a = 1; a < src.NumLayers(); ++a) {
    RaggedShape top, bot;
    DecomposeRaggedShape(src, a, &top, &bot);
    io.put(top);
    io.put(bot);
    io.put(ComposeRaggedShapes(top, bot));
  }
  if (src.NumAxes() == 4) {
    io.put(ComposeRaggedShapes3(GetLayer(src, 0), GetLayer(src, 1), GetLayer(src, 2)));
  }
}
OP(GetOffsets) {
  Many m(io);
  Array2<int32_t> o = GetOffsets(m.s.size(), m.s.data());
  io.put((int64_t)o.Dim0());
  io.put((int64_t)o.Dim1());
  std::vector<int32_t> v;
  for (int32_t i = 0; i < o.Dim0(); ++i)
    for (int32_t j = 0; j < o.Dim1(); ++j) v.push_back(o.Accessor()(i, j));
  io.put(v);
}
OP(MakeTransposable) {
  RaggedShape src = io.shape();
  RaggedShape a = MakeTransposable(src);
  a.Check();
  io.put(a);
}
OP(Transpose) {
  Ragged<int32_t> src = io.ragged();
  Array1<int32_t> vi;
  Ragged<int32_t> a = Transpose(src, &vi);
  a.shape.Check();
  io.put(a);
  io.put(vi);
  io.put(Transpose(src.shape));
}
OP(AddFix) {
  Ragged<int32_t> src = io.ragged();
  auto f = io.arr(1);
  io.put(AddSuffixToRagged(src, f));
  io.put(AddPrefixToRagged(src, f));
}
OP(ChangeSize) {
  int32_t d = io.i(), pinned = io.i();
  RaggedShape src = io.shape();
  RaggedShape a = pinned ? ChangeSublistSizePinned(src, d) : ChangeSublistSize(src, d);
  a.Check();
  io.put(a);
}
OP(Pad) {
  int32_t rep = io.i(), left = io.i(), val = io.i();
  Ragged<int32_t> src = io.ragged();
  Array2<int32_t> a = PadRagged(src, rep ? "replicate" : "constant", val, left);
  io.put((int64_t)a.Dim0());
  io.put((int64_t)a.Dim1());
  std::vector<int32_t> v;
  for (int32_t i = 0; i < a.Dim0(); ++i)
    for (int32_t j = 0; j < a.Dim1(); ++j) v.push_back(a.Accessor()(i, j));
  io.put(v);
}
OP(RemoveValues) {
  int32_t x = io.i();
  Ragged<int32_t> src = io.ragged();
  io.put(RemoveValuesLeq(src, x));
  io.put(RemoveValuesEq(src, x));
  io.put(src);
}
OP(Covering) {
  Many m(io);
  RaggedShape c = CoveringShape(m.s.size(), m.s.data());
  c.Check();
  io.put(c);
  for (auto *s : m.s) io.put(CoveringShapeForwardMap(*s, c));
}
OP(EqualShapes) {
  Ragged<int32_t> a = io.ragged(), b = io.ragged();
  io.put((int64_t)Equal(a.shape, b.shape));
  io.put((int64_t)(a.values.Dim() == b.values.Dim() && Equal(a, b)));
}
OP(Text) {
  Ragged<int32_t> a = io.ragged();
  std::ostringstream os;
  os << a;
  Ragged<int32_t> b(os.str(), false);
  io.put(b);
  std::ostringstream os2;
  os2 << a.shape;
  RaggedShape s(os2.str());
  io.put(s);
  io.put((int64_t)1);
}
