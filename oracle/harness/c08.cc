#include "vh.h"
using namespace k2;

OP(VecProps) {
  RaggedShape s = io.shape();
  std::vector<int32_t> a = io.vec32();
  std::vector<Arc> arcs(a.size() / 3);
  for (size_t i = 0; i != arcs.size(); ++i) arcs[i] = Arc(a[3 * i], a[3 * i + 1], a[3 * i + 2], 0.5f);
  FsaVec v(s, Array1<Arc>(io.c, arcs));
  Array1<int32_t> p;
  int32_t tot = -77;
  GetFsaVecBasicProperties(v, &p, &tot);
  io.put(p);
  io.put((int64_t)tot);
  GetFsaVecBasicProperties(v, nullptr, &tot);
  io.put((int64_t)tot);
}
