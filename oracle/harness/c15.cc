#include "vhfsa.h"
#include "k2/csrc/host_shim.h"
using namespace k2;

OP(Invert) {
  int64_t host = io.i();
  FsaOrVec f = vh::GetFsa(io);
  Ragged<int32_t> aux = io.ragged();
  FsaOrVec d;
  Ragged<int32_t> da;
  Array1<int32_t> m;
  if (host) InvertHost(f, aux, &d, &da);
  else Invert(f, aux, &d, &da, &m);
  vh::PutFsa(io, d);
  io.put(da);
  if (!host) io.put(m);
}
OP(ExpandArcs) {
  FsaOrVec f = vh::GetFsa(io);
  RaggedShape s = io.shape();
  Array1<int32_t> a, b;
  FsaOrVec d = ExpandArcs(f, s, &a, &b);
  vh::PutFsa(io, d);
  io.put(a);
  io.put(b);
}
