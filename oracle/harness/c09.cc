#include "vhfsa.h"
using namespace k2;

// the CPU-only versions, which the host algorithms build on
OP(ConnectHost) {
  FsaOrVec f = vh::GetFsa(io), g;
  Array1<int32_t> m;
  bool ok = ConnectHost(f, &g, &m);
  io.put((int64_t)ok);
  if (ok || f.NumAxes() == 2) {
    vh::PutFsa(io, g);
    io.put(m);
  }
}
OP(TopSortHost) {
  FsaOrVec f = vh::GetFsa(io), g;
  Array1<int32_t> m;
  bool ok = TopSortHost(f, &g, &m);
  io.put((int64_t)ok);
  if (ok) {
    vh::PutFsa(io, g);
    io.put(m);
  }
}
