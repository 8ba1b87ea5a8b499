#include "vhfsa.h"
using namespace k2;

OP(ArcSortInPlace) {
  FsaOrVec f = vh::GetFsa(io);
  ArcSort(&f);
  vh::PutFsa(io, f);
}
