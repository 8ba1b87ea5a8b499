// automata as harness inputs and outputs
#pragma once
#include "vh.h"
#include "k2/csrc/fsa_algo.h"
#include "k2/csrc/fsa_utils.h"

namespace vh {
// a shape (2 or 3 axes), then source, destination and label of each arc, then scores
inline FsaOrVec GetFsa(Io &io) {
  RaggedShape s = io.shape();
  std::vector<int32_t> a = io.vec32();
  std::vector<double> w = io.vecd();
  std::vector<Arc> arcs(a.size() / 3);
  for (size_t i = 0; i != arcs.size(); ++i) arcs[i] = Arc(a[3 * i], a[3 * i + 1], a[3 * i + 2], (float)w[i]);
  return FsaOrVec(s, Array1<Arc>(io.c, arcs));
}
inline void PutFsa(Io &io, FsaOrVec f) {
  io.put(f.shape);
  std::vector<int32_t> a;
  std::vector<double> w;
  for (int32_t i = 0; i != f.NumElements(); ++i) {
    Arc x = f.values.Data()[i];
    a.push_back(x.src_state);
    a.push_back(x.dest_state);
    a.push_back(x.label);
    w.push_back(x.score);
  }
  io.put(a);
  io.putf(Array1<double>(io.c, w));
}
}  // namespace vh
