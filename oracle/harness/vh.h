// Generic call interface between the bounded checks (Python) and the real k2
// C++ functions.  Inputs and outputs are lists of int64 vectors; doubles are
// passed by their bits.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "k2/csrc/array.h"
#include "k2/csrc/array_ops.h"
#include "k2/csrc/fsa.h"
#include "k2/csrc/ragged.h"
#include "k2/csrc/ragged_ops.h"

namespace vh {
using namespace k2;
using IV = std::vector<int64_t>;

struct Io {
  std::vector<IV> in, out;
  size_t pos = 0;
  ContextPtr c = GetCpuContext();
  const IV &vec() {
    if (pos >= in.size()) throw std::runtime_error("harness: too few inputs");
    return in[pos++];
  }
  int64_t i() { return vec().at(0); }
  double d() {
    double x;
    int64_t b = i();
    memcpy(&x, &b, 8);
    return x;
  }
  std::vector<int32_t> vec32() {
    const IV &v = vec();
    return std::vector<int32_t>(v.begin(), v.end());
  }
  std::vector<double> vecd() {
    const IV &v = vec();
    std::vector<double> r(v.size());
    if (!v.empty()) memcpy(r.data(), v.data(), 8 * v.size());
    return r;
  }
  // an array; `pad` > 0 makes it a view into a larger region
  Array1<int32_t> arr(int32_t pad = 0) {
    std::vector<int32_t> v = vec32();
    if (pad == 0) return Array1<int32_t>(c, v);
    std::vector<int32_t> w(pad, -12345);
    w.insert(w.end(), v.begin(), v.end());
    w.insert(w.end(), pad, -54321);
    return Array1<int32_t>(c, w).Arange(pad, pad + v.size());
  }
  Array1<float> farr() {
    std::vector<double> v = vecd();
    return Array1<float>(c, std::vector<float>(v.begin(), v.end()));
  }
  // number of layers, then for each layer its row_splits and a flag: bit 0
  // also give row_ids, bit 1 set cached size
  RaggedShape shape() {
    int32_t n = i();
    std::vector<RaggedShapeLayer> layers(n);
    for (int32_t k = 0; k < n; ++k) {
      layers[k].row_splits = arr();
      layers[k].cached_tot_size = -1;
      int32_t f = i();
      int32_t tot = layers[k].row_splits.Back();
      if (f & 2) layers[k].cached_tot_size = tot;
      if (f & 1) {
        layers[k].row_ids = Array1<int32_t>(c, tot);
        layers[k].cached_tot_size = tot;
        int32_t *ids = layers[k].row_ids.Data();
        const int32_t *sp = layers[k].row_splits.Data();
        for (int32_t a = 0; a + 1 < layers[k].row_splits.Dim(); ++a)
          for (int32_t b = sp[a]; b < sp[a + 1]; ++b) ids[b] = a;
      }
    }
    return RaggedShape(layers);
  }
  Ragged<int32_t> ragged() {
    RaggedShape s = shape();
    return Ragged<int32_t>(s, arr());
  }
  void put(int64_t x) { out.push_back(IV(1, x)); }
  void putd(double x) {
    int64_t b;
    memcpy(&b, &x, 8);
    put(b);
  }
  template <typename T>
  void put(const Array1<T> &a) {
    IV v(a.Dim());
    for (int32_t k = 0; k < a.Dim(); ++k) v[k] = a.Data()[k];
    out.push_back(v);
  }
  template <typename T>
  void putf(const Array1<T> &a) {
    IV v(a.Dim());
    for (int32_t k = 0; k < a.Dim(); ++k) {
      double x = a.Data()[k];
      memcpy(&v[k], &x, 8);
    }
    out.push_back(v);
  }
  void put(const std::vector<int32_t> &a) { out.push_back(IV(a.begin(), a.end())); }
  // number of layers, then row_splits and row_ids of each layer, and its size
  void put(const RaggedShape &s0) {
    RaggedShape s = s0;
    put(static_cast<int64_t>(s.NumAxes() - 1));
    for (int32_t k = 1; k < s.NumAxes(); ++k) {
      put(s.RowSplits(k));
      put(s.RowIds(k));
      put(static_cast<int64_t>(s.TotSize(k)));
    }
  }
  void put(const Ragged<int32_t> &r) {
    put(r.shape);
    put(r.values);
  }
};

using Fn = std::function<void(Io &)>;
inline std::map<std::string, Fn> &Ops() {
  static std::map<std::string, Fn> ops;
  return ops;
}
struct Reg {
  Reg(const char *n, Fn f) { Ops()[n] = f; }
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define OP(name) \
  static void VH_CAT(op_, name)(vh::Io & io); \
  static vh::Reg VH_CAT(reg_, name)(#name, VH_CAT(op_, name)); \
  static void VH_CAT(op_, name)(vh::Io & io)

}  // namespace vh

extern "C" __attribute__((visibility("default"))) const int64_t *vh_call(const char *op, const int64_t *buf,
                                                                         const char **err) {
  static std::vector<int64_t> res;
  static std::string msg;
  *err = nullptr;
  vh::Io io;
  int64_t n = *buf++;
  for (int64_t k = 0; k < n; ++k) {
    int64_t m = *buf++;
    io.in.emplace_back(buf, buf + m);
    buf += m;
  }
  try {
    auto it = vh::Ops().find(op);
    if (it == vh::Ops().end()) throw std::runtime_error("harness: no such operation");
    it->second(io);
  } catch (const std::exception &e) {
    msg = e.what();
    *err = msg.c_str();
    return nullptr;
  }
  res.clear();
  res.push_back(io.out.size());
  for (auto &v : io.out) {
    res.push_back(v.size());
    res.insert(res.end(), v.begin(), v.end());
  }
  return res.data();
}
