#include "vhfsa.h"
#include "k2/csrc/host/determinize.h"
#include "k2/csrc/host/rmepsilon.h"
#include "k2/csrc/host/weights.h"
#include "k2/csrc/host_shim.h"
using namespace k2;

static void Put(vh::Io &io, FsaCreator &f, k2host::Array2<int32_t *, int32_t> d, int32_t n) {
  vh::PutFsa(io, f.GetFsa());
  std::vector<int32_t> splits(d.indexes, d.indexes + n + 1), vals(d.data, d.data + splits[n]);
  io.put(splits);
  io.put(vals);
}
template <class D>
static void Put(vh::Io &io, FsaCreator &f, k2host::Array2<std::pair<int32_t, D> *, int32_t> d, int32_t n) {
  vh::PutFsa(io, f.GetFsa());
  std::vector<int32_t> splits(d.indexes, d.indexes + n + 1), vals;
  for (int32_t i = splits[0]; i < splits[n]; ++i) vals.push_back(d.data[i].first);
  io.put(splits);
  io.put(vals);
}
template <class S, class W>
static void Run(vh::Io &io, W &w) {
  k2host::Array2Size<int32_t> fs, ds;
  w.GetSizes(&fs, &ds);
  FsaCreator fc(fs);
  k2host::Fsa out = fc.GetHostFsa();
  k2host::Array2Storage<typename S::DerivType *, int32_t> st(ds, 1);
  w.GetOutput(&out, &st.GetArray2());
  Put(io, fc, st.GetArray2(), fs.size2);
}
template <class S>
static void RunRmEps(vh::Io &io, k2host::FbWeightType type) {
  Fsa f = vh::GetFsa(io);
  float beam = io.d();
  k2host::Fsa h = FsaToHostFsa(f);
  std::vector<double> a(f.Dim0()), b(f.Dim0());
  k2host::WfsaWithFbWeights w(h, type, a.data(), b.data());
  k2host::EpsilonsRemoverPruned<S> e(w, beam);
  Run<S>(io, e);
}
template <class S>
static void RunDet(vh::Io &io, k2host::FbWeightType type) {
  Fsa f = vh::GetFsa(io);
  float beam = io.d();
  int32_t push = io.i();
  k2host::Fsa h = FsaToHostFsa(f);
  if (beam < 0) {
    k2host::Determinizer<S> d(h, -1, (k2host::FbWeightType)push);
    Run<S>(io, d);
    return;
  }
  std::vector<double> a(f.Dim0()), b(f.Dim0());
  k2host::WfsaWithFbWeights w(h, type, a.data(), b.data());
  k2host::DeterminizerPruned<S> d(w, beam, -1, (k2host::FbWeightType)push);
  k2host::Array2Size<int32_t> fs, ds;
  d.GetSizes(&fs, &ds);
  FsaCreator fc(fs);
  k2host::Fsa out = fc.GetHostFsa();
  k2host::Array2Storage<typename S::DerivType *, int32_t> st(ds, 1);
  d.GetOutput(&out, &st.GetArray2());
  Put(io, fc, st.GetArray2(), fs.size2);
}
OP(RmEpsMax) { RunRmEps<k2host::MaxTracebackState>(io, k2host::kMaxWeight); }
OP(RmEpsLog) { RunRmEps<k2host::LogSumTracebackState>(io, k2host::kLogSumWeight); }
OP(DetMax) { RunDet<k2host::MaxTracebackState>(io, k2host::kMaxWeight); }
OP(DetLog) { RunDet<k2host::LogSumTracebackState>(io, k2host::kLogSumWeight); }
