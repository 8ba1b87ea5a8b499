// Explicit instantiations of k2's ragged templates, so that the verifier sees
// their bodies (taken from /repo's headers) for concrete element types.
#include "k2/csrc/ragged_ops.h"
#include "k2/csrc/utils.h"
namespace k2 {
template void SegmentedReduce<int32_t, MaxOp<int32_t>>(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void SegmentedReduce<int32_t, MinOp<int32_t>>(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void SegmentedReduce<int32_t, PlusOp<int32_t>>(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void SegmentedReduce<int32_t, BitAndOp<int32_t>>(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void SegmentedReduce<int32_t, BitOrOp<int32_t>>(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void SegmentedReduce<float, MaxOp<float>>(const Ragged<float> &, float, Array1<float> *);
template void SegmentedReduce<float, MinOp<float>>(const Ragged<float> &, float, Array1<float> *);
template void SegmentedReduce<float, PlusOp<float>>(const Ragged<float> &, float, Array1<float> *);
template void SegmentedReduce<float, LogAdd<float>>(const Ragged<float> &, float, Array1<float> *);
template void SegmentedReduce<double, LogAdd<double>>(const Ragged<double> &, double, Array1<double> *);
template void MaxPerSublist(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void MinPerSublist(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void SumPerSublist(const Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void SumPerSublist(const Ragged<float> &, float, Array1<float> *);
template void LogSumPerSublist(const Ragged<float> &, float, Array1<float> *);
template void ArgMaxPerSublist(Ragged<int32_t> &, int32_t, Array1<int32_t> *);
template void ArgMaxPerSublist(Ragged<float> &, float, Array1<int32_t> *);
template void SegmentedExclusiveSum(Ragged<int32_t> &, Array1<int32_t> *);
template void SegmentedExclusiveSum(Ragged<float> &, Array1<float> *);
template Ragged<float> AddPerSublist(Ragged<float> &, Array1<float> &, float);
template Ragged<float> NormalizePerSublist(Ragged<float> &, bool);
template Ragged<int32_t> RemoveValuesLeq(Ragged<int32_t> &, int32_t);
template Ragged<float> RemoveValuesLeq(Ragged<float> &, float);
template Ragged<int32_t> RemoveValuesEq(Ragged<int32_t> &, int32_t);
template Ragged<float> RemoveValuesEq(Ragged<float> &, float);
template Ragged<int32_t> SubsetRagged(Ragged<int32_t> &, Renumbering &, int32_t, Array1<int32_t> *);
template Ragged<float> SubsetRagged(Ragged<float> &, Renumbering &, int32_t, Array1<int32_t> *);
template Ragged<int32_t> Index(Ragged<int32_t> &, int32_t, const Array1<int32_t> &, Array1<int32_t> *);
template Ragged<float> Index(Ragged<float> &, int32_t, const Array1<int32_t> &, Array1<int32_t> *);
template Ragged<int32_t> Index(Ragged<int32_t> &, Ragged<int32_t> &, bool);
template Ragged<float> Index(Ragged<float> &, Ragged<int32_t> &, bool);
template Ragged<int32_t> Index(Array1<int32_t> &, Ragged<int32_t> &);
template Ragged<float> Index(Array1<float> &, Ragged<int32_t> &);
template Ragged<int32_t> Index(Array1<int32_t> &, Ragged<int32_t> &, int32_t);
template Ragged<float> Index(Array1<float> &, Ragged<int32_t> &, float);
template Ragged<int32_t> Ragged<int32_t>::RemoveAxis(int32_t);
template Ragged<float> Ragged<float>::RemoveAxis(int32_t);
template Ragged<int32_t> RemoveAxis(Ragged<int32_t> &, int32_t);
template Ragged<int32_t> Unsqueeze(const Ragged<int32_t> &, int32_t);
template Ragged<float> Unsqueeze(const Ragged<float> &, int32_t);
}  // namespace k2
