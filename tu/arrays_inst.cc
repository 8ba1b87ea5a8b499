// Explicit instantiations of k2's array templates, so that the verifier sees
// their bodies (taken from /repo's headers) for concrete element types.
#include "k2/csrc/array_ops.h"
#include "k2/csrc/utils.h"
#include "k2/csrc/fsa.h"
namespace k2 {
template void ExclusiveSum(ContextPtr, int32_t, const int32_t *, int32_t *);
template void ExclusiveSum(ContextPtr, int32_t, const float *, float *);
template void ExclusiveSum(ContextPtr, int32_t, int32_t *, int32_t *);
template void ExclusiveSum(ContextPtr, int32_t, const char *, int32_t *);
template void InclusiveSum(ContextPtr, int32_t, const int32_t *, int32_t *);
template int32_t MaxValue(ContextPtr, int32_t, const int32_t *);
template float MaxValue(ContextPtr, int32_t, const float *);
template bool Equal(const Array1<int32_t> &, int32_t);
template bool Equal(const Array1<float> &, float);
template bool IsMonotonic(const Array1<int32_t> &);
template bool IsMonotonicDecreasing(const Array1<int32_t> &);
template void MonotonicLowerBound(const Array1<int32_t> &, Array1<int32_t> *);
template void MonotonicDecreasingUpperBound(const Array1<int32_t> &, Array1<int32_t> *);
template Array1<int32_t> Plus(const Array1<int32_t> &, int32_t);
template Array1<int32_t> Range(ContextPtr, int32_t, int32_t, int32_t);
template Array1<int32_t> Index(const Array1<int32_t> &, const Array1<int32_t> &, bool, int32_t);
template Array1<float> Index(const Array1<float> &, const Array1<int32_t> &, bool, float);
template Array1<int32_t> Cat(ContextPtr, int32_t, const Array1<int32_t> **);
template void ExclusiveSumDeref(Array1<const int32_t *> &, Array1<int32_t> *);
template Array1<int32_t> Array1<int32_t>::operator[](const Array1<int32_t> &) const;
template Array1<float> Array1<float>::operator[](const Array1<int32_t> &) const;
template Array1<Arc> Array1<Arc>::operator[](const Array1<int32_t> &) const;
}  // namespace k2
