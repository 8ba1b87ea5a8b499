#include "k2/csrc/tensor_ops.h"
#include "vh.h"
using namespace k2;

// offset, dims, strides, then the storage
template <typename T>
static Tensor GetTensor(vh::Io &io) {
  int32_t off = io.i();
  auto d = io.vec32(), s = io.vec32();
  auto v = io.vec32();
  Array1<T> a(io.c, std::vector<T>(v.begin(), v.end()));
  Shape shape(d, s);
  return Tensor(DtypeOf<T>::dtype, shape, a.GetRegion(), a.ByteOffset() + (int64_t)off * (int64_t)sizeof(T));
}
template <typename T>
static void PutTensor(vh::Io &io, Tensor t) {
  auto dims = t.GetShape().Dims();
  io.put(std::vector<int32_t>(dims.begin(), dims.end()));
  std::vector<double> v;
  int32_t n = t.NumAxes();
  const T *p = t.Data<T>();
  for (int32_t i = 0; i < t.Dim(0); ++i)
    for (int32_t j = 0; j < (n > 1 ? t.Dim(1) : 1); ++j)
      v.push_back((double)p[i * t.Stride(0) + (n > 1 ? j * t.Stride(1) : 0)]);
  io.putf(Array1<double>(io.c, v));
}
template <typename T>
static void Do(vh::Io &io) {
  double def = io.d();
  Tensor t = GetTensor<T>(io);
  auto idx = io.arr(0);
  int32_t m1 = io.i();
  PutTensor<T>(io, Index(t, idx, m1, def));
  PutTensor<T>(io, ToContiguous(t));
  PutTensor<double>(io, Cast(t, kDoubleDtype));
  PutTensor<T>(io, t);
}
template <typename T>
static void Add(vh::Io &io) {
  Tensor t = GetTensor<T>(io), dest = GetTensor<T>(io);
  auto idx = io.arr(0);
  int32_t m1 = io.i();
  IndexAdd(t, idx, m1, &dest);
  PutTensor<T>(io, dest);
  PutTensor<T>(io, t);
}
#define BOTH(N, F)                                  \
  OP(N) {                                           \
    switch (io.i()) {                               \
      case 0: F<int32_t>(io); break;                \
      case 1: F<float>(io); break;                  \
      default: F<double>(io); break;                \
    }                                               \
  }
BOTH(TensorIndex, Do)
BOTH(TensorAdd, Add)
