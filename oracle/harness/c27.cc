#include "k2/csrc/hash.h"

#include <memory>
#include "vh.h"
using namespace k2;

// One script of operations against a hash; every operation appends its outcome.
//   0 insert(key, value)      -> inserted?, old value (or 0), location ok?
//   1 find(key)               -> found?, value (or 0)
//   2 update(key, value)      -> set through the location found, key given
//   3 update(key, value)      -> set through the location found; -> returned key
//   4 resize(buckets, key bits, value bits)
//   5 delete(key)
//   6 copy of the accessor, then go on with the copy
//   7 is every bucket empty?  -> number of occupied buckets
template <typename HashT, typename AccT, bool k64>
struct Runner {
  static void Run(vh::Io &io, HashT &h, std::function<void(HashT &, int64_t, int64_t, int64_t)> resize,
                  std::function<AccT(HashT &)> get) {
    const vh::IV ops = io.vec();
    vh::IV out;
    auto acc = std::make_unique<AccT>(get(h));
    for (size_t k = 0; k + 3 < ops.size(); k += 4) {
      int64_t op = ops[k];
      uint64_t a = (uint64_t)ops[k + 1], b = (uint64_t)ops[k + 2];
      if (op == 0) {
        uint64_t old = 0, *loc = nullptr;
        int64_t how = ops[k + 3];
        bool r = acc->Insert(a, b, how & 1 ? &old : nullptr, how & 2 ? &loc : nullptr);
        out.push_back(r);
        out.push_back((int64_t)old);
        bool ok = true;
        if (how & 2) {
          uint64_t v = 0, *l2 = nullptr;
          ok = acc->Find(a, &v, &l2) && l2 == loc;
        }
        out.push_back(ok);
      } else if (op == 1) {
        uint64_t v = 0;
        bool r = acc->Find(a, &v);
        out.push_back(r);
        out.push_back(r ? (int64_t)v : 0);
      } else if (op == 2 || op == 3) {
        uint64_t v = 0, *loc = nullptr;
        bool r = acc->Find(a, &v, &loc);
        out.push_back(r);
        out.push_back(r ? (int64_t)v : 0);
        out.push_back(r ? Set(*acc, loc, a, b, op == 3) : 0);
      } else if (op == 4) {
        resize(h, ops[k + 1], ops[k + 2], ops[k + 3]);
        acc = std::make_unique<AccT>(get(h));
        out.push_back(h.NumBuckets());
      } else if (op == 5) {
        acc->Delete(a);
      } else if (op == 6) {
        auto acc2 = std::make_unique<AccT>(*acc);
        acc = std::move(acc2);
      } else if (op == 7) {
        int64_t n = 0, m = h.NumBuckets() * (k64 ? 2 : 1);
        for (int64_t i = 0; i < m; i++) n += ~h.Data()[i] != 0;
        out.push_back(n);
      }
    }
    h.Destroy();
    io.out.push_back(out);
  }
  template <typename A>
  static int64_t Set(A &acc, uint64_t *loc, uint64_t key, uint64_t value, bool nokey) {
    if constexpr (k64) {
      acc.SetValue(loc, value);
      return (int64_t)key;
    } else {
      if (nokey) return (int64_t)acc.SetValue(loc, value);
      acc.SetValue(loc, key, value);
      return (int64_t)key;
    }
  }
};

template <typename AccT>
static void Packed64(vh::Io &io) {
  int64_t buckets = io.i(), kb = io.i(), vb = io.i();
  Hash h(io.c, buckets, kb, vb);
  Runner<Hash, AccT, false>::Run(
      io, h, [](Hash &x, int64_t n, int64_t k, int64_t v) { x.Resize(n, k, v); },
      [](Hash &x) { return x.GetAccessor<AccT>(); });
}
OP(Generic) { Packed64<Hash::GenericAccessor>(io); }
OP(Packed) { Packed64<Hash::PackedAccessor>(io); }
OP(Acc8) { Packed64<Hash::Accessor<8>>(io); }
OP(Acc20) { Packed64<Hash::Accessor<20>>(io); }
OP(Acc32) { Packed64<Hash::Accessor<32>>(io); }
OP(Acc40) { Packed64<Hash::Accessor<40>>(io); }
OP(Acc61) { Packed64<Hash::Accessor<61>>(io); }
OP(Wide) {
  int64_t buckets = io.i();
  io.i();
  io.i();
  Hash64 h(io.c, buckets);
  Runner<Hash64, Hash64::Accessor, true>::Run(
      io, h, [](Hash64 &x, int64_t n, int64_t, int64_t) { x.Resize(n); }, [](Hash64 &x) { return x.GetAccessor(); });
}
OP(Bits) {
  vh::IV out;
  for (int64_t v : io.vec()) out.push_back(NumBitsNeededFor(v));
  io.out.push_back(out);
}
