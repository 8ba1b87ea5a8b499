// Instantiations of k2's hash accessors, so that the verifier sees their
// bodies (taken from /repo's headers).
#include "k2/csrc/hash.h"
namespace k2 {
template class Hash::Accessor<32>;
template class Hash::Accessor<40>;
}  // namespace k2
