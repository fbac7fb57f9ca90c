// uniform entry points for every width of the header templates that is analysed
#include <bls12-381/bls12-381.hpp>
using namespace bls12_381;
typedef uint64_t u64;
template<size_t N> using A = std::array<u64, N>;
#define ADD(NC, NA, NB) extern "C" void probe_add_##NC##_##NA##_##NB(A<NC>* o, const A<NA>* a, const A<NB>* b) { *o = scalar::add<NC, NA, NB>(*a, *b); }
#define MUL(NC, NA, NB) extern "C" void probe_mul_##NC##_##NA##_##NB(A<NC>* o, const A<NA>* a, const A<NB>* b) { *o = scalar::multiply<NC, NA, NB>(*a, *b); }
#define PRED(N) \
 extern "C" int probe_cmp_##N(const A<N>* a, const A<N>* b) { auto r = scalar::cmp<N>(*a, *b); return r < 0 ? -1 : r > 0 ? 1 : 0; } \
 extern "C" int probe_equal_##N(const A<N>* a, const A<N>* b) { return scalar::equal<N>(*a, *b) ? 1 : 0; } \
 extern "C" u64 probe_bitlen_##N(const A<N>* a) { return scalar::bitLength<N>(*a); } \
 extern "C" void probe_rsh_##N(A<N>* o, const A<N>* a, u64 bits) { scalar::rsh<N>(*o, *a, bits); }
ADD(1,1,1) ADD(2,1,1) ADD(3,1,2) ADD(4,4,4) ADD(5,4,4) ADD(6,6,6) ADD(7,6,4) ADD(8,8,8) ADD(10,4,4) ADD(10,10,10) ADD(3,4,4)
MUL(2,1,1) MUL(3,1,2) MUL(3,2,1) MUL(8,4,4) MUL(10,4,4) MUL(10,6,4) MUL(12,6,6)
PRED(1) PRED(2) PRED(3) PRED(4) PRED(6) PRED(8)
#define DIVN(N, M) extern "C" void probe_divn_##N##_##M(A<N>* q, A<M>* r, const A<N>* a, const A<M>* b) { bn_divn_safe<N, M>(*q, *r, *a, *b); }
DIVN(4,4) DIVN(6,4) DIVN(8,6) DIVN(6,6) DIVN(8,4)
