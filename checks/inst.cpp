// instantiates the library's templates at several widths for analysis
#include <bls12-381/bls12-381.hpp>
using namespace bls12_381;
template<class T, size_t N> T inst_scale(const T& p, const std::array<uint64_t, N>& s) { return p.scale(s); }
template<class T, size_t N> T inst_exp(const T& p, const std::array<uint64_t, N>& s) { return p.exp(s); }
template<size_t N> fp12 inst_cexp(const fp12& p, const std::array<uint64_t, N>& s) { return p.cyclotomicExp(s); }
template g1 inst_scale<g1, 1>(const g1&, const std::array<uint64_t, 1>&);
template g1 inst_scale<g1, 4>(const g1&, const std::array<uint64_t, 4>&);
template g1 inst_scale<g1, 6>(const g1&, const std::array<uint64_t, 6>&);
template g2 inst_scale<g2, 1>(const g2&, const std::array<uint64_t, 1>&);
template g2 inst_scale<g2, 4>(const g2&, const std::array<uint64_t, 4>&);
template g2 inst_scale<g2, 6>(const g2&, const std::array<uint64_t, 6>&);
template fp inst_exp<fp, 1>(const fp&, const std::array<uint64_t, 1>&);
template fp inst_exp<fp, 6>(const fp&, const std::array<uint64_t, 6>&);
template fp2 inst_exp<fp2, 1>(const fp2&, const std::array<uint64_t, 1>&);
template fp2 inst_exp<fp2, 6>(const fp2&, const std::array<uint64_t, 6>&);
template fp2 inst_exp<fp2, 12>(const fp2&, const std::array<uint64_t, 12>&);
template fp6 inst_exp<fp6, 1>(const fp6&, const std::array<uint64_t, 1>&);
template fp6 inst_exp<fp6, 6>(const fp6&, const std::array<uint64_t, 6>&);
template fp12 inst_exp<fp12, 1>(const fp12&, const std::array<uint64_t, 1>&);
template fp12 inst_exp<fp12, 4>(const fp12&, const std::array<uint64_t, 4>&);
template fp12 inst_exp<fp12, 6>(const fp12&, const std::array<uint64_t, 6>&);
template fp12 inst_cexp<1>(const fp12&, const std::array<uint64_t, 1>&);
template fp12 inst_cexp<4>(const fp12&, const std::array<uint64_t, 4>&);

// default options of the decoders
#define DEC(C, O, N) std::optional<C> inst_##C##_##O(std::span<const uint8_t, N> in) { return C::fromBytes##O(in); }
DEC(fp, BE, 48) DEC(fp, LE, 48) DEC(fp2, BE, 96) DEC(fp2, LE, 96) DEC(fp6, BE, 288) DEC(fp6, LE, 288) DEC(fp12, BE, 576) DEC(fp12, LE, 576)
#define PDEC(C, F, O, N) std::optional<C> inst_##C##_##F##_##O(std::span<const uint8_t, N> in) { return C::from##F##Bytes##O(in); }
PDEC(g1, Jacobian, BE, 144) PDEC(g1, Jacobian, LE, 144) PDEC(g1, Affine, BE, 96) PDEC(g1, Affine, LE, 96)
PDEC(g2, Jacobian, BE, 288) PDEC(g2, Jacobian, LE, 288) PDEC(g2, Affine, BE, 192) PDEC(g2, Affine, LE, 192)
#define WORDS(N) template void scalar::toBytesLE<N>(const std::array<uint64_t, N>&, std::span<uint8_t, N * 8>); \
template std::array<uint8_t, N * 8> scalar::toBytesLE<N>(const std::array<uint64_t, N>&); \
template void scalar::toBytesBE<N>(const std::array<uint64_t, N>&, std::span<uint8_t, N * 8>); \
template std::array<uint8_t, N * 8> scalar::toBytesBE<N>(const std::array<uint64_t, N>&); \
template void scalar::fromBytesLE<N>(const std::span<const uint8_t, N * 8>&, std::array<uint64_t, N>&); \
template std::array<uint64_t, N> scalar::fromBytesLE<N>(const std::span<const uint8_t, N * 8>&); \
template void scalar::fromBytesBE<N>(const std::span<const uint8_t, N * 8>&, std::array<uint64_t, N>&); \
template std::array<uint64_t, N> scalar::fromBytesBE<N>(const std::span<const uint8_t, N * 8>&);
WORDS(4) WORDS(6)
