// VarInt codecs: every value of the type, all variants, exact-size buffers (out-of-bounds accesses are violations).
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include "kaminpar-common/graph_compression/varint.h"
#include "kse.h"
using namespace kaminpar;
template <class T> static void plain() {
  const T v = kse_any<T>("v");
  const std::size_t len = varint_length<T>(v);
  kse_assert(len >= 1 && len <= varint_max_length<T>(), "varint_length within varint_max_length");
  const std::size_t cl = kse_concretize(len);
  std::uint8_t *buf = new std::uint8_t[cl];          // exactly the announced size
  kse_assert(varint_encode<T>(v, buf) == cl, "varint_encode returns varint_length");
  kse_assert(varint_decode<T>(static_cast<const std::uint8_t *>(buf)) == v, "varint decode(encode(v)) == v");
  const std::uint8_t *p = buf;
  kse_assert(varint_decode<T>(&p) == v, "varint advancing decode(encode(v)) == v");
  kse_assert(p == buf + cl, "varint decode consumes exactly the encoded bytes");
  p = buf; kse_assert(varint_decode_loop<T>(&p) == v && p == buf + cl, "loop decoder");
  p = buf; kse_assert(varint_decode_pext_unrolled<T>(&p) == v && p == buf + cl, "unrolled decoder");
  p = buf; kse_assert(varint_decode_pext_branchless<T>(&p) == v && p == buf + cl, "branchless decoder");
  std::uint8_t *buf2 = new std::uint8_t[cl]; std::uint8_t *q = buf2;
  varint_encode<T>(v, &q);
  kse_assert(q == buf2 + cl, "pointer-advancing encoder writes varint_length bytes");
  kse_assert(std::memcmp(buf, buf2, cl) == 0, "both encoders agree");
  kse_reach("done");
  delete[] buf; delete[] buf2;
}
template <class T> static void marked() {
  const T v = kse_any<T>("v"); const bool m = kse_any<std::uint8_t>("m") & 1;
  const std::size_t len = marked_varint_length<T>(v);
  kse_assert(len >= 1 && len <= varint_max_length<T>(), "marked_varint_length within varint_max_length");
  const std::size_t cl = kse_concretize(len);
  std::uint8_t *buf = new std::uint8_t[cl];
  kse_assert(marked_varint_encode<T>(v, m, buf) == cl, "marked_varint_encode returns marked_varint_length");
  auto [r, mm] = marked_varint_decode<T>(static_cast<const std::uint8_t *>(buf));
  kse_assert(r == v && mm == m, "marked varint round trip");
  const std::uint8_t *p = buf; auto [r2, m2] = marked_varint_decode<T>(&p);
  kse_assert(r2 == v && m2 == m && p == buf + cl, "marked varint advancing round trip");
  std::uint8_t *buf2 = new std::uint8_t[cl]; std::uint8_t *q = buf2;
  marked_varint_encode<T>(v, m, &q);
  kse_assert(q == buf2 + cl && std::memcmp(buf, buf2, cl) == 0, "both marked encoders agree");
  kse_reach("done");
  delete[] buf; delete[] buf2;
}
template <class T> static void sgn() {
  const T v = kse_any<T>("v");
  using U = std::make_unsigned_t<T>;
  kse_assert(zigzag_decode<U>(zigzag_encode<T>(v)) == v, "zigzag round trip");
  const std::size_t cl = kse_concretize(signed_varint_length<T>(v));
  kse_assert(cl >= 1 && cl <= varint_max_length<T>(), "signed_varint_length within varint_max_length");
  std::uint8_t *buf = new std::uint8_t[cl];
  kse_assert(signed_varint_encode<T>(v, buf) == cl, "signed_varint_encode returns signed_varint_length");
  kse_assert(signed_varint_decode<T>(static_cast<const std::uint8_t *>(buf)) == v, "signed varint round trip");
  const std::uint8_t *p = buf;
  kse_assert(signed_varint_decode<T>(&p) == v && p == buf + cl, "signed varint advancing round trip");
  std::uint8_t *buf2 = new std::uint8_t[cl]; std::uint8_t *q = buf2;
  signed_varint_encode<T>(v, &q);
  kse_assert(q == buf2 + cl && std::memcmp(buf, buf2, cl) == 0, "both signed encoders agree");
  kse_reach("done");
  delete[] buf; delete[] buf2;
}
// two consecutive values of different kinds share a buffer: decoding the first leaves the cursor on the second
template <class T> static void seq() {
  const T a = kse_any<T>("a"), b = kse_any<T>("b"); const bool m = kse_any<std::uint8_t>("m") & 1;
  std::uint8_t buf[2 * 11]; std::uint8_t *q = buf;
  const int order = kse_choose("order", 2);
  if (order) { varint_encode<T>(a, &q); marked_varint_encode<T>(b, m, &q); } else { marked_varint_encode<T>(b, m, &q); varint_encode<T>(a, &q); }
  const std::uint8_t *p = buf; T ra; std::pair<T, bool> rb;
  if (order) { ra = varint_decode<T>(&p); rb = marked_varint_decode<T>(&p); } else { rb = marked_varint_decode<T>(&p); ra = varint_decode<T>(&p); }
  kse_assert(ra == a && rb.first == b && rb.second == m && p == q, "values decoded back to back");
  kse_reach("done");
}
extern "C" {
void u32() { plain<std::uint32_t>(); } void u64() { plain<std::uint64_t>(); }
void m32() { marked<std::uint32_t>(); } void m64() { marked<std::uint64_t>(); }
void s32() { sgn<std::int32_t>(); } void s64() { sgn<std::int64_t>(); }
void q32() { seq<std::uint32_t>(); } void q64() { seq<std::uint64_t>(); }
}
