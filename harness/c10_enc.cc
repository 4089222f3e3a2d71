#include "c/enc/brunsli_encode.cc"
#include "c10.h"
namespace brunsli {
bool v_enc_app0(const std::vector<uint8_t>& s, std::vector<uint8_t>* out) { return TransformApp0Marker(s, out); }
bool v_enc_app2(const std::vector<uint8_t>& s, std::vector<uint8_t>* out) { return TransformApp2Marker(s, out); }
bool v_enc_app12(const std::vector<uint8_t>& s, std::vector<uint8_t>* out) { return TransformApp12Marker(s, out); }
bool v_enc_app14(const std::vector<uint8_t>& s, std::vector<uint8_t>* out) { return TransformApp14Marker(s, out); }
std::vector<uint8_t> v_enc_app(const std::vector<uint8_t>& s, size_t* count) { return TransformAppMarker(s, count); }
}  // namespace brunsli
using namespace brunsli;
typedef std::vector<uint8_t> Bytes;
static void set_bytes(Bytes* v, uint8_t* p, size_t n) {
  v->_M_impl._M_start = p;
  v->_M_impl._M_finish = p + n;
  v->_M_impl._M_end_of_storage = p + n;
}
static void drop_bytes(Bytes* v) { v->_M_impl._M_start = v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = NULL; }

// What EncodeMetaData hands to the compressor: every segment (short form or as it is), the comments, then the tail.
static struct {
  size_t n1, n2, nc, nt;        // sizes: application segments (after the transformation), comment, tail
  const uint8_t *a1, *a2, *c, *t;
  size_t k;                     // any position
  size_t calls, stored, prefix, base128; // stored: what the compressor returned
  uint8_t mark, *out;
} g;
static size_t total() { return g.n1 + g.n2 + g.nc + (g.nt ? 1 + g.nt : 0); }
static uint8_t expected(size_t k) {
  if (k < g.n1) return g.a1[k];
  k -= g.n1;
  if (k < g.n2) return g.a2[k];
  k -= g.n2;
  if (k < g.nc) return g.c[k];
  k -= g.nc;
  if (k == 0) return 0xD9;
  return g.t[k - 1];
}
// The contract of TransformAppMarker (proved in c10_app*): some bytes; which ones, and whether they are a short form, is left open.
extern "C" void c10_transform(Bytes* ret, const Bytes& s, size_t* count) {
  const bool first = s.data() == g.a1 + 0 || g.calls == 0;
  ++g.calls;
  *count += v_nondet("transformed", first ? 0 : 1, 1);
  new (ret) Bytes();
  const size_t n = first ? g.n1 : g.n2;
  ret->assign(first ? g.a1 : g.a2, (first ? g.a1 : g.a2) + n);
}
extern "C" int c10_brotli(int, int, int, size_t n, const uint8_t* in, size_t* out_size, uint8_t* out) {
  v_assert(n == total() && n >= 2, "metadata-size");
  if (g.k < n) v_assert(in[g.k] == expected(g.k), "metadata-bytes");
  // the compressor stays within the room it is given
  g.stored = (size_t)v_range("stored", 0, 64, 0, v_native() ? 400 : (1ull << 40));
  if (g.stored > *out_size) return 0;
  g.out = out;
  g.prefix = *out_size;
  *out_size = g.stored;
  return v_nondet("compressed", 0, 1);
}
// EncodeBase128 (C04, c04_base128*): between one and ten bytes
extern "C" size_t c10_base128(size_t val, uint8_t* data) {
  v_assert(val == total(), "declared-size");
  g.base128 = v_range("base128", 0, 64, 1, 10);
  data[g.base128 - 1] = 0;
  return g.base128;
}
HARNESS(c10_encode) {
  const size_t max = v_native() ? 100 : 65536;
  JPEGData jpg;
  // application segments, comment, tail
  static const uint8_t kShapes[7][3] = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 1, 1}, {1, 1, 1}};
  const uint8_t* shape = kShapes[v_case("shape", 0, 6)];
  const size_t apps = shape[0];
  const bool com = shape[1] != 0;
  g.n1 = apps > 0 ? v_range("n1", 0, 64, 1, max) : 0;
  g.n2 = apps > 1 ? v_range("n2", 0, 64, 1, max) : 0;
  g.nc = com ? v_range("nc", 0, 64, 1, max) : 0;
  g.nt = shape[2] ? v_range("nt", 0, 64, 1, v_native() ? 100 : 1u << 30) : 0;
  g.a1 = (uint8_t*)v_array("app1", 1, 65536);
  g.a2 = (uint8_t*)v_array("app2", 1, 65536);
  g.c = (uint8_t*)v_array("com", 1, 65536);
  g.t = (uint8_t*)v_array("tail", 1, 1u << 30);
  g.k = v_range("k", 0, 64, 0, 1ull << 31);
  g.calls = 0;
  g.out = NULL;
  jpg.app_data.resize(apps);
  jpg.com_data.resize(com);
  if (com) set_bytes(&jpg.com_data[0], (uint8_t*)g.c, g.nc);
  set_bytes(&jpg.tail_data, (uint8_t*)g.t, g.nt);
  const size_t room = v_range("room", 0, 64, 16, v_native() ? 1000 : 1ull << 32);
  uint8_t* data = (uint8_t*)v_array("out", 1, 1ull << 32);
  size_t len = room;
  const bool ok = EncodeMetaData(jpg, NULL, data, &len);
  if (ok) {
    v_assert(len <= room, "stays-within-the-room");
    v_assert((len == 0) == (total() == 0), "empty-only-without-metadata");
    if (total() == 1) v_assert(len == 1 && data[0] == expected(0), "single-byte-is-stored-raw");
    if (total() == 0) v_cover("empty");
    if (total() == 1) v_cover("single");
    if (total() > 1) {
      v_cover("compressed");
      const size_t pos = g.out - data;
      v_assert(len == pos + g.stored, "length-is-what-was-written");
      if (v_native()) {
        size_t v = 0;
        for (size_t i = 0; i < 10 && i < pos; ++i) v |= (size_t)(data[i] & 0x7F) << (7 * i);
        v_assert(v == total() && pos <= 10, "declared-size");
      } else {
        v_assert(pos == g.base128, "declared-size-comes-first");
      }
    }
  }
  for (auto& s : jpg.com_data) drop_bytes(&s);
  drop_bytes(&jpg.tail_data);
}
