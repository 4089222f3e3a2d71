// C15 (and the bypass half of C14): BrunsliEncodeJpegBypass, GetBrunsliBypassSize, EncodeSignature, EncodeHeader, EncodeSection,
// EncodeOriginalJpg (c/enc/brunsli_encode.cc) against BrunsliDecodeJpeg (c/dec/brunsli_decode.cc).
#include "c/enc/brunsli_encode.cc"
#include "v.h"
using namespace brunsli;
namespace brunsli {
// runs the decoder on n bytes; true if the stored original is p[0..len)
bool v_dec_bypass(const uint8_t* data, size_t n, const uint8_t** orig, size_t* len);
}
static const size_t kMax = 1ull << 34;
static struct { bool ok; int width, height; size_t comps; int h, v; } g;
// ReadJpeg(JPEG_READ_HEADER): what an accepted header satisfies (C20); after a failure anything may be left behind.
extern "C" bool c15_read(const uint8_t*, size_t, JpegReadMode mode, JPEGData* jpg) {
  v_assert(mode == JPEG_READ_HEADER, "only-the-header-is-parsed");
  jpg->width = g.width;
  jpg->height = g.height;
  jpg->components.resize(g.comps);
  for (size_t i = 0; i < g.comps; ++i) {
    jpg->components[i].h_samp_factor = g.h;
    jpg->components[i].v_samp_factor = g.v;
  }
  return g.ok;
}
HARNESS(c15_bypass) {
  const size_t n = v_range("n", 0, 64, 1, v_native() ? 3000 : kMax);
  uint8_t* in = (uint8_t*)v_array("in", 1, kMax);
  const size_t k = v_range("k", 0, 64, 0, kMax);
  v_assume(k < n);
  const uint8_t orig = in[k];
  g.ok = v_case("header", 0, 1);
  g.width = (int)v_range("width", 0, 32, 1, 65535);
  g.height = (int)v_range("height", 0, 32, 1, 65535);
  g.comps = v_case("comps", 1, 4);
  g.h = (int)v_range("h", 0, 32, 1, 15);
  g.v = (int)v_range("v", 0, 32, 1, 15);
  const size_t advertised = GetBrunsliBypassSize(n);
  size_t room = v_range("room", 0, 64, 0, v_native() ? 4000 : kMax + 100);
  const size_t offered = room;
  uint8_t* out = (uint8_t*)v_alloc(room, 1);
  const bool ok = BrunsliEncodeJpegBypass(in, n, out, &room);
  v_assert(ok || offered < advertised, "advertised-size-is-enough");
  if (!ok) {
    v_cover("no-room");
    return;
  }
  v_cover("encoded");
  v_assert(room <= offered && room <= advertised, "not-longer-than-advertised");
  const uint8_t* stored = NULL;
  size_t len = 0;
  v_assert(v_dec_bypass(out, room, &stored, &len), "decodes");
  v_assert(len == n, "original-size");
  v_assert(stored[k] == orig, "original-bytes");
}
