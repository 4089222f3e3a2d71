// C18, decoder side: DecodeBrunsli (c/dec/decode.cc).  WriteJpeg: c18_write.cc.
#include "c/dec/decode.cc"
#include "v.h"
namespace {
const size_t kMax = 3;
size_t v_pieces, v_done;       // Write calls WriteJpeg makes
size_t v_piece_len;
uint8_t v_bytes[4];
bool v_write_ok, v_short;
int v_status;
const uint8_t* v_in;
size_t v_insize;
const brunsli::JPEGData* v_jpg;
int v_data;
}  // namespace
extern "C" brunsli::BrunsliStatus c18_decode_jpeg(const uint8_t* in, size_t insize, brunsli::JPEGData* jpg) {
  v_assert(in == v_in && insize == v_insize, "whole-input-is-parsed");
  v_jpg = jpg;
  return (brunsli::BrunsliStatus)v_status;
}
// WriteJpeg (c18_write): true only if every Write was taken in full
extern "C" bool c18_write_jpeg(const brunsli::JPEGData* jpg, brunsli::JPEGOutput out) {
  v_assert(v_status == brunsli::BRUNSLI_OK && jpg == v_jpg, "only-after-a-successful-decode");
  for (size_t i = 0; i < v_pieces; ++i) {
    if (!out.Write(v_bytes, v_piece_len)) return false;
  }
  return v_write_ok;
}
static size_t c18_sink(void* data, const uint8_t* buf, size_t size) {
  v_assert(data == &v_data && buf == v_bytes && size == v_piece_len, "passed-on-unchanged");
  ++v_done;
  const size_t r = v_nondet("taken", v_done, 64);
  if (r != size) v_short = true;
  return r;
}
HARNESS(c18_decode) {
  if (v_native()) return;  // drv_sink
  v_status = (int)v_nondet("status", 0, 32);
  v_write_ok = v_nondet("write ok", 0, 1);
  v_pieces = v_concrete(v_range("pieces", 0, 3, 0, kMax), 0, kMax);
  v_piece_len = v_range("len", 0, 3, 0, 4);
  v_done = 0;
  v_short = false;
  static uint8_t in[4];
  v_in = in;
  v_insize = v_range("in", 0, 3, 0, 4);
  const int r = DecodeBrunsli(v_insize, v_in, &v_data, c18_sink);
  v_assert(r == 0 || r == 1, "result");
  if (r == 1) {
    v_cover("success");
    v_assert(v_status == brunsli::BRUNSLI_OK && v_write_ok && !v_short && (v_done == v_pieces || v_piece_len == 0), "success-means-delivered");
  } else {
    v_cover("failure");
    v_assert(v_status != brunsli::BRUNSLI_OK || !v_write_ok || v_short, "fails-only-if-something-failed");
  }
}
