// C18, encoder side: EncodeBrunsli (c/enc/encode.cc).
#include "c/enc/encode.cc"
#include <cstring>
#include "v.h"
namespace {
const size_t kMax = 6;
size_t v_max, v_size;      // what GetMaximumBrunsliEncodedSize and BrunsliEncodeJpeg say
bool v_read_ok, v_enc_ok;
uint8_t v_bytes[kMax];
const uint8_t* v_in;
size_t v_insize;
int v_calls;
size_t v_taken;
const brunsli::JPEGData* v_jpg;
}  // namespace
extern "C" bool c18_read(const uint8_t* in, size_t insize, brunsli::JpegReadMode mode, brunsli::JPEGData* jpg) {
  v_assert(in == v_in && insize == v_insize && mode == brunsli::JPEG_READ_ALL, "whole-input-is-parsed");
  v_jpg = jpg;
  return v_read_ok;
}
extern "C" size_t c18_max(const brunsli::JPEGData* jpg) {
  v_assert(v_read_ok && jpg == v_jpg, "of-the-parsed-data");
  return v_max;
}
extern "C" bool c18_encode_jpeg(const brunsli::JPEGData* jpg, uint8_t* data, size_t* len) {
  v_assert(v_read_ok && jpg == v_jpg && *len == v_max, "buffer-of-the-advertised-size");
  for (size_t i = 0; i < v_size; ++i) data[i] = v_bytes[i];
  if (v_enc_ok) *len = v_size;
  return v_enc_ok;
}
static size_t c18_sink(void* data, const unsigned char* buf, size_t size) {
  v_assert(data == &v_calls, "callback-data");
  ++v_calls;
  v_assert(v_read_ok && v_enc_ok, "nothing-is-delivered-on-failure");
  v_assert(size == v_size, "whole-result");
  for (size_t i = 0; i < v_size; ++i) v_assert(buf[i] == v_bytes[i], "bytes-of-the-result");
  v_taken = v_nondet("taken", 0, 64);
  if (v_native()) v_taken %= 8;
  return v_taken;
}
HARNESS(c18_encode) {
  if (v_native()) return;  // drv_sink
  v_read_ok = v_nondet("read ok", 0, 1);
  v_enc_ok = v_nondet("encode ok", 0, 1);
  v_max = v_concrete(v_range("max", 0, 3, 0, kMax), 0, kMax);
  v_size = v_concrete(v_range("size", 0, 3, 0, kMax), 0, kMax);
  v_assume(v_size <= v_max);
  for (size_t i = 0; i < kMax; ++i) v_bytes[i] = (uint8_t)v_nondet("byte", i, 8);
  v_insize = v_range("in", 0, 3, 0, 4);
  static uint8_t in[4];
  v_in = in;
  v_calls = 0;
  const int r = EncodeBrunsli(v_insize, v_in, &v_calls, c18_sink);
  v_assert(r == 0 || r == 1, "result");
  if (r == 1) {
    v_cover("success");
    v_assert(v_read_ok && v_enc_ok && v_calls == 1 && v_taken == v_size, "success-means-delivered");
  } else {
    v_cover("failure");
    v_assert(!v_read_ok || !v_enc_ok || (v_calls == 1 && v_taken != v_size), "fails-only-if-something-failed");
  }
}
