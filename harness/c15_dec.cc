#include "c/dec/brunsli_decode.cc"
#include "v.h"
namespace brunsli {
bool v_dec_bypass(const uint8_t* data, size_t n, const uint8_t** orig, size_t* len) {
  JPEGData jpg;
  if (BrunsliDecodeJpeg(data, n, &jpg) != BRUNSLI_OK) return false;
  v_assert(jpg.version == kFallbackVersion, "bypass-mode");
  *orig = jpg.original_jpg;
  *len = jpg.original_jpg_size;
  return true;
}
}  // namespace brunsli
