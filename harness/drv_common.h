// Shared parts of the bounded system drivers.
#ifndef VERIF_DRV_COMMON_H_
#define VERIF_DRV_COMMON_H_
#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
#include <string>
#include <vector>
#include "jpeggen.h"
#include "v.h"
typedef std::vector<uint8_t> Bytes;

inline Bytes cut(const Bytes& b, size_t n) { return Bytes(b.begin(), b.begin() + n); }

// An exactly sized heap copy: reads past the end are caught by the address sanitizer.
struct Exact {
  uint8_t* p;
  size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size() + 0]), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
  }
  ~Exact() { delete[] p; }
};

static size_t append_sink(void* v, const uint8_t* d, size_t n) {
  Bytes* b = static_cast<Bytes*>(v);
  b->insert(b->end(), d, d + n);
  return n;
}

inline bool write_jpeg(const brunsli::JPEGData& jpg, Bytes* out) {
  brunsli::JPEGOutput o(append_sink, out);
  return brunsli::WriteJpeg(jpg, o);
}

// Equality of everything a JPEG file carries.
inline const char* differ(const brunsli::JPEGData& a, const brunsli::JPEGData& b) {
  if (a.width != b.width || a.height != b.height) return "dimensions";
  if (a.restart_interval != b.restart_interval) return "restart interval";
  if (a.app_data != b.app_data) return "app data";
  if (a.com_data != b.com_data) return "com data";
  if (a.marker_order != b.marker_order) return "marker order";
  if (a.inter_marker_data != b.inter_marker_data) return "inter marker data";
  if (a.tail_data != b.tail_data) return "tail data";
  if (a.has_zero_padding_bit != b.has_zero_padding_bit) return "zero padding flag";
  if (a.has_zero_padding_bit && a.padding_bits != b.padding_bits) return "padding bits";
  if (a.quant.size() != b.quant.size()) return "quant tables";
  for (size_t i = 0; i < a.quant.size(); ++i)
    if (a.quant[i].values != b.quant[i].values || a.quant[i].precision != b.quant[i].precision ||
        a.quant[i].index != b.quant[i].index || a.quant[i].is_last != b.quant[i].is_last)
      return "quant table";
  if (a.huffman_code.size() != b.huffman_code.size()) return "huffman codes";
  for (size_t i = 0; i < a.huffman_code.size(); ++i) {
    const brunsli::JPEGHuffmanCode &x = a.huffman_code[i], &y = b.huffman_code[i];
    if (x.counts != y.counts || x.slot_id != y.slot_id || x.is_last != y.is_last) return "huffman code";
    int n = 0;
    for (int c : x.counts) n += c;
    for (int k = 0; k < n; ++k) if (x.values[k] != y.values[k]) return "huffman values";
  }
  if (a.components.size() != b.components.size()) return "components";
  for (size_t i = 0; i < a.components.size(); ++i) {
    const brunsli::JPEGComponent &x = a.components[i], &y = b.components[i];
    if (x.id != y.id || x.h_samp_factor != y.h_samp_factor || x.v_samp_factor != y.v_samp_factor ||
        x.quant_idx != y.quant_idx || x.width_in_blocks != y.width_in_blocks ||
        x.height_in_blocks != y.height_in_blocks || x.num_blocks != y.num_blocks)
      return "component";
    if (x.coeffs != y.coeffs) return "coefficients";
  }
  if (a.scan_info.size() != b.scan_info.size()) return "scans";
  for (size_t i = 0; i < a.scan_info.size(); ++i) {
    const brunsli::JPEGScanInfo &x = a.scan_info[i], &y = b.scan_info[i];
    if (x.Ss != y.Ss || x.Se != y.Se || x.Ah != y.Ah || x.Al != y.Al || x.num_components != y.num_components)
      return "scan";
    for (size_t k = 0; k < x.num_components; ++k)
      if (x.components[k].comp_idx != y.components[k].comp_idx ||
          x.components[k].dc_tbl_idx != y.components[k].dc_tbl_idx ||
          x.components[k].ac_tbl_idx != y.components[k].ac_tbl_idx)
        return "scan component";
    if (x.reset_points != y.reset_points) return "reset points";
    if (x.extra_zero_runs.size() != y.extra_zero_runs.size()) return "extra zero runs";
    for (size_t k = 0; k < x.extra_zero_runs.size(); ++k)
      if (x.extra_zero_runs[k].block_idx != y.extra_zero_runs[k].block_idx ||
          x.extra_zero_runs[k].num_extra_zero_runs != y.extra_zero_runs[k].num_extra_zero_runs)
        return "extra zero run";
  }
  return NULL;
}
#endif
