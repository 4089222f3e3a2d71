// C14: GetMaximumBrunsliEncodedSize and EstimateAuxDataSize (c/enc/brunsli_encode.cc): every part of the image is accounted for.
#include "c/enc/brunsli_encode.cc"
#include "v.h"
using namespace brunsli;
typedef std::vector<uint8_t> Bytes;
static const size_t kMax = 1ull << 40;
static uint8_t dummy[1];
static void set_bytes(Bytes* v, size_t n) {
  if (v_native()) {
    v->resize(n);
    return;
  }
  v->_M_impl._M_start = dummy;
  v->_M_impl._M_finish = dummy + n;
  v->_M_impl._M_end_of_storage = dummy + n;
}
static void drop_bytes(Bytes* v) {
  if (!v_native()) v->_M_impl._M_start = v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = NULL;
}
template <class T>
static void set_count(std::vector<T>* v, size_t n) {
  if (v_native()) {
    v->resize(n);
    return;
  }
  v->_M_impl._M_start = (T*)dummy;
  v->_M_impl._M_finish = (T*)dummy + n;
  v->_M_impl._M_end_of_storage = (T*)dummy + n;
}
template <class T>
static void drop_count(std::vector<T>* v) {
  if (!v_native()) v->_M_impl._M_start = v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = NULL;
}
static size_t list(std::vector<Bytes>* l, size_t count, const char* name) {
  size_t sum = 0;
  l->resize(count);
  for (size_t i = 0; i < count; ++i) {
    const size_t n = v_range(name, i, 64, 0, v_native() ? 1000 : kMax);
    set_bytes(&(*l)[i], n);
    sum += n;
  }
  return sum;
}
HARNESS(c14_bound) {
  JPEGData jpg;
  const size_t max = v_native() ? 100 : kMax;
  const size_t apps = v_concrete(v_range("apps", 0, 64, 0, 2), 0, 2), inters = v_concrete(v_range("inters", 0, 64, 0, 2), 0, 2),
               comps = v_concrete(v_range("comps", 0, 64, 1, 4), 1, 4), coms = 2 - apps, scans = 2 - inters;
  size_t need = list(&jpg.app_data, apps, "app") + list(&jpg.com_data, coms, "com");
  const size_t inter = list(&jpg.inter_marker_data, inters, "inter");
  const size_t tail = v_range("tail", 0, 64, 0, max), markers = v_range("markers", 0, 64, 0, max), codes = v_range("codes", 0, 64, 0, 512),
               padding = v_range("padding", 0, 64, 0, max);
  set_bytes(&jpg.tail_data, tail);
  set_bytes(&jpg.marker_order, markers);
  set_count(&jpg.huffman_code, codes);
  jpg.has_zero_padding_bit = v_nondet("zero_padding", 0, 1);
  set_count(&jpg.padding_bits, padding);
  jpg.scan_info.resize(scans);
  size_t points = 0, blocks = 0;
  for (size_t i = 0; i < scans; ++i) {
    const size_t r = v_range("resets", i, 64, 0, max), z = v_range("zero_runs", i, 64, 0, max);
    set_count(&jpg.scan_info[i].reset_points, r);
    set_count(&jpg.scan_info[i].extra_zero_runs, z);
    points += r + z;
  }
  jpg.components.resize(comps);
  for (size_t i = 0; i < comps; ++i) {
    jpg.components[i].num_blocks = (uint32_t)v_range("blocks", i, 32, 0, 1u << 21);
    blocks += jpg.components[i].num_blocks;
  }
  const size_t bound = GetMaximumBrunsliEncodedSize(jpg);
  v_cover("computed");
  // what each part may take
  need += tail;                                           // metadata, stored as it is in the worst case
  need += inter + 5 * inters;                             // with its length
  need += markers;                                        // six bits each
  need += 6 * scans + 7 * points;
  if (jpg.has_zero_padding_bit) v_lemma(8 * (bound - need) >= padding, "padding-is-counted");
  need += 82 * blocks;
  v_assert(bound >= need + (1 << 20), "every-part-is-counted");
  for (auto& s : jpg.app_data) drop_bytes(&s);
  for (auto& s : jpg.com_data) drop_bytes(&s);
  for (auto& s : jpg.inter_marker_data) drop_bytes(&s);
  drop_bytes(&jpg.tail_data);
  drop_bytes(&jpg.marker_order);
  drop_count(&jpg.huffman_code);
  drop_count(&jpg.padding_bits);
  for (auto& s : jpg.scan_info) drop_count(&s.reset_points), drop_count(&s.extra_zero_runs);
}
