// Bounded system drivers on generated JPEG files.
#include <cstdio>
#include "drv_common.h"
#include <brunsli/encode.h>
#include <brunsli/decode.h>
#include "c/common/constants.h"
#include "c/dec/state.h"
#include <algorithm>
#include "c/dec/state_internal.h"
using namespace brunsli;

// C11: parsing and writing are inverse; the parser recovers what the (independent) generator wrote.
HARNESS(drv_rw) {
  jg::Gen g(v_nondet("seed", 0, 64));
  g.build();
  Exact in(g.out);
  JPEGData jpg;
  const bool ok = ReadJpeg(in.p, in.n, JPEG_READ_ALL, &jpg);
  v_assert(ok, "valid-jpeg-is-parsed");
  v_assert(jpg.width == g.width && jpg.height == g.height, "dimensions");
  v_assert((int)jpg.components.size() == g.ncomp, "components");
  for (int i = 0; i < g.ncomp; ++i) {
    v_assert(jpg.components[i].coeffs.size() == g.comps[i].coef.size(), "coefficient-count");
    v_assert(memcmp(jpg.components[i].coeffs.data(), g.comps[i].coef.data(), g.comps[i].coef.size() * 2) == 0,
             "coefficients-recovered");
  }
  Bytes out;
  v_assert(write_jpeg(jpg, &out), "write-succeeds");
  v_assert(out == g.out, "written-bytes-equal-source");
}

// What the format cannot carry: too many padding bits, wild 16-bit quantisation tables.
static bool outside_format(const JPEGData& jpg) {
  const uint64_t blocks = (((uint64_t)jpg.width + 15) / 8) * (((uint64_t)jpg.height + 15) / 8);
  if (jpg.has_zero_padding_bit && jpg.padding_bits.size() > 7 * blocks * jpg.components.size() + 256) return true;
  for (const JPEGQuantTable& q : jpg.quant)
    for (int v : q.values)
      if (v > 20000) return true;
  return false;
}

// C19 / C14: encode, bound, decode, serialise.
HARNESS(drv_e2e) {
  jg::Gen g(v_nondet("seed", 0, 64));
  g.build();
  Exact in(g.out);
  JPEGData jpg;
  v_assert(ReadJpeg(in.p, in.n, JPEG_READ_ALL, &jpg), "valid-jpeg-is-parsed");
  const size_t bound = GetMaximumBrunsliEncodedSize(jpg);
  uint8_t* buf = new uint8_t[bound];
  size_t len = bound;
  const bool enc_ok = BrunsliEncodeJpeg(jpg, buf, &len);
  if (!enc_ok && outside_format(jpg)) {
    delete[] buf;
    return;
  }
  v_assert(enc_ok, "encode-succeeds");
  v_assert(len <= bound, "size-bound");
  Bytes brn(buf, buf + len);
  delete[] buf;
  Exact be(brn);
  JPEGData dec;
  v_assert(BrunsliDecodeJpeg(be.p, be.n, &dec) == BRUNSLI_OK, "decode-succeeds");
  const char* d = differ(jpg, dec);
  if (d) fprintf(stderr, "differs: %s\n", d);
  v_assert(d == NULL, "decoded-structure-equals-encoded");
  Bytes out;
  v_assert(write_jpeg(dec, &out), "write-succeeds");
  v_assert(out == g.out, "end-to-end-lossless");
}

// Images large enough for the encoder to choose coefficient orders, contexts and clusters: coefficients drawn from a
// distribution of their own per component and position.
HARNESS(drv_big) {
  static JPEGData base[2];
  static bool have = false;
  if (!have) {
    int got = 0;
    for (uint64_t seed = 1; seed < 4000 && got != 3; ++seed) {
      jg::Gen g(seed);
      g.build();
      if (g.out.size() > 4000) continue;
      JPEGData j;
      if (!ReadJpeg(g.out.data(), g.out.size(), JPEG_READ_ALL, &j) || outside_format(j)) continue;
      if (j.components.size() == 1 && j.components[0].h_samp_factor == 1 && j.components[0].v_samp_factor == 1 && !(got & 1)) base[0] = j, got |= 1;
      if (j.components.size() == 3 && j.components[0].h_samp_factor == 2 && j.components[1].h_samp_factor == 1 &&
          j.components[0].v_samp_factor == j.components[1].v_samp_factor && !(got & 2)) base[1] = j, got |= 2;
    }
    have = true;
  }
  jg::Rng r(v_nondet("seed", 0, 64));
  JPEGData j = base[(r.next() % (2))];
  const int w = 1 + (int)(r.next() % (40)), h = 1 + (int)(r.next() % (48));
  j.MCU_cols = w; j.MCU_rows = h;
  int mh = 1, mv = 1;
  for (auto& c : j.components) mh = std::max(mh, c.h_samp_factor), mv = std::max(mv, c.v_samp_factor);
  j.width = w * 8 * mh - (int)(r.next() % (8 * mh));
  j.height = h * 8 * mv - (int)(r.next() % (8 * mv));
  for (auto& q : j.quant)
    if ((r.next() % (3)) == 0)
      for (auto& v : q.values) v = (r.next() % (4)) ? 1 + (int)(r.next() % (255)) : 1 + (int)(r.next() % (3));
  for (auto& s : j.scan_info) { s.reset_points.clear(); s.extra_zero_runs.clear(); }
  j.has_zero_padding_bit = false;
  j.padding_bits.clear();
  for (auto& c : j.components) {
    c.width_in_blocks = w * c.h_samp_factor;
    c.height_in_blocks = h * c.v_samp_factor;
    c.num_blocks = c.width_in_blocks * c.height_in_blocks;
    c.coeffs.assign((size_t)c.num_blocks * 64, 0);
    int prob[64], mag[64];
    const int style = (int)(r.next() % (4));
    for (int k = 0; k < 64; ++k) {
      prob[k] = style == 0 ? (int)(r.next() % (256)) : style == 1 ? (k < (int)(r.next() % (64)) ? 200 : 3) : style == 2 ? ((r.next() % (8)) == 0 ? 255 : 0) : 256;
      mag[k] = (int)(r.next() % (style == 3 ? 11 : 7));
    }
    const int smooth = (int)(r.next() % (3));
    int dc = 0;
    for (int b = 0; b < c.num_blocks; ++b) {
      int16_t* p = &c.coeffs[(size_t)b * 64];
      for (int k = 1; k < 64; ++k)
        if ((int)(r.next() % (256)) < prob[k]) {
          int v = 1 + (int)(r.next() % (1u << mag[k]));
          if (v > 1023) v = 1023;
          p[k] = (int16_t)((r.next() % (2)) ? v : -v);
        }
      if (smooth == 0) dc = (int)(r.next() % (2048)) - 1024;
      else if (smooth == 1) dc += (int)(r.next() % (7)) - 3;
      if (dc > 1023) dc = 1023;
      if (dc < -1023) dc = -1023;
      p[0] = (int16_t)dc;
      if ((r.next() % (16)) == 0) memset(p, 0, 128);
    }
  }
  const size_t bound = GetMaximumBrunsliEncodedSize(j);
  uint8_t* buf = new uint8_t[bound];
  size_t len = bound;
  const bool enc_ok = BrunsliEncodeJpeg(j, buf, &len);
  v_assert(enc_ok, "encode-succeeds");
  v_assert(len <= bound, "size-bound");
  Bytes brn(buf, buf + len);
  delete[] buf;
  Exact be(brn);
  JPEGData dec;
  v_assert(BrunsliDecodeJpeg(be.p, be.n, &dec) == BRUNSLI_OK, "decode-succeeds");
  const char* d = differ(j, dec);
  if (d) fprintf(stderr, "differs: %s\n", d);
  v_assert(d == NULL, "decoded-structure-equals-encoded");
}

// A structure encoded and decoded: at once, and in pieces through the resumable parser.
static void structure_round_trip(const JPEGData& j, jg::Rng* r, const char* what) {
  const size_t bound = GetMaximumBrunsliEncodedSize(j);
  uint8_t* buf = new uint8_t[bound];
  size_t len = bound;
  const bool enc_ok = BrunsliEncodeJpeg(j, buf, &len);
  if (!enc_ok && outside_format(j)) {
    delete[] buf;
    return;
  }
  v_assert(enc_ok, "encode-succeeds");
  v_assert(len <= bound, "size-bound");
  Bytes brn(buf, buf + len);
  delete[] buf;
  for (int pass = 0; pass < 2; ++pass) {
    JPEGData dec;
    if (pass == 0) {
      Exact be(brn);
      v_assert(BrunsliDecodeJpeg(be.p, be.n, &dec) == BRUNSLI_OK, "decode-succeeds");
    } else {
      internal::dec::State state;
      size_t pos = 0;
      const size_t step = 1 + (size_t)(r->next() % (r->chance(1, 2) ? 8 : 600));
      BrunsliStatus st = BRUNSLI_NOT_ENOUGH_DATA;
      while (st == BRUNSLI_NOT_ENOUGH_DATA && pos < brn.size()) {
        const size_t n = std::min(brn.size() - pos, step);
        Exact piece(Bytes(brn.begin() + pos, brn.begin() + pos + n));
        state.data = piece.p;
        state.len = n;
        state.pos = 0;
        st = internal::dec::ProcessJpeg(&state, &dec);
        v_assert(state.pos == n || st != BRUNSLI_NOT_ENOUGH_DATA, "piece-is-taken");
        pos += n;
      }
      v_assert(st == BRUNSLI_OK, "decode-in-pieces-succeeds");
    }
    const char* d = differ(j, dec);
    if (d) fprintf(stderr, "%s differs: %s\n", what, d);
    v_assert(d == NULL, "decoded-structure-equals-encoded");
  }
}
// Small parsed files to start from.
static const JPEGData& small_base(jg::Rng* r) {
  static std::vector<JPEGData> base;
  if (base.empty()) {
    for (uint64_t seed = 1; seed < 4000 && base.size() < 24; ++seed) {
      jg::Gen g(seed);
      g.build();
      if (g.out.size() > 1500) continue;
      JPEGData j;
      if (!ReadJpeg(g.out.data(), g.out.size(), JPEG_READ_ALL, &j) || outside_format(j)) continue;
      base.push_back(j);
    }
  }
  return base[r->next() % base.size()];
}
static void random_bytes(jg::Rng* r, Bytes* b, size_t n) {
  const int style = (int)(r->next() % 3);
  b->resize(n);
  for (auto& x : *b) x = style == 0 ? (uint8_t)r->next() : style == 1 ? (uint8_t)(r->next() % 3) : 0xD9 + (uint8_t)(r->next() % 3);
}

// C10: application segments, comments and tail of every shape.
static Bytes segment(jg::Rng* r, bool com, std::vector<Bytes>* templates) {
  Bytes s;
  if (!com && r->chance(1, 2)) {
    s = (*templates)[r->next() % templates->size()];
    const int changes = r->chance(1, 2) ? 0 : 1 + (int)(r->next() % 2);
    for (int i = 0; i < changes; ++i) {
      const size_t at = r->chance(1, 3) ? s.size() - 1 - r->next() % 3 : r->chance(1, 2) ? 3 + r->next() % std::min<size_t>(s.size() - 3, 14) : 3 + r->next() % (s.size() - 3);
      s[at] = r->chance(1, 2) ? (uint8_t)r->next() : (uint8_t)(s[at] + 1);
    }
    // the bytes the short forms carry
    if (s.size() == 3161 && r->chance(1, 2)) s[84] = (uint8_t)r->next();
    if (s.size() == 18 && r->chance(1, 2)) s[15] = (uint8_t)r->next();
    if (s.size() == 15 && r->chance(1, 2)) s[10] = (uint8_t)r->next();
    if (s.size() == 17) {
      if (r->chance(1, 2)) s[9] = (uint8_t)(r->next() % 4);
      if (r->chance(1, 2)) s[10] = (uint8_t)(r->next() % 5);
      if (r->chance(1, 2)) {
        static const int dens[] = {0, 1, 72, 96, 100, 150, 180, 200, 240, 256, 266, 300, 350};
        const int d = dens[r->next() % 13], e = r->chance(1, 6) ? d ^ 1 : d;
        s[11] = (uint8_t)(d >> 8), s[12] = (uint8_t)d, s[13] = (uint8_t)(e >> 8), s[14] = (uint8_t)e;
      }
    }
    if (r->chance(1, 6)) s.pop_back();
    else if (r->chance(1, 6)) s.push_back((uint8_t)(r->next() % 2));
  } else {
    random_bytes(r, &s, 3 + (r->chance(1, 20) ? r->next() % 65534 : r->next() % (r->chance(1, 3) ? 3 : 40)));
    s[0] = com ? 0xFE : (uint8_t)(0xE0 + r->next() % 16);
  }
  s[1] = (uint8_t)((s.size() - 1) >> 8);
  s[2] = (uint8_t)(s.size() - 1);
  return s;
}
HARNESS(drv_meta) {
  static std::vector<Bytes> templates;
  if (templates.empty()) {
    templates.push_back(Bytes(AppData_0xe0, AppData_0xe0 + 17));
    templates.push_back(Bytes(AppData_0xe2, AppData_0xe2 + 3161));
    templates.push_back(Bytes(AppData_0xec, AppData_0xec + 18));
    templates.push_back(Bytes(AppData_0xee, AppData_0xee + 15));
  }
  jg::Rng r(v_nondet("seed", 0, 64));
  JPEGData j = small_base(&r);
  std::vector<uint8_t> order;
  for (uint8_t m : j.marker_order)
    if ((m >> 4) != 0xE && m != 0xFE) order.push_back(m);
  j.app_data.clear();
  j.com_data.clear();
  const size_t apps = r.chance(1, 40) ? 1018 + r.next() % 7 : r.next() % 4, coms = r.chance(1, 40) ? 1018 + r.next() % 7 : r.next() % 3;
  const bool shorts = r.chance(1, 3);
  for (size_t i = 0; i < apps; ++i) {
    Bytes s = segment(&r, false, &templates);
    if (apps > 10 && s.size() > 40) s = templates[0];
    if (apps > 10 && shorts) s = templates[r.chance(1, 2) ? 2 : 3];
    j.app_data.push_back(s);
  }
  for (size_t i = 0; i < coms; ++i) {
    Bytes s = segment(&r, true, &templates);
    if (coms > 10 && s.size() > 40) s.resize(3), s[1] = 0, s[2] = 2;
    j.com_data.push_back(s);
  }
  for (auto& s : j.app_data) order.insert(order.begin(), s[0]);
  for (auto& s : j.com_data) order.insert(order.begin(), s[0]);
  j.marker_order = order;
  random_bytes(&r, &j.tail_data, r.chance(1, 2) ? 0 : r.chance(1, 20) ? r.next() % 200000 : r.next() % 20);
  if (apps > 10 && shorts && apps > 0x40 + 3 * 0x100) {
    // more short forms than the format allows: refused
    Bytes buf(GetMaximumBrunsliEncodedSize(j));
    size_t len = buf.size();
    v_assert(!BrunsliEncodeJpeg(j, buf.data(), &len), "too-many-short-forms-are-refused");
    j.app_data.resize(0x40 + 3 * 0x100);
    for (size_t i = 0; i < apps - (0x40 + 3 * 0x100); ++i) j.marker_order.erase(std::find_if(j.marker_order.begin(), j.marker_order.end(), [](uint8_t m) { return (m >> 4) == 0xE; }));
  }
  structure_round_trip(j, &r, "metadata");
}

static int any_index(jg::Rng* r) { return r->chance(1, 8) ? (int)(r->next() % (1u << 21)) : (int)(r->next() % (1u << (r->next() % 12))); }
static void random_huffman(jg::Rng* r, JPEGHuffmanCode* h) {
  const bool dc = r->chance(1, 2);
  h->slot_id = (int)(r->next() % 4) + (dc ? 0 : 0x10);
  h->is_last = r->chance(1, 2);
  const int alphabet = dc ? 12 : 256;
  for (int& c : h->counts) c = 0;
  const int stock = (int)(r->next() % 8);
  if (stock < 2) {
    int n = 0;
    if (dc) {
      for (int i = 0; i < 16; ++i) n += h->counts[i + 1] = kStockDCHuffmanCodeCounts[stock][i];
      for (int i = 0; i < 13; ++i) h->values[i] = kStockDCHuffmanCodeValues[stock][i];
    } else {
      for (int i = 0; i < 16; ++i) n += h->counts[i + 1] = kStockACHuffmanCodeCounts[stock][i];
      for (size_t i = 0; i < sizeof(kStockACHuffmanCodeValues[0]) / sizeof(int); ++i) h->values[i] = kStockACHuffmanCodeValues[stock][i];
    }
    if (!r->chance(1, 3)) return;
    // one detail changed
    n -= 1;
    if (n > 2) std::swap(h->values[r->next() % n], h->values[r->next() % n]);
    return;
  }
  // counts within the code space; the longest code carries the extra (sentinel) symbol
  const int max_len = 1 + (int)(r->next() % 16);
  int space = 65536 - (1 << (16 - max_len)), total = 0;
  const int style = (int)(r->next() % 3);
  for (int i = 1; i <= max_len; ++i) {
    int limit = std::min(alphabet - total, space >> (16 - i));
    if (limit < 0) limit = 0;
    int c = style == 0 ? (int)(r->next() % (limit + 1)) : style == 1 ? (r->chance(1, 3) ? limit : 0) : std::min<int>(limit, (int)(r->next() % 3));
    if (i == max_len && r->chance(1, 3)) c = limit;
    h->counts[i] = c;
    total += c;
    space -= c << (16 - i);
  }
  ++h->counts[max_len];
  std::vector<int> perm;
  for (int i = 0; i < 256; ++i) perm.push_back(i);
  if (dc) perm.resize(12);
  for (int i = 0; i < total; ++i) {
    const size_t k = r->chance(1, 3) ? 0 : r->next() % perm.size();
    h->values[i] = perm[k];
    perm.erase(perm.begin() + k);
  }
  h->values[total] = 256;
}
// C08, C09: tables and structure of every shape.
HARNESS(drv_struct) {
  jg::Rng r(v_nondet("seed", 0, 64));
  JPEGData j = small_base(&r);
  std::vector<uint8_t> order;
  for (uint8_t m : j.marker_order)
    if ((m >> 4) == 0xE || m == 0xFE) order.push_back(m);
  j.huffman_code.clear();
  const size_t codes = r.chance(1, 100) ? 511 - r.next() % 3 : 1 + r.next() % 6;
  for (size_t i = 0; i < codes; ++i) {
    JPEGHuffmanCode h;
    random_huffman(&r, &h);
    if (i + 1 == codes) h.is_last = true;
    if (h.is_last) order.push_back(0xc4);
    j.huffman_code.push_back(h);
  }
  j.scan_info.clear();
  const size_t scans = r.chance(1, 50) ? 100 : r.next() % 4;
  for (size_t i = 0; i < scans; ++i) {
    JPEGScanInfo s;
    s.Ss = (int)(r.next() % 64);
    s.Se = (int)(r.next() % 64);
    s.Ah = (int)(r.next() % 16);
    s.Al = (int)(r.next() % 16);
    s.num_components = 1 + r.next() % 4;
    for (size_t k = 0; k < s.num_components; ++k) {
      s.components[k].comp_idx = r.next() % 4;
      s.components[k].dc_tbl_idx = r.next() % 4;
      s.components[k].ac_tbl_idx = r.next() % 4;
    }
    int at = -1;
    for (size_t k = r.chance(1, 2) ? 0 : r.next() % 5; k > 0; --k) s.reset_points.push_back(at = at + 1 + any_index(&r));
    at = r.chance(1, 2) ? -1 : 0;
    for (size_t k = r.chance(1, 2) ? 0 : r.next() % 5; k > 0; --k) {
      JPEGScanInfo::ExtraZeroRunInfo z;
      z.block_idx = at = at + 1 + any_index(&r);
      z.num_extra_zero_runs = 1 + (int)(r.next() % (r.chance(1, 4) ? 200 : 3));
      s.extra_zero_runs.push_back(z);
    }
    order.push_back(0xda);
    j.scan_info.push_back(s);
  }
  j.quant.resize(1 + r.next() % 4);
  for (size_t i = 0; i < j.quant.size(); ++i) {
    JPEGQuantTable& q = j.quant[i];
    q.index = (int)(r.next() % 4);
    q.is_last = i + 1 == j.quant.size() || r.chance(1, 2);
    const int style = (int)(r.next() % 6);
    int level = 1 + (int)(r.next() % 255);
    bool wide = false;
    for (int k = 0; k < 64; ++k) {
      int v = 1 + (int)(r.next() % 255);
      if (style == 1) v = std::max(1, std::min(65535, level += (int)(r.next() % 9) - 4));
      if (style == 2) v = 1 + (int)(r.next() % 65535), v = k ? (v + 3 * q.values[k - 1]) / 4 : 5;
      if (style == 3) v = r.chance(1, 20) ? 255 + (int)(r.next() % 2) : 1;
      if (style == 4) v = kStockQuantizationTables[i > 0][r.next() % 100 ? r.next() % 1 : 1][k];
      if (style == 5) v = kStockQuantizationTables[i > 0][level % 8][k];
      q.values[k] = v;
    }
    if ((style == 4 || style == 5) && r.chance(1, 2)) q.values[r.next() % 64] += 1;
    for (int k = 0; k < 64; ++k) wide |= q.values[k] > 255;
    q.precision = wide || r.chance(1, 4);
  }
  for (auto& c : j.components) {
    c.quant_idx = r.next() % j.quant.size();
    if (r.chance(1, 3)) c.id = (uint8_t)r.next();
  }
  j.restart_interval = 0;
  if (r.chance(1, 2)) order.push_back(0xdd), j.restart_interval = (int)(r.next() % 65536);
  j.inter_marker_data.clear();
  for (size_t k = r.next() % 4; k > 0; --k) {
    order.push_back(0xff);
    j.inter_marker_data.emplace_back();
    random_bytes(&r, &j.inter_marker_data.back(), 1 + (r.chance(1, 10) ? r.next() % 40000 : r.next() % (r.chance(1, 2) ? 3 : 300)));
  }
  // any markers in any order; end of image comes last
  for (size_t k = r.next() % 8; k > 0; --k) {
    const uint8_t m = (uint8_t)(0xc0 + r.next() % 64);
    if (m != 0xc4 && m != 0xda && m != 0xd9 && m != 0xdd && m != 0xff) order.push_back(m);
  }
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.next() % i]);
  order.push_back(0xd9);
  j.marker_order = order;
  j.padding_bits.clear();
  const size_t nbits = r.chance(1, 2) ? 0 : std::min<size_t>(PaddingBitsLimit(j), r.chance(1, 4) ? 1u << 30 : r.next() % 40);
  for (size_t k = 0; k < nbits; ++k) j.padding_bits.push_back((int)(r.next() % 2));
  j.has_zero_padding_bit = nbits > 0;
  structure_round_trip(j, &r, "structure");
}
