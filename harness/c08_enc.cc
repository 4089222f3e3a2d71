// C08: EncodeQuantTables (c/enc/brunsli_encode.cc) against DecodeQuantDataSection (c/dec/brunsli_decode.cc).
#include "c/enc/brunsli_encode.cc"
#include "v.h"
#include "c08.h"
using namespace brunsli;
V_Tape v_tape;
static uint8_t v_pred[4][64];   // what FillQuantMatrix returns for the table
static uint32_t v_factor[4];
static size_t v_kind[4];        // 0: stock, 1: difference to a quality factor
static size_t v_stock[4], v_table_no;

static inline size_t v_where() { return v_determined(v_tape.slot); }
static inline void v_next() {
  v_tape.slot += v_tape.gate[v_tape.slot] && v_tape.value[v_tape.slot] == 0 ? 1 + v_tape.gate[v_tape.slot] : 1;
}
// WriteBits / BrunsliBitReaderRead and EncodeVarint / DecodeVarint: what is written is read back (C04)
extern "C" void c08_write(size_t nbits, uint64_t bits, void*) {
  v_tape.slot = v_where();
  v_assert((bits >> nbits) == 0, "bits-fit");
  v_tape.nbits[v_tape.slot] = (uint8_t)nbits;
  v_tape.value[v_tape.slot] = (uint32_t)bits;
  v_next();
}
extern "C" void c08_write_varint(int n, int max_bits, void*) {
  v_tape.slot = v_where();
  v_assert(max_bits == 16 && n >= 0 && n < 65536, "varint-fits");
  v_tape.nbits[v_tape.slot] = 0;
  v_tape.value[v_tape.slot] = (uint32_t)n;
  v_next();
}
extern "C" bool c08_can_read(void*, size_t) {
  v_tape.slot = v_where();
  return v_tape.slot < v_tape.limit;
}
extern "C" uint32_t c08_read(void*, uint32_t nbits) {
  v_tape.slot = v_where();
  v_assert(v_tape.nbits[v_tape.slot] == nbits, "reads-what-was-written");
  const uint32_t r = v_tape.value[v_tape.slot];
  v_next();
  return r;
}
// GetQuantTableId (c08_table_id): a stock table that is equal, or the matrix of a quality factor
extern "C" int c08_table_id(const JPEGQuantTable* q, bool is_chroma, uint8_t* dst) {
  const size_t i = v_table_no++;
  v_assert(is_chroma == (i > 0), "chroma-after-the-first");
  if (v_kind[i] == 0) return (int)v_stock[i];
  for (size_t k = 0; k < 64; ++k) dst[k] = v_pred[i][k];
  return (int)(kNumStockQuantTables + v_factor[i]);
}
extern "C" void c08_fill(bool is_chroma, uint32_t q, uint8_t* dst) {
  const size_t i = v_table_no;
  v_assert(is_chroma == (i > 0) && q == v_factor[i], "same-matrix");
  for (size_t k = 0; k < 64; ++k) dst[k] = v_pred[i][k];
}

static int v_values[4][64];
static const char* const kShapes[10] = {"s", "q", "sq", "sss", "", "sssss", "sqss", "qs", "qq", "qsss"};
HARNESS(c08_tables) {
  const size_t shape = v_case("shape", 0, 9);
  size_t tables = 0;
  while (kShapes[shape][tables]) ++tables;
  const size_t comps = 1 + shape % 4;
  JPEGData jpg;
  jpg.quant.resize(tables);
  jpg.components.resize(comps);
  uint8_t precision[5];
  for (size_t i = 0; i < tables; ++i) {
    bool coded = kShapes[shape][i] == 'q';
    bool wide = v_nondet("precision", i, 1);
    precision[i] = (uint8_t)wide;
    jpg.quant[i].precision = precision[i];
    v_kind[i & 3] = coded;
    v_stock[i & 3] = (size_t)v_range("stock", i, 3, 0, 7);
    v_factor[i & 3] = (uint32_t)v_range("factor", i, 6, 0, 63);
    uint8_t near[64];
    const int small = (int)v_nondet("small", i, 2);
    if (v_native()) FillQuantMatrix(i > 0, v_factor[i & 3], near);
    for (size_t k = 0; k < 64; ++k) {
      int v;
      v_pred[i & 3][k] = (uint8_t)v_range("pred", i * 64 + k, 8, 1, 255);
      if (!coded) {
        v = kStockQuantizationTables[i > 0][v_stock[i & 3]][k];
      } else {
        v = (int)v_range("value", i * 64 + k, 16, 1, 65535);
        if (v_native() && small) v = near[k] + (v % small ? 0 : (v >> 8) % 4);
      }
      if (!wide) {
        if (v_native()) {
          if (v > 255) v = v & 255 ? v & 255 : 1;
        } else {
          v_assume(v < 256);
        }
      }
      jpg.quant[i].values[k] = v;
      v_values[i & 3][k] = v;
    }
  }
  for (size_t c = 0; c < comps; ++c) {
    jpg.components[c].quant_idx = tables ? (int)v_range("idx", c, 2, 0, tables > 4 ? 3 : tables - 1) : 0;
  }
  if (v_native()) {
    std::vector<uint8_t> out(8192);
    Storage storage(out.data(), out.size());
    if (!EncodeQuantTables(jpg, &storage)) return;
    v_assert(tables > 0 && tables <= 4, "one-to-four-tables");
    v_cover("stored");
    v_assert(v_dec_native(out.data(), storage.GetBytesUsed(), tables, comps, precision), "decoder-accepts");
    for (size_t i = 0; i < tables; ++i) {
      for (size_t k = 0; k < 64; ++k) v_assert(v_dec_value(i, k) == jpg.quant[i].values[k], "value-comes-back");
    }
  } else {
    // layout
    size_t slot = 1, start[5];
    for (size_t i = 0; i < tables && tables <= 4; ++i) {
      start[i] = slot;
      slot += 2;
      for (size_t k = 0; k < 64 && v_kind[i]; ++k, slot += 3) v_tape.gate[slot] = 2;
    }
    const size_t end = slot;
    // the encoder may refuse tables whose neighbouring differences are more than 65536 apart (c08_far)
    for (size_t i = 0; i < tables && tables <= 4; ++i) {
      int last = 0;
      for (size_t k = 0; k < 64 && v_kind[i]; ++k) {
        const int j = kJPEGNaturalOrder[k];
        const int d = v_values[i][j] - v_pred[i][j] - last;
        last = v_values[i][j] - v_pred[i][j];
        v_assume(d <= 65536);
        v_assume(d >= -65536);
      }
    }
    v_tape.slot = 0;
    v_table_no = 0;
    uint8_t none[8];
    Storage storage(none, 8);
    bool ok = EncodeQuantTables(jpg, &storage);
    v_assert(ok == (tables > 0 && tables <= 4), "accepts");
    if (tables == 0 || tables > 4) return;
    v_cover("stored");
    slot = 0;
#define ITEM(n, v, name) do { v_lemma(v_tape.nbits[slot] == (n) && v_tape.value[slot] == (uint32_t)(v), name); \
      v_tape.nbits[slot] = (n); v_tape.value[slot] = (uint32_t)(v); ++slot; } while (0)
    ITEM(2, tables - 1, "number-of-tables");
    for (size_t i = 0; i < tables; ++i) {
      ITEM(1, v_kind[i], "kind");
      if (v_kind[i] == 0) {
        ITEM(3, v_stock[i], "stock-table");
        continue;
      }
      ITEM(6, v_factor[i], "quality-factor");
      int last = 0;
      for (size_t k = 0; k < 64; ++k) {
        const int j = kJPEGNaturalOrder[k];
        const int now = v_values[i][j] - v_pred[i][j], d = now - last;
        last = now;
        ITEM(1, d != 0, "difference");
        v_lemma(d == 0 || (v_tape.nbits[slot] == 1 && v_tape.value[slot] == (d < 0)), "sign");
        v_tape.nbits[slot] = 1;
        v_tape.value[slot] = d < 0;
        ++slot;
        const uint32_t mag = (uint32_t)((d < 0 ? -d : d) - 1);
        v_lemma(d == 0 || (v_tape.nbits[slot] == 0 && v_tape.value[slot] == mag), "magnitude");
        v_tape.nbits[slot] = 0;
        v_tape.value[slot] = mag;
        ++slot;
      }
    }
    v_assert(slot == end, "layout");
    for (size_t c = 0; c < comps; ++c) ITEM(2, jpg.components[c].quant_idx, "component");
    v_assert(v_determined(v_tape.slot) == slot, "nothing-else-is-stored");
  }
}

// Decoder, one coefficient: from the state after the coefficients before (differences are relative to the previous one)
// and the three items c08_tables shows to be stored, the value and nothing else is set.
HARNESS(c08_step) {
  if (v_native()) return;
  const size_t i = v_concrete(v_range("table", 0, 2, 0, 1), 0, 1), k = v_concrete(v_range("k", 0, 6, 0, 63), 0, 63);
  const int j = kJPEGNaturalOrder[k];
  const uint8_t precision[2] = {1, 1};
  v_dec_open(2, 1, precision);
  const int last = k == 0 ? 0 : (int)v_srange("last", 0, 18, -254, 65534);
  const int pred = (int)v_range("pred", 0, 8, 1, 255);
  const size_t dir = v_concrete(v_range("direction", 0, 2, 0, 2), 0, 2);
  const int far = dir ? (int)v_range("far", 0, 17, 1, 65536) : 0;
  const int now = dir == 2 ? last - far : last + far, value = now + pred;
  v_assume(value >= 1 && value <= 65535);
  uint8_t wide = (uint8_t)v_nondet("wide", 0, 1);
  v_dec_at(i, k, last, wide, (uint8_t)pred);
  v_tape.slot = 0;
  v_tape.limit = 3;
  v_tape.gate[0] = 2;
  v_tape.nbits[0] = v_tape.nbits[1] = 1;
  v_tape.nbits[2] = 0;
  v_tape.value[0] = dir != 0;
  v_tape.value[1] = dir == 2;
  v_tape.value[2] = (uint32_t)(far - 1);
  const int status = v_dec_step(false);
  v_cover("stepped");
  v_assert(status == 0 && v_tape.slot == 3, "accepts-and-waits");
  v_assert(v_dec_is_at(i, k + 1, now, wide | (value > 255)) || (k == 63 && v_dec_is_after(i, wide | (value > 255))), "next-coefficient");
  for (size_t t = 0; t < 2; ++t) {
    for (size_t m = 0; m < 64; ++m) {
      v_assert(v_dec_value(t, m) == (t == i && (int)m == j ? value : 0), "value-is-set");
    }
  }
}
// Decoder, everything around the coefficients, which are taken to be as c08_step leaves them.
HARNESS(c08_frame) {
  if (v_native()) return;
  const size_t shape = v_case("shape", 0, 9), comps = 1 + shape % 4;
  size_t tables = 0;
  while (kShapes[shape][tables]) ++tables;
  if (tables == 0 || tables > 4) return;
  uint8_t precision[4], wide[4];
  size_t slot = 0, start[4];
#define PUT(n, v) (v_tape.nbits[slot] = (n), v_tape.value[slot] = (uint32_t)(v), ++slot)
  PUT(2, tables - 1);
  for (size_t i = 0; i < tables; ++i) {
    v_kind[i] = kShapes[shape][i] == 'q';
    precision[i] = (uint8_t)v_nondet("precision", i, 1);
    wide[i] = v_kind[i] ? (uint8_t)v_nondet("wide", i, 1) : 0;
    v_assume(wide[i] <= precision[i]);
    v_stock[i] = i == 1 || tables == 1 ? v_concrete(v_range("stock", i, 3, 0, 7), 0, 7) : (i * 3 + shape) % 8;
    v_factor[i] = (uint32_t)v_range("factor", i, 6, 0, 63);
    for (size_t k = 0; k < 64 && v_kind[i]; ++k) {
      v_pred[i][k] = (uint8_t)v_range("pred", i * 64 + k, 8, 1, 255);
      v_values[i][k] = (int)v_range("value", i * 64 + k, 16, 1, 65535);
    }
    for (size_t k = 0; k < 64 && !v_kind[i]; ++k) v_values[i][k] = kStockQuantizationTables[i > 0][v_stock[i]][k];
    PUT(1, v_kind[i]);
    start[i] = slot + 1;
    PUT(v_kind[i] ? 6 : 3, v_kind[i] ? v_factor[i] : v_stock[i]);
    if (v_kind[i]) PUT(1, 0);  // stands for the coefficients
  }
  int idx[4];
  for (size_t c = 0; c < comps; ++c) {
    idx[c] = (int)v_range("idx", c, 2, 0, tables - 1);
    PUT(2, idx[c]);
  }
  v_dec_open(tables, comps, precision);
  v_tape.slot = 0;
  for (size_t i = 0; i < tables; ++i) {
    v_table_no = i;
    if (v_kind[i] == 0) continue;
    v_tape.limit = start[i];
    v_assert(v_dec_step(false) == 0 && v_tape.slot == start[i], "waits");
    v_assert(v_dec_is_at(i, 0, 0, 0), "starts-from-zero");
    for (size_t k = 0; k < 64; ++k) v_assert(v_dec_pred(k) == v_pred[i][k], "matrix-of-the-factor");
    v_dec_at(i, 64, v_values[i][63] - v_pred[i][63], wide[i], 0);
    for (size_t k = 0; k < 64; ++k) v_dec_set_value(i, k, v_values[i][k]);
    v_tape.slot = start[i] + 1;
  }
  v_tape.limit = slot;
  v_assert(v_dec_step(true) == 1, "decoder-accepts");
  v_cover("accepted");
  v_assert(v_tape.slot == slot, "everything-is-read");
  for (size_t i = 0; i < tables; ++i) {
    for (size_t k = 0; k < 64; ++k) v_assert(v_dec_value(i, k) == v_values[i][k], "tables-come-back");
  }
  for (size_t c = 0; c < comps; ++c) v_assert((int)v_dec_quant_idx(c) == idx[c], "components-come-back");
}

// GetQuantTableId and FindBestMatrix: the table named is the table meant
static uint32_t v_last_q;
static bool v_last_chroma;
static uint8_t* v_last_dst;
extern "C" void c08_fill_ghost(bool is_chroma, uint32_t q, uint8_t* dst) {
  v_assert(q < kQFactorLimit, "quality-factor-in-range");
  v_last_q = q;
  v_last_chroma = is_chroma;
  v_last_dst = dst;
  for (size_t k = 0; k < 64; ++k) dst[k] = v_pred[0][k];
}
HARNESS(c08_best) {
  int src[64];
  for (size_t k = 0; k < 64; ++k) {
    src[k] = (int)v_range("value", k, 16, 1, 65535);
    v_pred[0][k] = (uint8_t)v_range("pred", k, 8, 1, 255);
  }
  bool is_chroma = v_nondet("chroma", 0, 1);
  uint8_t dst[64];
  const uint32_t q = FindBestMatrix(src, is_chroma, dst);
  v_cover("found");
  if (v_native()) {
    uint8_t want[64];
    FillQuantMatrix(is_chroma, q, want);
    v_assert(memcmp(want, dst, 64) == 0, "matrix-of-the-factor");
    return;
  }
  v_assert(q < kQFactorLimit && q == v_last_q && is_chroma == v_last_chroma && v_last_dst == dst, "matrix-of-the-factor");
}
static uint32_t v_best;
extern "C" uint32_t c08_find(const int* src, bool is_chroma, uint8_t* dst) {
  v_last_chroma = is_chroma;
  for (size_t k = 0; k < 64; ++k) v_assert(src[k] == v_values[0][k], "looks-for-the-table");
  for (size_t k = 0; k < 64; ++k) dst[k] = v_pred[0][k];
  return v_best;
}
HARNESS(c08_table_id) {
  JPEGQuantTable q;
  bool is_chroma = v_case("chroma", 0, 1);
  const size_t near = (size_t)v_nondet("near", 0, 4);
  for (size_t k = 0; k < 64; ++k) {
    int v = (int)v_range("value", k, 16, 1, 65535);
    if (v_native() && near < 8) v = kStockQuantizationTables[is_chroma][near][k];
    q.values[k] = v_values[0][k] = v;
    v_pred[0][k] = (uint8_t)v_range("pred", k, 8, 1, 255);
  }
  v_best = (uint32_t)v_range("best", 0, 6, 0, 63);
  uint8_t dst[64];
  const int id = GetQuantTableId(q, is_chroma, dst);
  v_cover("found");
  v_assert(id >= 0 && id < (int)(8 + kQFactorLimit), "valid");
  if (v_native()) {
    uint8_t want[64];
    if (id >= 8) FillQuantMatrix(is_chroma, id - 8, want);
    for (size_t k = 0; k < 64; ++k) {
      if (id < 8) v_assert(q.values[k] == kStockQuantizationTables[is_chroma][id][k], "stock-table-is-equal");
      else v_assert(want[k] == dst[k], "matrix-of-the-factor");
    }
    return;
  }
  for (int t = 0; t < 8; ++t) {
    bool same = true;
    for (size_t k = 0; k < 64; ++k) same = same & (v_values[0][k] == kStockQuantizationTables[is_chroma][t][k]);
    v_assert(id != t || same, "stock-table-is-equal");
  }
  v_assert(id < 8 || (id == 8 + (int)v_best && v_last_chroma == is_chroma), "matrix-of-the-factor");
  for (size_t k = 0; k < 64; ++k) v_assert(id < 8 || dst[k] == v_pred[0][k], "matrix-of-the-factor");
}
HARNESS(c08_fill) {
  bool is_chroma = v_case("chroma", 0, 1);
  const uint32_t q = (uint32_t)v_range("q", 0, 6, 0, 63);
  uint8_t a[64], b[64];
  for (size_t k = 0; k < 64; ++k) {
    a[k] = (uint8_t)v_nondet("a", k, 8);
    b[k] = (uint8_t)v_nondet("b", k, 8);
  }
  FillQuantMatrix(is_chroma, q, a);
  FillQuantMatrix(is_chroma, q, b);
  v_cover("filled");
  for (size_t k = 0; k < 64; ++k) v_assert(a[k] == b[k] && a[k] >= 1, "depends-on-the-factor-only");
}
