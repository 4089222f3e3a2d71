// C05: coefficient orders and permutation codes.
// Real code: PermutationCoder (c/common/lehmer_code.h), ComputeLehmerCode / DecodeLehmerCode (c/common/lehmer_code.cc).
#include <algorithm>
#include <vector>
#include "c/common/lehmer_code.cc"
#include "v.h"
using namespace brunsli;

// The coder's list, any n <= 256 values.
static void set_list(PermutationCoder* c, const char* name, size_t n) {
  uint8_t* p = (uint8_t*)v_array(name, 1, 256);
  c->values_._M_impl._M_start = p;
  c->values_._M_impl._M_finish = p + n;
  c->values_._M_impl._M_end_of_storage = p + 256;
}
static void drop_list(PermutationCoder* c) {
  c->values_._M_impl._M_start = c->values_._M_impl._M_finish = c->values_._M_impl._M_end_of_storage = NULL;
}

// One removal from any list of at most 256 values, by value and by position.
HARNESS(c05_remove) {
  const size_t n = v_range("n", 0, 64, 1, 256);
  PermutationCoder enc, dec;
  set_list(&enc, "values", n);
  set_list(&dec, "values", n);
  const uint8_t* orig = (const uint8_t*)v_array("values", 1, 256);
  const uint8_t value = (uint8_t)v_nondet("value", 0, 8);
  const size_t k = v_range("k", 0, 64, 0, 255);
  const int bits_before = dec.num_bits();
  int code = -1, nbits = -1;
  if (!enc.RemoveValue(value, &code, &nbits)) {
    v_cover("absent");
    v_assert(enc.values_.size() == n, "refusal-keeps-the-list");
    v_assert(!(k < n && orig[k] == value), "present-value-is-accepted");
    v_assert(enc.values_.data()[k] == orig[k], "refusal-keeps-the-values");
  } else {
    v_cover("removed");
    v_lemma(code >= 0 && (size_t)code < n, "code-is-a-position");
    v_assert(nbits == bits_before, "both-sides-use-the-same-number-of-bits");
    v_assert(nbits >= 0 && nbits <= 8 && (code >> nbits) == 0, "code-fits-its-bits");
    v_lemma(orig[code] == value, "code-is-the-position-of-the-value");
    v_lemma(enc.values_.size() == n - 1, "one-value-less");
  }
  drop_list(&enc);
  drop_list(&dec);
}
// The part of std::find's contract (proved against its body in c05_remove) needed below.
typedef std::vector<uint8_t>::iterator It8;
extern "C" It8 c05_find(It8 first, It8 last, const uint8_t& value) {
  const size_t n = last - first;
  const size_t i = v_native() ? std::find(first, last, value) - first : v_nondet("found", 0, 64);
  v_assume(i <= n);
  return first + i;
}
HARNESS(c05_remove_rest) {
  const size_t n = v_range("n", 0, 64, 1, 256);
  PermutationCoder enc;
  set_list(&enc, "values", n);
  const uint8_t* orig = (const uint8_t*)v_array("values", 1, 256);
  const uint8_t value = (uint8_t)v_nondet("value", 0, 8);
  const size_t k = v_range("k", 0, 64, 0, 255);
  int code = -1, nbits = -1;
  if (enc.RemoveValue(value, &code, &nbits)) {
    v_cover("removed");
    v_lemma(code >= 0 && (size_t)code < n, "code-is-a-position");
    if (k < n - 1) v_assert(enc.values_.data()[k] == orig[(int)k < code ? k : k + 1], "others-are-kept-in-order");
  }
  drop_list(&enc);
}
HARNESS(c05_remove_at) {
  const size_t n = v_range("n", 0, 64, 0, 256);
  PermutationCoder dec;
  set_list(&dec, "values", n);
  const uint8_t* orig = (const uint8_t*)v_array("values", 1, 256);
  const size_t code = v_native() ? v_range("code", 0, 64, 0, n + 1) : v_nondet("code", 0, 64);
  const size_t k = v_range("k", 0, 64, 0, 255);
  uint8_t got = 0;
  if (!dec.Remove(code, &got)) {
    v_cover("refused");
    v_assert(code >= n, "code-in-range-is-accepted");
    v_assert(dec.values_.size() == n && dec.values_.data()[k] == orig[k], "refusal-keeps-the-list");
  } else {
    v_cover("removed");
    v_lemma(code < n, "code-outside-the-range-is-refused");
    v_assert(got == orig[code], "value-at-the-position");
    v_assert(dec.values_.size() == n - 1, "one-value-less");
    if (k < n - 1) v_assert(dec.values_.data()[k] == orig[k < code ? k : k + 1], "others-are-kept-in-order");
  }
  drop_list(&dec);
}

// Lehmer codes of 64 items.  vector::erase and std::find on the list of remaining items are replaced by the contracts
// c05_erase32 / c05_find32; their bodies are proved against the same contracts in c05_erase_body / c05_find_body.
// The ghost sequence "itemsN" names the (strictly increasing) list after N removals.
typedef std::vector<uint32_t> V32;
typedef V32::iterator It32;
typedef V32::const_iterator Cit32;
static struct {
  int mode;        // 1: decode, 2: encode
  size_t step;
  uint64_t index[65];
  uint32_t tracked;  // an arbitrary item
  size_t at;         // where it is, while it is in the list
  bool gone;
} g;
static const size_t kN = 64;
static void swap_in(V32* self, size_t n) {
  if (v_native()) return;
  char name[] = "items__";
  name[5] = (char)('0' + (kN - n) / 10);
  name[6] = (char)('0' + (kN - n) % 10);
  uint32_t* p = (uint32_t*)v_array(name, 4, 64);
  self->_M_impl._M_start = p;
  self->_M_impl._M_finish = p + n;
  self->_M_impl._M_end_of_storage = p + 64;
}
// requires: the list is the ghost list of this step; ensures: it is the ghost list of the next step, where
// next[k] = list[k < i ? k : k + 1].
extern "C" It32 c05_erase32(V32* self, Cit32 pos) {
  const size_t n = self->size();
  const uint32_t* cur = self->data();
  const size_t i = pos.base() - cur;
  v_assert(n == kN - g.step && i < n, "erase-requires-an-item");
  if (g.mode == 1) {
    g.index[g.step] = i;
  } else if (g.mode == 2) {
    v_assert(i == g.index[g.step], "encoder-finds-the-index-the-decoder-used");
  }
  const uint32_t* next = NULL;
  if (v_native()) self->erase(pos); else swap_in(self, n - 1);
  next = self->data();
  if (g.mode == 1) {
    // follow the arbitrary item
    if (!g.gone) {
      v_assert(g.at < n && cur[g.at] == g.tracked, "item-is-in-the-list");
      const uint32_t lo = cur[g.at < i ? g.at : i], hi = cur[g.at < i ? i : g.at];
      if (!v_native()) v_assume(g.at == i || lo < hi);  // the list is strictly increasing (c05_erase_body)
      if (i == g.at) {
        g.gone = true;
      } else {
        if (i < g.at) --g.at;
        if (!v_native()) v_assume(next[g.at] == cur[g.at < i ? g.at : g.at + 1]);
      }
    }
    if (!v_native()) {
      v_assert(g.gone || (g.at < n - 1 && next[g.at] == g.tracked), "item-stays-or-is-produced");
      // keep only that
      g.at = v_nondet("at", g.step, 64);
      v_assume(g.gone || (g.at < n - 1 && next[g.at] == g.tracked));
    }
  }
  ++g.step;
  return self->begin() + i;
}
extern "C" It32 c05_find32(It32 first, It32 last, const uint32_t& value) {
  const size_t n = last - first;
  if (v_native()) return std::find(first, last, value);
  const size_t i = v_nondet("found", g.step, 64);
  // the contract of find, at the index the decoder used
  const size_t c = g.index[g.step];
  v_assume(i <= n && (i == n || first[i] == value));
  v_assume(!(c < i) || first[c] != value);
  v_assume(!(i < c) || first[i] < first[c]);  // the list is strictly increasing
  v_lemma(i == c, "finds-the-decoder's-index");
  return first + i;
}
// the contracts against the bodies, on any list
static void set32(V32* v, size_t n) {
  uint32_t* p = (uint32_t*)v_array("list", 4, 64);
  v->_M_impl._M_start = p;
  v->_M_impl._M_finish = p + n;
  v->_M_impl._M_end_of_storage = p + 64;
}
static void drop32(V32* v) { v->_M_impl._M_start = v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = NULL; }
HARNESS(c05_erase_body) {
  const size_t n = v_range("n", 0, 64, 1, 64);
  V32 v;
  set32(&v, n);
  const uint32_t* orig = (const uint32_t*)v_array("list", 4, 64);
  const size_t i = v_range("i", 0, 64, 0, n - 1);
  const size_t k = v_range("k", 0, 64, 0, 63);
  const size_t k2 = v_range("k2", 0, 64, 0, 63);
  const It32 r = v.erase(v.begin() + i);
  v_assert(r - v.begin() == (ptrdiff_t)i && v.size() == n - 1, "size-and-result");
  v_cover("erased");
  if (k < n - 1) v_lemma(v[k] == orig[k < i ? k : k + 1], "others-are-kept-in-order");
  if (k < k2 && k2 < n - 1) {
    v_lemma(v[k2] == orig[k2 < i ? k2 : k2 + 1], "others-are-kept-in-order");
    // strictly increasing at these two places before
    v_assume(orig[k < i ? k : k + 1] < orig[k2 < i ? k2 : k2 + 1]);
    v_assert(v[k] < v[k2], "stays-strictly-increasing");
  }
  drop32(&v);
}
HARNESS(c05_find_body) {
  const size_t n = v_range("n", 0, 64, 0, 64);
  V32 v;
  set32(&v, n);
  const uint32_t* orig = (const uint32_t*)v_array("list", 4, 64);
  const uint32_t value = (uint32_t)v_nondet("value", 0, 32);
  const size_t k = v_range("k", 0, 64, 0, 63);
  const size_t i = std::find(v.begin(), v.end(), value) - v.begin();
  v_cover("returned");
  v_lemma(i <= n, "within-the-list");
  v_assert(i == n || orig[i] == value, "finds-the-value");
  if (k < i) v_assert(orig[k] != value, "finds-the-first");
  drop32(&v);
}

static void lehmer_codes(uint32_t* code) {
  for (size_t i = 0; i < kN; ++i) code[i] = (uint32_t)v_range("code", i, 32, 0, kN - 1 - i);
}
HARNESS(c05_lehmer) {
  uint32_t code[64], code2[64], sigma[64];
  lehmer_codes(code);
  g.mode = 1;
  g.step = 0;
  g.tracked = (uint32_t)v_range("tracked", 0, 32, 0, kN - 1);
  g.at = g.tracked;
  g.gone = false;
  const bool ok = DecodeLehmerCode(code, kN, sigma);
  v_assert(ok, "code-in-range-is-accepted");
  v_cover("decoded");
  if (!v_native()) v_assert(g.gone && g.step == kN, "every-item-is-produced");
  g.mode = 2;
  g.step = 0;
  ComputeLehmerCode(sigma, kN, code2);
  for (size_t i = 0; i < kN; ++i) v_assert(code2[i] == code[i], "code-comes-back");
  if (v_native()) {
    uint64_t seen = 0;
    for (size_t i = 0; i < kN; ++i) {
      v_assert(sigma[i] < kN && !(seen >> sigma[i] & 1), "a-permutation");
      seen |= 1ull << sigma[i];
    }
  }
}
// anything outside the range is refused
HARNESS(c05_lehmer_bad) {
  uint32_t code[64], sigma[64];
  const size_t bad = v_case("bad", 0, kN - 1);  // the first code outside its range
  for (size_t i = 0; i < bad; ++i) code[i] = (uint32_t)v_range("code", i, 32, 0, kN - 1 - i);
  code[bad] = (uint32_t)v_range("code", bad, 32, kN - bad, 0xffffffffu);
  for (size_t i = bad + 1; i < kN; ++i) code[i] = (uint32_t)v_nondet("code", i, 32);
  g.mode = 3;
  g.step = 0;
  v_assert(!DecodeLehmerCode(code, kN, sigma), "code-outside-the-range-is-refused");
  v_cover("refused");
}
