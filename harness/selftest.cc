// Small functions with known verdicts for engine/selftest.py.
#include <vector>
#include <algorithm>
#include <cstring>
#include <memory>
#include "v.h"

HARNESS(good_minmax) {
  int a = (int)v_nondet("a", 0, 32), b = (int)v_nondet("b", 0, 32);
  v_assert(std::max(a, b) >= std::min(a, b), "maxmin");
  v_cover("x");
}
HARNESS(bad_overflow) {
  int a = (int)v_nondet("a", 0, 32);
  int c = a + 1;
  v_assert(c > a || c <= a, "taut");
}
HARNESS(bad_bounds) {
  int t[10] = {0};
  size_t i = v_range("i", 0, 64, 0, 10);
  t[i] = 3;
  v_assert(t[0] == 0 || i == 0, "t");
}
HARNESS(good_bounds) {
  int t[10] = {0};
  size_t i = v_range("i", 0, 64, 0, 9);
  t[i] = 3;
  v_assert(t[i] == 3 && (i == 4 || t[4] == 0), "t");
  v_cover("x");
}
HARNESS(good_vector) {
  std::vector<int> v;
  for (int i = 0; i < 5; ++i) v.push_back((int)v_nondet("e", i, 32));
  std::sort(v.begin(), v.end());
  for (int i = 0; i < 4; ++i) v_assert(v[i] <= v[i + 1], "sorted");
  v_cover("x");
}
HARNESS(good_vector_fork) {
  std::vector<int> v;
  for (int i = 0; i < 3; ++i) v.push_back((int)v_nondet("e", i, 32));
  std::sort(v.begin(), v.end());
  for (int i = 0; i < 2; ++i) v_assert(v[i] <= v[i + 1], "sorted");
  v_cover("x");
}
HARNESS(bad_vector) {
  std::vector<int> v;
  for (int i = 0; i < 4; ++i) v.push_back((int)v_nondet("e", i, 32));
  std::sort(v.begin(), v.end());
  v_assert(v[1] < v[2], "strict");
}
static uint32_t SumTo(const uint8_t* p, size_t n) {
  uint32_t s = 0;
  for (size_t i = 0; i < n; ++i) {
    v_invariant(i <= n);
    v_invariant(s <= 255 * i);
    s += p[i];
  }
  return s;
}
HARNESS(good_invariant) {
  size_t n = v_range("n", 0, 64, 0, 1000000);
  const uint8_t* p = (const uint8_t*)v_array("p", 1, n);
  v_assert(SumTo(p, n) <= 255 * n, "sum");
  v_cover("x");
}
static uint32_t SumBad(const uint8_t* p, size_t n) {
  uint32_t s = 0;
  for (size_t i = 0; i < n; ++i) {
    v_invariant(i <= n);
    v_invariant(s <= 254 * i);
    s += p[i];
  }
  return s;
}
HARNESS(bad_invariant) {
  size_t n = v_range("n", 0, 64, 0, 1000000);
  const uint8_t* p = (const uint8_t*)v_array("p", 1, n);
  v_assert(SumBad(p, n) <= 255 * n, "sum");
}
// exit by break after the invariant
static size_t Find(const uint8_t* p, size_t n, uint8_t x) {
  size_t i = 0;
  for (; i < n; ++i) {
    v_invariant(i <= n);
    if (p[i] == x) break;
  }
  return i;
}
HARNESS(good_break) {
  size_t n = v_range("n", 0, 64, 0, 1000000);
  const uint8_t* p = (const uint8_t*)v_array("p", 1, n);
  size_t k = Find(p, n, 7);
  v_assert(k <= n, "k");
  if (k < n) v_assert(p[k] == 7, "found");
  v_cover("x");
}
HARNESS(bad_break) {
  size_t n = v_range("n", 0, 64, 0, 1000000);
  const uint8_t* p = (const uint8_t*)v_array("p", 1, n);
  v_assert(Find(p, n, 7) == n, "never");
}
HARNESS(bad_break2) {
  size_t n = v_range("n", 0, 64, 5, 1000000);
  const uint8_t* p = (const uint8_t*)v_array("p", 1, n);
  v_assert(Find(p, n, 7) != 3, "never3");
}
HARNESS(good_unrolled) {
  uint32_t n = (uint32_t)v_nondet("n", 0, 32);
  uint32_t c = 0;
  while (n) { c += n & 1; n >>= 1; }
  v_assert(c <= 32, "popcount");
  v_cover("x");
}
struct Base { virtual ~Base() {} virtual int f(int x) { return x; } };
struct Derived : Base { int f(int x) override { return x ^ 1; } };
HARNESS(good_virtual) {
  std::unique_ptr<Base> b(new Derived);
  int x = (int)v_nondet("x", 0, 32);
  v_assert(b->f(x) == (x ^ 1), "dispatch");
  v_cover("x");
}
HARNESS(good_memcpy) {
  uint8_t a[16], b[16];
  for (int i = 0; i < 16; ++i) a[i] = (uint8_t)v_nondet("a", i, 8);
  size_t n = v_range("n", 0, 64, 0, 16);
  memset(b, 0, 16);
  memcpy(b, a, n);
  for (size_t i = 0; i < 16; ++i) v_assert(b[i] == (i < n ? a[i] : 0), "copied");
  v_cover("x");
}
HARNESS(bad_memcpy) {
  uint8_t a[16], b[16];
  for (int i = 0; i < 16; ++i) a[i] = 1;
  size_t n = v_range("n", 0, 64, 0, 17);
  memcpy(b, a, n);
}
