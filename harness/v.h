// Contract language used by the harnesses in this directory.
//
// Under the verifier (engine/symex.py) these functions are intrinsics: the
// values are universally quantified, v_assume restricts them, v_assert and
// v_lemma generate proof obligations.  Under native execution
// (engine/native.cc) the values come from a counterexample file or from a
// random generator and v_assert is checked at run time.
#ifndef VERIF_V_H_
#define VERIF_V_H_
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t v_nondet(const char* name, uint64_t idx, uint64_t bits);
void v_assume(bool c);
void v_assert(bool c, const char* name);
void v_lemma(bool c, const char* name);  // proved, then used
void v_cover(const char* name);          // must be reachable
bool v_native();
uint64_t v_concrete(uint64_t v, uint64_t lo, uint64_t hi);  // case split
uint64_t v_case(const char* name, uint64_t lo, uint64_t hi);  // one proof per value in [lo, hi]
uint64_t v_determined(uint64_t v);  // v (a hint: constant on this path)
void* v_array(const char* name, uint64_t elem_bytes, uint64_t count);
void* v_alloc(uint64_t bytes, uint64_t stride);
void v_invariant(bool c);
uint64_t v_bound(uint64_t lo, uint64_t hi);
bool v_forall_close(uint64_t b, uint64_t lo, uint64_t hi, bool r);
bool v_exists_close(uint64_t b, uint64_t lo, uint64_t hi, bool r);
// v_range: a value in [lo, hi]
uint64_t v_range(const char* name, uint64_t idx, uint64_t bits, uint64_t lo, uint64_t hi);
int64_t v_srange(const char* name, uint64_t idx, uint64_t bits, int64_t lo, int64_t hi);
}
#define HARNESS(n) extern "C" void h_##n()
#endif
