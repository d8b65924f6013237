// Harness interface of the symbolic execution engine (see /verif/DESIGN.md).
// The same harness source is compiled twice: instrumented (every value below is a solver variable)
// and natively (replay: the values are read from the counterexample file).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>

extern "C" {
uint64_t sx_var(const char* name, unsigned bits, uint64_t lo, uint64_t hi, int is_signed);
void sx_assume(bool c);
void sx_assert(bool c, const char* msg);
uint64_t sx_concrete(uint64_t v);            // splits into one path per feasible value
void sx_reach(const char* label);            // reachability witness
int  sx_symbolic_mode();                     // 1 in the instrumented build, 0 in replay
const char* sx_config(const char* key);      // harness parameters (bounds), set by the driver; "" if absent
void sx_note(const char* text, size_t n);    // free text shown with counterexamples
}

static inline int sx_int(const char* name, int lo, int hi) { return (int) sx_var(name, 32, (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi, 1); }
static inline unsigned sx_uint(const char* name, unsigned lo, unsigned hi) { return (unsigned) sx_var(name, 32, lo, hi, 0); }
static inline int64_t sx_i64(const char* name, int64_t lo, int64_t hi) { return (int64_t) sx_var(name, 64, (uint64_t)lo, (uint64_t)hi, 1); }
static inline bool sx_bool(const char* name) { return sx_var(name, 1, 0, 1, 0) & 1; }
static inline char sx_char(const char* name) { return (char) sx_var(name, 8, 0, 255, 0); }
// A choice among 0..n-1, forked immediately: the result is concrete on every path.
static inline unsigned sx_choice(const char* name, unsigned n) {
    return n > 1 ? (unsigned) sx_concrete(sx_uint(name, 0, n - 1)) : 0;
}
static inline bool sx_flag(const char* name) { return sx_choice(name, 2); }
static inline int sx_config_int(const char* key, int dflt) {
    const char* s = sx_config(key);
    if (!*s) return dflt;
    int v = 0; bool neg = false; if (*s == '-') { neg = true; ++s; }
    while (*s) v = v * 10 + (*s++ - '0');
    return neg ? -v : v;
}
extern "C" void sx_harness();
#define SX_CHECK(c) sx_assert((c), #c)
