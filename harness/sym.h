// Interface between harnesses and the symbolic machine (or the native replayer).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t sym_int(int bits, const char* name);             // arbitrary value of the given width
void sym_bytes(void* p, size_t n, const char* name);      // n arbitrary bytes
int sym_pick(int n, const char* name);                    // every value 0..n-1, one execution branch each (concrete)
void sym_assume(bool c);
void sym_assert_(bool c, const char* msg);
void sym_reach(const char* label);                        // vacuity witness
void sym_note(const char* name, uint64_t v);
void sym_notes(const char* name, const char* v);
uint64_t sym_concretize(uint64_t v);                      // branches over all feasible values
int sym_mode();                                           // 1 symbolic, 0 native
int sym_is_symbolic(unsigned long long);
extern int sym_fmt;  // != 0: symbolic integers are formatted with symbolic digits instead of "?"
void sym_undef(void* p, size_t n);
bool sym_mem_is_undef(const void* p, size_t n);
uint64_t sym_heap_live();
uint64_t sym_alloc_cap();
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int id);
void sym_yield();
void sym_unsupported(const char*);
}
#define sym_assert(c, msg) sym_assert_((c), msg)
static inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_int(8, n); }
static inline uint16_t sym_u16(const char* n) { return (uint16_t)sym_int(16, n); }
static inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_int(32, n); }
static inline uint64_t sym_u64(const char* n) { return sym_int(64, n); }
static inline int32_t sym_i32(const char* n) { return (int32_t)sym_int(32, n); }
static inline int64_t sym_i64(const char* n) { return (int64_t)sym_int(64, n); }
static inline bool sym_bool(const char* n) { return sym_int(1, n) != 0; }
// value in lo..hi, built so that its range is visible in the structure of the expression
static inline int32_t sym_range(int32_t lo, int32_t hi, const char* n) { uint32_t d = (uint32_t)hi - (uint32_t)lo; int b = 1; while (b < 32 && (d >> b)) ++b; uint32_t v = (uint32_t)sym_int(b, n); if (d != (b == 32 ? ~0u : (1u << b) - 1)) sym_assume(v <= d); return (int32_t)((uint32_t)lo + v); }
// float/double with arbitrary bits
static inline float sym_f32(const char* n) { uint32_t v = sym_u32(n); float f; __builtin_memcpy(&f, &v, 4); return f; }
static inline double sym_f64(const char* n) { uint64_t v = sym_u64(n); double f; __builtin_memcpy(&f, &v, 8); return f; }
#define HARNESS(name) extern "C" void name()
