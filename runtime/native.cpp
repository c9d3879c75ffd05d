// Native implementation of the harness interface: replays a counterexample (file given by SYM_REPLAY) against the real code.
#include "../harness/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <thread>
#include <exception>
#include <typeinfo>
struct Ent { std::string name; int w; uint64_t v; };
static std::vector<Ent> ents; static size_t pos = 0; static bool loaded = false; static size_t cap = 256 * 1024; static bool track = false; static bool quiet = false;
static void load() { if (loaded) return; loaded = true; bool t = track; track = false; const char* f = getenv("SYM_REPLAY"); FILE* h = f ? fopen(f, "r") : nullptr; if (h) { char nm[512]; int w; unsigned long long v; while (fscanf(h, "%511s %d %llx", nm, &w, &v) == 3) ents.push_back({nm, w, v}); fclose(h); } if (const char* c = getenv("SYM_ALLOC_CAP")) cap = strtoull(c, 0, 10); track = t; }
static uint64_t next(int w, const char* n) { load(); if (pos >= ents.size()) { return 0; } Ent& e = ents[pos++]; std::string nn(n); for (char& c : nn) if (c == ' ') c = '_'; if (e.name != nn) { fprintf(stderr, "REPLAY-DIVERGED: expected %s got %s\n", e.name.c_str(), n); fflush(stderr); _Exit(78); } return e.v; }
extern "C" {
uint64_t sym_int(int bits, const char* n) { return next(bits, n); }
void sym_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)next(8, nm); }
int sym_pick(int n, const char* nm) { return (int)next(32, nm); }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); fflush(stderr); _Exit(77); } }
void sym_assert_(bool c, const char* m) { if (!c) { fprintf(stderr, "REPLAY-ASSERT-FAILED: %s\n", m); fflush(stderr); _Exit(99); } }
void sym_reach(const char*) {}
void sym_note(const char* n, uint64_t v) { if (!getenv("SYM_QUIET")) fprintf(stderr, "note: %s = %lld (0x%llx)\n", n, (long long)v, (unsigned long long)v); }
void sym_notes(const char* n, const char* v) { fprintf(stderr, "note: %s: %s\n", n, v); }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_mode() { return 0; }
int sym_is_symbolic(unsigned long long) { return 0; }
int sym_fmt;
void sym_undef(void* p, size_t n) { memset(p, 0xab, n); }
bool sym_mem_is_undef(const void* p, size_t n) { fprintf(stderr, "UNDEF-PROBE "); for (size_t i = 0; i < n; ++i) fprintf(stderr, "%02x", ((const unsigned char*)p)[i]); fprintf(stderr, "\n"); return false; } // values which differ between the two builds (different filling of uninitialised memory) were not initialised
uint64_t sym_heap_live() { return 0; }
uint64_t sym_alloc_cap() { load(); return cap; }
void sym_unsupported(const char* m) { fprintf(stderr, "unsupported %s\n", m); _Exit(76); }
static std::vector<std::thread>* ths; 
int sym_thread_create(void (*fn)(void*), void* arg) { if (!ths) { ths = new std::vector<std::thread>; ths->reserve(64); } ths->emplace_back(fn, arg); return (int)ths->size() - 1; }
void sym_thread_join(int id) { (*ths)[id].join(); }
void sym_yield() { std::this_thread::yield(); }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) { if (track && n > cap) return nullptr; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (track && a * b > cap) return nullptr; return __real_calloc(a, b); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (track && n > cap) return nullptr; return __real_aligned_alloc(a, n); }
// operator new with a limit (mangled names wrapped by the linker)
void* __real__Znwm(size_t); void* __real__Znam(size_t);
void* __wrap__Znwm(size_t n) { if (track && n > cap) throw std::bad_alloc(); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { if (track && n > cap) throw std::bad_alloc(); return __real__Znam(n); }
void SYM_ENTRY();
}
int main() { load(); track = true;
  try { SYM_ENTRY(); } catch (std::exception& e) { track = false; fprintf(stderr, "REPLAY-UNCAUGHT: %s: %s\n", typeid(e).name(), e.what()); fflush(stderr); _Exit(98); } catch (...) { fprintf(stderr, "REPLAY-UNCAUGHT\n"); fflush(stderr); _Exit(98); }
  track = false; fprintf(stderr, "REPLAY-OK\n"); fflush(stderr); _Exit(0); }
// the JPEG-XR codec is not part of the native replay build (weak: a harness may supply its own stand-in)
#define JXR_STUB(m) extern "C" __attribute__((weak)) void m() { fprintf(stderr, "unsupported: JPEG-XR codec\n"); _Exit(76); }
JXR_STUB(_ZNK6libCZI6detail9JxrDecode14CompressedData7GetSizeEv)
JXR_STUB(_ZNK6libCZI6detail9JxrDecode14CompressedData9GetMemoryEv)
JXR_STUB(_ZN6libCZI6detail9JxrDecode14CompressedDataD1Ev)
JXR_STUB(_ZN6libCZI6detail9JxrDecode6EncodeENS1_11PixelFormatEjjjPKvf)
JXR_STUB(_ZN6libCZI6detail9JxrDecode6DecodeEPKvmRKSt8functionIFSt5tupleIJPvjEENS1_11PixelFormatEjjEE)
