// Shared parts of the harnesses: in-memory streams, small helpers.
#pragma once
#include "sym.h"
#include <cstring>
#include <memory>
#include <stdexcept>
#include <vector>
#include "libCZI.h"
namespace h {
using namespace libCZI;
// growing in-memory file with optional fault injection
template <size_t CAP> struct MemStreamT : public IInputOutputStream {
  uint8_t buf[CAP]; uint64_t size = 0; int reads = 0, writes = 0; int failRead = -1, failWrite = -1, shortRead = -1, shortWrite = -1; uint64_t shortBy = 1; bool overflow = false, counting = true, faulted = false;
  MemStreamT() { memset(buf, 0xcc, CAP); }
  void Read(uint64_t off, void* pv, uint64_t n, uint64_t* got) override {
    int k = counting ? reads++ : -2;
    if (k == failRead) { faulted = true; throw std::runtime_error("injected read error"); }
    uint64_t avail = off < size ? size - off : 0; uint64_t m = n < avail ? n : avail;
    if (k == shortRead && m) faulted = true, m = m > shortBy ? m - shortBy : 0;
    if (m) memcpy(pv, buf + off, m);
    if (got) *got = m;
  }
  void Write(uint64_t off, const void* pv, uint64_t n, uint64_t* done) override {
    int k = writes++;
    if (k == failWrite) { faulted = true; throw std::runtime_error("injected write error"); }
    uint64_t m = n; if (k == shortWrite && m) faulted = true, m = m > shortBy ? m - shortBy : 0;
    if (off > CAP || m > CAP - off) { overflow = true; sym_assert(false, "harness: file larger than the buffer"); throw std::runtime_error("harness: file too large"); }
    if (off > size) memset(buf + size, 0, off - size); // a hole in a file reads as zero
    if (m) memcpy(buf + off, pv, m);
    if (off + m > size) size = off + m;
    if (done) *done = m;
  }
};
typedef MemStreamT<16384> MemStream;
// read-only view on a fixed buffer
struct BufStream : public IStream {
  const uint8_t* p; uint64_t size; int reads = 0; int failRead = -1, shortRead = -1; uint64_t shortBy = 1;
  BufStream(const uint8_t* p, uint64_t n) : p(p), size(n) {}
  void Read(uint64_t off, void* pv, uint64_t n, uint64_t* got) override {
    int k = reads++; if (k == failRead) throw std::runtime_error("injected read error");
    uint64_t avail = off < size ? size - off : 0; uint64_t m = n < avail ? n : avail; if (k == shortRead) m = m > shortBy ? m - shortBy : 0;
    if (m) memcpy(pv, p + off, m); if (got) *got = m;
  }
};
static inline bool eq(const void* a, const void* b, size_t n) { const uint8_t* x = (const uint8_t*)a; const uint8_t* y = (const uint8_t*)b; uint8_t d = 0; for (size_t i = 0; i < n; ++i) d |= x[i] ^ y[i]; return d == 0; }
static inline uint32_t rd32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static inline uint64_t rd64(const uint8_t* p) { return rd32(p) | (uint64_t)rd32(p + 4) << 32; }
static inline void wr32(uint8_t* p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static inline void wr64(uint8_t* p, uint64_t v) { wr32(p, (uint32_t)v); wr32(p + 4, (uint32_t)(v >> 32)); }
static const DimensionIndex kDims[9] = {DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B};
static inline bool sameCoord(const IDimCoordinate& a, const IDimCoordinate& b) {
  bool ok = true; for (int i = 0; i < 9; ++i) { int x = 0, y = 0; bool p = a.TryGetPosition(kDims[i], &x), q = b.TryGetPosition(kDims[i], &y); ok &= (p == q) & (!p | (x == y)); } return ok;
}
// non-owning shared_ptr
template <class T> static std::shared_ptr<T> ref(T* p) { return std::shared_ptr<T>(p, [](T*) {}); }
}
