// C31: streams deliver exactly the requested byte range
// @bounds files of 0..12 bytes with all contents; reads and writes at every 64-bit offset with every size 0..6 (in-memory: every 64-bit size); every sequence of up to 3 short results, interruptions and errors of the system calls; two concurrent reads of 2 bytes from a stream of the C-runtime kind; the reader/writer entry points CreateStreamFromFile, CreateOutputStreamForFile(Utf8), CreateInputOutputStreamForFile, CreateStreamFromMemory, StreamsFactory::CreateStream
// @assume operating system: pread/pwrite transfer at least one byte unless at the end of the file or failing; fread is short only at the end of the file or on error; open returns a descriptor other than 0
#include "common.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <iomanip>
#include <sstream>
#include <codecvt>
#include <mutex>
#include <sys/single_threaded.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "libCZI_StreamsLib.h"
#include "utilities.h"
using namespace libCZI; using namespace libCZI::detail; using namespace h;
enum { kCap = 24 };
static uint8_t gFile[kCap]; static uint64_t gSize; static bool gExists, gFault, gShorts; static int gBudget, gOpen, gErr, gWritable, gReadable; static int64_t gPos; static bool gTooFar; static int gOpenFails;
static void reset() { gSize = 0; gExists = true; gFault = gTooFar = false; gShorts = false; gBudget = 0; gOpen = 0; gErr = 0; gWritable = gReadable = 0; gPos = 0; gOpenFails = 0; }
static int x_open(const char* name, int flags, int = 0) { sym_assert(name[0] == 'f' && name[1] == 0, "the file asked for is opened"); if (gOpenFails) { gErr = EACCES; return -1; } if (!gExists && !(flags & O_CREAT)) { gErr = ENOENT; return -1; } if (gExists && (flags & O_CREAT) && (flags & O_EXCL)) { gErr = EEXIST; return -1; } int acc = flags & O_ACCMODE; gReadable = acc != O_WRONLY; gWritable = acc != O_RDONLY; if ((flags & O_TRUNC) && gWritable) gSize = 0; gExists = true; ++gOpen; return 5; }
static int x_close(int fd) { sym_assert(fd == 5 && gOpen == 1, "only an open file is closed"); --gOpen; return 0; }
// how many of the n bytes are transferred; -1: error
static int64_t transfer(uint64_t n) { if (n == 0 || gBudget == 0) return n; switch (sym_pick(4, "system call")) { case 1: --gBudget; gShorts = true; return sym_pick((int)n, "short") + 1; case 2: --gBudget; gErr = EINTR; gFault = true; return -1; case 3: --gBudget; gErr = EIO; gFault = true; return -1; } return n; }
static int64_t x_pread(int fd, void* p, uint64_t n, int64_t off) { sym_assert(fd == 5 && gOpen && gReadable, "read from an open file"); if (off < 0) { gErr = EINVAL; return -1; } if (n == 0 || off >= (int64_t)gSize) return 0; uint64_t a = gSize - off; if (n > a) n = a; int64_t k = transfer(n); for (int64_t i = 0; i < k; ++i) ((uint8_t*)p)[i] = gFile[off + i]; return k; }
static int64_t x_pwrite(int fd, const void* p, uint64_t n, int64_t off) { sym_assert(fd == 5 && gOpen && gWritable, "write to an open file"); if (off < 0) { gErr = EINVAL; return -1; } if (n == 0) return 0; if (off > kCap - (int64_t)n) { gErr = EFBIG; gFault = gTooFar = true; return -1; } int64_t k = transfer(n); if (k > 0) { for (uint64_t i = gSize; i < (uint64_t)off; ++i) gFile[i] = 0; for (int64_t i = 0; i < k; ++i) gFile[off + i] = ((const uint8_t*)p)[i]; if (off + k > (int64_t)gSize) gSize = off + k; } return k; }
static FILE* x_fopen(const char* name, const char* mode) { sym_assert(name[0] == 'f' && name[1] == 0, "the file asked for is opened"); bool w = mode[0] == 'w', plus = strchr(mode, '+') != nullptr; if (gOpenFails) { gErr = EACCES; return nullptr; } if (!w && !gExists) { gErr = ENOENT; return nullptr; } gReadable = !w || plus; gWritable = w || plus; if (w) gSize = 0; gExists = true; gPos = 0; ++gOpen; return (FILE*)gFile; }
static int x_fclose(FILE* f) { sym_assert(f == (FILE*)gFile && gOpen > 0, "only an open file is closed"); --gOpen; return 0; }
static int x_fseeko(FILE*, int64_t off, int wh) { sym_assert(gOpen && wh == SEEK_SET, "seek from the start"); if (off < 0) { gErr = EINVAL; return -1; } gPos = off; return 0; }
static size_t x_fread(void* p, size_t s, size_t n, FILE*) { sym_assert(s == 1 && gOpen && gReadable, "read from an open file"); int64_t k = x_pread(5, p, n, gPos); if (k < 0) return 0; if ((uint64_t)k < n && (uint64_t)(gPos + k) < gSize) gFault = true; gPos += k; return k; }
static size_t x_fwrite(const void* p, size_t s, size_t n, FILE*) { sym_assert(s == 1 && gOpen && gWritable, "write to an open file"); int64_t k = x_pwrite(5, p, n, gPos); if (k < 0) return 0; if ((uint64_t)k < n) gFault = true; gPos += k; return k; }
#undef errno
#define errno gErr
#define open x_open
#define close x_close
#define pread x_pread
#define pwrite x_pwrite
#define fopen x_fopen
#define fclose x_fclose
#define fseeko x_fseeko
#define fread x_fread
#define fwrite x_fwrite
#define strerror(x) "error"
#include "StreamImpl.cpp"
#include "StreamsLib/preadfileinputstream.cpp"
#include "StreamsLib/simplefileinputstream.cpp"
#undef open
#undef close
#undef pread
#undef pwrite
#undef fopen
#undef fclose
#undef fseeko
#undef fread
#undef fwrite
static const int kSizes[4] = {12, 5, 1, 0};
static void content() { gSize = kSizes[sym_pick(4, "file size")]; sym_bytes(gFile, gSize, "file"); }
static void readOne(IStream& s, bool memory) {
  uint8_t buf[16]; sym_bytes(buf, 16, "buffer"); uint8_t old[16]; memcpy(old, buf, 16); uint64_t off = sym_u64("offset"), n, avail, got = 77; if (memory) { n = sym_u64("size"); } else n = sym_pick(7, "size"); avail = off >= gSize ? 0 : gSize - off; uint64_t e = n < avail ? n : avail; bool ok = false, count = sym_pick(2, "count wanted"); if (off < kCap) off = sym_concretize(off); avail = off >= gSize ? 0 : gSize - off; e = n < avail ? n : avail; if (memory && n < kCap) n = sym_concretize(n); e = n < avail ? n : avail;
  try { s.Read(off, buf, n, count ? &got : nullptr); ok = true; } catch (const std::exception&) {}
  if (!ok) { sym_assert(gFault | (off > INT64_MAX) | (memory & (off >= gSize)), "an error is raised only for an impossible offset or a failing system call"); sym_reach("error"); return; }
  sym_assert(!(off > INT64_MAX) | (n == 0), "an impossible offset raises an error"); if (count) sym_assert(gFault ? got <= e : got == e, "the number of bytes is what is available"); uint64_t have = gFault && count ? got : gFault ? 0 : e; bool good = true; for (int i = 0; i < 16; ++i) { bool in = (uint64_t)i < have; uint8_t want = in && off + i < kCap ? gFile[off + i] : old[i]; if ((uint64_t)i >= e || in) good &= buf[i] == want; } sym_assert(good, "the bytes of the range are delivered, and nothing else is touched"); sym_reach("read");
}
static std::shared_ptr<IStream> input(int kind) { switch (kind) { case 0: return CreateStreamFromFile(L"f"); case 1: return StreamsFactory::CreateDefaultStreamForFile("f"); case 2: { StreamsFactory::CreateStreamInfo i; i.class_name = "pread_file_inputstream"; return StreamsFactory::CreateStream(i, std::wstring(L"f")); } case 3: { StreamsFactory::CreateStreamInfo i; i.class_name = "c_runtime_file_inputstream"; return StreamsFactory::CreateStream(i, std::string("f")); } case 4: { StreamsFactory::CreateStreamInfo i; i.class_name = "c_runtime_file_inputstream"; return StreamsFactory::CreateStream(i, std::wstring(L"f")); } default: return CreateInputOutputStreamForFile(L"f"); } }
static void reading(int budget) { int kind = sym_pick(6, "kind"); reset(); content(); { auto s = input(kind); sym_assert(s != nullptr && gOpen == 1, "the file is opened"); gBudget = kind == 3 || kind == 4 ? 0 : budget; readOne(*s, false); if (budget == 0 && gSize == 5 && kind < 2) readOne(*s, false); } sym_assert(gOpen == 0, "the file is closed"); }
// @job time=200 shards=6
HARNESS(c31_read) { reading(0); }
// @job time=300 shards=6
HARNESS(c31_read_faults) { reading(3); }
// @job time=60
HARNESS(c31_read_runtime_faults) { int kind = 3 + sym_pick(2, "kind"); reset(); content(); { auto s = input(kind); gBudget = 1; readOne(*s, false); } sym_assert(gOpen == 0, "the file is closed"); }
// @job time=100
HARNESS(c31_read_memory) { reset(); content(); std::shared_ptr<void> p(malloc(gSize ? gSize : 1), free); memcpy(p.get(), gFile, gSize); auto s = CreateStreamFromMemory(p, gSize); p.reset(); readOne(*s, true); bool ok = false; try { s->Read(0, nullptr, 1, nullptr); ok = true; } catch (const std::exception&) {} sym_assert(!ok, "a null pointer raises an error"); }
// files which cannot be opened
// @job time=60
HARNESS(c31_open) { int kind = sym_pick(9, "kind"); reset(); gSize = 3; sym_bytes(gFile, 3, "file"); uint8_t old[3]; memcpy(old, gFile, 3); gExists = sym_pick(2, "exists"); if (!gExists) gSize = 0; gOpenFails = sym_pick(2, "fails"); bool over = sym_pick(2, "overwrite"), had = gExists, ok = false; { std::shared_ptr<void> s; try { if (kind < 6) s = input(kind); else if (kind == 6) s = CreateOutputStreamForFile(L"f", over); else if (kind == 7) s = CreateOutputStreamForFileUtf8("f", over); else s = std::make_shared<CSimpleOutputStreamStreams>(L"f", over); ok = s != nullptr; } catch (const std::exception&) {} bool need = kind < 5 ? had : kind == 5 ? true : over || !had; sym_assert(ok == (need && !gOpenFails), "a file is opened exactly if that is possible"); sym_assert(gOpen == (ok ? 1 : 0), "it is open, or nothing stays open"); if (!ok || kind < 6) { bool same = gSize == (had ? 3u : 0u); if (had) for (int i = 0; i < 3; ++i) same &= gFile[i] == old[i]; sym_assert(same, "the file is left as it was"); } else sym_assert(gSize == 0, "the file is empty"); } sym_assert(gOpen == 0, "the file is closed"); sym_reach("done"); }
static void writing(int budget, int kmax) {
  int kind = sym_pick(kmax, "kind"); reset(); std::shared_ptr<IOutputStream> o; std::shared_ptr<IInputOutputStream> io; if (kind == 0) o = CreateOutputStreamForFile(L"f", true); else if (kind == 1) { content(); io = CreateInputOutputStreamForFile(L"f"); o = io; } else o = std::make_shared<CSimpleOutputStreamStreams>(L"f", true); if (kind != 1) { gSize = kSizes[sym_pick(4, "file size")]; sym_bytes(gFile, gSize, "file"); } // (the bytes an earlier write left)
  uint8_t buf[6], old[kCap]; sym_bytes(buf, 6, "data"); memcpy(old, gFile, kCap); uint64_t osize = gSize, off = sym_u64("offset"), n = sym_pick(7, "size"), got = 77; if (off < kCap) off = sym_concretize(off); bool ok = false, count = sym_pick(2, "count wanted"); gBudget = budget; try { o->Write(off, buf, n, count ? &got : nullptr); ok = true; } catch (const std::exception&) {}
  if (!ok) { sym_assert(gFault | (off > INT64_MAX), "an error is raised only for an impossible offset or a failing system call"); sym_reach("error"); } else { sym_assert(!(off > INT64_MAX) | (n == 0), "an impossible offset raises an error"); if (count) sym_assert(gFault ? got <= n : got == n, "all bytes are written"); }
  if (!gFault && off <= kCap) { uint64_t end = n && ok ? off + n : 0; sym_assert(gSize == (end > osize ? end : osize), "the size of the file"); bool good = true; for (uint64_t i = 0; i < kCap; ++i) if (i < gSize) { uint8_t e = ok && i >= off && i < off + n ? buf[i - off] : i < osize ? old[i] : 0; good &= gFile[i] == e; } sym_assert(good, "exactly the given bytes are placed at the position, all others are as they were"); if (io && ok && n) { uint8_t back[6]; gBudget = 0; io->Read(off, back, n, nullptr); sym_assert(eq(back, buf, n), "they can be read back"); } sym_reach("written"); }
}
// @job time=200 shards=3
HARNESS(c31_write) { writing(0, 3); }
// @job time=300 shards=2
HARNESS(c31_write_faults) { writing(3, 2); }
// two threads read from the same stream
static IStream* gS; static uint8_t gA[2]; static uint64_t gN; static void other(void*) { gS->Read(1, gA, 2, &gN); }
// @job time=200 switches=3
HARNESS(c31_concurrent) { __libc_single_threaded = 0; reset(); gSize = 8; sym_bytes(gFile, 8, "file"); auto s = input(sym_pick(2, "kind") ? 3 : 0); gS = s.get(); uint8_t b[2]; uint64_t nb = 0; gN = 0; int t = sym_thread_create(other, nullptr); s->Read(5, b, 2, &nb); sym_thread_join(t); sym_assert(gN == 2 && nb == 2 && eq(gA, gFile + 1, 2) && eq(b, gFile + 5, 2), "each reader gets the bytes of its range"); sym_reach("done"); }
