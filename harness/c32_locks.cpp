// C32: bitmap locks are counted exactly
// @bounds all sequences of 5 lock/unlock calls on a bitmap and on a bitonal bitmap; scoped lockers copied and moved; two threads with a lock/unlock pair each (all interleavings with up to 3 preemptions); bitmaps of 9 pixel types with sizes up to 4x3, given or default pitch, extra rows and columns: every byte of every line and of the announced memory is written; all widths of 32 bits (heights up to 7; all heights for bitonal bitmaps) for which the memory can be had (allocations above 256 KB fail)
#include "common.h"
#include "bitmapData.h"
#include <sys/single_threaded.h>
using namespace libCZI; using namespace libCZI::detail;
template <class B> static void seq(B& b) { int n = 0; for (int i = 0; i < 5; ++i) { if (sym_pick(2, "lock")) { b.Lock(); ++n; } else { bool thrown = false; try { b.Unlock(); } catch (std::logic_error&) { thrown = true; } sym_assert(thrown == (n == 0), "unlocking is an error exactly if the bitmap is not locked"); if (!thrown) --n; } sym_assert(b.GetLockCount() == n, "the lock count is locks minus unlocks"); } while (n--) b.Unlock(); sym_assert(b.GetLockCount() == 0, "all unlocked"); sym_reach("sequence"); }
HARNESS(c32_sequence) { auto b = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(PixelType::Gray8, 2, 2); seq(*b); }
HARNESS(c32_bitonal) { auto b = CStdBitonalBitmapData::Create(9, 2); seq(*b); }
// scoped lockers
HARNESS(c32_scoped) { auto b = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(PixelType::Gray8, 2, 2); { ScopedBitmapLockerSP l{b}; sym_assert(b->GetLockCount() == 1 && l.ptrDataRoi != nullptr, "locked once"); switch (sym_pick(4, "what")) { case 0: { ScopedBitmapLockerSP m{l}; sym_assert(b->GetLockCount() == 2 && m.ptrDataRoi == l.ptrDataRoi && m.stride == l.stride && m.size == l.size, "the copy holds a lock of its own"); break; } case 1: { ScopedBitmapLockerSP m{std::move(l)}; sym_assert(b->GetLockCount() == 1 && m.ptrDataRoi != nullptr, "the lock was moved"); break; } case 2: { ScopedBitmapLockerP m{b.get()}; ScopedBitmapLockerP q{m}; sym_assert(b->GetLockCount() == 3, "three locks"); break; } default: { try { ScopedBitmapLockerP m{b.get()}; throw 1; } catch (int) {} sym_assert(b->GetLockCount() == 1, "unlocked when an exception passes"); } } } sym_assert(b->GetLockCount() == 0, "unlocked at the end"); sym_reach("scoped"); }
// two threads
static IBitmapData* gB; static void th(void* p) { auto l = gB->Lock(); if (p) gB->GetLockCount(); gB->Unlock(); }
// @job time=100 switches=3 threads
HARNESS(c32_threads) { __libc_single_threaded = 0; auto b = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(PixelType::Gray8, 2, 2); gB = b.get(); if (sym_pick(2, "locked before")) b->Lock(); int n = b->GetLockCount(); int t1 = sym_thread_create(th, nullptr), t2 = sym_thread_create(th, (void*)1); sym_thread_join(t1); sym_thread_join(t2); sym_assert(b->GetLockCount() == n, "no lock or unlock is lost"); if (n) b->Unlock(); sym_reach("joined"); }
// the announced memory
static const PixelType T[9] = {PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgr96Float, PixelType::Bgra32, PixelType::Gray64Float, PixelType::Gray32}; static const int S[9] = {1, 2, 4, 3, 6, 12, 4, 8, 4};
// @job time=100 shards=3
HARNESS(c32_memory) { int k = sym_pick(9, "pixel type"); uint32_t w = 1 + sym_pick(4, "width"), h = 1 + sym_pick(3, "height"), xr = sym_pick(2, "extra rows"), xc = sym_pick(2, "extra columns"), pitch = sym_pick(2, "pitch") ? (w + 2 * xc) * S[k] + 3 : 0; auto b = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(T[k], w, h, pitch, xr, xc); sym_assert(b->GetPixelType() == T[k] && b->GetWidth() == w && b->GetHeight() == h, "size and pixel type are those requested"); { ScopedBitmapLockerSP l{b}; sym_assert(l.stride >= w * S[k] && (pitch == 0 || l.stride == pitch), "the stride is at least the length of a line"); sym_assert((uint8_t*)l.ptrDataRoi >= (uint8_t*)l.ptrData && (uint8_t*)l.ptrDataRoi + (size_t)l.stride * (h - 1) + w * S[k] <= (uint8_t*)l.ptrData + l.size, "the lines lie in the announced memory"); for (uint32_t y = 0; y < h; ++y) memset((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, 7, w * S[k]); memset(l.ptrData, 1, l.size); } sym_reach("written"); }
// @job time=100 shards=3
HARNESS(c32_large) { int k = sym_pick(9, "pixel type"); uint32_t w = sym_u32("width"), h = (uint32_t)sym_range(0, 7, "height"); std::shared_ptr<IBitmapData> b; try { b = GetDefaultSiteObject(SiteObjectType::Default)->CreateBitmap(T[k], w, h); } catch (std::exception&) { sym_reach("refused"); return; } ScopedBitmapLockerSP l{b}; sym_assert(l.stride >= (uint64_t)w * S[k] && l.size >= (uint64_t)l.stride * h, "stride and size fit the size of the bitmap"); sym_reach("created"); }
// @job time=100
HARNESS(c32_bitonal_large) { uint32_t w = sym_u32("width"), h = sym_u32("height"); std::shared_ptr<IBitonalBitmapData> b; try { b = CStdBitonalBitmapData::Create(w, h); } catch (std::exception&) { sym_reach("refused"); return; } auto l = b->Lock(); sym_assert(l.stride >= ((uint64_t)w + 7) / 8 && l.size >= (uint64_t)l.stride * h, "stride and size fit the size of the bitmap"); b->Unlock(); sym_reach("created"); }
