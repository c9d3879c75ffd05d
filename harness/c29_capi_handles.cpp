// C29: handles of the C API
// @bounds a document with one sub-block, one attachment and XML metadata; every function of the C API with every kind of handle (and null) in place of the right one, and with null output arguments; every order of releasing the handles; sequences of up to 4 lock/unlock/release calls; buffers of 0..8 bytes
// @assume handles are null or valid at the time of the call (a released handle cannot be recognised, as it is a pointer)
#include "capi.h"
enum { H_NULL, H_READER, H_INPUT, H_SUBBLOCK, H_BITMAP, H_METADATA, H_ATTACHMENT, H_OUTPUT, H_WRITER, H_ACCESSOR, H_DOCINFO, H_DISPLAY, H_CHANNEL, H_COUNT };
struct World {
  Mem in, out; ObjectHandle h[H_COUNT]; uint8_t px[7], att[5];
  explicit World(bool xml = true) { memset(h, 0, sizeof h); sym_bytes(px, 7, "px"); sym_bytes(att, 5, "att"); writeFile(&in, px, att, 5); h[H_INPUT] = inStream(&in); h[H_OUTPUT] = outStream(&out); ReaderOpenInfoInterop oi{}; oi.streamObject = h[H_INPUT];
    sym_assert(libCZI_CreateReader(&h[H_READER]) == 0 && libCZI_ReaderOpen(h[H_READER], &oi) == 0, "opened"); sym_assert(libCZI_ReaderReadSubBlock(h[H_READER], 0, &h[H_SUBBLOCK]) == 0 && libCZI_SubBlockCreateBitmap(h[H_SUBBLOCK], &h[H_BITMAP]) == 0, "sub-block"); sym_assert(libCZI_ReaderGetMetadataSegment(h[H_READER], &h[H_METADATA]) == 0 && libCZI_ReaderReadAttachment(h[H_READER], 0, &h[H_ATTACHMENT]) == 0, "metadata"); sym_assert(libCZI_CreateWriter(&h[H_WRITER], nullptr) == 0 && libCZI_CreateSingleChannelTileAccessor(h[H_READER], &h[H_ACCESSOR]) == 0, "accessor");
    if (xml) sym_assert(libCZI_MetadataSegmentGetCziDocumentInfo(h[H_METADATA], &h[H_DOCINFO]) == 0 && libCZI_CziDocumentInfoGetDisplaySettings(h[H_DOCINFO], &h[H_DISPLAY]) == 0 && libCZI_DisplaySettingsGetChannelDisplaySettings(h[H_DISPLAY], 0, &h[H_CHANNEL]) == 0, "document info"); }
};
static int release(int k, ObjectHandle o) { switch (k) { case H_READER: return libCZI_ReleaseReader(o); case H_INPUT: return libCZI_ReleaseInputStream(o); case H_SUBBLOCK: return libCZI_ReleaseSubBlock(o); case H_BITMAP: return libCZI_ReleaseBitmap(o); case H_METADATA: return libCZI_ReleaseMetadataSegment(o); case H_ATTACHMENT: return libCZI_ReleaseAttachment(o); case H_OUTPUT: return libCZI_ReleaseOutputStream(o); case H_WRITER: return libCZI_ReleaseWriter(o); case H_ACCESSOR: return libCZI_ReleaseCreateSingleChannelTileAccessor(o); case H_DOCINFO: return libCZI_ReleaseCziDocumentInfo(o); case H_DISPLAY: return libCZI_ReleaseDisplaySettings(o); case H_CHANNEL: return libCZI_ReleaseChannelDisplaySettings(o); default: return -1; } }
struct Fn { int kind; bool out; bool works; }; // kind of the handle; has an output argument; succeeds with the right handle
static const Fn kFn[40] = {{H_READER, true, false}, {H_INPUT, false, false}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true}, {H_READER, true, true},
  {H_SUBBLOCK, true, true}, {H_SUBBLOCK, true, true}, {H_SUBBLOCK, true, true}, {H_ATTACHMENT, true, true}, {H_ATTACHMENT, true, true}, {H_BITMAP, true, true}, {H_BITMAP, true, true}, {H_BITMAP, false, false}, {H_BITMAP, true, true}, {H_METADATA, true, true}, {H_METADATA, true, true}, {H_DOCINFO, true, true}, {H_DOCINFO, true, true}, {H_DOCINFO, true, true}, {H_DOCINFO, true, true}, {H_DOCINFO, true, true},
  {H_WRITER, false, true}, {H_OUTPUT, false, true}, {H_WRITER, true, false}, {H_WRITER, true, false}, {H_WRITER, true, false}, {H_WRITER, false, false}, {H_ACCESSOR, true, true}, {H_ACCESSOR, true, true}, {H_DISPLAY, true, true}, {H_DISPLAY, true, true}, {H_BITMAP, true, true}};
// call function f with the handle o; nul: the output (or the first structure) argument is null
static int call(World& w, int f, ObjectHandle o, bool nul) {
  ObjectHandle r = 0; FileHeaderInfoInterop fh; SubBlockStatisticsInterop st; alignas(8) static uint8_t ex[1024]; char* txt = nullptr; void* vt = nullptr; int32_t n = 2; AttachmentInfoInterop ai; SubBlockInfoInterop si; BitmapInfoInterop bi; BitmapLockInfoInterop bl; uint8_t buf[64]; uint64_t sz = sizeof buf; MetadataAsXmlInterop mx; ScalingInfoInterop sc; uint32_t dims[16]; IntRectInterop roi{0, 0, 3, 2}; IntSizeInterop is; CoordinateInterop co{2, {0}}; CompositionChannelInfoInterop cc; memset(&cc, 0, sizeof cc); cc.white_point = 1; ReaderOpenInfoInterop oi{}; AddSubBlockInfoInterop as = tile(0, 0, 0, w.px); AddAttachmentInfoInterop aa; memset(&aa, 0, sizeof aa); WriteMetadataInfoInterop wm{1, "x"}; int rc = -1;
  switch (f) {
  case 0: oi.streamObject = w.h[H_INPUT]; rc = libCZI_ReaderOpen(o, nul ? nullptr : &oi); break;
  case 1: oi.streamObject = o; rc = libCZI_ReaderOpen(w.h[H_READER], &oi); break;
  case 2: rc = libCZI_ReaderGetFileHeaderInfo(o, nul ? nullptr : &fh); break;
  case 3: rc = libCZI_ReaderReadSubBlock(o, 0, nul ? nullptr : &r); break;
  case 4: rc = libCZI_ReaderGetStatisticsSimple(o, nul ? nullptr : &st); break;
  case 5: rc = libCZI_ReaderGetStatisticsEx(o, nul ? nullptr : (SubBlockStatisticsInteropEx*)ex, &n); break;
  case 6: rc = libCZI_ReaderGetPyramidStatistics(o, nul ? nullptr : &txt); break;
  case 7: rc = libCZI_ReaderGetMetadataSegment(o, nul ? nullptr : &r); break;
  case 8: rc = libCZI_ReaderGetAttachmentCount(o, nul ? nullptr : &n); break;
  case 9: rc = libCZI_ReaderGetAttachmentInfoFromDirectory(o, 0, nul ? nullptr : &ai); break;
  case 10: rc = libCZI_ReaderReadAttachment(o, 0, nul ? nullptr : &r); break;
  case 11: rc = libCZI_TryGetSubBlockInfoForIndex(o, 0, nul ? nullptr : &si); break;
  case 12: rc = libCZI_CreateSingleChannelTileAccessor(o, nul ? nullptr : &r); break;
  case 13: rc = libCZI_SubBlockCreateBitmap(o, nul ? nullptr : &r); break;
  case 14: rc = libCZI_SubBlockGetInfo(o, nul ? nullptr : &si); break;
  case 15: rc = libCZI_SubBlockGetRawData(o, 0, nul ? nullptr : &sz, buf); break;
  case 16: rc = libCZI_AttachmentGetInfo(o, nul ? nullptr : &ai); break;
  case 17: rc = libCZI_AttachmentGetRawData(o, nul ? nullptr : &sz, buf); break;
  case 18: rc = libCZI_BitmapGetInfo(o, nul ? nullptr : &bi); break;
  case 19: rc = libCZI_BitmapLock(o, nul ? nullptr : &bl); if (rc == 0) sym_assert(libCZI_BitmapUnlock(o) == 0, "unlock"); break;
  case 20: rc = libCZI_BitmapUnlock(o); break;
  case 21: rc = libCZI_BitmapCopyTo(o, 3, 2, 0, 3, nul ? nullptr : buf); break;
  case 22: rc = libCZI_MetadataSegmentGetMetadataAsXml(o, nul ? nullptr : &mx); break;
  case 23: rc = libCZI_MetadataSegmentGetCziDocumentInfo(o, nul ? nullptr : &r); break;
  case 24: rc = libCZI_CziDocumentInfoGetGeneralDocumentInfo(o, nul ? nullptr : &vt); break;
  case 25: rc = libCZI_CziDocumentInfoGetScalingInfo(o, nul ? nullptr : &sc); break;
  case 26: rc = libCZI_CziDocumentInfoGetAvailableDimension(o, 16, nul ? nullptr : dims); break;
  case 27: rc = libCZI_CziDocumentInfoGetDisplaySettings(o, nul ? nullptr : &r); break;
  case 28: rc = libCZI_CziDocumentInfoGetDimensionInfo(o, kDimensionC, nul ? nullptr : &vt); break;
  case 29: rc = libCZI_WriterCreate(o, w.h[H_OUTPUT], nullptr); break;
  case 30: rc = libCZI_WriterCreate(w.h[H_WRITER], o, nullptr); break;
  case 31: rc = libCZI_WriterAddSubBlock(o, nul ? nullptr : &as); break;
  case 32: rc = libCZI_WriterAddAttachment(o, nul ? nullptr : &aa); break;
  case 33: rc = libCZI_WriterWriteMetadata(o, nul ? nullptr : &wm); break;
  case 34: rc = libCZI_WriterClose(o); break;
  case 35: rc = libCZI_SingleChannelTileAccessorCalcSize(o, &roi, 1.f, nul ? nullptr : &is); break;
  case 36: rc = libCZI_SingleChannelTileAccessorGet(o, &co, &roi, 1.f, nullptr, nul ? nullptr : &r); break;
  case 37: rc = libCZI_CompositorFillOutCompositionChannelInfoInterop(o, 0, false, nul ? nullptr : &cc); break;
  case 38: rc = libCZI_DisplaySettingsGetChannelDisplaySettings(o, 0, nul ? nullptr : &r); break;
  case 39: rc = libCZI_CompositorDoMultiChannelComposition(1, &o, &cc, nul ? nullptr : &r); break;
  }
  return rc;
}
static void still(World& w) { BitmapInfoInterop bi; sym_assert(libCZI_BitmapGetInfo(w.h[H_BITMAP], &bi) == 0 && bi.width == 3 && bi.height == 2, "the objects are intact"); int32_t n = 0; sym_assert(libCZI_ReaderGetAttachmentCount(w.h[H_READER], &n) == 0 && n == 1, "the objects are intact"); for (int k = 1; k < H_COUNT; ++k) sym_assert(release(k, w.h[k]) == 0, "each handle can be released"); sym_assert(w.in.closed == 1 && w.out.closed == 1, "streams are closed once, with the last reference"); }
static World* world() { return new World(); }
// @job time=300 shards=8
HARNESS(c29_wrong) { int part = sym_pick(8, "part"); World* w = world(); int f = part + 8 * sym_pick(5, "function"), k = sym_pick(H_COUNT, "kind of handle"); int rc = call(*w, f, w->h[k], false); if (k == kFn[f].kind) { if (kFn[f].works) sym_assert(rc == 0, "the right kind of handle is accepted"); sym_reach("right"); delete w; return; } sym_assert(rc != 0, "the wrong kind of handle is refused"); if (sym_pick(2, "release") == 0) still(*w); sym_reach("wrong"); delete w; }
// @job time=300 shards=8
HARNESS(c29_wrong_release) { int part = sym_pick(8, "part"); World* w = world(); int f = 1 + part + 8 * sym_pick(2, "function"), k = sym_pick(H_COUNT, "kind of handle"); sym_assume(f < H_COUNT && k != f); sym_assert(release(f, w->h[k]) != 0, "the wrong kind of handle is not released"); still(*w); sym_reach("wrong"); delete w; }
// @job time=300 shards=8
HARNESS(c29_null_output) { int part = sym_pick(8, "part"); World* w = world(); int f = part + 8 * sym_pick(5, "function"); sym_assume(kFn[f].out); sym_assert(call(*w, f, w->h[kFn[f].kind], true) != 0, "a null output argument is refused"); still(*w); sym_reach("refused"); delete w; }
// other arguments: null, out of range
// @job time=300 shards=10
HARNESS(c29_arguments) {
  int part = sym_pick(10, "part"); World* w = world(); ObjectHandle* h = w->h; IntRectInterop roi{0, 0, 3, 2}; IntSizeInterop is; CoordinateInterop co{2, {0}}; ObjectHandle r = 0; CompositionChannelInfoInterop cc; memset(&cc, 0, sizeof cc); cc.white_point = 1; void* v = nullptr; int rc = 1;
  switch (part) {
  case 0: rc = libCZI_SingleChannelTileAccessorCalcSize(h[H_ACCESSOR], nullptr, 1.f, &is); break;
  case 1: rc = sym_pick(2, "which") ? libCZI_SingleChannelTileAccessorGet(h[H_ACCESSOR], nullptr, &roi, 1.f, nullptr, &r) : libCZI_SingleChannelTileAccessorGet(h[H_ACCESSOR], &co, nullptr, 1.f, nullptr, &r); break;
  case 2: { ObjectHandle bm[2] = {h[H_BITMAP], sym_pick(2, "null") ? 0 : h[H_BITMAP]}; CompositionChannelInfoInterop c2[2] = {cc, cc}; rc = libCZI_CompositorDoMultiChannelComposition(2, bm, c2, &r); if (bm[1]) { sym_assert(rc == 0 && r, "composed"); sym_assert(libCZI_ReleaseBitmap(r) == 0, "released"); rc = 1; } break; }
  case 3: rc = sym_pick(2, "which") ? libCZI_CompositorDoMultiChannelComposition(1, nullptr, &cc, &r) : libCZI_CompositorDoMultiChannelComposition(1, &h[H_BITMAP], nullptr, &r); break;
  case 4: { int n = sym_i32("n"); sym_assume(n <= 0); rc = libCZI_CompositorDoMultiChannelComposition(n, &h[H_BITMAP], &cc, &r); break; }
  case 5: { int i = sym_i32("index"); sym_assume(i != 0); SubBlockInfoInterop si; AttachmentInfoInterop ai; int k = sym_pick(4, "which"); rc = k == 0 ? libCZI_TryGetSubBlockInfoForIndex(h[H_READER], i, &si) : k == 1 ? libCZI_ReaderGetAttachmentInfoFromDirectory(h[H_READER], i, &ai) : k == 2 ? libCZI_ReaderReadSubBlock(h[H_READER], i, &r) : libCZI_ReaderReadAttachment(h[H_READER], i, &r); if (k >= 2) { sym_assert(rc != 0 || r == 0, "no object for an invalid index"); rc = 1; } else sym_assert(rc == LibCZIApi_ErrorCode_IndexOutOfRange, "index out of range"); break; }
  case 6: { int i = sym_i32("channel"); sym_assume(i != 0); int k = sym_pick(2, "which"); rc = k ? libCZI_DisplaySettingsGetChannelDisplaySettings(h[H_DISPLAY], i, &r) : libCZI_CompositorFillOutCompositionChannelInfoInterop(h[H_DISPLAY], i, false, &cc); break; }
  case 7: { uint32_t d = sym_u32("dimension"); rc = libCZI_CziDocumentInfoGetDimensionInfo(h[H_DOCINFO], d, &v); if (rc == 0) { sym_assert(v != nullptr, "success delivers a text"); libCZI_Free(v); rc = 1; } break; }
  case 8: { int32_t t = sym_i32("type"); uint8_t b[16]; uint64_t n = sizeof b; sym_assume((t != 0) & (t != 1)); rc = libCZI_SubBlockGetRawData(h[H_SUBBLOCK], t, &n, b); break; }
  case 9: rc = sym_pick(2, "which") ? libCZI_AllocateMemory(0, &v) : libCZI_AllocateMemory(5, nullptr); libCZI_Free(nullptr); break;
  }
  sym_assert(rc != 0, "invalid arguments are refused"); still(*w); sym_reach("refused"); delete w;
}
// objects without content
HARNESS(c29_nothing) {
  Mem* m = new Mem; uint8_t px[7] = {}; ObjectHandle w = 0, o = outStream(m), in, r = 0, ms = 0, di = 0, ds = 0; sym_assert(libCZI_CreateWriter(&w, nullptr) == 0 && libCZI_WriterCreate(w, o, nullptr) == 0, "writer"); int k = sym_pick(4, "metadata"); static const char* const X[4] = {nullptr, "", "<a/>", "<ImageDocument><Metadata/></ImageDocument>"}; if (k) { WriteMetadataInfoInterop wm; wm.metadata = X[k]; wm.size_metadata = (uint32_t)strlen(X[k]); int rc = libCZI_WriterWriteMetadata(w, &wm); if (rc != 0) { sym_reach("metadata refused"); return; } } AddSubBlockInfoInterop a = tile(0, 0, 0, px); sym_assert(libCZI_WriterAddSubBlock(w, &a) == 0, "added"); sym_assert(libCZI_WriterClose(w) == 0 && libCZI_ReleaseWriter(w) == 0 && libCZI_ReleaseOutputStream(o) == 0, "closed"); m->closed = 0;
  in = inStream(m); ReaderOpenInfoInterop oi; oi.streamObject = in; int32_t n = -1; sym_assert(libCZI_CreateReader(&r) == 0 && libCZI_ReaderGetAttachmentCount(r, &n) != 0 && libCZI_ReaderReadSubBlock(r, 0, &ms) != 0 && libCZI_ReaderGetMetadataSegment(r, &ms) != 0 && libCZI_ReaderOpen(r, &oi) == 0, "a reader which is not open reports errors"); sym_assert(libCZI_ReaderGetAttachmentCount(r, &n) == 0 && n == 0, "no attachment"); int rc = libCZI_ReaderGetMetadataSegment(r, &ms);
  if (rc == 0) { MetadataAsXmlInterop mx; mx.data = nullptr; rc = libCZI_MetadataSegmentGetMetadataAsXml(ms, &mx); if (rc == 0) { size_t l = X[k] ? strlen(X[k]) : 0; sym_assert(mx.size == l && (l == 0 || (memcmp(mx.data, X[k], l) == 0 && ((char*)mx.data)[l] == 0)), "the metadata written"); libCZI_Free(mx.data); }
    if (libCZI_MetadataSegmentGetCziDocumentInfo(ms, &di) == 0) { void* t = nullptr; rc = libCZI_CziDocumentInfoGetGeneralDocumentInfo(di, &t); if (rc == 0) libCZI_Free(t); if (libCZI_CziDocumentInfoGetDisplaySettings(di, &ds) == 0) { ObjectHandle ch = 0; CompositionChannelInfoInterop cc; sym_assert(ds != 0, "success delivers a handle"); sym_assert(libCZI_DisplaySettingsGetChannelDisplaySettings(ds, 0, &ch) != 0 && libCZI_CompositorFillOutCompositionChannelInfoInterop(ds, 0, false, &cc) != 0, "no channel"); sym_assert(libCZI_ReleaseDisplaySettings(ds) == 0, "released"); } sym_assert(libCZI_ReleaseCziDocumentInfo(di) == 0, "released"); } sym_assert(libCZI_ReleaseMetadataSegment(ms) == 0, "released"); sym_reach("metadata"); }
  sym_assert(libCZI_ReleaseReader(r) == 0 && libCZI_ReleaseInputStream(in) == 0 && m->closed == 1, "released"); sym_reach("done");
}
// lifetime: any order of releasing; what is left still works
// @job time=400 shards=8
HARNESS(c29_lifetime) {
  int first = sym_pick(8, "first"); World* w = world(); static const int K[8] = {H_READER, H_INPUT, H_SUBBLOCK, H_BITMAP, H_METADATA, H_ATTACHMENT, H_ACCESSOR, H_DOCINFO}; bool live[8]; for (bool& l : live) l = true; int left = 8;
  for (int step = 0; step < 3; ++step) { int k = step ? sym_pick(8, "next") : first; sym_assume(live[k]); live[k] = false; --left; sym_assert(release(K[k], w->h[K[k]]) == 0, "released");
    uint8_t b[16]; uint64_t n = sizeof b; if (live[2]) { sym_assert(libCZI_SubBlockGetRawData(w->h[H_SUBBLOCK], 0, &n, b) == 0 && n == 6 && eq(b, w->px, 3) && eq(b + 3, w->px + 4, 3), "the sub-block's data"); } if (live[3]) { sym_assert(libCZI_BitmapCopyTo(w->h[H_BITMAP], 3, 2, 0, 4, b) == 0 && eq(b, w->px, 3) && eq(b + 4, w->px + 4, 3), "the bitmap's pixels"); } n = sizeof b; if (live[5]) sym_assert(libCZI_AttachmentGetRawData(w->h[H_ATTACHMENT], &n, b) == 0 && n == 5 && eq(b, w->att, 5), "the attachment's data"); MetadataAsXmlInterop mx; if (live[4]) { sym_assert(libCZI_MetadataSegmentGetMetadataAsXml(w->h[H_METADATA], &mx) == 0 && mx.size == strlen(kXml) && memcmp(mx.data, kXml, strlen(kXml)) == 0, "the metadata"); libCZI_Free(mx.data); }
    if (live[6]) { ObjectHandle bm = 0; CoordinateInterop co{2, {0}}; IntRectInterop roi{0, 0, 3, 2}; sym_assert(libCZI_SingleChannelTileAccessorGet(w->h[H_ACCESSOR], &co, &roi, 1.f, nullptr, &bm) == 0 && libCZI_ReleaseBitmap(bm) == 0, "the accessor works as long as it exists"); } sym_assert(w->in.closed == (!live[0] && !live[1] && !live[6]), "the stream is closed with its last user"); }
  for (int k = 0; k < 8; ++k) if (live[k]) sym_assert(release(K[k], w->h[K[k]]) == 0, "released"); sym_assert(w->in.closed == 1, "the stream is closed once"); sym_reach("done"); delete w;
}
// locks
// @job time=200 shards=3
HARNESS(c29_locks) {
  int first = sym_pick(3, "first"); World* w = world(); int n = 0; bool gone = false; for (int i = 0; i < 4 && !gone; ++i) { int op = i ? sym_pick(3, "op") : first; BitmapLockInfoInterop bl; ObjectHandle b = w->h[H_BITMAP]; if (op == 0) { sym_assert(libCZI_BitmapLock(b, &bl) == 0, "lock"); ++n; const uint8_t* p = (const uint8_t*)bl.ptrDataRoi; sym_assert(bl.stride >= 3 && eq(p, w->px, 3) && eq(p + bl.stride, w->px + 4, 3), "pixels"); } else if (op == 1) { int rc = libCZI_BitmapUnlock(b); sym_assert(rc == (n ? 0 : LibCZIApi_ErrorCode_LockUnlockSemanticViolated), "unlock needs a lock"); if (n) --n; } else { int rc = libCZI_ReleaseBitmap(b); sym_assert((rc == 0) == (n == 0), "a locked bitmap is not released"); gone = rc == 0; } } sym_reach(gone ? "released" : "kept"); }
// buffers: never more than the size given is written
// @job time=200 shards=3
HARNESS(c29_buffers) {
  int k = sym_pick(3, "which"); World* w = world(); if (k < 2) { int cap = sym_pick(9, "size"); uint64_t n = cap; uint8_t* b = (uint8_t*)malloc(cap); sym_bytes(b, cap, "before"); uint8_t was[8]; memcpy(was, b, cap); bool nul = sym_pick(2, "null") == 1; uint8_t want[6]; memcpy(want, w->px, 3); memcpy(want + 3, w->px + 4, 3); const uint8_t* src = k ? w->att : want; int len = k ? 5 : 6; if (nul) n = sym_u64("any size"); int rc = k ? libCZI_AttachmentGetRawData(w->h[H_ATTACHMENT], &n, nul ? nullptr : b) : libCZI_SubBlockGetRawData(w->h[H_SUBBLOCK], 0, &n, nul ? nullptr : b); sym_assert(rc == 0 && n == (uint64_t)len, "the actual size is reported"); int m = nul ? 0 : cap < len ? cap : len; sym_assert(eq(b, src, m) && eq(b + m, was + m, cap - m), "at most the given number of bytes is written"); free(b); sym_reach("raw"); }
  else { uint32_t W = sym_u32("width"), H = sym_u32("height"), S = sym_u32("stride"); int32_t pt = sym_i32("pixel type"); int g = sym_pick(3, "stride"); if (g < 2) sym_assume(S == (uint32_t)(3 + g)); else sym_assume(S < 3); S = g < 2 ? 3 + g : S; size_t sz = g < 2 ? S + 3 : 1; uint8_t* b = (uint8_t*)malloc(sz); memset(b, 0xee, sz); int rc = libCZI_BitmapCopyTo(w->h[H_BITMAP], W, H, pt, S, b); bool good = (W == 3) & (H == 2) & (pt == 0) & (g < 2); sym_assert((rc == 0) == good, "copied exactly if the destination fits"); if (rc == 0) { sym_assert(eq(b, w->px, 3) && eq(b + S, w->px + 4, 3) && (g == 0 || b[3] == 0xee), "pixels"); sym_reach("copied"); } else sym_reach("refused"); free(b); }
  delete w;
}
// errors of the streams become error codes
// @job time=400 shards=2
HARNESS(c29_stream_errors) {
  bool text = sym_pick(2, "text") == 1; Mem* m = new Mem; uint8_t px[7] = {1, 2, 3, 4, 5, 6, 7}, att[2] = {8, 9}; m->withText = text;
  if (sym_pick(2, "side") == 0) { writeFile(m, px, att, 2); m->calls = 0; m->failAt = sym_pick(14, "failing read"); ObjectHandle in = inStream(m), r = 0, s = 0, b = 0; ReaderOpenInfoInterop oi; oi.streamObject = in; libCZI_CreateReader(&r); int rc = libCZI_ReaderOpen(r, &oi); bool hit = m->calls > m->failAt; sym_assert(rc == (hit ? LibCZIApi_ErrorCode_UnspecifiedError : 0), "a failing read is reported"); if (rc == 0) { rc = libCZI_ReaderReadSubBlock(r, 0, &s); sym_assert((rc == 0) == (m->calls <= m->failAt), "a failing read is reported"); if (rc == 0) { sym_assert(libCZI_SubBlockCreateBitmap(s, &b) == 0 && libCZI_ReleaseBitmap(b) == 0, "bitmap"); libCZI_ReleaseSubBlock(s); } sym_reach("open"); } else sym_reach("not open"); libCZI_ReleaseReader(r); libCZI_ReleaseInputStream(in); sym_assert(m->closed == 1, "closed"); }
  else { m->failAt = sym_pick(20, "failing write"); ObjectHandle o = outStream(m), w = 0; libCZI_CreateWriter(&w, nullptr); bool err = libCZI_WriterCreate(w, o, nullptr) != 0; AddSubBlockInfoInterop a = tile(0, 0, 0, px); err |= libCZI_WriterAddSubBlock(w, &a) != 0; err |= libCZI_WriterClose(w) != 0; sym_assert(!(m->calls > m->failAt) || err, "a failing write is reported"); libCZI_ReleaseWriter(w); libCZI_ReleaseOutputStream(o); sym_assert(m->closed == 1, "closed"); sym_reach(err ? "write error" : "written"); }
  delete m;
}
// texts with options
HARNESS(c29_options) {
  static const char* const T[8] = {"", "{", "[]", "{\"minimum_m_index\":5,\"maximum_m_index\":2}", "{\"minimum_m_index\":\"x\"}", "{\"reserved_size_metadata_segment\":100}", "{\"allow_duplicate_subblocks\":true}", "{\"reserved_size_attachments_directory\":-5}"}; int k = sym_pick(8, "text"); Mem* m = new Mem; ObjectHandle o = outStream(m), w = 0; int rc; bool esc = false; try { rc = libCZI_CreateWriter(&w, T[k]); if (rc == 0) { rc = libCZI_WriterCreate(w, o, T[k]); sym_assert(libCZI_ReleaseWriter(w) == 0, "released"); } } catch (...) { esc = true; } sym_assert(!esc, "no C++ exception leaves the C API"); libCZI_ReleaseOutputStream(o); sym_assert(m->closed == 1, "closed"); sym_reach("done"); delete m;
}
