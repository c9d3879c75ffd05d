// C28: the C API carries the same values as the C++ API in both directions: coordinates, sub-block and attachment descriptions, statistics, options, texts.
#include "capi.h"
#include "parameterhelpers.h"
// @bounds c28_coord_in/out: every set of the 9 dimensions (case split), symbolic 32-bit values and symbolic upper bits of the set
// @bounds c28_utf8: strings of up to 5 arbitrary symbolic bytes (well-formed UTF-8 for the boundary claim), destination sizes 0..6
// @bounds c28_subblock: one sub-block with 2 dimensions, symbolic coordinate, M-index, position, logical size, pixel type, compression mode and data; physical size 1..3 x 1..2
// @bounds c28_attachment: one attachment, symbolic GUID, type (8 bytes), names of 0, 4 or 79 bytes (4 symbolic)
// @bounds c28_guid: GUID texts from templates with 2 arbitrary ASCII characters
// @bounds c28_statistics: 3 sub-blocks in up to 3 scenes and without scene, symbolic positions (16 bit); capacity 0..4; c28_options, c28_channel_info: all fields symbolic
// @bounds c28_accessor: the tile accessor of the C API delivers the same bitmap as the C++ accessor (2 tiles, symbolic pixels, 4 option sets)
// @assume the texts of JSON arguments are concrete (a case split over presence and type of the members)
using namespace libCZI;
// ---- coordinates
// @job time=120 shards=8
HARNESS(c28_coord_in) { int hi = sym_pick(8, "mask"); uint32_t mask = (uint32_t)hi << 6 | (uint32_t)sym_pick(64, "low bits"); CoordinateInterop c; for (int i = 0; i < 9; ++i) c.value[i] = sym_i32("v"); c.dimensions_valid = mask | sym_u32("upper bits") << 9; CDimCoordinate d = ParameterHelpers::ConvertCoordinateInteropToDimCoordinate(c); int n = 0;
  for (int i = 0; i < 9; ++i) { int v = 0; bool b = d.TryGetPosition((DimensionIndex)(1 + i), &v); sym_assert(b == !!(mask >> i & 1), "the valid dimensions are the same"); if (b) { sym_assert(v == c.value[n], "the value of the dimension is the same"); ++n; } }
  CoordinateInterop r = ParameterHelpers::ConvertIDimCoordinateToCoordinateInterop(&d); sym_assert(r.dimensions_valid == mask, "and back"); for (int i = 0; i < n; ++i) sym_assert(r.value[i] == c.value[i], "and back"); sym_reach("coordinate"); }
// ---- texts
static bool wellFormed(const uint8_t* p, int n) { int i = 0; while (i < n) { int k = p[i] < 0x80 ? 1 : (p[i] & 0xE0) == 0xC0 ? 2 : (p[i] & 0xF0) == 0xE0 ? 3 : (p[i] & 0xF8) == 0xF0 ? 4 : 0; if (!k || i + k > n) return false; for (int j = 1; j < k; ++j) if ((p[i + j] & 0xC0) != 0x80) return false; i += k; } return true; }
// @job time=200 shards=6
HARNESS(c28_utf8) { int n = sym_pick(6, "length"), cap = sym_pick(7, "capacity"); uint8_t s[6] = {}; sym_bytes(s, n, "text"); char* d = (char*)malloc(cap ? cap : 1); memset(d, 0x55, cap ? cap : 1); std::string in((const char*)s, n); bool tr = ParameterHelpers::CopyUtf8StringTruncate(in, d, cap);
  if (cap == 0) { sym_assert(tr == (n > 0) && d[0] == 0x55, "nothing is written to an empty buffer"); } else { int len = 0; bool ok = true; const bool wf = wellFormed(s, n); if (wf) { sym_reach("well-formed"); int best = 0; for (int k = 0; k <= n && k < cap; ++k) if (k == n || (s[k] & 0xC0) != 0x80) best = k; len = best; for (int i = 0; i < len; ++i) ok = ok & ((uint8_t)d[i] == s[i]); sym_assert(ok, "the text is a prefix of the original"); sym_assert(d[len] == 0, "terminated after the last complete character which fits"); sym_assert(tr == (len < n), "truncation is reported"); }
    else { int t = -1; for (int i = 0; i < cap && i <= n; ++i) { if (d[i] == 0) { t = i; break; } if (i < n && (uint8_t)d[i] != s[i]) break; } sym_assert(t >= 0, "a terminated prefix also for malformed text"); } } free(d); sym_reach("copied"); }
// ---- sub-blocks
static CziReaderObjectHandle openFile(Mem* m) { InputStreamObjectHandle i = inStream(m); CziReaderObjectHandle r = 0; ReaderOpenInfoInterop oi; oi.streamObject = i; sym_assert(libCZI_CreateReader(&r) == 0 && libCZI_ReaderOpen(r, &oi) == 0, "opened"); libCZI_ReleaseInputStream(i); return r; }
static CziWriterObjectHandle startFile(Mem* m, const char* opt = nullptr) { OutputStreamObjectHandle o = outStream(m); CziWriterObjectHandle w = 0; sym_assert(libCZI_CreateWriter(&w, opt) == 0 && libCZI_WriterCreate(w, o, nullptr) == 0, "writer"); libCZI_ReleaseOutputStream(o); return w; }
static void endFile(CziWriterObjectHandle w, Mem* m) { sym_assert(libCZI_WriterClose(w) == 0 && libCZI_ReleaseWriter(w) == 0, "closed"); m->closed = 0; }
static void checkInfo(const SubBlockInfoInterop& i, const AddSubBlockInfoInterop& a, int ndim, const char*) {
  sym_assert(i.pixel_type == a.pixel_type && i.compression_mode_raw == a.compression_mode_raw, "pixel type and compression mode"); sym_assert(i.coordinate.dimensions_valid == a.coordinate.dimensions_valid, "dimensions"); for (int k = 0; k < ndim; ++k) sym_assert(i.coordinate.value[k] == a.coordinate.value[k], "coordinate");
  sym_assert(i.logical_rect.x == a.x && i.logical_rect.y == a.y && i.logical_rect.w == a.logical_width && i.logical_rect.h == a.logical_height, "logical rectangle"); sym_assert(i.physical_size.w == a.physical_width && i.physical_size.h == a.physical_height, "physical size"); sym_assert(i.m_index == (a.m_index_valid ? a.m_index : INT32_MIN), "M-index"); }
// @job time=200 shards=6
HARNESS(c28_subblock) {
  int w = 1 + sym_pick(3, "w"), h = 1 + sym_pick(2, "h"), comp = sym_pick(2, "compressed"), mv = sym_pick(2, "m valid"), same = sym_pick(2, "full resolution"); Mem* m = new Mem(); AddSubBlockInfoInterop a; memset(&a, 0, sizeof a); a.coordinate.dimensions_valid = 2 | 4; a.coordinate.value[0] = sym_i32("c"); a.coordinate.value[1] = sym_i32("t"); a.m_index_valid = mv ? sym_u8("valid flag") | 1 : 0; a.m_index = sym_i32("m"); if (mv) sym_assume((a.m_index >= 0) & (a.m_index != INT32_MAX));
  a.x = sym_i32("x"); a.y = sym_i32("y"); a.physical_width = w; a.physical_height = h; a.logical_width = same ? w : sym_i32("lw"); a.logical_height = same ? h : sym_i32("lh"); if (!same) sym_assume((a.logical_width > 0) & (a.logical_height > 0)); const int stride = w + 1; uint8_t px[16]; sym_bytes(px, sizeof px, "pixels"); uint8_t md[3] = {'<', 'a', '>'}, at[2]; sym_bytes(at, 2, "att");
  a.data = px; a.size_data = comp ? 10 : stride * h; a.stride = stride; a.pixel_type = comp ? 1 : 0; a.metadata = md; a.size_metadata = 3; a.attachment = at; a.size_attachment = 2; if (comp) { a.compression_mode_raw = sym_i32("compression"); sym_assume(a.compression_mode_raw > 0); }
  CziWriterObjectHandle wr = startFile(m); int rc = libCZI_WriterAddSubBlock(wr, &a); sym_assert(rc == 0, "accepted"); endFile(wr, m); CziReaderObjectHandle r = openFile(m); SubBlockInfoInterop i; sym_assert(libCZI_TryGetSubBlockInfoForIndex(r, 0, &i) == 0, "info"); checkInfo(i, a, 2, "directory"); SubBlockObjectHandle sb = 0; sym_assert(libCZI_ReaderReadSubBlock(r, 0, &sb) == 0 && sb, "read"); memset(&i, 0x11, sizeof i); sym_assert(libCZI_SubBlockGetInfo(sb, &i) == 0, "info"); checkInfo(i, a, 2, "sub-block");
  uint8_t b[16]; uint64_t n = sizeof b; sym_assert(libCZI_SubBlockGetRawData(sb, 0, &n, b) == 0 && n == (comp ? 10u : (uint64_t)w * h), "size of the data"); bool ok = true; if (comp) for (int k = 0; k < 10; ++k) ok = ok & (b[k] == px[k]); else for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) ok = ok & (b[y * w + x] == px[y * stride + x]); sym_assert(ok, "data"); n = sizeof b; sym_assert(libCZI_SubBlockGetRawData(sb, 1, &n, b) == 0 && n == 3 && !memcmp(b, md, 3), "metadata");
  if (!comp) { BitmapObjectHandle bm = 0; sym_assert(libCZI_SubBlockCreateBitmap(sb, &bm) == 0 && bm, "bitmap"); BitmapInfoInterop bi; BitmapLockInfoInterop bl; sym_assert(libCZI_BitmapGetInfo(bm, &bi) == 0 && bi.width == (uint32_t)w && bi.height == (uint32_t)h && bi.pixelType == 0, "bitmap info"); sym_assert(libCZI_BitmapLock(bm, &bl) == 0 && bl.ptrDataRoi && bl.stride >= (uint32_t)w && bl.size >= (uint64_t)bl.stride * (h - 1) + w, "lock"); ok = true; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) ok = ok & (((uint8_t*)bl.ptrDataRoi)[y * (size_t)bl.stride + x] == px[y * stride + x]); sym_assert(ok, "pixels"); libCZI_BitmapUnlock(bm); libCZI_ReleaseBitmap(bm); }
  libCZI_ReleaseSubBlock(sb); libCZI_ReleaseReader(r); sym_assert(m->closed == 1, "stream closed"); delete m; sym_reach("sub-block"); }
// a pixel type which does not exist is refused, and nothing is added
// @job time=100
HARNESS(c28_pixeltype) { Mem* m = new Mem(); uint8_t px[512]; memset(px, 3, sizeof px); AddSubBlockInfoInterop a = tile(0, 0, 0, px); a.pixel_type = sym_i32("pixel type"); a.stride = 256; a.size_data = 512; CziWriterObjectHandle w = startFile(m); int rc = libCZI_WriterAddSubBlock(w, &a); endFile(w, m); CziReaderObjectHandle r = openFile(m); SubBlockInfoInterop i; int rc2 = libCZI_TryGetSubBlockInfoForIndex(r, 0, &i); if (rc == 0) { sym_reach("added"); sym_assert(rc2 == 0 && i.pixel_type == a.pixel_type, "the pixel type is the one which was given"); } else { sym_reach("refused"); sym_assert(rc2 != 0, "nothing was added"); } libCZI_ReleaseReader(r); delete m; }
// ---- attachments
// @job time=100
HARNESS(c28_attachment) { Mem* m = new Mem(); AddAttachmentInfoInterop t; memset(&t, 0, sizeof t); uint8_t data[5]; sym_bytes(data, 5, "data"); sym_bytes(t.guid, 16, "guid"); sym_bytes(t.contentFileType, 8, "type"); int n = sym_pick(3, "length of the name"); const int len = n == 0 ? 0 : n == 1 ? 4 : 79; for (int i = 0; i < len; ++i) t.name[i] = i < 4 ? sym_u8("name") : 'a' + i % 26; for (int i = 0; i < len && i < 4; ++i) sym_assume(t.name[i] != 0); t.attachment_data = data; t.size_attachment_data = 5; uint8_t z = 0; for (int i = 0; i < 16; ++i) z |= t.guid[i]; sym_assume(z != 0);
  CziWriterObjectHandle w = startFile(m); sym_assert(libCZI_WriterAddAttachment(w, &t) == 0, "added"); endFile(w, m); CziReaderObjectHandle r = openFile(m); AttachmentObjectHandle a = 0; sym_assert(libCZI_ReaderReadAttachment(r, 0, &a) == 0 && a, "read");
  for (int k = 0; k < 2; ++k) { AttachmentInfoInterop i; memset(&i, 0x33, sizeof i); sym_assert((k ? libCZI_AttachmentGetInfo(a, &i) : libCZI_ReaderGetAttachmentInfoFromDirectory(r, 0, &i)) == 0, "info"); sym_assert(!memcmp(i.guid, t.guid, 16), "GUID"); bool ok = true, end = false; for (int j = 0; j < 8; ++j) { end = end | (t.contentFileType[j] == 0); if (!end) ok = ok & (i.content_file_type[j] == t.contentFileType[j]); } sym_assert(ok, "type"); sym_assert(i.content_file_type[8] == 0, "type is terminated"); ok = true; for (int j = 0; j < len; ++j) ok = ok & ((uint8_t)i.name[j] == t.name[j]); sym_assert(ok && i.name[len] == 0, "name"); sym_assert(!i.name_overflow && i.name_in_case_of_overflow == nullptr, "no overflow"); }
  uint8_t b[8]; uint64_t sz = sizeof b; sym_assert(libCZI_AttachmentGetRawData(a, &sz, b) == 0 && sz == 5 && !memcmp(b, data, 5), "data"); libCZI_ReleaseAttachment(a); libCZI_ReleaseReader(r); delete m; sym_reach("attachment"); }
// ---- statistics
static bool eqr(const IntRectInterop& a, const IntRect& b) { return (a.x == b.x) & (a.y == b.y) & (a.w == b.w) & (a.h == b.h); }
// @job time=200 shards=4
HARNESS(c28_statistics) { int mode = sym_pick(4, "scenes"), cap = sym_pick(5, "capacity"); Mem* m = new Mem(); CziWriterObjectHandle w = startFile(m); uint8_t px[8] = {}; const int nsc = mode; // number of scenes; 0: no scene dimension
  for (int k = 0; k < 3; ++k) { AddSubBlockInfoInterop a = tile(k + 1, k * 1000 + (int16_t)sym_range(0, 200, "x"), (int16_t)sym_range(0, 200, "y"), px); if (nsc) { a.coordinate.dimensions_valid |= 16; a.coordinate.value[1] = k % nsc + 3; } a.m_index_valid = 1; a.m_index = k + 5; sym_assert(libCZI_WriterAddSubBlock(w, &a) == 0, "added"); } endFile(w, m);
  CziReaderObjectHandle r = openFile(m); auto st = CreateCZIReader(); st->Open(std::make_shared<BufStream>(m->buf, m->size), nullptr); SubBlockStatistics x = st->GetStatistics(); SubBlockStatisticsInterop s; sym_assert(libCZI_ReaderGetStatisticsSimple(r, &s) == 0, "statistics"); auto* e = (SubBlockStatisticsInteropEx*)malloc(sizeof(SubBlockStatisticsInteropEx) + cap * sizeof(BoundingBoxesInterop)); int32_t n = cap; sym_assert(libCZI_ReaderGetStatisticsEx(r, e, &n) == 0, "statistics");
  sym_assert(s.sub_block_count == 3 && s.min_m_index == 5 && s.max_m_index == 7 && e->sub_block_count == 3 && e->min_m_index == 5 && e->max_m_index == 7, "counts"); sym_assert(eqr(s.bounding_box, x.boundingBox) & eqr(s.bounding_box_layer0, x.boundingBoxLayer0Only) & eqr(e->bounding_box, x.boundingBox) & eqr(e->bounding_box_layer0, x.boundingBoxLayer0Only), "bounding boxes");
  for (int k = 0; k < 2; ++k) { const DimBoundsInterop& d = k ? e->dim_bounds : s.dim_bounds; sym_assert(d.dimensions_valid == (nsc ? 2u | 16u : 2u) && d.start[0] == 1 && d.size[0] == 3 && (!nsc || (d.start[1] == 3 && d.size[1] == nsc)), "dimension bounds"); }
  sym_assert(n == nsc && e->number_of_per_scenes_bounding_boxes == (nsc < cap ? nsc : cap), "number of scenes"); int k = 0; for (auto& sc : x.sceneBoundingBoxes) { if (k >= cap) break; const auto& b = e->per_scenes_bounding_boxes[k++]; sym_assert(b.sceneIndex == sc.first && (eqr(b.bounding_box, sc.second.boundingBox) & eqr(b.bounding_box_layer0_only, sc.second.boundingBoxLayer0)), "scene"); }
  free(e); libCZI_ReleaseReader(r); st->Close(); delete m; sym_reach("statistics"); }
// ---- options
// @job time=100
HARNESS(c28_options) { AccessorOptionsInterop o; memset(&o, 0, sizeof o); o.back_ground_color_r = (float)sym_pick(3, "r"); o.back_ground_color_g = 0.25f; o.back_ground_color_b = 0.5f; o.sort_by_m = sym_pick(2, "sort"); o.use_visibility_check_optimization = sym_pick(2, "vis"); static const char* kP[] = {nullptr, "{\"mask_aware\":true}", "{\"mask_aware\":false}", "{\"mask_aware\":1}", "{\"other\":true}", "{", "[true]", ""}; int p = sym_pick(8, "parameters"); o.additional_parameters = kP[p];
  auto q = ParameterHelpers::ConvertSingleChannelScalingTileAccessorOptionsInteropToLibCZI(&o); sym_assert(q.backGroundColor.r == o.back_ground_color_r && q.backGroundColor.g == 0.25f && q.backGroundColor.b == 0.5f, "color"); sym_assert(q.sortByM == o.sort_by_m && q.useVisibilityCheckOptimization == o.use_visibility_check_optimization, "flags"); sym_assert(q.maskAware == (p == 1), "mask"); sym_assert(!q.subBlockCache && !q.sceneFilter, "nothing else"); sym_reach("options"); }
// @job time=100
HARNESS(c28_channel_info) { CompositionChannelInfoInterop c; memset(&c, 0, sizeof c); uint8_t lut[4]; c.weight = (float)sym_pick(3, "weight"); c.enable_tinting = sym_u8("tint"); c.tinting_color_r = sym_u8("r"); c.tinting_color_g = sym_u8("g"); c.tinting_color_b = sym_u8("b"); c.black_point = 0.25f * sym_pick(3, "black"); c.white_point = 0.75f; c.look_up_table_element_count = sym_i32("n"); c.ptr_look_up_table = lut; auto i = ParameterHelpers::ConvertCompositionChannelInfoInteropToChannelInfo(&c); sym_assert(i.weight == c.weight && i.blackPoint == c.black_point && i.whitePoint == 0.75f, "weight and points"); sym_assert(i.enableTinting == (c.enable_tinting != 0) && i.tinting.color.r == c.tinting_color_r && i.tinting.color.g == c.tinting_color_g && i.tinting.color.b == c.tinting_color_b, "tint"); sym_assert(i.lookUpTableElementCount == c.look_up_table_element_count && i.ptrLookUpTable == lut, "look-up table"); sym_reach("channel"); }
// the options of the writer: duplicates, reserved sizes, M-index bounds
// @job time=100 shards=8
HARNESS(c28_writer_options) { static const struct { const char* w; const char* c; bool dup, lo; } kO[] = {{nullptr, nullptr, false, false}, {"{\"allow_duplicate_subblocks\":true}", nullptr, true, false}, {"{\"allow_duplicate_subblocks\":false}", nullptr, false, false}, {"{\"allow_duplicate_subblocks\":1}", nullptr, false, false}, {"{}", "{}", false, false}, {nullptr, "{\"minimum_m_index\":5,\"maximum_m_index\":9}", false, true}, {"", "{\"reserved_size_subblock_directory\":4,\"reserved_size_attachments_directory\":3,\"reserved_size_metadata_segment\":500}", false, false}, {nullptr, "{\"minimum_m_index\":5}", false, false}};
  int k = sym_pick(8, "options"); Mem* m = new Mem(); OutputStreamObjectHandle o = outStream(m); CziWriterObjectHandle w = 0; sym_assert(libCZI_CreateWriter(&w, kO[k].w) == 0 && libCZI_WriterCreate(w, o, kO[k].c) == 0, "writer"); libCZI_ReleaseOutputStream(o); uint8_t px[8]; sym_bytes(px, 8, "px"); AddSubBlockInfoInterop a = tile(0, 0, 0, px); a.m_index_valid = 1; a.m_index = sym_i32("m"); sym_assume(a.m_index >= 0); int rc = libCZI_WriterAddSubBlock(w, &a); bool in = !kO[k].lo || (a.m_index >= 5 && a.m_index <= 9); sym_assert((rc == 0) == in, "M-index bounds"); int rc2 = libCZI_WriterAddSubBlock(w, &a); sym_assert((rc2 == 0) == (in && kO[k].dup), "duplicates"); endFile(w, m);
  if (k == 6) sym_assert(m->size >= 1200, "space was reserved"); CziReaderObjectHandle r = openFile(m); SubBlockStatisticsInterop s; sym_assert(libCZI_ReaderGetStatisticsSimple(r, &s) == 0 && s.sub_block_count == (in ? 1 + kO[k].dup : 0), "what was accepted is in the file"); libCZI_ReleaseReader(r); delete m; sym_reach("options of the writer"); }
// ---- the accessor through the C API
// @job time=200 shards=4
HARNESS(c28_accessor) { int o = sym_pick(4, "options"); Mem* m = new Mem(); CziWriterObjectHandle w = startFile(m); uint8_t p0[8], p1[8]; sym_bytes(p0, 8, "p0"); sym_bytes(p1, 8, "p1"); AddSubBlockInfoInterop a = tile(0, 0, 0, p0), b = tile(0, 1, 1, p1); a.m_index_valid = b.m_index_valid = 1; a.m_index = 1; sym_assert(libCZI_WriterAddSubBlock(w, &a) == 0 && libCZI_WriterAddSubBlock(w, &b) == 0, "added"); endFile(w, m);
  CziReaderObjectHandle r = openFile(m); SingleChannelScalingTileAccessorObjectHandle ac = 0; sym_assert(libCZI_CreateSingleChannelTileAccessor(r, &ac) == 0, "accessor"); IntRectInterop roi{-1, 0, 5, 3}; IntSizeInterop sz; sym_assert(libCZI_SingleChannelTileAccessorCalcSize(ac, &roi, 1.f, &sz) == 0 && sz.w == 5 && sz.h == 3, "size"); AccessorOptionsInterop op; memset(&op, 0, sizeof op); op.sort_by_m = o & 1; op.use_visibility_check_optimization = o >> 1; op.back_ground_color_r = op.back_ground_color_g = op.back_ground_color_b = 1.f; CoordinateInterop co; memset(&co, 0, sizeof co); co.dimensions_valid = 2; BitmapObjectHandle bm = 0; sym_assert(libCZI_SingleChannelTileAccessorGet(ac, &co, &roi, 1.f, &op, &bm) == 0 && bm, "bitmap"); uint8_t out[15]; sym_assert(libCZI_BitmapCopyTo(bm, 5, 3, 0, 5, out) == 0, "copied");
  for (int y = 0; y < 3; ++y) for (int x = -1; x < 4; ++x) { bool in0 = x >= 0 && x < 3 && y < 2, in1 = x >= 1 && x < 4 && y >= 1; bool one = in1 && !(in0 && op.sort_by_m); uint8_t v = out[y * 5 + x + 1]; if (in0 && in1 && !op.sort_by_m) { sym_assert(v == p0[y * 4 + x] || v == p1[(y - 1) * 4 + x - 1], "pixel"); continue; } sym_assert(v == (one ? p1[(y - 1) * 4 + x - 1] : in0 ? p0[y * 4 + x] : 255), "pixel"); }
  libCZI_ReleaseBitmap(bm); libCZI_ReleaseCreateSingleChannelTileAccessor(ac); libCZI_ReleaseReader(r); delete m; sym_reach("accessor"); }
// GUIDs given as text: 8-4-4-4-12 hexadecimal digits, braces and blanks around are allowed
static int hx(char c) { if (c >= '0' && c <= '9') return c - '0'; char l = c | 32; if (l >= 'a' && l <= 'f') return l - 'a' + 10; return -1; }
static bool guid(std::string s, libCZI::GUID* g) { auto bl = [](char c) { return (c == ' ') | (c == '\t'); }; while (!s.empty() && bl(s[0])) s.erase(0, 1); while (!s.empty() && bl(s.back())) s.pop_back(); if (s.size() == 38 && s[0] == '{' && s[37] == '}') s = s.substr(1, 36); if (s.size() != 36) return false; uint8_t v[32]; int n = 0; for (int i = 0; i < 36; ++i) { if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return false; } else { int x = hx(s[i]); if (x < 0) return false; v[n++] = (uint8_t)x; } } auto num = [&](int a, int k) { uint32_t r = 0; for (int i = 0; i < k; ++i) r = r << 4 | v[a + i]; return r; }; g->Data1 = num(0, 8); g->Data2 = (uint16_t)num(8, 4); g->Data3 = (uint16_t)num(12, 4); for (int i = 0; i < 8; ++i) g->Data4[i] = (uint8_t)num(16 + 2 * i, 2); return true; }
// @job time=200 shards=4
HARNESS(c28_guid) { static const char* P[13] = {"?2345678-9abc-def0-1234-56789abcdef?", "0?000000-0000-0000-0000-0000000000?1", "89ABCDE?-?FFF-0001-FFFF-fedcba98765a", "12345678-9ab?-def?-1234-56789abcdefA", "12345678-9abc-def0-123?-?6789abcdefA", "12345678?9abc?def0?1234?56789abcdefA", "{12345678-9abc-def0-1234-56789abcdef0?", "?12345678-9abc-def0-1234-56789abcdef0}", "?12345678-9abc-def0-1234-56789abcdef0?", "12345678-9abc-def0-1234-56789abcde?", "??", " {FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFF??} ", "00000000-0000-0000-??00-000000000000"}; std::string s; for (const char* p = P[sym_pick(13, "text")]; *p; ++p) { if (*p == '?') { uint8_t c = sym_u8("char"); sym_assume(c > 0 && c < 128); s += (char)c; } else s += *p; } libCZI::GUID w, r; memset(&r, 0, sizeof r); memset(&w, 0, sizeof w); bool want = guid(s, &w), ok = ParameterHelpers::TryParseGuid(s, &r); sym_assert(ok == want, "exactly texts of GUIDs are accepted"); if (ok && want) { sym_assert(r == w, "the GUID is the one written"); sym_reach("guid"); } }
// the GUID of the file is the one given in the parameters
HARNESS(c28_guid_json) { static const char* P[3] = {"{\"file_guid\":\"01234567-89AB-CDEF-8765-4321FEDCBA98\"}", "{\"file_guid\":\"{01234567-89ab-cdef-8765-4321fedcba98}\"}", "{\"file_guid\":\"01234567-89ab-cdef-8765-4321fedcba9\"}"}; int k = sym_pick(3, "text"); std::shared_ptr<libCZI::ICziWriterInfo> i; bool ok = ParameterHelpers::TryParseCZIWriterInfo(P[k], i); sym_assert(ok == (k < 2), "exactly a GUID is accepted"); if (ok) { libCZI::GUID e{0x01234567, 0x89ab, 0xcdef, {0x87, 0x65, 0x43, 0x21, 0xfe, 0xdc, 0xba, 0x98}}; sym_assert(i->GetFileGuid() == e, "the GUID is the one given"); sym_reach("guid"); } }
