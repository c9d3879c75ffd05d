// A document written and read with the C API only; in-memory streams behind callbacks.
#pragma once
#include "common.h"
#include <cstdlib>
#include "libCZIApi.h"
using namespace h;
// stand-in for the C library's wcstod: plain decimal numbers
extern "C" double wcstod(const wchar_t* s, wchar_t** e) { const wchar_t* p = s; bool neg = *p == L'-'; if (neg) ++p; double v = 0, f = 1; bool any = false; for (; *p >= L'0' && *p <= L'9'; ++p) v = v * 10 + (*p - L'0'), any = true; if (*p == L'.') for (++p; *p >= L'0' && *p <= L'9'; ++p) v += (f /= 10) * (*p - L'0'), any = true; if (!any) p = s; if (e) *e = (wchar_t*)p; return neg ? -v : v; }
struct Mem { uint64_t size = 0; int closed = 0, calls = 0, failAt = -1; bool withText = false; uint8_t buf[24576]; };
static int32_t memFail(Mem* m, ExternalStreamErrorInfoInterop* e) { if (m->withText) { void* p = nullptr; libCZI_AllocateMemory(6, &p); memcpy(p, "fault", 6); e->error_code = kStreamErrorCode_UnspecifiedError; e->error_message = (MemoryAllocationObjectHandle)p; } return 1; }
static int32_t memRead(uintptr_t h, uintptr_t, uint64_t off, void* pv, uint64_t n, uint64_t* got, ExternalStreamErrorInfoInterop* e) { Mem* m = (Mem*)h; sym_assert(!m->closed, "no access after the stream was closed"); if (m->calls++ == m->failAt) return memFail(m, e); uint64_t a = off < m->size ? m->size - off : 0; if (n < a) a = n; if (a) memcpy(pv, m->buf + off, a); if (got) *got = a; return 0; }
static int32_t memWrite(uintptr_t h, uintptr_t, uint64_t off, const void* pv, uint64_t n, uint64_t* put, ExternalStreamErrorInfoInterop* e) { Mem* m = (Mem*)h; sym_assert(!m->closed, "no access after the stream was closed"); if (m->calls++ == m->failAt) return memFail(m, e); sym_assert(off + n <= sizeof m->buf, "harness: file larger than the buffer"); if (off > m->size) memset(m->buf + m->size, 0, off - m->size); memcpy(m->buf + off, pv, n); if (off + n > m->size) m->size = off + n; if (put) *put = n; return 0; }
static void memClose(uintptr_t h, uintptr_t) { ++((Mem*)h)->closed; }
static OutputStreamObjectHandle outStream(Mem* m) { ExternalOutputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)m; s.write_function = memWrite; s.close_function = memClose; OutputStreamObjectHandle h = 0; sym_assert(libCZI_CreateOutputStreamFromExternal(&s, &h) == 0 && h, "output stream"); return h; }
static InputStreamObjectHandle inStream(Mem* m) { ExternalInputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)m; s.read_function = memRead; s.close_function = memClose; InputStreamObjectHandle h = 0; sym_assert(libCZI_CreateInputStreamFromExternal(&s, &h) == 0 && h, "input stream"); return h; }
static AddSubBlockInfoInterop tile(int c, int x, int y, const uint8_t* px) { AddSubBlockInfoInterop a; memset(&a, 0, sizeof a); a.coordinate.dimensions_valid = 2; a.coordinate.value[0] = c; a.x = x; a.y = y; a.logical_width = a.physical_width = 3; a.logical_height = a.physical_height = 2; a.stride = 4; a.data = px; a.size_data = 7; return a; }
static const char kXml[] = "<ImageDocument><Metadata><Information><Document><Name>n</Name></Document><Image><SizeX>3</SizeX><SizeY>2</SizeY><SizeC>1</SizeC><Dimensions><Channels><Channel Id=\"Channel:0\" Name=\"a\"><PixelType>Gray8</PixelType></Channel></Channels></Dimensions></Image></Information><Scaling><Items><Distance Id=\"X\"><Value>2</Value></Distance></Items></Scaling>"
  "<DisplaySetting><Channels><Channel Id=\"Channel:0\" Name=\"a\"><Weight>1</Weight></Channel></Channels></DisplaySetting></Metadata></ImageDocument>";
// a file with one tile, one attachment and XML metadata
static void writeFile(Mem* m, const uint8_t* px, const uint8_t* att, uint32_t natt, const char* xml = kXml) {
  CziWriterObjectHandle w = 0; OutputStreamObjectHandle o = outStream(m); sym_assert(libCZI_CreateWriter(&w, nullptr) == 0 && libCZI_WriterCreate(w, o, nullptr) == 0, "writer"); AddSubBlockInfoInterop a = tile(0, 0, 0, px); sym_assert(libCZI_WriterAddSubBlock(w, &a) == 0, "sub-block added");
  AddAttachmentInfoInterop t; memset(&t, 0, sizeof t); t.guid[0] = 7; memcpy(t.contentFileType, "ABC", 3); memcpy(t.name, "name", 4); t.attachment_data = att; t.size_attachment_data = natt; sym_assert(libCZI_WriterAddAttachment(w, &t) == 0, "attachment added"); WriteMetadataInfoInterop wm; wm.metadata = xml; wm.size_metadata = (uint32_t)strlen(xml); sym_assert(libCZI_WriterWriteMetadata(w, &wm) == 0, "metadata written");
  sym_assert(libCZI_WriterClose(w) == 0 && libCZI_ReleaseWriter(w) == 0 && libCZI_ReleaseOutputStream(o) == 0, "closed"); sym_assert(m->closed == 1, "the output stream was closed once"); m->closed = 0;
}
