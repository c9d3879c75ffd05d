// Metadata documents: building, writing, reading again.
#pragma once
#include "doc.h"
#include "CziMetadataBuilder.h"
#include "CziMetadata.h"
using namespace libCZI; using namespace libCZI::detail; using std::wstring; using std::string;
struct Seg : IMetadataSegment { string x; Seg(string s) : x(std::move(s)) {} std::shared_ptr<const void> GetRawData(MemBlkType, size_t* n) override { if (n) *n = x.size(); return std::shared_ptr<const void>(x.data(), [](const void*) {}); } void DangerousGetRawData(MemBlkType, const void*& p, size_t& n) const override { p = x.data(); n = x.size(); } };
static std::shared_ptr<ICziMetadata> parse(const string& x) { Seg s(x); return CreateMetaFromMetadataSegment(&s); }
static std::shared_ptr<ICziMetadata> reread(ICziMetadataBuilder* b) { auto m = parse(b->GetXml()); sym_assert(m->IsXmlValid(), "the document written is well-formed"); return m; }
static wchar_t cp() { uint32_t c = sym_u32("char"); sym_assume(c > 0 && c != '\r' && c < 0x110000 && !(c >= 0xd800 && c < 0xe000)); return (wchar_t)c; }
// values within 255 of zero, of powers of ten and of the limits of the integer types
static uint64_t near() { static const uint64_t B[9] = {0, uint64_t(-255), 99900, 999999900, 2147483500u, 4294967200u, 0x7fffffffffffff80ull, uint64_t(-2147483649ll), 9999999999999999900ull}; return B[sym_pick(9, "base")] + sym_u8("value"); }
