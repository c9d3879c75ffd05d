// C34: what is stated about a channel or a sub-block is reported, and nothing else
// @bounds one channel with each field alone, all fields, or none; exposure times and wavelength ranges from templates with up to 2 arbitrary characters; sub-block metadata with tags present, missing or malformed
#include "md.h"
static const char* N[14] = {"ExcitationWavelength", "EmissionWavelength", "EffectiveNA", "PinholeSize", "PinholeSizeAiry", "NDFilter", "DepthOfFocus", "SectionThickness", "NACondenser", "PockelCellSetting", "ComponentBitCount", "DyeId", "Fluor", "Reflector"};
static std::shared_ptr<IDimensionChannelInfo> channel(const string& inner) { auto m = parse("<ImageDocument><Metadata><Information><Image><Dimensions><Channels><Channel Id='Channel:0' Name='n'>" + inner + "</Channel></Channels></Dimensions></Image></Information></Metadata></ImageDocument>"); sym_assert(m->IsXmlValid(), "well-formed"); auto d = m->GetDocumentInfo(); auto c = d->GetDimensionChannelsInfo(); sym_assert(c && c->GetChannelCount() == 1, "one channel"); return c->GetChannel(0); }
// @job time=200 shards=8
HARNESS(c34_channel) { int k = sym_pick(24, "field"); string x; auto on = [&](int i) { return k == i || k == 23; }; for (int i = 0; i < 14; ++i) if (on(i)) x += string("<") + N[i] + ">" + std::to_string(11 + i) + "</" + N[i] + ">"; static const char* T[9] = {"<ChannelUnit>u</ChannelUnit>", "<DyeDatabaseId>db</DyeDatabaseId>", "<CondenserContrast>cc</CondenserContrast>", "<PixelType>Gray16</PixelType>", "<AcquisitionMode>SPIM</AcquisitionMode>", "<IlluminationType>Transmitted</IlluminationType>", "<ContrastMethod>Phase</ContrastMethod>", "<PinholeGeometry>Rectangular</PinholeGeometry>", "<ChannelType>SimHR</ChannelType>"}; for (int i = 0; i < 8; ++i) if (on(14 + i)) x += T[i]; if (on(22)) x += "<Color>#FF102030</Color>" + string(T[8]);
  auto c = channel(x); wstring w; sym_assert(c->TryGetAttributeId(&w) && w == L"Channel:0" && c->TryGetAttributeName(&w) && w == L"n", "id and name");
  for (int i = 0; i < 9; ++i) { double v = -1; bool r = i == 0 ? c->TryGetExcitationWavelength(&v) : i == 1 ? c->TryGetEmissionWavelength(&v) : i == 2 ? c->TryGetEffectiveNA(&v) : i == 3 ? c->TryGetPinholeSize(&v) : i == 4 ? c->TryGetPinholeSizeAiry(&v) : i == 5 ? c->TryGetNDFilter(&v) : i == 6 ? c->TryGetDepthOfFocus(&v) : i == 7 ? c->TryGetSectionThickness(&v) : c->TryGetNACondenser(&v); sym_assert(r == on(i) && (!r || v == 11 + i), "exactly the stated number is reported"); }
  int p = -1; bool r = c->TryGetPocketCellSetting(&p); sym_assert(r == on(9) && (!r || p == 20), "exactly the stated number is reported"); r = c->TryGetComponentBitCount(&p); sym_assert(r == on(10) && (!r || p == 21), "exactly the stated bit count is reported");
  for (int i = 0; i < 3; ++i) { r = i == 0 ? c->TryGetDyeId(&w) : i == 1 ? c->TryGetFluor(&w) : c->TryGetReflector(&w); sym_assert(r == on(11 + i) && (!r || w == std::to_wstring(22 + i)), "exactly the stated text is reported"); } static const wchar_t* E[3] = {L"u", L"db", L"cc"}; for (int i = 0; i < 3; ++i) { r = i == 0 ? c->TryGetChannelUnit(&w) : i == 1 ? c->TryGetDyeDatabaseId(&w) : c->TryGetCondenserContrast(&w); sym_assert(r == on(14 + i) && (!r || w == E[i]), "exactly the stated text is reported"); }
  PixelType pt; r = c->TryGetPixelType(&pt); sym_assert(r == on(17) && (!r || pt == PixelType::Gray16), "pixel type"); DimensionChannelAcquisitionMode am; r = c->TryGetAcquisitionMode(&am); sym_assert(r == on(18) && (!r || am == DimensionChannelAcquisitionMode::SPIM), "acquisition mode"); DimensionChannelIlluminationType it; r = c->TryGetIlluminationType(&it); sym_assert(r == on(19) && (!r || it == DimensionChannelIlluminationType::Transmitted), "illumination type"); DimensionChannelContrastMethod cm; r = c->TryGetContrastMethod(&cm); sym_assert(r == on(20) && (!r || cm == DimensionChannelContrastMethod::Phase), "contrast method"); DimensionChannelPinholeGeometry pg; r = c->TryGetPinholeGeometry(&pg); sym_assert(r == on(21) && (!r || pg == DimensionChannelPinholeGeometry::Rectangular), "pinhole geometry"); Rgb8Color co; r = c->TryGetColor(&co); sym_assert(r == on(22) && (!r || (co.r == 0x10 && co.g == 0x20 && co.b == 0x30)), "colour"); DimensionChannelChannelType ct; r = c->TryGetChannelType(&ct); sym_assert(r == on(22) && (!r || ct == DimensionChannelChannelType::SimHR), "channel type"); RangeOrSingleValue<uint64_t> e; sym_assert(!c->TryGetExposureTime(&e), "no exposure time stated"); sym_reach("channel"); }
static bool dg(char c) { return (c >= '0') & (c <= '9'); }
// own reading of "a", "a-b", "-b", "a-" (no blanks)
static bool range(const string& s, bool* single, uint64_t* a, uint64_t* b) { size_t p = 0; auto num = [&](uint64_t* v) { if (p >= s.size() || !dg(s[p])) return false; *v = 0; while (p < s.size() && dg(s[p])) { uint64_t d = (uint64_t)(s[p] - '0'); if (*v > (~0ull - d) / 10) return false; *v = *v * 10 + d; ++p; } return true; }; *single = false; *a = 0; *b = 0; if (s.empty()) return false; if (s[0] == '-') { ++p; return num(b) && p == s.size(); } if (!num(a)) return false; if (p == s.size()) { *single = true; return true; } if (s[p] != '-') return false; ++p; if (p == s.size()) { *b = ~0ull; return true; } return num(b) && p == s.size(); }
static string fill(const char* p, bool blanks) { string s; for (; *p; ++p) { if (*p == '?') { uint8_t c = sym_u8("char"); sym_assume((c >= '!' && c < 127 && c != '<' && c != '&') || (blanks && c == ' ')); s += (char)c; } else s += *p; } return s; }
// @job time=200 shards=7
HARNESS(c34_exposure) { static const char* P[13] = {"?", "1?", "??-5", "-?", "5-?", "5?6", "7-", " 1 2 - 3", "", "18446744073709551615", "1-18446744073709551616", "12-34?", "?-?"}; int k = sym_pick(13, "text"); string s = fill(P[k], true), t; for (char c : s) if (c != ' ') t += c; if (t.size() > 0 && t[0] == '+') { sym_reach("exposure"); return; } for (size_t i = 0; i + 1 < t.size(); ++i) if (t[i] == '-' && t[i + 1] == '+') { sym_reach("exposure"); return; } auto c = channel("<ExposureTime>" + s + "</ExposureTime>"); bool single; uint64_t a, b; bool want = range(t, &single, &a, &b); RangeOrSingleValue<uint64_t> e; bool ok = c->TryGetExposureTime(&e); sym_assert(ok == want, "exactly exposure times are reported"); if (ok && want) sym_assert(e.singleValue == single && e.startOrSingleValue == a && (single || e.end == b), "the exposure time is the one stated"); sym_reach("exposure"); }
// @job time=200 shards=4
HARNESS(c34_spectrum) { static const struct { const char* s; bool ok; int n; struct { bool single; double a, b; } r[3]; } P[8] = {{"<SinglePeak>488.5</SinglePeak>", true, 0, {}}, {"<Ranges>410-520</Ranges>", true, 1, {{false, 410, 520}}}, {"<Ranges>410.5 - 520 , 600,7.25-8e2</Ranges>", true, 3, {{false, 410.5, 520}, {true, 600, 0}, {false, 7.25, 800}}}, {"<Ranges></Ranges>", false, 0, {}}, {"<Ranges>410-x</Ranges>", false, 0, {}}, {"<Ranges>410,5z</Ranges>", false, 0, {}}, {"<Other/>", false, 0, {}}, {"<Ranges>410+520</Ranges>", false, 0, {}}}; int k = sym_pick(8, "text"), w = sym_pick(2, "kind"); auto& p = P[k]; const char* n = w ? "DetectionWavelength" : "IlluminationWavelength"; auto c = channel(string("<") + n + ">" + p.s + "</" + n + ">"); SpectrumCharacteristics a, b; bool ra = c->TryGetIlluminationWavelength(&a), rb = c->TryGetDetectionWavelength(&b); sym_assert(ra == (p.ok && !w) && rb == (p.ok && w), "exactly the stated characteristic is reported"); if (p.ok) { auto& s = w ? b : a; if (k == 0) sym_assert(s.type == SpectrumCharacteristics::InformationType::SinglePeak && s.singlePeak == 488.5, "the peak is the one stated"); else { sym_assert(s.type == SpectrumCharacteristics::InformationType::Ranges && (int)s.ranges.size() == p.n, "the ranges are those stated"); for (int i = 0; i < p.n && i < (int)s.ranges.size(); ++i) sym_assert(s.ranges[i].singleValue == p.r[i].single && s.ranges[i].startOrSingleValue == p.r[i].a && (p.r[i].single || s.ranges[i].end == p.r[i].b), "the range is the one stated"); } } sym_reach("spectrum"); }
struct SB : ISubBlock { string x; SubBlockInfo i; const SubBlockInfo& GetSubBlockInfo() const override { return i; } void DangerousGetRawData(MemBlkType t, const void*& p, size_t& n) const override { p = nullptr; n = 0; if (t == Metadata) { p = x.data(); n = x.size(); } } std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* n) const override { const void* p; size_t k; DangerousGetRawData(t, p, k); if (n) *n = k; return std::shared_ptr<const void>(p, [](const void*) {}); } std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*) override { return nullptr; } };
// @job time=200 shards=3
HARNESS(c34_tags) { static const char* V[4] = {nullptr, "1234.5", "-7e2", "12x"}; static const double D[4] = {0, 1234.5, -700, 0}; int f = sym_pick(3, "format"), x = sym_pick(4, "x"), y = sym_pick(4, "y"); string s = "<METADATA>"; if (f == 1) s += "<AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema>"; if (f != 2) { s += "<Tags>"; if (x) s += string("<StageXPosition>") + V[x] + "</StageXPosition>"; if (y) s += string("<StageYPosition>") + V[y] + "</StageYPosition>"; s += "</Tags>"; } s += "</METADATA>"; SB b; b.x = s; auto m = CreateSubBlockMetadataFromSubBlock(&b); sym_assert(m && m->IsXmlValid(), "well-formed"); wstring w; bool r = m->TryGetAttachmentDataFormat(&w); sym_assert(r == (f == 1) && (!r || w == L"CHUNKCONTAINER"), "the format is the one stated"); bool hx = f != 2 && x, hy = f != 2 && y; std::tuple<double, double> st(-1., -1.); r = m->TryGetStagePositionFromTags(&st); sym_assert(r == (hx && hy && x != 3 && y != 3), "exactly complete positions are reported"); if (r) sym_assert(std::get<0>(st) == D[x] && std::get<1>(st) == D[y], "the position is the one stated"); double d = -1; r = m->TryGetTagAsDouble(L"StageYPosition", &d); sym_assert(r == (hy && y != 3) && (!r || d == D[y]), "the number is the one stated"); r = m->TryGetTagAsString(L"StageXPosition", &w); sym_assert(r == hx && (!r || w == wstring(V[x], V[x] + strlen(V[x]))), "the text is the one stated"); sym_assert(!m->TryGetTagAsString(L"Other", &w) && !m->TryGetTagAsDouble(L"Other", &d), "a missing tag is not reported"); sym_reach("tags"); }
