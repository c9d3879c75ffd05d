// C34: what the metadata says about a document is what was put there
// @bounds documents of 2 sub-blocks in up to 2 channels with all pixel types, sizes and indices within 255 of chosen values, channel names with one arbitrary character; scaling and display settings with chosen numbers and colours (all colours: see C33); dates with all values of one field at a time
#include "md.h"
#include "libCZI_Metadata2.h"
// the prepared metadata of a document describes its sub-blocks
// @job time=200 shards=4
HARNESS(c34_prepared) { int k = sym_pick(4, "case"); static const PixelType P[11] = {PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat, PixelType::Gray32, PixelType::Gray64Float}; Tile t[2]; t[1].x = 2; t[0].c = 0; t[1].c = k == 3 ? kNo : 1; if (k == 3) t[0].c = kNo; if (k == 0) { t[0].pt = t[1].pt = PixelType::Gray8; t[1].x = (int)sym_u8("x"); t[0].m = 0; t[1].m = sym_u8("m"); t[1].t = t[0].t = 1; t[1].t = 1 + sym_pick(3, "t"); } int a = k == 1 ? sym_pick(9, "pixel type") : 0, z = k == 2 ? sym_pick(9, "pixel type") : 0; if (k == 1) t[0].pt = P[a]; if (k == 2) t[1].pt = P[z]; if (k == 3) { z = a = sym_pick(9, "pixel type"); t[0].pt = t[1].pt = P[a]; } static uint8_t big[256]; 
  static DocStream ms; ms.size = 0; auto st = ref<DocStream>(&ms); auto w = CreateCZIWriter(); w->Create(st, std::make_shared<CCziWriterInfo>()); for (int i = 0; i < 2; ++i) { t[i].npx = 4 * (t[i].pt == PixelType::Gray64ComplexFloat ? 8 : t[i].pt == PixelType::Bgr192ComplexFloat ? 24 : t[i].pt == PixelType::Bgr96Float ? 12 : bpp(t[i].pt)); AddSubBlockInfoMemPtr ad; fillAdd(ad, t[i]); ad.ptrData = big; ad.dataSize = (uint32_t)t[i].npx; w->SyncAddSubBlock(ad); }
  bool named = sym_pick(2, "named"); string nm = "n"; if (named) { uint8_t ch = sym_u8("name"); sym_assume(ch >= 32 && ch < 127); nm += (char)ch; } PrepareMetadataInfo pi; if (named) pi.funcGenerateIdAndNameForChannel = [&](int c) { return std::make_tuple(string("Channel:") + (char)('0' + c), std::make_tuple(c == 1, nm)); };
  auto b = w->GetPreparedMetadata(pi); auto m = reread(b.get()); auto d = m->GetDocumentInfo(); auto im = m->GetChildNodeReadonly("ImageDocument/Metadata/Information/Image"); int32_t v = -1; int W = t[1].x + 2 > 2 ? t[1].x + 2 : 2; sym_assert(im && im->GetChildNodeReadonly("SizeX") && im->GetChildNodeReadonly("SizeX")->TryGetValueAsInt32(&v) && v == W, "the width of the document"); sym_assert(im->GetChildNodeReadonly("SizeY") && im->GetChildNodeReadonly("SizeY")->TryGetValueAsInt32(&v) && v == 2, "the height of the document"); auto sm = im->GetChildNodeReadonly("SizeM"); if (k == 0) sym_assert(sm && sm->TryGetValueAsInt32(&v) && v == t[1].m + 1, "the number of M-indices"); else sym_assert(!sm, "no M-indices");
  int s0 = -1, e0 = -1; auto dc = d->GetDimensionInfo(DimensionIndex::C); sym_assert(!!dc == (k != 3), "the channel dimension is reported if there is one"); if (dc) { dc->GetInterval(&s0, &e0); sym_assert(dc->GetDimension() == DimensionIndex::C && s0 == 0 && e0 == 2, "the number of channels"); } auto dt = d->GetDimensionInfo(DimensionIndex::T); sym_assert(!!dt == (k == 0), "the time dimension is reported if there is one"); if (dt) { dt->GetInterval(&s0, &e0); sym_assert(e0 - s0 == t[1].t, "the number of time points"); } sym_assert(!d->GetDimensionInfo(DimensionIndex::Z), "no other dimensions");
  auto ci = d->GetDimensionChannelsInfo(); sym_assert(!!ci == (k != 3), "channels are described"); PixelType pt; wstring s; if (ci) { sym_assert(ci->GetChannelCount() == 2, "all channels are described"); for (int c = 0; c < 2; ++c) { auto x = ci->GetChannel(c); wstring id = L"Channel:"; id += (wchar_t)('0' + c); sym_assert(x->TryGetPixelType(&pt) && pt == t[c].pt, "the pixel type of the channel"); sym_assert(x->TryGetAttributeId(&s) && s == id, "the id of the channel"); bool hn = x->TryGetAttributeName(&s); sym_assert(hn == (named && c == 1) && (!hn || s == wstring(nm.begin(), nm.end())), "the name of the channel"); } } auto ip = im->GetChildNodeReadonly("PixelType"); sym_assert(ip && ip->TryGetValue(&s), "the pixel type of the image"); w->Close(); sym_reach("prepared"); }
// scaling
// @job time=100 shards=1
HARNESS(c34_scaling) { static const double V[4] = {1.5e-7, 2.25e-7, 0.5, 12345.678}; double nan = std::numeric_limits<double>::quiet_NaN(); ScalingInfoEx s; int k = sym_pick(8, "which"), o = sym_pick(4, "value"); s.scaleX = k & 1 ? V[o] : nan; s.scaleY = k & 2 ? V[(o + 1) % 4] : nan; s.scaleZ = k & 4 ? V[(o + 2) % 4] : nan; wstring u = L"m"; u += cp(); int f = sym_pick(4, "unit"); s.defaultUnitFormatX = f == 0 ? u : wstring(); s.defaultUnitFormatY = f == 1 ? u : wstring(L"q"); s.defaultUnitFormatZ = f == 2 ? u : wstring(); bool ex = sym_pick(2, "extended"); auto b = CreateMetadataBuilder(); if (ex) MetadataUtils::WriteScalingInfoEx(b.get(), s); else MetadataUtils::WriteScalingInfo(b.get(), s); auto d = reread(b.get())->GetDocumentInfo(); auto r = d->GetScalingInfoEx(); auto q = d->GetScalingInfo(); auto eq = [](double a, double b) { return a == b || (a != a && b != b); }; sym_assert(eq(r.scaleX, s.scaleX) && eq(r.scaleY, s.scaleY) && eq(r.scaleZ, s.scaleZ) && eq(q.scaleX, s.scaleX) && eq(q.scaleY, s.scaleY) && eq(q.scaleZ, s.scaleZ), "the scaling read is the one written"); if (ex) sym_assert(r.defaultUnitFormatX == s.defaultUnitFormatX && r.defaultUnitFormatY == s.defaultUnitFormatY && r.defaultUnitFormatZ == s.defaultUnitFormatZ, "the units read are those written"); sym_reach("scaling"); }
// display settings
static const Rgb8Color kCol[4] = {{0xff, 0, 0x80}, {0, 0x0a, 0xa0}, {0x12, 0xfe, 0x09}, {0, 0, 0}};
// @job time=200 shards=4
HARNESS(c34_display) { int n = 1 + sym_pick(2, "channels"); int g = sym_pick(3, "gradation"), tint = sym_pick(2, "tinting"); DisplaySettingsPOD pod; static const float L[3] = {0.25f, 0.125f, 0.5f}; int o = sym_pick(3, "numbers"); for (int i = 0; i < n; ++i) { ChannelDisplaySettingsPOD c; c.Clear(); c.isEnabled = sym_pick(2, "enabled"); bool me = i == n - 1; c.tintingMode = tint && me ? IDisplaySettings::TintingMode::Color : IDisplaySettings::TintingMode::None; c.tintingColor = tint && me ? kCol[sym_pick(4, "colour")] : Rgb8Color{1, 2, 3}; c.blackPoint = L[(o + i) % 3]; c.whitePoint = 0.75f + L[(o + i + 1) % 3] / 4; if (me && g == 1) { c.gradationCurveMode = IDisplaySettings::GradationCurveMode::Gamma; c.gamma = 0.5f + L[o]; } if (me && g == 2) { c.gradationCurveMode = IDisplaySettings::GradationCurveMode::Spline; c.splineCtrlPoints = {{0.25, 0.5}, {0.7312547891, L[o]}}; } pod.channelDisplaySettings[i] = c; }
  auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(pod); auto b = CreateMetadataBuilder(); if (sym_pick(2, "before")) b->GetRootNode()->GetOrCreateChildNode("Metadata/DisplaySetting/Channels/Channel[Id=old]/Low")->SetValue("0.9"); std::map<int, PixelType> pm; pm[0] = PixelType::Gray16; MetadataUtils::WriteDisplaySettings(b.get(), ds.get(), &pm); auto r = reread(b.get())->GetDocumentInfo()->GetDisplaySettings(); sym_assert(!!r, "display settings are found"); if (!r) return; DisplaySettingsPOD q; IDisplaySettings::Clone(r.get(), q); sym_assert(q.channelDisplaySettings.size() == (size_t)n, "all channels are there"); for (int i = 0; i < n; ++i) { auto& x = pod.channelDisplaySettings[i]; auto& y = q.channelDisplaySettings[i]; sym_assert(x.isEnabled == y.isEnabled, "the channel is enabled as before"); sym_assert(x.tintingMode == y.tintingMode && (x.tintingMode != IDisplaySettings::TintingMode::Color || (x.tintingColor.r == y.tintingColor.r && x.tintingColor.g == y.tintingColor.g && x.tintingColor.b == y.tintingColor.b)), "the tinting colour comes back"); sym_assert(x.blackPoint == y.blackPoint && x.whitePoint == y.whitePoint, "black and white point come back"); sym_assert(x.gradationCurveMode == y.gradationCurveMode, "the kind of gradation curve comes back"); if (x.gradationCurveMode == IDisplaySettings::GradationCurveMode::Gamma) sym_assert(x.gamma == y.gamma, "gamma comes back"); if (x.gradationCurveMode == IDisplaySettings::GradationCurveMode::Spline) sym_assert(x.splineCtrlPoints == y.splineCtrlPoints, "the spline points come back"); } sym_reach("display"); }
// custom key-value pairs
static bool word(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
// @job time=200 shards=1
HARNESS(c34_custom) { int n = sym_pick(6, "length"), ty = sym_pick(2, "type") ? 2 : 0; char key[8] = {}; for (int i = 0; i < n; ++i) { uint8_t c = sym_u8("key"); sym_assume(c > 0 && c < 128); key[i] = n >= 4 && i == n - 2 ? 'a' : (char)c; } bool ok = n > 0 && word(key[0]) && !(key[0] >= '0' && key[0] <= '9'); for (int i = 1; i < n; ++i) ok = ok && word(key[i]); if (n >= 3 && (key[0] | 32) == 'x' && (key[1] | 32) == 'm' && (key[2] | 32) == 'l') ok = false; auto b = CreateMetadataBuilder(); bool thrown = false; try { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), string(key, n), ty ? CustomValueVariant(true) : CustomValueVariant("v")); } catch (std::invalid_argument&) { thrown = true; } sym_assert(thrown == !ok, "exactly names which are valid element names are accepted"); if (!thrown) { string p = "ImageDocument/Metadata/Information/CustomAttributes/KeyValue/"; p += key; auto r = reread(b.get())->GetChildNodeReadonly(p.c_str()); wstring s; sym_assert(r && r->TryGetAttribute(L"Type", &s) && s == (ty ? L"Boolean" : L"String"), "the type of the value is recorded"); sym_assert(r->TryGetValue(&s) && s == (ty ? L"true" : L"v"), "the value is recorded"); } sym_reach("custom"); }
// @job time=200 shards=1
HARNESS(c34_custom_value) { int ty = sym_pick(5, "type"); CustomValueVariant v; int32_t i = 0; bool bo = false; string s = "x"; double d = 0.1; float f = 0.3f; if (ty == 0) { i = (int32_t)near(); v = CustomValueVariant(i); } else if (ty == 1) { bo = sym_u8("value") & 1; v = CustomValueVariant(bo); } else if (ty == 2) { uint8_t c = sym_u8("value"); sym_assume(c > 0 && c < 128 && c != 13); s += (char)c; v = CustomValueVariant(s); } else if (ty == 3) { static const double D[3] = {0.1, -12345.6789, 1e-9}; d = D[sym_pick(3, "double")]; v = CustomValueVariant(d); } else { static const float F[3] = {0.3f, -12.5f, 1e-9f}; f = F[sym_pick(3, "float")]; v = CustomValueVariant(f); } auto b = CreateMetadataBuilder(); if (sym_pick(2, "replace")) MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "K", CustomValueVariant("old")); MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "K", v); auto r = reread(b.get())->GetChildNodeReadonly("ImageDocument/Metadata/Information/CustomAttributes/KeyValue/K"); sym_assert(!!r, "the value is found"); wstring w; static const wchar_t* T[5] = {L"Int32", L"Boolean", L"String", L"Double", L"Float"}; sym_assert(r->TryGetAttribute(L"Type", &w) && w == T[ty], "the type of the value is recorded"); int32_t i2; bool b2; double d2; float f2; sym_assert(ty == 0 ? r->TryGetValueAsInt32(&i2) && i2 == i : ty == 1 ? r->TryGetValueAsBool(&b2) && b2 == bo : ty == 2 ? r->TryGetValue(&w) && w == wstring(s.begin(), s.end()) : ty == 3 ? r->TryGetValueAsDouble(&d2) && d2 == d : r->TryGetValueAsFloat(&f2) && f2 == f, "the value read is the one written"); sym_reach("custom"); }
// what the Z- and T-dimension is said to be
static std::shared_ptr<IXmlNodeRead> at(ICziMetadata* m, const char* p) { string s = "ImageDocument/Metadata/Information/Dimensions/"; s += p; return m->GetChildNodeReadonly(s.c_str()); }
static bool dbl(ICziMetadata* m, const char* p, double v) { auto n = at(m, p); double d; return n && n->TryGetValueAsDouble(&d) && d == v; }
// @job time=100 shards=1
HARNESS(c34_zt_write) { int k = sym_pick(4, "kind"), miss = sym_pick(4, "missing"); double nan = std::numeric_limits<double>::quiet_NaN(), a = miss == 1 ? nan : 1.5, b1 = miss == 2 ? nan : -2.25, c = miss == 3 ? nan : 0.1; XmlDateTime dt; dt.Clear(); dt.year = 2001; dt.mon = 2; dt.mday = 3; dt.hour = 4; dt.min = 5; dt.sec = 6; dt.isUTC = true; auto off = [&](int i) { return i == 0 ? 1.5 : i == 1 ? 2.75 : nan; }; auto b = CreateMetadataBuilder(); if (k == 0) MetadataUtils::WriteDimInfoZ_Interval(b.get(), a, b1, c); else if (k == 1) MetadataUtils::WriteDimInfoZ_List(b.get(), a, off); else if (k == 2) MetadataUtils::WriteDimInfoT_Interval(b.get(), miss == 1 ? nullptr : &dt, b1, c); else MetadataUtils::WriteDimInfoT_List(b.get(), miss == 1 ? nullptr : &dt, off); auto m = reread(b.get()); bool z = k < 2; wstring w; auto md = m.get(); if (z) sym_assert(a != a ? !at(md, "Z/StartPosition") : dbl(md, "Z/StartPosition", a), "the start position of Z"); else { auto n = at(md, "T/StartTime"); sym_assert(miss == 1 ? !n : n && n->TryGetValue(&w) && w == L"2001-02-03T04:05:06Z", "the start time"); } if (k == 0) { sym_assert((b1 != b1 ? !at(md, "Z/Positions/Interval/Start") : dbl(md, "Z/Positions/Interval/Start", b1)) && (c != c ? !at(md, "Z/Positions/Interval/Increment") : dbl(md, "Z/Positions/Interval/Increment", c)), "the interval of Z"); } else if (k == 2) { sym_assert((b1 != b1 ? !at(md, "T/Positions/Interval/Start") : dbl(md, "T/Positions/Interval/Start", b1)) && (c != c ? !at(md, "T/Positions/Interval/Increment") : dbl(md, "T/Positions/Interval/Increment", c)), "the interval of T"); } else { auto n = at(md, z ? "Z/Positions/List/Offsets" : "T/Positions/List/Offsets"); sym_assert(n && n->TryGetValue(&w) && w == L"1.5 2.75", "the list of positions"); } sym_assert(!at(md, z ? "T" : "Z"), "nothing is said about the other dimension"); sym_reach("zt"); }
static string utf(const wchar_t* s) { string r; for (; *s; ++s) r += (char)*s; return r; }
// @job time=200 shards=4
HARNESS(c34_zt_read) { int k = sym_pick(8, "case"); auto b = CreateMetadataBuilder(); auto r = b->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Image/Dimensions"); static const wchar_t* H[4] = {L"LeftHanded", L"RightHanded", L"Undefined", L"Wrong"}; static const wchar_t* D[4] = {L"FromSpecimenToObjective", L"FromObjectiveToSpecimen", L"Undefined", L"Wrong"}; static const wchar_t* M[3] = {L"Continuous", L"Step", L"Wrong"}; int h = 0, d = 1, z = 1; const wchar_t* sd = L"2.5"; const wchar_t* of = L"1 2.5 -3"; bool lst = false; bool t = k == 7; if (k == 0) h = sym_pick(4, "handedness"); if (k == 1) d = sym_pick(4, "direction"); if (k == 2) z = sym_pick(3, "mode"); static const struct { const wchar_t* s; bool ok; double v; } S[8] = {{L"2.5", true, 2.5}, {L" 2.5 ", true, 2.5}, {L"x", false, 0}, {L"2.5x", false, 0}, {L"1e999", false, 0}, {L"", false, 0}, {L"-1e-999", false, 0}, {L"2.5 mm", true, 2.5}}; int q = 0; if (k == 3) q = sym_pick(8, "speed"); static const struct { const wchar_t* s; int n; } O[7] = {{L"1 2.5 -3", 3}, {L"7", 1}, {L"1 x 3", 1}, {L"1 1e999 3", 1}, {L"", 0}, {L"1 2.5x", 1}, {L"1e-999 1", 0}}; int oi = 0; if (k == 4 || k == 5 || t) { lst = true; oi = sym_pick(7, "list"); } bool half = false; if (k == 6) half = sym_pick(2, "incomplete");
  auto set = [&](const char* p, const wchar_t* v) { r->GetOrCreateChildNode(p)->SetValue(v); }; set("Z/StartPosition", L"11.5"); set("Z/XYZHandedness", H[h]); set("Z/ZAxisDirection", D[d]); set("Z/ZDriveMode", M[z]); set("Z/ZDriveSpeed", S[q].s); if (lst) { set("Z/Positions/List/Offsets", O[oi].s); set("T/Positions/List/Offsets", O[oi].s); } else { set("Z/Positions/Interval/Start", L"3.5"); if (!half) set("Z/Positions/Interval/Increment", L"0.25"); set("T/Positions/Interval/Start", L"4.5"); if (!half) set("T/Positions/Interval/Increment", L"0.75"); } set("T/StartTime", L"2001-02-03T04:05:06");
  auto m = reread(b.get()); auto di = m->GetDocumentInfo(); auto zi = di->GetDimensionZInfo(); auto ti = di->GetDimensionTInfo(); sym_assert(zi && ti, "both dimensions are described"); double x = 0, y = 0; sym_assert(zi->TryGetReferencePosition(&x) && x == 11.5, "the start position of Z"); IDimensionZInfo::XyzHandedness hh; IDimensionZInfo::ZaxisDirection dd; IDimensionZInfo::ZDriveMode mm; bool ok = zi->TryGetXyzHandedness(&hh); sym_assert(ok == (h < 3) && (!ok || hh == (h == 0 ? IDimensionZInfo::XyzHandedness::LeftHanded : h == 1 ? IDimensionZInfo::XyzHandedness::RightHanded : IDimensionZInfo::XyzHandedness::Undefined)), "the handedness"); ok = zi->TryGetZAxisDirection(&dd); sym_assert(ok == (d < 3) && (!ok || dd == (d == 0 ? IDimensionZInfo::ZaxisDirection::FromSpecimenToObjective : d == 1 ? IDimensionZInfo::ZaxisDirection::FromObjectiveToSpecimen : IDimensionZInfo::ZaxisDirection::Undefined)), "the direction of the axis"); ok = zi->TryGetZDriveMode(&mm); sym_assert(ok == (z < 2) && (!ok || mm == (z == 0 ? IDimensionZInfo::ZDriveMode::Continuous : IDimensionZInfo::ZDriveMode::Step)), "the mode of the drive"); ok = zi->TryZDriveSpeed(&x); sym_assert(ok == S[q].ok && (!ok || x == S[q].v), "the speed of the drive");
  std::vector<double> zv, tv; static const double E[3] = {1, 2.5, -3}; bool zl = zi->TryGetPositionList(&zv), tl = ti->TryGetOffsetsList(&tv), iv = zi->TryGetIntervalDefinition(&x, &y); sym_assert(zl == lst && tl == lst && iv == !lst, "positions are a list or an interval"); if (lst) { bool same = (int)zv.size() == O[oi].n && tv == zv; for (int i = 0; i < O[oi].n && same; ++i) same = zv[i] == (oi == 1 ? 7 : E[i]); sym_assert(same, "the positions are those up to the first error"); } else { sym_assert(x == 3.5 && y == (half ? 0 : 0.25), "the interval of Z"); sym_assert(ti->TryGetIntervalDefinition(&x, &y) && x == 4.5 && y == (half ? 0 : 0.75), "the interval of T"); } XmlDateTime dt; sym_assert(ti->TryGetStartTime(&dt) && dt.year == 2001 && dt.mon == 2 && dt.mday == 3 && dt.hour == 4 && dt.min == 5 && dt.sec == 6, "the start time"); sym_reach("zt"); }
// dates: every field takes all its values, the others are fixed
// @job time=200 shards=8
HARNESS(c34_date) { sym_fmt = true; int k = sym_pick(8, "field"); XmlDateTime d; d.Clear(); d.year = 1999; d.mon = 2; d.mday = 28; d.hour = 12; d.min = 34; d.sec = 56; int v = (int)(int8_t)sym_u8("value"); bool ok; if (k == 0) { static const int Y[6] = {0, -120, 1900, 9900, -9999, -1}; v = Y[sym_pick(6, "year")] + (int)sym_u8("low") % 100; sym_assume(v < 10000); d.year = v; d.mday = 28 + sym_pick(2, "leap"); bool leap = (v % 4 == 0 && v % 100 != 0) || v % 400 == 0; ok = d.mday == 28 || leap; } else if (k == 1) { d.mon = v; ok = v >= 1 && v <= 12; } else if (k == 2) { d.mon = 1 + sym_pick(12, "month"); d.mday = v; int n = d.mon == 2 ? 28 : d.mon == 4 || d.mon == 6 || d.mon == 9 || d.mon == 11 ? 30 : 31; ok = v >= 1 && v <= n; } else if (k == 3) { d.hour = v; ok = v >= 0 && v < 24; } else if (k == 4) { d.min = v; ok = v >= 0 && v < 60; } else if (k == 5) { d.sec = v; ok = v >= 0 && v <= 60; } else if (k == 6) { d.offsetHours = v; d.offsetMinutes = 30; d.isUTC = sym_pick(2, "utc"); ok = true; } else { d.offsetMinutes = v; d.offsetHours = -3; ok = true; }
  sym_assert(d.IsValid() == ok, "exactly dates which exist are valid"); bool thrown = false; string s; try { s = d.ToXmlString(); } catch (std::invalid_argument&) { thrown = true; } sym_assert(thrown == !ok, "exactly dates which exist have a text"); if (ok && !(k == 5 && v == 60)) { XmlDateTime r; r.Clear(); sym_assert(XmlDateTime::TryParse(s.c_str(), &r), "the text of a date is one"); sym_assert(r.year == d.year && r.mon == d.mon && r.mday == d.mday && r.hour == d.hour && r.min == d.min && r.sec == d.sec && r.isUTC == d.isUTC, "the text denotes the date"); bool off = d.HasTimeZoneOffset(); sym_assert(off == r.HasTimeZoneOffset() && (!off || (r.offsetHours == d.offsetHours && r.offsetMinutes == d.offsetMinutes)), "the text denotes the time zone"); } sym_reach("date"); }
static bool dg(const string& s, size_t a, size_t n) { for (size_t i = a; i < a + n; ++i) if (i >= s.size() || s[i] < '0' || s[i] > '9') return false; return true; }
// own reading of a date with a four-digit year
static bool date(string s, int* f) { while (!s.empty() && (s[0] == ' ' || s[0] == '\t')) s.erase(0, 1); while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); int sg = 1; if (!s.empty() && s[0] == '-') { sg = -1; s.erase(0, 1); } if (!dg(s, 0, 4) || s.size() < 19 || s[4] != '-' || !dg(s, 5, 2) || s[7] != '-' || !dg(s, 8, 2) || s[10] != 'T' || !dg(s, 11, 2) || s[13] != ':' || !dg(s, 14, 2) || s[16] != ':' || !dg(s, 17, 2)) return false; auto n2 = [&](size_t i) { return (s[i] - '0') * 10 + s[i + 1] - '0'; }; f[0] = sg * (n2(0) * 100 + n2(2)); f[1] = n2(5); f[2] = n2(8); f[3] = n2(11); f[4] = n2(14); f[5] = n2(17); f[6] = 0; f[7] = f[8] = INT32_MIN; size_t p = 19; if (p < s.size() && s[p] == '.') { size_t q = ++p; while (dg(s, p, 1)) ++p; if (p == q) return false; } if (p < s.size()) { if (s[p] == 'Z') { f[6] = 1; ++p; } else if (s[p] == '+' || s[p] == '-') { if (!dg(s, p + 1, 2) || p + 6 > s.size() || s[p + 3] != ':' || !dg(s, p + 4, 2)) return false; f[7] = n2(p + 1) * (s[p] == '-' ? -1 : 1); f[8] = n2(p + 4); if (n2(p + 1) > 23 || f[8] > 59) return false; p += 6; } else return false; } if (p != s.size()) return false; bool leap = (f[0] % 4 == 0 && f[0] % 100 != 0) || f[0] % 400 == 0; int n = f[1] == 2 ? 28 + leap : f[1] == 4 || f[1] == 6 || f[1] == 9 || f[1] == 11 ? 30 : 31; return f[1] >= 1 && f[1] <= 12 && f[2] >= 1 && f[2] <= n && f[3] < 24 && f[4] < 60 && f[5] < 60; }
// @job time=200 shards=8
HARNESS(c34_date_text) { static const char* P[15] = {"2001-02-03T04:05:06?", "200?-02-2?T04:05:06", "2001-??-03T04:05:06", "2001-02-??T04:05:06", "2001-02-03T??:05:06", "2001-02-03T04:??:06", "2001-02-03T04:05:??", "2001-02-03T04:05:06??", "2001-02-03T04:05:06.??", "2001-02-03T04:05:06?05:30", "2001-02-03T04:05:06-??:30", "2001-02-03T04:05:06+05:??", "?2001-02-03T04:05:06", "2001?02-03?04:05:06", "?000-02-03T04:05:06 ?"}; string s; for (const char* p = P[sym_pick(15, "text")]; *p; ++p) { if (*p == '?') { uint8_t c = sym_u8("char"); sym_assume(c > 0 && c < 128); s += (char)c; } else s += *p; } if (s[0] >= '1' && s[0] <= '9' && s[1] == '2') { sym_reach("date"); return; } XmlDateTime r; r.Clear(); int f[9] = {}; bool want = date(s, f), ok = XmlDateTime::TryParse(s.c_str(), &r); sym_assert(ok == want, "exactly texts which are dates are accepted"); if (ok && want) sym_assert(r.year == f[0] && r.mon == f[1] && r.mday == f[2] && r.hour == f[3] && r.min == f[4] && r.sec == f[5] && r.isUTC == (f[6] != 0) && r.offsetHours == f[7] && r.offsetMinutes == f[8], "the date is the one written"); sym_reach("date"); }
HARNESS(c34_date_year) { static const struct { const char* s; bool ok; } P[4] = {{"99999999999-01-02T03:04:05", false}, {"12345-01-02T03:04:05", false}, {"-99999999999999999999999-01-02T03:04:05", false}, {"-0044-03-15T12:00:00", true}}; auto& p = P[sym_pick(4, "text")]; XmlDateTime r; sym_assert(XmlDateTime::TryParse(p.s, &r) == p.ok, "years which do not fit are rejected"); sym_reach("date"); }
// a text which is not XML is reported, never used
// @job time=200 shards=1
HARNESS(c34_broken) { static const char* P[8] = {"???", "<a>?</a>", "<a?/>", "<?a/>", "<a b='?'/>", "<a>&?;</a>", "<a><b></?></a>", "<a>?"}; string s; int k = sym_pick(8, "text"); for (const char* p = P[k]; *p; ++p) { if (*p == '?') s += (char)sym_u8("byte"); else s += *p; } auto m = parse(s); bool v = m->IsXmlValid(); bool t1 = false, t2 = false, t3 = false; std::shared_ptr<IXmlNodeRead> n; try { auto x = m->GetXml(); } catch (LibCZIXmlParseException&) { t1 = true; } try { auto d = m->GetDocumentInfo(); } catch (LibCZIXmlParseException&) { t2 = true; } try { n = m->GetChildNodeReadonly("a"); } catch (LibCZIXmlParseException&) { t3 = true; } sym_assert(t1 == !v && t2 == !v && t3 == !v, "a document which is not well-formed is reported as such"); bool t4 = false; try { auto b = CreateMetadataBuilderFromXml(s); } catch (LibCZIXmlParseException&) { t4 = true; } if (!v) sym_assert(t4, "no builder is made from a text which is not well-formed"); if (k == 6) { uint8_t c = (uint8_t)s[8]; if (c != 'b') sym_assert(!v, "elements must be closed by their own name"); else sym_assert(v, "a well-formed document is accepted"); } if (k == 7) sym_assert(!v, "elements must be closed"); sym_reach("broken"); }
