// C30: enumeration values map to file values and back without loss
#include "sym.h"
#include "libCZI.h"
#include "CziUtils.h"
using namespace libCZI; using namespace libCZI::detail;
static int bpp(int v) { switch (v) { case 0: return 1; case 1: return 2; case 2: return 4; case 3: return 3; case 4: return 6; case 8: return 12; case 9: return 4; case 10: return 16; case 11: return 24; case 12: return 4; case 13: return 8; } return 0; }

HARNESS(c30_pixeltype) {
  int32_t v = sym_i32("v");
  bool known = v == 0 || v == 1 || v == 2 || v == 3 || v == 4 || (v >= 8 && v <= 13);
  PixelType p = CziUtils::PixelTypeFromInt(v);
  sym_assert((p != PixelType::Invalid) == known, "an integer is a valid pixel type exactly if it is one of the documented values");
  if (known) {
    sym_reach("known pixel type");
    sym_assert((int)p == v, "pixel type has the documented numeric value");
    sym_assert(CziUtils::IntFromPixelType(p) == v, "pixel type maps back to the same integer");
    sym_assert(CziUtils::GetBytesPerPel(p) == bpp(v), "bytes per pixel match the pixel type");
    sym_assert(Utils::GetBytesPerPixel(p) == bpp(v), "Utils::GetBytesPerPixel matches the pixel type");
    sym_assert(CziUtils::IsPixelTypeEndianessAgnostic(p) == (v == 0 || v == 3 || v == 9), "only byte-sized channels are endianness agnostic");
  }
}
HARNESS(c30_pixeltype_enum) {
  uint8_t b = sym_u8("p"); int v = b; PixelType p = (PixelType)b;
  bool known = v == 0 || v == 1 || v == 2 || v == 3 || v == 4 || (v >= 8 && v <= 13);
  int i = CziUtils::IntFromPixelType(p);
  if (known) sym_assert(i == v && CziUtils::PixelTypeFromInt(i) == p, "pixel type survives the mapping"); else sym_assert(CziUtils::PixelTypeFromInt(i) == PixelType::Invalid, "an invalid pixel type is not mapped to a valid one");
  bool thrown = false; int bp = -1;
  try { bp = CziUtils::GetBytesPerPel(p); } catch (const std::exception&) { thrown = true; }
  sym_assert(thrown == !known, "size of an unknown pixel type is an error");
  if (known) sym_assert(bp == bpp(v), "bytes per pixel");
}
HARNESS(c30_compression) {
  int32_t v = sym_i32("v");
  bool known = v == 0 || v == 1 || v == 4 || v == 5 || v == 6;
  CompressionMode m = CziUtils::CompressionModeFromInt(v), m2 = Utils::CompressionModeFromRawCompressionIdentifier(v);
  sym_assert((m != CompressionMode::Invalid) == known, "compression known exactly for documented values");
  sym_assert(m == m2, "public utility and reader agree");
  if (known) { sym_reach("known compression"); sym_assert((int)m == v && CziUtils::CompressionModeToInt(m) == v, "compression mode maps back"); sym_assert(Utils::CompressionModeToCompressionIdentifier(m) == v, "public utility maps back"); }
  uint8_t b = sym_u8("m"); bool k2 = b == 0 || b == 1 || b == 4 || b == 5 || b == 6;
  int i = CziUtils::CompressionModeToInt((CompressionMode)b);
  if (k2) sym_assert(i == b, "mode to integer"); else sym_assert(CziUtils::CompressionModeFromInt(i) == CompressionMode::Invalid, "unknown mode is not mapped to a known one");
}
HARNESS(c30_pyramid) {
  uint8_t b = sym_u8("b");
  SubBlockPyramidType t = CziUtils::PyramidTypeFromByte(b);
  sym_assert((t != SubBlockPyramidType::Invalid) == (b <= 2), "pyramid type known exactly for 0, 1, 2");
  if (b <= 2) { sym_assert((int)t == b && CziUtils::ByteFromPyramidType(t) == b, "pyramid type maps back"); }
  else { sym_reach("invalid pyramid type"); sym_assert(CziUtils::ByteFromPyramidType((SubBlockPyramidType)b) == 0, "an unknown pyramid type is written as 'none'"); }
}
HARNESS(c30_dimension) {
  int d = sym_range(0, 20, "dim"); DimensionIndex di = (DimensionIndex)d;
  char c = Utils::DimensionToChar(di);
  bool valid = d >= (int)DimensionIndex::MinDim && d <= (int)DimensionIndex::MaxDim;
  static const char names[] = "?ZCTRSIHVB";
  if (valid) { sym_assert(c == names[d], "dimension letter"); sym_assert(Utils::CharToDimension(c) == di, "letter maps back to the dimension"); sym_assert(Utils::CharToDimension((char)(c + 32)) == di, "lower-case letter maps to the dimension"); }
  else sym_assert(c == '?', "no letter for other values");
  char ch = (char)sym_u8("ch"); bool isname = false; char up = (ch >= 'a' && ch <= 'z') ? (char)(ch - 32) : ch; for (int i = 1; i < 10; ++i) isname |= up == names[i];
  sym_assert((Utils::CharToDimension(ch) != DimensionIndex::invalid) == isname, "only dimension letters denote a dimension");
}
