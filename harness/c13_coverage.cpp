// C13: visibility pruning never drops a tile which contributes a pixel
// @bounds coverage of an arbitrary point: one rectangle with arbitrary 32-bit fields, 2 and 3 rectangles (4 in thorough) with coordinates and sizes 0..15 (for 3: one fixed and two within 0..3, without the restriction in thorough) (every relative order of the edges), in any order; areas: 1 and 2 rectangles with coordinates within -2..5 and a query rectangle of up to 5x4 pixels, and large rectangles (up to 2^31-1 wide and high); visibility: 2 and 3 tiles (4 in thorough) with coordinates and sizes 0..7 and 0..3 (0..15 in thorough; for 3 tiles in quick the last painted one is fixed), a region of 3 shapes and an arbitrary point of it; visible-only: 2 tiles (3 in thorough), 3x2 region
// @assume the right and bottom edges of rectangles are representable as int
#include "common.h"
#include "utilities.h"
#include "SingleChannelAccessorBase.h"
using namespace libCZI; using namespace libCZI::detail; using namespace h;
struct Acc : public CSingleChannelAccessorBase { using CSingleChannelAccessorBase::CheckForVisibilityCore; };
static IntRect anyRect(const char* n, int m = 0) { if (m) return IntRect{sym_range(0, m, n), sym_range(0, m, n), sym_range(0, m, n), sym_range(0, m, n)}; IntRect r{sym_i32(n), sym_i32(n), sym_i32(n), sym_i32(n)}; sym_assume(((int64_t)r.x + r.w <= INT32_MAX) & ((int64_t)r.y + r.h <= INT32_MAX)); return r; }
static bool has(const IntRect& r, int x, int y) { return (x >= r.x) & ((int64_t)x < (int64_t)r.x + r.w) & (y >= r.y) & ((int64_t)y < (int64_t)r.y + r.h) & (r.w > 0) & (r.h > 0); }
// how two rectangles lie to each other in one direction
static void relation(int k, int a, int la, int b, int lb) { int64_t ae = (int64_t)a + la, be = (int64_t)b + lb; int c[6] = {(b >= a) & (be <= ae), (b < a) & (be > ae), (b < a) & (be <= ae) & (be > a), (b >= a) & (be > ae) & (b < ae), (be <= a) & (b < a), (b >= ae) & (be > ae)}; for (int i = 0; i < k; ++i) sym_assume(!c[i]); if (k < 6) sym_assume(c[k]); }
static void point(int n, int m, bool fix = false) {
  int k = sym_pick(49, "relation of the first two"); IntRect r[4]; for (int i = 0; i < n; ++i) r[i] = fix && i == 0 ? IntRect{1, 1, 2, 2} : anyRect("r", m); if (n > 1) { relation(k % 7, r[0].x, r[0].w, r[1].x, r[1].w); relation(k / 7, r[0].y, r[0].h, r[1].y, r[1].h); } else if (k) return;
  int x = m ? sym_range(0, 2 * m + 1, "px") : sym_i32("px"), y = m ? sym_range(0, 2 * m + 1, "py") : sym_i32("py"); sym_assume((x < INT32_MAX) & (y < INT32_MAX)); RectangleCoverageCalculator c; bool in = false; for (int i = 0; i < n; ++i) { c.AddRectangle(r[i]); in |= has(r[i], x, y); }
  IntRect q{x, y, 1, 1}; int64_t area = c.CalcAreaOfIntersectionWithRectangle(q); bool cov = c.IsCompletelyCovered(q); sym_assert(area == (in ? 1 : 0), "a point is counted once if it is in one of the rectangles, and not at all otherwise"); sym_assert(cov == in, "a point is covered exactly if it is in one of the rectangles"); sym_reach("point");
}
// @job time=300 shards=7
HARNESS(c13_point_two) { point(2, 15); }
// @job time=60
HARNESS(c13_point_one) { point(1, 0); }
// @job time=500 shards=16
HARNESS(c13_point_three) { point(3, 3, true); }
// @job thorough time=2500 shards=49
HARNESS(c13_point_three_wide) { point(3, 15); }
// @job thorough time=2500 shards=49
HARNESS(c13_point_three_any) { point(3, 3); }
// @job thorough time=2500 shards=49
HARNESS(c13_point_four) { point(4, 3); }
static IntRect smallRect(const char* n) { IntRect r{sym_range(-2, 5, n), sym_range(-2, 5, n), sym_range(-1, 6, n), sym_range(-1, 6, n)}; return r; }
// @job time=300 shards=12
HARNESS(c13_area) {
  int k = sym_pick(12, "case"); static const IntRect Q[6] = {{0, 0, 5, 4}, {1, -1, 1, 4}, {0, 2, 5, 1}, {2, 2, 2, 2}, {3, 3, 0, 2}, {1, 1, -1, 3}}; IntRect q = Q[k % 6], r[3]; int n = 1 + k / 6; RectangleCoverageCalculator c; for (int i = 0; i < n; ++i) { r[i] = smallRect("r"); c.AddRectangle(r[i]); } int64_t e = 0; bool all = true; for (int y = q.y; y < q.y + q.h; ++y) for (int x = q.x; x < q.x + q.w; ++x) { bool in = false; for (int i = 0; i < n; ++i) in |= has(r[i], x, y); e += in; all &= in; }
  sym_assert(c.CalcAreaOfIntersectionWithRectangle(q) == e, "the area is the number of points of the query rectangle which are in one of the rectangles"); sym_assert(c.IsCompletelyCovered(q) == all, "completely covered exactly if every point is"); sym_reach("area");
}
// areas beyond 32 bits
// @job time=60
HARNESS(c13_large) { static const int S[5] = {1, 2, 65536, 0x40000001, INT32_MAX}; int w = S[sym_pick(5, "w")], h_ = S[sym_pick(5, "h")], x = sym_range(0, INT32_MAX - w, "x"), y = sym_range(0, INT32_MAX - h_, "y"); IntRect r{x - (sym_pick(2, "neg") ? 0 : 5), y, w, h_}; RectangleCoverageCalculator c; int two = sym_pick(2, "split"); if (two && w > 1) { c.AddRectangle(IntRect{r.x, r.y, w / 2, h_}); c.AddRectangle(IntRect{r.x + w / 2, r.y, w - w / 2, h_}); } else c.AddRectangle(r); sym_assert(c.CalcAreaOfIntersectionWithRectangle(r) == (int64_t)w * h_, "the area of a large rectangle"); sym_assert(c.IsCompletelyCovered(r), "a large rectangle is covered by itself"); if (w < INT32_MAX && r.x > INT32_MIN) sym_assert(!c.IsCompletelyCovered(IntRect{r.x - 1, r.y, w + 1, h_}), "a larger one is not"); sym_reach("large"); }
static void visible(int n, bool only, int m = 15, bool fix = false) {
  int k = sym_pick(only ? 3 : 49, "relation"); IntRect r[4], roi{0, 0, 3 - k % 3, 1 + k % 2}; for (int i = 0; i < n; ++i) r[i] = only ? IntRect{sym_range(-1, 2, "x"), sym_range(-1, 1, "y"), sym_range(0, 3, "w"), sym_range(0, 3, "h")} : fix && i == n - 1 ? IntRect{1, 1, 2, 2} : anyRect("r", m); int x = 0, y = 0; if (!only) { relation(k % 7, r[n - 1].x, r[n - 1].w, r[n - 2].x, r[n - 2].w); relation(k / 7, r[n - 1].y, r[n - 1].h, r[n - 2].y, r[n - 2].h); x = sym_range(0, 2 * m + 1, "px"); y = sym_range(0, 2 * m + 1, "py"); static const int W[] = {1, 3, 1000}; int g = n > 2 ? 1 : sym_pick(3, "roi"); roi = IntRect{sym_range(0, 2 * m + 1, "roi"), sym_range(0, 2 * m + 1, "roi"), W[g], W[2 - g]}; sym_assume(has(roi, x, y)); }
  int calls = 0; auto res = Acc::CheckForVisibilityCore(roi, n, [&](int i) { sym_assert(i >= 0 && i < n, "asked for an existing tile"); ++calls; return 100 + 7 * i; }, [&](int s) { return r[(s - 100) / 7]; }); bool used[4] = {}; int last = -1; for (int i : res) { sym_assert(i > last && i < n, "each tile once, in order of painting"); last = i; used[i] = true; }
  if (!only) { int top = -1; for (int i = 0; i < n; ++i) if (has(r[i], x, y)) top = i; if (top >= 0) { sym_assert(used[top], "a tile which is on top at some point of the region is kept"); sym_reach("visible"); } else sym_reach("background"); }
  else for (int i = 0; i < n; ++i) { bool vis = false; for (int yy = 0; yy < roi.h; ++yy) for (int xx = 0; xx < roi.w; ++xx) { bool v = has(r[i], xx, yy); for (int j = i + 1; j < n; ++j) v &= !has(r[j], xx, yy); vis |= v; } sym_assert(used[i] == vis, "a tile is kept exactly if one of its pixels is visible"); } sym_reach("decided");
}
// @job time=400 shards=8
HARNESS(c13_visible_two) { visible(2, false, 7); }
// @job time=500 shards=16
HARNESS(c13_visible_three) { visible(3, false, 3, true); }
// @job thorough time=2500 shards=49
HARNESS(c13_visible_three_any) { visible(3, false, 3); }
// @job thorough time=2500 shards=49
HARNESS(c13_visible_three_wide) { visible(3, false); }
// @job thorough time=2500 shards=49
HARNESS(c13_visible_four) { visible(4, false, 3); }
// @job time=400 shards=3
HARNESS(c13_visible_only) { visible(2, true); }
// @job thorough time=1500 shards=3
HARNESS(c13_visible_only_three) { visible(3, true); }
// no tiles, or an empty region
// @job time=30
HARNESS(c13_visible_none) { int n = sym_pick(2, "n"); IntRect roi{sym_i32("x"), sym_i32("y"), sym_i32("w"), sym_i32("h")}; if (n) sym_assume((roi.w <= 0) | (roi.h <= 0)); auto res = Acc::CheckForVisibilityCore(roi, n, [](int) { return 0; }, [](int) { return IntRect{0, 0, 5, 5}; }); sym_assert(res.empty(), "nothing is visible"); sym_reach("none"); }
