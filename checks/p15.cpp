// P15: convolution layouts.
#include "layoutref.h"
#include "lib/Utils/Layout/Convolution.h"
#include "lib/Utils/Layout/Utils.h"
using namespace lr;
using namespace mlir::heir;
using mc::cat;

static MLIRContext* ctx;
static RankedTensorType ty(const Pt& s) { return RankedTensorType::get(s, Float32Type::get(ctx)); }
static bool same(const std::string& key, const Set& got, const Set& want) {
  mc::eval();
  mc::outcome(cat(key, mc::hashStr(show(got, 100000))));
  if (got != want) mc::violate(key, cat(mc::S().cur, ": ", diff(got, want)));
  return got == want;
}
static int64_t outDim(int64_t d, int64_t f, int64_t s, int64_t p) { return d + 2 * p < f ? 0 : (d + 2 * p - f) / s + 1; }

// (f, c, fh, fw) -> (row, col) of the matrix whose product with the flattened image is the convolution.
struct Conv { int64_t F, C, fh, fw, H, W, sh, sw, p, ph = -1; int64_t vp() const { return ph < 0 ? p : ph; } int64_t OH() const { return outDim(H, fh, sh, vp()); } int64_t OW() const { return outDim(W, fw, sw, p); } };
static Set toeplitz(const Conv& k, const std::function<Pt(int64_t, int64_t, int64_t, int64_t)>& coord, const std::function<int64_t(int64_t, int64_t, int64_t)>& row) {
  Set s;
  for (int64_t f = 0; f < k.F; f++) for (int64_t c = 0; c < k.C; c++) for (int64_t oh = 0; oh < k.OH(); oh++) for (int64_t ow = 0; ow < k.OW(); ow++)
    for (int64_t a = 0; a < k.fh; a++) for (int64_t b = 0; b < k.fw; b++) {
      int64_t ih = oh * k.sh - k.vp() + a, iw = ow * k.sw - k.p + b;
      if (ih < 0 || iw < 0 || ih >= k.H || iw >= k.W) continue;
      Pt q = coord(f, c, a, b);
      q.push_back(row(f, oh, ow));
      q.push_back((c * k.H + ih) * k.W + iw);
      s.insert(q);
    }
  return s;
}
// Pixel shuffle: channel f of an (F, OH, OW) tensor goes to sub-pixel (f % g^2) of channel f / g^2.
static int64_t shuffle2(int64_t g, int64_t OH, int64_t OW, int64_t f, int64_t oh, int64_t ow) {
  return ((f / (g * g)) * OH * g + oh * g + (f % (g * g)) / g) * OW * g + ow * g + f % g;
}
static int64_t shuffle1(int64_t g, int64_t OW, int64_t f, int64_t ow) { return (f / g) * OW * g + ow * g + f % g; }

// Where output row r of N lives: replicated with the padded period, over several ciphertexts if need be.
static Set rowsTo(int64_t N, int64_t slots, const std::function<Pt(int64_t)>& coord, const std::function<int64_t(int64_t)>& row) {
  Set w;
  int64_t pad = pow2(N);
  for (int64_t e = 0; e < N; e++)
    for (int64_t s = 0; s < slots; s++) {
      int64_t r = row(e);
      if (s % pad == r % slots) { Pt q = coord(e); q.push_back(r / slots); q.push_back(s); w.insert(q); }
    }
  return w;
}

// End to end: diagonal matrix-vector product of the packed filter with the packed image, read back through the result layout.
static bool endToEnd(const std::string& key, const Conv& k, const Set& filterPts, const Set& resultPts, int64_t slots) {
  int64_t rows = k.F * k.OH() * k.OW(), cols = k.C * k.H * k.W, pc = pow2(cols), pr = pow2(rows);
  if (pr > slots || pc > slots) return true;
  auto fil = [&](const Pt& p) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < 4; i++) h = (h ^ (uint64_t)(p[i] + 1)) * 1099511628211ull; return h; };
  auto img = [&](int64_t i) { return (uint64_t)(i + 3) * 0x9E3779B97F4A7C15ull ^ ((uint64_t)i << 7); };
  int64_t diags = std::min(pr, pc);
  std::vector<std::vector<uint64_t>> M(diags, std::vector<uint64_t>(slots, 0));
  for (auto& p : filterPts) {
    if (p[4] < 0 || p[4] >= diags || p[5] < 0 || p[5] >= slots) { mc::violate(key + ":e2e", cat(mc::S().cur, ": filter point outside the ciphertexts")); return false; }
    M[p[4]][p[5]] = fil(p);
  }
  std::vector<uint64_t> v(slots), out(slots, 0);
  for (int64_t s = 0; s < slots; s++) v[s] = s % pc < cols ? img(s % pc) : 0;
  for (int64_t d = 0; d < diags; d++) for (int64_t s = 0; s < slots; s++) out[s] += M[d][s] * v[(s + d) % slots];
  if (pc > pr) {  // squat: add the partial sums, period pr
    std::vector<uint64_t> acc(slots, 0);
    for (int64_t s = 0; s < slots; s++) for (int64_t j = 0; j < pc / pr; j++) acc[s] += out[(s + j * pr) % slots];
    out = acc;
  }
  mc::eval();
  for (auto& p : resultPts) {
    uint64_t want = 0;
    for (int64_t c = 0; c < k.C; c++) for (int64_t a = 0; a < k.fh; a++) for (int64_t b = 0; b < k.fw; b++) {
      int64_t ih = p[2] * k.sh - k.vp() + a, iw = p[3] * k.sw - k.p + b;
      if (ih >= 0 && iw >= 0 && ih < k.H && iw < k.W) want += fil({p[1], c, a, b}) * img((c * k.H + ih) * k.W + iw);
    }
    if (p[4] != 0 || out[p[5]] != want) { mc::violate(key + ":e2e", cat(mc::S().cur, ": output element (", mc::join(Pt(p.begin(), p.begin() + 4)), ") at slot ", p[5], " is not the convolution")); return false; }
  }
  mc::count("end-to-end evaluations");
  return true;
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  MLIRContext c(MLIRContext::Threading::DISABLED);
  ctx = &c;
  auto id4 = [](int64_t f, int64_t c, int64_t a, int64_t b) { return Pt{f, c, a, b}; };
  // ---- one dimension, single channel
  for (int64_t fs = 1; fs <= 4; fs++) for (int64_t W = 1; W <= (T ? 10 : 7); W++) for (int64_t p = 0; p <= 3; p++) {
    if (!mc::mine()) continue;
    for (int64_t st = 1; st <= 4; st++) {
      if (W + 2 * p < fs || !mc::begin(cat("1d:", fs, ":", W, ":", st, ":", p))) continue;
      mc::doing("expanding a 1-D filter");
      mc::state();
      Conv k{1, 1, 1, fs, 1, W, 1, st, p};
      k.p = p;
      int64_t OW = outDim(W, fs, st, p);
      Set w;
      for (int64_t o = 0; o < OW; o++) for (int64_t b = 0; b < fs; b++) { int64_t i = o * st - p + b; if (i >= 0 && i < W) w.insert({b, o, i}); }
      auto r = get1dConvFilterRelation(ty({fs}), ty({W}), st, p);
      same("conv1d", pts(r), w);
      if (get1dConvFilterExpandedType(ty({fs}), ty({W}), st, p) != ty({OW, W})) mc::violate("conv1d:type", cat(mc::S().cur, ": expanded type"));
      if (st == 1)
        for (int64_t slots : {16, 32}) {
          auto d = getConvFilterDiagonalizedRelation(ty({fs}), ty({W}), p, slots);
          if (failed(d)) { mc::violate("conv1d:diagonal", cat(mc::S().cur, ": fails")); continue; }
          same("conv1d:diagonal", pts(*d), compose(w, diagonal(OW, W, slots), 1, 2));
          if (!isRelationConvFilterDiagonalized(ty({fs}), ty({W}), p, slots, *d)) mc::violate("conv1d:recognise", cat(mc::S().cur, ": own layout not recognised"));
          auto other = getConvFilterDiagonalizedRelation(ty({fs}), ty({W + 1}), p, slots);
          if (succeeded(other) && pts(*other) != pts(*d) && isRelationConvFilterDiagonalized(ty({fs}), ty({W}), p, slots, *other)) mc::violate("conv1d:recognise", cat(mc::S().cur, ": another layout is recognised"));
        }
    }
  }
  // ---- one dimension, channels
  for (int64_t F = 1; F <= 4; F++) for (int64_t C = 1; C <= 3; C++) for (int64_t fs = 1; fs <= 3; fs++) for (int64_t W = 1; W <= (T ? 6 : 4); W++) {
    if (!mc::mine()) continue;
    for (int64_t st = 1; st <= 3; st++) for (int64_t p = 0; p <= 2; p++) {
      if (W + 2 * p < fs || !mc::begin(cat("1dc:", F, ":", C, ":", fs, ":", W, ":", st, ":", p))) continue;
      mc::doing("expanding a 1-D multichannel filter");
      mc::state();
      int64_t OW = outDim(W, fs, st, p);
      auto toe = [&](bool inter) {
        Set w;
        for (int64_t f = 0; f < F; f++) for (int64_t c = 0; c < C; c++) for (int64_t o = 0; o < OW; o++) for (int64_t b = 0; b < fs; b++) { int64_t i = o * st - p + b; if (i >= 0 && i < W) w.insert({f, c, b, inter ? shuffle1(st, OW, f, o) : f * OW + o, c * W + i}); }
        return w;
      };
      auto r = get1dConvCwFcwFilterRelation(ty({F, C, fs}), ty({1, C, W}), st, p);
      same("conv1dc", pts(r), toe(false));
      if (get1dConvCwFcwFilterExpandedType(ty({F, C, fs}), ty({1, C, W}), st, p) != ty({F * OW, C * W})) mc::violate("conv1dc:type", cat(mc::S().cur, ": expanded type"));
      for (bool inter : {false, true}) {
        if (inter && F % st) continue;
        if (toe(false).empty()) continue;  // no window meets the data
        int64_t slots = 32;
        if (pow2(F * OW) > slots || pow2(C * W) > slots) continue;
        auto d = get1dConvCwFcwFilterDiagonalizedRelation(ty({F, C, fs}), ty({1, C, W}), st, p, slots, inter);
        if (failed(d)) { mc::violate("conv1dc:diagonal", cat(mc::S().cur, ": fails")); continue; }
        // the matrix can have rows without entries (all padding); its declared extent still is F*OW
        Set dp = pts(*d), want = compose(toe(inter), diagonal(F * OW, C * W, slots), 3, 2);
        auto res = get1dConvResultRelation(ty({1, F, OW}), st, p, slots, inter);
        Set rw = rowsTo(F * OW, slots, [&](int64_t e) { return Pt{0, e / OW, e % OW}; }, [&](int64_t e) { return inter ? shuffle1(st, OW, e / OW, e % OW) : e; });
        if (!same("conv1dc:result", pts(res), rw)) continue;
        Conv k{F, C, 1, fs, 1, W, 1, st, p, 0};
        Set f4, r4;  // as 2-D with height one
        for (auto& q : dp) f4.insert({q[0], q[1], 0, q[2], q[3], q[4]});
        for (auto& q : rw) r4.insert({0, q[1], 0, q[2], q[3], q[4]});
        if (endToEnd("conv1dc", k, f4, r4, slots)) same("conv1dc:diagonal", dp, want);
      }
      for (int64_t slots : {2, 4, 8}) for (bool inter : {false, true}) {
        if (inter && F % st) continue;
        Set rw = rowsTo(F * OW, slots, [&](int64_t e) { return Pt{0, e / OW, e % OW}; }, [&](int64_t e) { return inter ? shuffle1(st, OW, e / OW, e % OW) : e; });
        same("conv1dc:result", pts(get1dConvResultRelation(ty({1, F, OW}), st, p, slots, inter)), rw);
      }
    }
  }
  // ---- two dimensions, single channel
  int64_t D = T ? 5 : 4;
  for (int64_t a = 1; a <= 3; a++) for (int64_t b = 1; b <= 3; b++) for (int64_t H = 1; H <= D; H++) for (int64_t W = 1; W <= D; W++) {
    if (!mc::mine()) continue;
    for (int64_t p = 0; p <= 2; p++) for (int64_t sh = 1; sh <= 3; sh++) for (int64_t sw = 1; sw <= 3; sw++) {
      if (H + 2 * p < a || W + 2 * p < b || (!T && sh != sw && (p == 2 || H != W))) continue;
      if (!mc::begin(cat("2d:", a, "x", b, ":", H, "x", W, ":", sh, ",", sw, ":", p))) continue;
      mc::doing("expanding a 2-D filter");
      mc::state();
      Conv k{1, 1, a, b, H, W, sh, sw, p};
      auto w = toeplitz(k, [](int64_t, int64_t, int64_t x, int64_t y) { return Pt{x, y}; }, [&](int64_t, int64_t i, int64_t j) { return i * k.OW() + j; });
      same("conv2d", pts(get2dConvFilterRelation(ty({a, b}), ty({H, W}), {sh, sw}, p)), w);
      if (get2dConvFilterExpandedType(ty({a, b}), ty({H, W}), p, {sh, sw}) != ty({k.OH() * k.OW(), H * W})) mc::violate("conv2d:type", cat(mc::S().cur, ": expanded type"));
      if (sh == 1 && sw == 1 && H * W <= 9 && k.OH() * k.OW() <= 16) {
        auto d = getConvFilterDiagonalizedRelation(ty({a, b}), ty({H, W}), p, 16);
        if (failed(d)) { mc::violate("conv2d:diagonal", cat(mc::S().cur, ": fails")); continue; }
        same("conv2d:diagonal", pts(*d), compose(w, diagonal(k.OH() * k.OW(), H * W, 16), 2, 2));
        if (!isRelationConvFilterDiagonalized(ty({a, b}), ty({H, W}), p, 16, *d)) mc::violate("conv2d:recognise", cat(mc::S().cur, ": own layout not recognised"));
        if (isRelationConvFilterDiagonalized(ty({a, b}), ty({H, W}), p, 16, shiftVar(*d, 3, 1))) mc::violate("conv2d:recognise", cat(mc::S().cur, ": shifted layout is recognised"));
      }
    }
  }
  // ---- two dimensions, channels
  for (int64_t F : {1, 2, 3, 4, 8, 9}) for (int64_t C = 1; C <= 2; C++) for (int64_t a = 1; a <= 2; a++) for (int64_t b = 1; b <= 3; b++) for (int64_t H = 1; H <= 3; H++) for (int64_t W = 1; W <= 3; W++) {
    if (!mc::mine()) continue;
    if (F > 4 && (C > 1 || a != b) && !T) continue;
    for (int64_t p = 0; p <= 1; p++) for (int64_t st = 1; st <= 3; st++) {
      if (p >= std::min(a, b) || H + 2 * p < a || W + 2 * p < b || !mc::begin(cat("2dc:", F, ":", C, ":", a, "x", b, ":", H, "x", W, ":", st, ":", p))) continue;
      mc::doing("expanding a 2-D multichannel filter");
      mc::state();
      Conv k{F, C, a, b, H, W, st, st, p};
      int64_t OH = k.OH(), OW = k.OW(), rows = F * OH * OW, cols = C * H * W;
      auto flt = ty({F, C, a, b}), dat = ty({1, C, H, W});
      auto plain = [&](int64_t f, int64_t i, int64_t j) { return (f * OH + i) * OW + j; };
      same("conv2dc", pts(get2dConvChwFchwFilterRelation(flt, dat, {st, st}, p)), toeplitz(k, id4, plain));
      if (get2dConvChwFchwFilterExpandedType(flt, dat, p, {st, st}) != ty({rows, cols})) mc::violate("conv2dc:type", cat(mc::S().cur, ": expanded type"));
      for (bool inter : {false, true}) {
        if (inter && F % (st * st)) continue;
        int64_t slots = 32;
        auto row = [&](int64_t f, int64_t i, int64_t j) { return inter ? shuffle2(st, OH, OW, f, i, j) : plain(f, i, j); };
        auto seq = get2dConvChwFchwFilterAsSequence(flt, dat, {st, st}, p, slots, inter);
        if (failed(seq)) { mc::violate("conv2dc:sequence", cat(mc::S().cur, ": fails")); continue; }
        Set cur;
        bool first = true, mism = false;
        size_t rank = 4;
        for (auto& s : *seq) {
          if (first) cur = pts(s); else { if (s.getNumDomainVars() != rank) { mism = true; break; } cur = compose(cur, pts(s), 4, rank); }
          rank = s.getNumRangeVars();
          first = false;
        }
        if (mism) { mc::violate("conv2dc:sequence", cat(mc::S().cur, ": steps do not compose")); continue; }
        Set want = compose(toeplitz(k, id4, row), diagonal(rows, cols, slots), 4, 2);
        if (!same("conv2dc:sequence", cur, want)) continue;
        // result layout, with the interchange as a separate slot permutation
        auto base = get2dConvResultRelation(ty({1, F, OH, OW}), {st, st}, p, slots);
        auto coord = [&](int64_t e) { return Pt{0, e / (OH * OW), e / OW % OH, e % OW}; };
        Set rb = rowsTo(rows, slots, coord, [&](int64_t e) { return e; });
        Set res = pts(base);
        if (!same("conv2dc:result", res, rb)) continue;
        if (inter) {
          auto ic = get2dConvRowInterchangeLayoutRelation(ty({1, F, OH, OW}), {st, st}, slots);
          Set composed = compose(res, pts(ic), 4, 2);
          int64_t pad = pow2(rows);
          if (pad <= slots) {
            Set wr = rowsTo(rows, slots, coord, [&](int64_t e) { auto q = coord(e); return row(q[1], q[2], q[3]); });
            if (!same("conv2dc:interchange", composed, wr)) continue;
            res = composed;
          } else {
            Set wr;
            for (int64_t e = 0; e < rows; e++) { auto q = coord(e); int64_t r = row(q[1], q[2], q[3]); q.push_back(r / slots); q.push_back(r % slots); wr.insert(q); }
            same("conv2dc:interchange:wide", composed, wr);
            continue;
          }
        }
        endToEnd("conv2dc", k, cur, res, slots);
      }
    }
  }
  // ---- the row interchange maps themselves
  for (int64_t g = 1; g <= 4; g++) for (int64_t co = 1; co <= 3; co++) for (int64_t h = 1; h <= 3; h++) for (int64_t w = 1; w <= 4; w++) {
    if (!mc::mine() || g * g * co * h * w > (T ? 400 : 150)) continue;
    if (mc::begin(cat("interchange:", g, ":", co, ":", h, "x", w))) {
      mc::doing("interchanging rows");
      mc::state();
      Set s2, s1;
      for (int64_t f = 0; f < co * g * g; f++) for (int64_t i = 0; i < h; i++) for (int64_t j = 0; j < w; j++) s2.insert({(f * h + i) * w + j, shuffle2(g, h, w, f, i, j)});
      same("interchange2d", pts(get2dConvRowInterchangeRelation(co * g * g, h, w, g)), s2);
      for (int64_t f = 0; f < co * g; f++) for (int64_t j = 0; j < w; j++) s1.insert({f * w + j, shuffle1(g, w, f, j)});
      same("interchange1d", pts(get1dConvRowInterchangeRelation(co * g, w, g)), s1);
    }
  }
  return mc::finish();
}
