// P13: ciphertext layouts - constructors, packing, predicates, queries.
#include "layoutref.h"
#include "lib/Utils/Layout/Evaluate.h"
#include "lib/Utils/Layout/IslConversion.h"
#include "lib/Utils/Layout/Utils.h"
using namespace lr;
using namespace mlir::heir;
using mc::cat;

static MLIRContext* ctx;
static RankedTensorType ty(const Pt& s) { return RankedTensorType::get(s, Float32Type::get(ctx)); }

static void packing(const std::string& k, const Pt& shape, const IntegerRelation& r, const Set& want, int64_t cts, int64_t slots) {
  // pack writes each covered slot with the element that maps to it and zero elsewhere; unpack inverts it
  std::vector<std::vector<int>> expect(cts, std::vector<int>(slots, 0));
  std::set<Pt> dom, ran;
  std::map<std::pair<int64_t, int64_t>, int64_t> at;
  for (auto& p : want) {
    int64_t f = flat(shape, Pt(p.begin(), p.begin() + shape.size())), c = p[shape.size()], s = p[shape.size() + 1];
    if (!at.emplace(std::make_pair(c, s), f).second) { mc::violate(k + ":ambiguous", cat(mc::S().cur, ": two elements share slot (", c, ",", s, ")")); return; }
    expect[c][s] = f + 1;
    dom.insert(Pt(p.begin(), p.begin() + shape.size()));
  }
  std::function<int(const std::vector<int64_t>&)> val = [&](const std::vector<int64_t>& p) { return (int)flat(shape, p) + 1; };
  auto packed = evaluateLayout<int>(r, val, SmallVector<int64_t>{cts, slots});
  mc::eval();
  if (packed != expect) { mc::violate(k + ":pack", cat(mc::S().cur, ": packed data differs from the layout")); return; }
  std::vector<int> got(prod(shape), 0), wantU(prod(shape), 0);
  for (auto& d : dom) wantU[flat(shape, d)] = flat(shape, d) + 1;
  unpackLayout<int>(r, packed, [&](const std::vector<int64_t>& p, int v) { got[flat(shape, p)] = v; });
  if (got != wantU) mc::violate(k + ":unpack", cat(mc::S().cur, ": unpacking does not return the packed data"));
  // the shaped front ends
  std::vector<int> v1;
  for (int64_t i = 0; i < prod(shape); i++) v1.push_back(i + 1);
  bool full = (int64_t)dom.size() == prod(shape);
  if (shape.size() == 1) {
    if (evaluateLayoutOnVector<int>(r, v1, SmallVector<int64_t>{cts, slots}) != expect) mc::violate(k + ":pack", cat(mc::S().cur, ": evaluateLayoutOnVector differs"));
    if (full && unpackLayoutToVector<int>(r, expect, shape) != v1) mc::violate(k + ":unpack", cat(mc::S().cur, ": unpackLayoutToVector differs"));
  } else if (shape.size() == 2) {
    std::vector<std::vector<int>> m(shape[0], std::vector<int>(shape[1]));
    for (size_t i = 0; i < v1.size(); i++) m[i / shape[1]][i % shape[1]] = v1[i];
    if (full && unpackLayoutToMatrix<int>(r, expect, shape) != m) mc::violate(k + ":unpack", cat(mc::S().cur, ": unpackLayoutToMatrix differs"));
    auto e = evaluateLayoutOnMatrix<int>(r, m);
    for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e[i].size(); j++)
      if (i >= expect.size() || j >= expect[i].size() || e[i][j] != expect[i][j]) { mc::violate(k + ":pack", cat(mc::S().cur, ": evaluateLayoutOnMatrix differs")); return; }
  } else if (shape.size() == 3) {
    std::vector<std::vector<std::vector<int>>> m(shape[0], std::vector<std::vector<int>>(shape[1], std::vector<int>(shape[2])));
    for (size_t i = 0; i < v1.size(); i++) { auto u = unflat(shape, i); m[u[0]][u[1]][u[2]] = v1[i]; }
    if (full && unpackLayoutTo3DTensor<int>(r, expect, shape) != m) mc::violate(k + ":unpack", cat(mc::S().cur, ": unpackLayoutTo3DTensor differs"));
  } else if (shape.size() == 4 && full) {
    auto m = unpackLayoutTo4DTensor<int>(r, expect, shape);
    for (size_t i = 0; i < v1.size(); i++) { auto u = unflat(shape, i); if (m[u[0]][u[1]][u[2]][u[3]] != v1[i]) { mc::violate(k + ":unpack", cat(mc::S().cur, ": unpackLayoutTo4DTensor differs")); break; } }
  }
}

static void queries(const std::string& k, const IntegerRelation& r, const Set& want, size_t nd, int64_t cts, int64_t slots) {
  mc::eval();
  if (relationSize(r) != (int64_t)want.size()) mc::violate("query:size", cat(mc::S().cur, ": relationSize ", relationSize(r), " want ", want.size()));
  Set ran;
  for (auto& p : want) ran.insert(Pt(p.begin() + nd, p.end()));
  PointCollector pc;
  getRangePoints(r, pc);
  if (Set(pc.points.begin(), pc.points.end()) != ran) mc::violate("query:range", cat(mc::S().cur, ": getRangePoints differs"));
  auto any = anyRangePoint(r);
  if (ran.empty() ? !any.empty() && any.size() == 2 : !ran.count(any)) mc::violate("query:any", cat(mc::S().cur, ": anyRangePoint (", mc::join(any), ") is not in the range"));
  PointCollector cc;
  getCtComplementPoints(r, cc, ty({cts, slots}));
  std::set<int64_t> used;
  for (auto& p : ran) used.insert(p[0]);
  Set comp;
  for (int64_t c = 0; c < cts; c++) if (!used.count(c)) comp.insert({c});
  if (Set(cc.points.begin(), cc.points.end()) != comp || cc.points.size() != comp.size()) mc::violate("query:complement", cat(mc::S().cur, ": getCtComplementPoints differs"));
  bool dense = (int64_t)ran.size() == cts * slots;
  if (isDenseLayout(r, ty({cts, slots})) != dense) mc::violate("query:dense", cat(mc::S().cur, ": isDenseLayout is ", !dense));
  if (nd == 1) {
    std::map<int64_t, int> uses;
    std::set<int64_t> slotsUsed;
    bool one = !want.empty();
    for (auto& p : want) { if (++uses[p[0]] > 1 || p[1] != 0 || !slotsUsed.insert(p[2]).second) one = false; }
    bool got = isOneToOneSingleCiphertextPacking(r);
    if (got && !one) mc::violate("query:onetoone", cat(mc::S().cur, ": isOneToOneSingleCiphertextPacking holds for a packing that is not"));
    if (!got && one) mc::count("one-to-one packing not recognised");
  }
  // fixing each domain point gives exactly its image
  Set doms;
  for (auto& p : want) doms.insert(Pt(p.begin(), p.begin() + nd));
  int left = 3;
  for (auto& d : doms) {
    if (!left--) break;
    Set w;
    for (auto& p : want) if (Pt(p.begin(), p.begin() + nd) == d) w.insert(p);
    if (pts(fixDomainVars(r, d)) != w) mc::violate("query:fix", cat(mc::S().cur, ": fixDomainVars(", mc::join(d), ") differs"));
  }
  left = 3;
  for (auto& d : ran) {
    if (!left--) break;
    Set w;
    for (auto& p : want) if (Pt(p.begin() + nd, p.end()) == d) w.insert(p);
    if (pts(fixRangeVars(r, d)) != w) mc::violate("query:fix", cat(mc::S().cur, ": fixRangeVars(", mc::join(d), ") differs"));
  }
}

static void one(const std::string& id, const Pt& shape, const std::function<IntegerRelation()>& build, const Set& want, int64_t cts, int64_t slots, bool covers, bool pack = true) {
  if (!mc::mine() || !mc::begin(id)) return;
  std::string k = id.substr(0, id.find(':'));
  mc::doing("building the " + k + " layout");
  mc::state();
  auto r = build();
  Set got = pts(r);
  mc::trace();
  if (got != want) { mc::violate(k, cat(id, ": ", diff(got, want))); return; }
  mc::outcome(cat(k, mc::hashStr(show(got, 100000))));
  if (want.size() < 200) {
    Pt lo(shape.size() + 2, -1), hi(shape.size() + 2);
    for (size_t i = 0; i < shape.size(); i++) hi[i] = shape[i];
    hi[shape.size()] = cts; hi[shape.size() + 1] = slots;
    int64_t vol = 1;
    for (auto h : hi) vol *= h + 2;
    if (vol < 1500 && ptsBox(r, lo, hi) != want) mc::violate("query:enumerate", cat(id, ": enumeratePoints disagrees with membership"));
  }
  if (covers) {
    std::set<Pt> dom;
    for (auto& p : want) dom.insert(Pt(p.begin(), p.begin() + shape.size()));
    if ((int64_t)dom.size() != prod(shape)) mc::violate(k + ":cover", cat(id, ": only ", dom.size(), " of ", prod(shape), " elements have a slot"));
  }
  mc::doing("packing by the " + k + " layout");
  if (pack) packing(k, shape, r, want, cts, slots);
  mc::doing("querying the " + k + " layout");
  queries(k, r, want, shape.size(), cts, slots);
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  MLIRContext c(MLIRContext::Threading::DISABLED);
  ctx = &c;
  std::vector<Pt> shapes;
  for (int64_t a = 1; a <= 9; a++) shapes.push_back({a});
  for (int64_t a = 1; a <= (T ? 5 : 4); a++) for (int64_t b = 1; b <= (T ? 5 : 4); b++) shapes.push_back({a, b});
  for (int64_t a = 1; a <= 3; a++) for (int64_t b = 1; b <= 3; b++) for (int64_t d = 1; d <= 3; d++) shapes.push_back({a, b, d});
  shapes.push_back({1, 2, 2, 3}); shapes.push_back({2, 1, 3, 2}); shapes.push_back({1, 1, 1, 1});
  for (auto& s : shapes)
    for (int64_t n : {1, 2, 3, 4, 6, 8, 16})
      one(cat("rowmajor:", mc::join(s, "x"), ":", n), s, [&] { return getRowMajorLayoutRelation(ty(s), n); }, rowMajor(s, n), cdiv(prod(s), n), n, true);
  int M = T ? 9 : 6;
  for (int64_t R = 1; R <= M; R++)
    for (int64_t C = 1; C <= M; C++) {
      for (int64_t n = std::max(R, C); n <= 16; n = n < 9 ? n + 1 : n == 9 ? 12 : n + 4) {
        bool p2 = pow2(n) == n;
        one(cat("diagonal:", R, "x", C, ":", n), {R, C}, [&] { return getDiagonalLayoutRelation(ty({R, C}), n); }, diagonal(R, C, n), std::min(pow2(R), pow2(C)), n, p2 && n >= std::max(pow2(R), pow2(C)));
        one(cat("perrow:", R, "x", C, ":", n), {R, C}, [&] { return getPerRowLayoutRelation(ty({R, C}), n); }, perRow(R, C, n), R, n, true);
      }
      if (std::gcd(R, C) == 1)
        for (int64_t n : {4, 6, 7, 8, 12, 16, 32})
          one(cat("bicyclic:", R, "x", C, ":", n), {R, C}, [&] { return getBicyclicLayoutRelation(ty({R, C}), n); }, bicyclic(R, C, n), cdiv(R * C, n), n, true);
      if (R <= 5 && C <= 5)
        for (int con = 0; con < 2; con++)
          for (int64_t stride = 0; stride <= (T ? 7 : 4); stride++)
            for (int64_t n : {4, 7, 8, 16})
              one(cat("bicyclicdiagonal:", R, "x", C, ":", con, ":", stride, ":", n), {R, C}, [&] { return getBicyclicDiagonalRelation(ty({R, C}), con, stride, n); }, bicyclicDiagonal(R, C, con, stride, n), con ? C : R, n, false);
    }
  for (int64_t h = 1; h <= (T ? 5 : 4); h++) for (int64_t m = 1; m <= 5; m++) for (int64_t n = 1; n <= 5; n++)
    if (std::gcd(h, m) == 1 && std::gcd(m, n) == 1 && std::gcd(h, n) == 1)
      for (int64_t s : {8, 16, 60})
        one(cat("tricyclic:", h, "x", m, "x", n, ":", s), {h, m, n}, [&] { return getTricyclicLayoutRelation(ty({h, m, n}), s); }, tricyclic(h, m, n, s), cdiv(h * m * n, s), s, true);
  for (int64_t s = 1; s <= 12; s++) for (int64_t p = 1; p <= s; p++)
    one(cat("periodic:", s, ":", p), {1, p}, [&] { return getPeriodicReplicationRelation(1, s, p); }, periodic(s, p), 1, s, true, true);

  // ---- large tensors: where the last element goes and how many ciphertexts there are
  for (int64_t base : {int64_t(1) << 20, int64_t(1) << 24, int64_t(1) << 25, int64_t(1) << 28, (int64_t(1) << 24) + (int64_t(1) << 14)})
    for (int64_t off : {-1, 0, 1, 2, 3})
      for (int64_t slots : {1024, 4096, 32768, 65536}) {
        int64_t n = base + off;
        std::string id = cat("large:", n, ":", slots);
        if (!mc::mine() || !mc::begin(id)) continue;
        mc::state();
        auto r = getRowMajorLayoutRelation(ty({n}), slots);
        for (int64_t e : {int64_t(0), n / 2, n - 2, n - 1}) {
          auto p = anyRangePoint(fixDomainVars(r, {e}));
          mc::eval();
          if (p.size() != 2 || p[0] != e / slots || p[1] != e % slots) { mc::violate("rowmajor:large", cat(id, ": element ", e, " is at (", mc::join(p), "), want (", e / slots, ",", e % slots, ")")); break; }
        }
        if (std::gcd(n, int64_t(3)) == 1 && n % 2) {
          // bicyclic 3 x n
          auto b = getBicyclicLayoutRelation(ty({2, n}), slots);
          auto ub = b.getConstantBound64(presburger::BoundType::UB, 2);
          if (!ub || *ub != cdiv(2 * n, slots) - 1) mc::violate("bicyclic:large", cat(id, ": ciphertext bound ", ub ? *ub : -1));
        }
      }

  // ---- predicates: every layout of the pool against every recogniser of its shape
  struct L { std::string name; IntegerRelation r; Set s; };
  auto recog = [&](const std::string& what, const std::string& id, bool got, bool must, const std::string& name) {
    mc::eval();
    if (got && !must) mc::violate("recognise:" + what, cat(id, ": ", what, " recogniser accepts ", name));
    if (!got && must) mc::violate("recognise:" + what + ":missed", cat(id, ": ", what, " recogniser rejects its own layout"));
  };
  for (int64_t R = 1; R <= 5; R++)
    for (int64_t C = 1; C <= 5; C++)
      for (int64_t n : {8, 16, 32}) {
        std::string id = cat("recognise2:", R, "x", C, ":", n);
        if (!mc::mine() || !mc::begin(id)) continue;
        mc::doing("recognising layouts");
        auto t = ty({R, C});
        std::vector<L> pool;
        auto put = [&](std::string nm, IntegerRelation r) { Set s = pts(r); pool.push_back({nm, r, s}); };
        put("row-major", getRowMajorLayoutRelation(t, n));
        put("diagonal", getDiagonalLayoutRelation(t, n));
        put("per-row", getPerRowLayoutRelation(t, n));
        if (std::gcd(R, C) == 1) put("bicyclic", getBicyclicLayoutRelation(t, n));
        if (C > 1) put("row-major of a narrower matrix", getRowMajorLayoutRelation(ty({R, C - 1}), n));
        put("diagonal of a taller matrix", getDiagonalLayoutRelation(ty({R + 1, C}), n));
        put("row-major with half the slots", getRowMajorLayoutRelation(t, n / 2));
        if (std::max(R, C) <= n / 2) put("per-row with half the slots", getPerRowLayoutRelation(t, n / 2));
        if (std::max(R, C) <= n / 2) put("diagonal with half the slots", getDiagonalLayoutRelation(t, n / 2));
        put("diagonal, shifted", shiftVar(getDiagonalLayoutRelation(t, n), 3, 1));
        put("bicyclic diagonal", getBicyclicDiagonalRelation(t, 0, 1, n));
        size_t base = pool.size();
        for (size_t k = 0; k < base; k++) {  // the same sets in another syntactic form
          auto* ic = isl_ctx_alloc();
          auto* bm = convertRelationToBasicMap(pool[k].r, ic);
          char* str = isl_basic_map_to_str(bm);
          auto re = getIntegerRelationFromIslStr(str);
          free(str);
          isl_basic_map_free(bm);
          isl_ctx_free(ic);
          if (failed(re)) { mc::violate("isl:roundtrip", cat(id, ": ", pool[k].name, " cannot be read back")); continue; }
          put(pool[k].name + " (respelled)", *re);
          if (pool.back().s != pool[k].s) mc::violate("isl:roundtrip", cat(id, ": ", pool[k].name, " changed: ", diff(pool.back().s, pool[k].s)));
        }
        mc::state(pool.size());
        Set rm = rowMajor({R, C}, n), dg = diagonal(R, C, n), pr = perRow(R, C, n), bc = std::gcd(R, C) == 1 ? bicyclic(R, C, n) : Set{};
        for (size_t a = 0; a < pool.size(); a++) {
          auto& l = pool[a];
          bool isRm = l.s == rm, isDg = l.s == dg, isPr = l.s == pr, isBc = R > 1 && C > 1 && std::gcd(R, C) == 1 && l.s == bc;
          recog("row-major", id, isRelationRowMajor(t, n, l.r), isRm, l.name);
          recog("squat diagonal", id, isRelationSquatDiagonal(t, n, l.r), isDg, l.name);
          recog("per-row", id, isRelationPerRow(t, n, l.r), isPr, l.name);
          recog("bicyclic", id, isRelationBicyclic(t, n, l.r), isBc, l.name);
          recog("tricyclic", id, isRelationTricyclic(t, n, l.r), false, l.name);
          for (size_t b = 0; b < pool.size(); b++) {
            bool eq = pool[b].s == l.s;
            mc::eval();
            if (isRelationEqual(l.r, pool[b].r) && !eq) mc::violate("equal", cat(id, ": ", l.name, " and ", pool[b].name, " are reported equal"));
            if (!isRelationEqual(l.r, pool[b].r) && eq) mc::violate("equal:missed", cat(id, ": equal layouts ", l.name, " and ", pool[b].name, " are not recognised as equal"));
            if (succeeded(tryProveUnequalByVolume(l.r, pool[b].r)) && eq) mc::violate("unequal", cat(id, ": ", l.name, " and ", pool[b].name, " are proved unequal but are equal"));
          }
        }
        mc::trace(pool.size());
      }
  for (int64_t h = 1; h <= 4; h++) for (int64_t m = 1; m <= 4; m++) for (int64_t n = 1; n <= 5; n++) {
    std::string id = cat("recognise3:", h, "x", m, "x", n);
    if (!mc::mine() || !mc::begin(id)) continue;
    mc::state();
    auto t = ty({h, m, n});
    bool co = std::gcd(h, m) == 1 && std::gcd(m, n) == 1 && std::gcd(h, n) == 1, big = h > 1 && m > 1 && n > 1;
    auto rm = getRowMajorLayoutRelation(t, 64);
    recog("row-major", id, isRelationRowMajor(t, 64, rm), true, "row-major");
    recog("tricyclic", id, isRelationTricyclic(t, 64, rm), co && big && tricyclic(h, m, n, 64) == rowMajor({h, m, n}, 64), "row-major");
    recog("bicyclic", id, isRelationBicyclic(t, 64, rm), false, "row-major");
    if (co) recog("tricyclic", id, isRelationTricyclic(t, 64, getTricyclicLayoutRelation(t, 64)), big, "tricyclic");
  }
  // ---- one enumeration above the threshold that switches method
  for (int64_t n : {199999, 200000, 200001, 200005}) {
    if (!mc::mine() || !mc::begin(cat("enumerate:", n))) continue;
    IntegerRelation r(presburger::PresburgerSpace::getRelationSpace(1, 2, 0, 0));
    addBounds(r, 0, 0, n - 1); addBounds(r, 1, 0, 0);
    addConstraint(r, {{0, 1}, {2, -1}, {3, 5}}, true);
    Set s = pts(r);
    mc::eval();
    bool ok = (int64_t)s.size() == n;
    int64_t e = 0;
    for (auto& p : s) if (!(p == Pt{e, 0, e + 5})) { ok = false; break; } else e++;
    if (!ok) mc::violate("query:enumerate", cat("identity of ", n, " points enumerated wrongly"));
  }
  return mc::finish();
}
