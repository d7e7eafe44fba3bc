// P27: in-place operations, fast rotations and the extended basis keep what a backend program computes on real, mutable ciphertexts.
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/Lattigo/IR/LattigoDialect.h"
#include "lib/Dialect/Lattigo/Transforms/Passes.h"
#include "lib/Dialect/Openfhe/IR/OpenfheDialect.h"
#include "lib/Dialect/Openfhe/Transforms/Passes.h"
#include "lib/Target/CompilationTarget/CompilationTarget.h"
#include "bemc.h"
using namespace pm;
using namespace mlir::heir;

static Driver* D;
using namespace be;
enum { A_CC, A_CT, A_PT, A_TEN, A_MEM, A_COND, A_NUM };

struct Run { Outcome o; std::vector<std::string> vals; int inplace = 0; };
// Arguments: the crypto context, ciphertexts a, b, c, a plaintext p, then what the program declares.
struct Prog { std::string body, decl, rets, retTypes, extra; std::vector<int> extraKinds; bool cond = false; std::string helper; };

static Run execute(ModuleOp orig, const Prog& p, bool keepArgs, int salt) {
  Run r;
  OwningOpRef<ModuleOp> copy;
  if (!keepArgs) copy = copyInits(orig);
  ModuleOp m = copy ? *copy : orig;
  interp::Machine M(m);
  Backend B;
  M.ext = [&](interp::Machine&, Operation* op, const Vs& in, Vs& out) { return B.step(op, in, out); };
  auto ct = [&](int k, bool pt = false) { Obj o; o.pt = pt; for (int j = 0; j < N; j++) o.v.push_back(md(7919 * (k + 1) + 331 * j * j + 17 * j * k + 4099 * salt + 3)); return Sc::in(B.make(o)); };
  Vs in{V::scalar(Sc::in(0))};
  B.make({});  // the context
  for (int k = 0; k < 3; k++) in.push_back(V::scalar(ct(k)));
  in.push_back(V::scalar(ct(3, true)));
  for (int k : p.extraKinds) {
    if (k == A_TEN) in.push_back(V::tensor({2}, {ct(10), ct(11)}));
    if (k == A_MEM) in.push_back(V::buffer({2}, {ct(20), ct(21)}));
    if (k == A_COND) in.push_back(V::scalar(Sc::in(salt & 1)));
  }
  try {
    auto out = M.call("f", in);
    for (auto& v : out) r.vals.push_back(be::show(B.heap, v));
    for (auto& v : in) if (v.mem) r.vals.push_back("buffer " + be::show(B.heap, v));
    if (keepArgs) for (int k = 1; k <= 3; k++) r.vals.push_back("argument " + be::show(B.heap, in[k]));
  } catch (interp::UB& e) { r.o.kind = Outcome::UNDEF; r.o.why = e.what(); }
  catch (interp::Unsupported& e) { r.o.kind = Outcome::UNSUP; r.o.why = e.what(); }
  mc::step(M.steps);
  r.inplace = B.inplace;
  return r;
}

struct Lib { std::string name, cc, ct, pt, pre; bool lat; bool ckks; };
static std::vector<Lib> libs = {{"openfhe", "!openfhe.crypto_context", "!openfhe.ciphertext", "!openfhe.plaintext", "openfhe.", false, true},
                                {"bgv", "!lattigo.bgv.evaluator", "!lattigo.rlwe.ciphertext", "!lattigo.rlwe.plaintext", "lattigo.bgv.", true, false},
                                {"ckks", "!lattigo.ckks.evaluator", "!lattigo.rlwe.ciphertext", "!lattigo.rlwe.plaintext", "lattigo.ckks.", true, true}};

// One operation in the dialect of a library; empty when the library has none.
static std::string ins(const Lib& L, const std::string& res, const std::string& op, const std::string& x, const std::string& y = "") {
  auto bin = [&](const std::string& n, const std::string& ty = "") { return cat("%", res, " = ", n, " %cc, ", x, ", ", y, " : (", L.cc, ", ", L.ct, ", ", ty.empty() ? L.ct : ty, ") -> ", L.ct, "\n"); };
  auto un = [&](const std::string& n, const std::string& attrs = "") { return cat("%", res, " = ", n, " %cc, ", x, " ", attrs, " : (", L.cc, ", ", L.ct, ") -> ", L.ct, "\n"); };
  std::string nw = L.lat ? "_new" : "";
  if (op == "ADD") return bin(L.pre + "add" + nw);
  if (op == "SUB") return bin(L.pre + "sub" + nw);
  if (op == "MUL") return bin(L.pre + (L.lat ? "mul_new" : "mul_no_relin"));
  if (op == "ADDP") return bin(L.pre + (L.lat ? "add_new" : "add_plain"), L.pt);
  if (op == "SUBP") return bin(L.pre + (L.lat ? "sub_new" : "sub_plain"), L.pt);
  if (op == "MULP") return bin(L.pre + (L.lat ? "mul_new" : "mul_plain"), L.pt);
  if (op == "PSUB") return L.lat ? "" : cat("%", res, " = openfhe.sub_plain %cc, ", y, ", ", x, " : (", L.cc, ", ", L.pt, ", ", L.ct, ") -> ", L.ct, "\n");
  if (op == "NEG") return un(L.lat ? "lattigo.rlwe.negate_new" : "openfhe.negate");
  if (op == "SQ") return L.lat ? "" : un("openfhe.square");
  if (op == "REL") return un(L.pre + (L.lat ? "relinearize_new" : "relin"));
  if (op == "RESC") return un(L.pre + (L.lat ? "rescale_new" : "mod_reduce"));
  if (op == "DROP") return un(L.lat ? "lattigo.rlwe.drop_level_new" : "openfhe.level_reduce", "{levelToDrop = 2 : i64}");
  if (op == "KC") return L.lat ? "" : cat("%", res, " = openfhe.mul_const %cc, ", x, ", %k : (", L.cc, ", ", L.ct, ", i64) -> ", L.ct, "\n");
  if (op == "ROT1" || op == "ROT2" || op == "ROTM") return un(L.pre + (L.lat ? L.ckks ? "rotate_new" : "rotate_columns_new" : "rot"), cat("{static_shift = ", op == "ROT1" ? "1" : op == "ROT2" ? "2" : "-1", " : index}"));
  if (op == "BOOT") return L.lat ? "" : un("openfhe.bootstrap");
  return "";
}

static void runLib(const Lib& L, const std::string& fam, const std::string& id, const std::function<bool(const Lib&, Prog&)>& make) {
  if (!mc::begin(cat(fam, ":", L.name, ":", id))) return;
  Prog p;
  if (!make(L, p)) return;
  std::string txt = cat("module attributes {", L.lat ? "backend.lattigo" : "backend.openfhe", ", scheme.ckks} {\n", p.helper, "  func.func @f(%cc: ", L.cc, ", %a: ", L.ct, ", %b: ", L.ct, ", %c: ", L.ct, ", %p: ", L.pt, p.extra, ") -> (", p.retTypes, ") {\n    %k = arith.constant 5 : i64\n    %i0 = arith.constant 0 : index\n    %i1 = arith.constant 1 : index\n    %i2 = arith.constant 2 : index\n    %i3 = arith.constant 3 : index\n", p.body, "    return ", p.rets, " : ", p.retTypes, "\n  }\n}\n");
  auto before = D->need(txt);
  if (!before) return;
  std::vector<Run> want;
  for (int s = 0; s < 2; s++) {
    want.push_back(execute(*before, p, L.lat, s));
    if (want.back().o.kind == Outcome::UNSUP) { mc::violate(fam + ":harness", cat("the harness cannot interpret its own program: ", want.back().o.why, "\n", txt)); return; }
    if (want.back().o.kind == Outcome::UNDEF) { mc::violate(fam + ":harness", cat("the harness's program is undefined: ", want.back().o.why, "\n", txt)); return; }
    std::string all;
    for (auto& v : want.back().vals) all += v;
    mc::outcome(all);
  }
  std::vector<PassStep> steps;
  if (L.lat) steps = {{"inplace", [](OpPassManager& m) { m.addPass(lattigo::createAllocToInPlace()); }}, {"cse", [](OpPassManager& m) { m.addPass(createCSEPass()); }}};
  else steps = {{"inplace", [](OpPassManager& m) { m.addPass(openfhe::createAllocToInPlace()); }},
                {"fastrot", [](OpPassManager& m) { m.addPass(openfhe::createFastRotationPrecompute()); }},
                {"extended", [](OpPassManager& m) { m.addPass(openfhe::createConvertToExtendedBasis()); }}};
  struct Nd { OwningOpRef<ModuleOp> m; std::string path; };
  std::vector<Nd> front;
  front.push_back({OwningOpRef<ModuleOp>(before->clone()), ""});
  std::set<std::string> seen{text(*before)};
  mc::state();
  for (int dep = 0; dep < (L.lat ? 2 : 3); dep++) {
    std::vector<Nd> next;
    for (auto& n : front)
      for (auto& s : steps) {
        // nothing follows the in-place pass but itself: later passes need not know of mutation
        if (n.path.find("inplace") != std::string::npos && s.name != "inplace") continue;
        OwningOpRef<ModuleOp> c(n.m->clone());
        mc::step();
        std::string path = n.path.empty() ? s.name : n.path + "," + s.name;
        auto say = [&](const std::string& kind, const std::string& w) { mc::violate(cat(fam, ":", L.name, kind), cat(mc::S().cur, " after ", path, ": ", w, "\nprogram:\n", txt, "\nafter:\n", text(*c))); };
        if (!D->run(*c, s.add)) { say(":fails", D->diag); continue; }
        if (failed(verify(*c))) { say(":invalid", D->diag); continue; }
        if (!seen.insert(text(*c)).second) continue;
        mc::state();
        bool good = true;
        for (int k = 0; k < 2 && good; k++) {
          auto r = execute(*c, p, L.lat, k);
          mc::trace();
          mc::eval();
          if (r.inplace) mc::count("executions with in-place operations");
          if (r.o.kind != Outcome::OK) { say("", r.o.why); good = false; break; }
          for (size_t j = 0; j < r.vals.size() && good; j++)
            if (r.vals[j] != want[k].vals[j]) { say("", cat("result ", j, " is ", r.vals[j], ", want ", want[k].vals[j])); good = false; }
        }
        if (good) next.push_back({std::move(c), path});
      }
    front = std::move(next);
  }
}
static void all(const std::string& fam, const std::string& id, const std::function<bool(const Lib&, Prog&)>& make) { for (auto& L : libs) runLib(L, fam, id, make); }

static std::string list(const std::string& t, size_t n) { std::string s; for (size_t k = 0; k < n; k++) s += (k ? ", " : "") + t; return s; }

// All straight-line programs of n operations; every intermediate value is used, and the last one or two values are returned.
static void dags(int n, const std::vector<std::string>& binary, const std::vector<std::string>& unary) {
  std::vector<int64_t> c;
  std::function<void(int)> rec = [&](int k) {
    if (k == n) {
      std::set<int> used;
      std::string id;
      for (int j = 0; j < n; j++) { if (c[3 * j + 1] >= 2) used.insert(c[3 * j + 1] - 2); if (c[3 * j] < (int)binary.size() && c[3 * j + 2] >= 2) used.insert(c[3 * j + 2] - 2); }
      for (int j = 0; j + 2 < n; j++) if (!used.count(j)) return;
      for (int j = 0; j < 3 * n; j++) id += cat(c[j], j % 3 == 2 ? "/" : ".");
      for (int ret = 0; ret < 3; ret++) {
        if (ret == 0 && n > 1 && !used.count(n - 2)) continue;  // a dead value
        if (ret == 2 && !used.count(n - 2) && n > 2) continue;
        all("dag", cat(id, ret), [&](const Lib& L, Prog& p) {
          auto nm = [](int64_t v) { return v == 0 ? std::string("%a") : v == 1 ? std::string("%b") : cat("%v", v - 2); };
          for (int j = 0; j < n; j++) {
            bool bin = c[3 * j] < (int)binary.size();
            auto op = bin ? binary[c[3 * j]] : unary[c[3 * j] - binary.size()];
            auto s = ins(L, cat("v", j), op, nm(c[3 * j + 1]), bin ? nm(c[3 * j + 2]) : std::string("%p"));
            if (s.empty()) return false;
            p.body += "    " + s;
          }
          std::vector<std::string> r = {cat("%v", n - 1)};
          if (ret == 1) r.push_back(n > 1 ? cat("%v", n - 2) : "%a");
          if (ret == 2) r.insert(r.begin(), "%a");
          for (auto& x : r) p.rets += (p.rets.empty() ? "" : ", ") + x;
          p.retTypes = list(L.ct, r.size());
          return true;
        });
      }
      return;
    }
    for (int64_t o = 0; o < (int64_t)(binary.size() + unary.size()); o++)
      for (int64_t x = 0; x < k + 2; x++)
        for (int64_t y = 0; y < (o < (int64_t)binary.size() ? k + 2 : 1); y++) { c.insert(c.end(), {o, x, y}); rec(k + 1); c.resize(3 * k); }
  };
  rec(0);
}

static const std::vector<std::pair<std::string, std::string>> afters = {{"", ""}, {"ADD", "%a"}, {"SUB", "%b"}, {"ADD", "%l"}, {"ADD", "%s"}, {"NEG", ""}};
static bool finish(const Lib& L, Prog& p, int after, bool keepS) {
  std::string r = "%l";
  if (after) {
    auto s = ins(L, "o", afters[after].first, "%l", afters[after].second);
    p.body += "    " + s;
    r = "%o";
  }
  p.rets = keepS ? r + ", %s" : r;
  p.retTypes = list(L.ct, keepS ? 2 : 1);
  return true;
}

static void loops() {
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> st = {{"ADD", {"%x", "%a"}}, {"ADD", {"%a", "%x"}}, {"SUB", {"%s", "%x"}}, {"NEG", {"%x", ""}}, {"NEG", {"%a", ""}}, {"NEG", {"%s", ""}}, {"ADD", {"%x", "%s"}}, {"ADD", {"%x", "%x"}}, {"ROT1", {"%x", ""}}, {"ROT1", {"%s", ""}}, {"RESC", {"%x", ""}}, {"ADDP", {"%a", "%p"}}, {"SUB", {"%x", "%b"}}, {"ROT2", {"%a", ""}}};
  std::vector<std::string> inits = {"%a", "%s", "%b"};
  for (auto& in : inits)
    for (size_t i = 0; i < st.size(); i++)
      for (int j = -1; j < (int)st.size(); j++)
        for (int link = 0; link < (j < 0 ? 1 : 3); link++)
          for (int after = 0; after < (int)afters.size(); after++)
            for (int keep = 0; keep < 2; keep++) {
              if (!mc::thorough() && (i + j + 1 + link + after + keep + in[1]) % 3) continue;
              all("loop", cat(in, i, j, link, after, keep), [&](const Lib& L, Prog& p) {
                p.body = "    " + ins(L, "s", "ADD", "%a", "%b");
                p.body += cat("    %l = scf.for %i = %i0 to %i3 step %i1 iter_args(%x = ", in, ") -> (", L.ct, ") {\n");
                p.body += "      " + ins(L, "t", st[i].first, st[i].second.first, st[i].second.second);
                std::string y = "%t";
                if (j >= 0) {
                  std::string q1 = st[j].second.first, q2 = st[j].second.second;
                  if (link == 1 && (q1 == "%x" || q1 == "%a")) q1 = "%t"; else if (link == 1) return false;
                  if (link == 2 && (q2 == "%x" || q2 == "%s" || q2 == "%a")) q2 = "%t"; else if (link == 2) return false;
                  p.body += "      " + ins(L, "u", st[j].first, q1, q2);
                  if (link) y = "%u";
                  else { p.body += "      " + ins(L, "w", "ADD", "%t", "%u"); y = "%w"; }
                }
                p.body += cat("      scf.yield ", y, " : ", L.ct, "\n    }\n");
                return finish(L, p, after, keep);
              });
            }
  // two carried values
  std::vector<std::string> yields = {"%t, %x", "%y, %t", "%t, %t", "%x, %t", "%t, %u"};
  for (size_t i = 0; i < st.size(); i++)
    for (size_t y = 0; y < yields.size(); y++)
      for (int in = 0; in < 3; in++)
        all("carry", cat(i, y, in), [&](const Lib& L, Prog& p) {
          p.body = "    " + ins(L, "s", "ADD", "%a", "%b");
          p.body += cat("    %l, %m = scf.for %i = %i0 to %i3 step %i1 iter_args(%x = %a, %y = ", in == 0 ? "%b" : in == 1 ? "%a" : "%s", ") -> (", L.ct, ", ", L.ct, ") {\n");
          p.body += "      " + ins(L, "t", st[i].first, st[i].second.first, st[i].second.second) + "      " + ins(L, "u", "ADD", "%y", "%t");
          if (y < 4) p.body += "";
          p.body += cat("      scf.yield ", yields[y], " : ", L.ct, ", ", L.ct, "\n    }\n");
          p.body += "    " + ins(L, "o", "SUB", "%l", "%m");
          p.rets = "%o";
          p.retTypes = L.ct;
          return true;
        });
  // nested
  for (size_t i = 0; i < st.size(); i++)
    for (int j = 0; j < 4; j++)
      for (int after = 0; after < 3; after++)
        all("nest", cat(i, j, after), [&](const Lib& L, Prog& p) {
          p.body = "    " + ins(L, "s", "ADD", "%a", "%b");
          p.body += cat("    %l = scf.for %i = %i0 to %i2 step %i1 iter_args(%z = %b) -> (", L.ct, ") {\n");
          p.body += "      " + ins(L, "q", j & 1 ? "NEG" : "ADD", "%z", "%c");
          p.body += cat("      %m = scf.for %j = %i0 to %i2 step %i1 iter_args(%x = ", j & 2 ? "%z" : "%q", ") -> (", L.ct, ") {\n        ", ins(L, "t", st[i].first, st[i].second.first, st[i].second.second), "        ", ins(L, "u", "ADD", "%t", "%q"), "        scf.yield %u : ", L.ct, "\n      }\n      scf.yield %m : ", L.ct, "\n    }\n");
          return finish(L, p, after, false);
        });
}

static void branches() {
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> st = {{"ADD", {"%s", "%a"}}, {"NEG", {"%s", ""}}, {"NEG", {"%a", ""}}, {"SUB", {"%a", "%s"}}, {"RESC", {"%s", ""}}, {"ADDP", {"%s", "%p"}}, {"", {"%s", ""}}, {"", {"%a", ""}}, {"ROT1", {"%s", ""}}};
  for (size_t i = 0; i < st.size(); i++)
    for (size_t j = 0; j < st.size(); j++)
      for (int two = 0; two < 2; two++)
        for (int after = 0; after < (int)afters.size(); after++)
          for (int keep = 0; keep < 2; keep++)
            all("if", cat(i, j, two, after, keep), [&](const Lib& L, Prog& p) {
              p.extra = ", %cond: i1";
              p.extraKinds = {A_COND};
              p.body = "    " + ins(L, "s", "ADD", "%a", "%b");
              auto arm = [&](size_t k, const std::string& n) {
                std::string r = st[k].second.first, b;
                if (st[k].first.size()) { b = "      " + ins(L, n, st[k].first, st[k].second.first, st[k].second.second); r = "%" + n; }
                if (two) { b += "      " + ins(L, n + "2", "ADD", r, "%b"); r = "%" + n + "2"; }
                return b + cat("      scf.yield ", r, " : ", L.ct, "\n");
              };
              p.body += cat("    %l = scf.if %cond -> (", L.ct, ") {\n", arm(i, "t"), "    } else {\n", arm(j, "e"), "    }\n");
              return finish(L, p, after, keep);
            });
}

// Ciphertexts kept in tensors and buffers: elements alias the variables they came from.
static void containers() {
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> st = {{"ADD", {"%x", "%a"}}, {"NEG", {"%x", ""}}, {"NEG", {"%s", ""}}, {"ADD", {"%s", "%x"}}, {"SUB", {"%a", "%x"}}, {"NEG", {"%a", ""}}, {"ADDP", {"%x", "%p"}}, {"RESC", {"%x", ""}}, {"ROT1", {"%x", ""}}};
  std::vector<std::string> make = {"from", "insert", "arg", "insertarg"};
  for (auto& mk : make)
    for (size_t i = 0; i < st.size(); i++)
      for (size_t j = 0; j < st.size(); j++)
        for (int idx = 0; idx < 2; idx++)
          for (int after = 0; after < 5; after++) {
            if (!mc::thorough() && (i + j + idx + after) % 2) continue;
            all("tensor", cat(mk, i, j, idx, after), [&](const Lib& L, Prog& p) {
              std::string tt = cat("tensor<2x", L.ct, ">");
              p.extra = ", %ten: " + tt;
              p.extraKinds = {A_TEN};
              p.body = "    " + ins(L, "s", "ADD", "%a", "%b");
              std::string t = "%tt";
              if (mk == "from") p.body += cat("    %tt = tensor.from_elements %s, %b : ", tt, "\n");
              else if (mk == "insert") p.body += cat("    %tt = tensor.insert %s into %ten[%i0] : ", tt, "\n");
              else if (mk == "insertarg") p.body += cat("    %tt = tensor.insert %a into %ten[%i0] : ", tt, "\n");
              else t = "%ten";
              p.body += cat("    %x = tensor.extract ", t, "[%i", idx, "] : ", tt, "\n");
              p.body += "    " + ins(L, "t", st[i].first, st[i].second.first, st[i].second.second) + "    " + ins(L, "u", st[j].first, j % 2 ? "%t" : st[j].second.first, st[j].second.second);
              std::string r = "%t, %u", ty = list(L.ct, 2);
              if (after == 1) { p.body += cat("    %y = tensor.extract ", t, "[%i", idx, "] : ", tt, "\n"); r = "%u, %y"; }
              if (after == 2) { p.body += cat("    %y = tensor.extract ", t, "[%i0] : ", tt, "\n    ") + ins(L, "o", "ADD", "%u", "%y"); r = "%o"; ty = L.ct; }
              if (after == 3) { r = "%u, " + t; ty = L.ct + ", " + tt; }
              if (after == 4) { p.body += cat("    %n = tensor.insert %u into ", t, "[%i1] : ", tt, "\n    ") + ins(L, "o", "NEG", "%u"); r = "%o, %n"; ty = L.ct + ", " + tt; }
              p.rets = r;
              p.retTypes = ty;
              return true;
            });
          }
  // a loop over a tensor of ciphertexts
  for (size_t i = 0; i < st.size(); i++)
    for (int kind = 0; kind < 4; kind++)
      for (int after = 0; after < 3; after++)
        all("scan", cat(i, kind, after), [&](const Lib& L, Prog& p) {
          std::string tt = cat("tensor<2x", L.ct, ">");
          p.extra = ", %ten: " + tt;
          p.extraKinds = {A_TEN};
          p.body = "    " + ins(L, "s", "ADD", "%a", "%b");
          std::string acc = kind < 2 ? L.ct : tt;
          p.body += cat("    %r = scf.for %i = %i0 to %i2 step %i1 iter_args(%z = ", kind < 2 ? "%s" : "%ten", ") -> (", acc, ") {\n      %x = tensor.extract ", kind == 3 ? "%z" : "%ten", "[%i] : ", tt, "\n      ", ins(L, "t", st[i].first, st[i].second.first, st[i].second.second));
          if (kind < 2) p.body += "      " + (kind ? ins(L, "u", "ADD", "%t", "%z") : ins(L, "u", "SUB", "%z", "%t"));
          else p.body += cat("      %u = tensor.insert %t into %z[%i] : ", tt, "\n");
          p.body += cat("      scf.yield %u : ", acc, "\n    }\n");
          p.rets = "%r"; p.retTypes = acc;
          if (after == 1) { p.body += cat("    %y = tensor.extract %ten[%i1] : ", tt, "\n"); p.rets += ", %y"; p.retTypes += ", " + L.ct; }
          if (after == 2) { p.rets += ", %s"; p.retTypes += ", " + L.ct; }
          return true;
        });
  // buffers
  for (size_t i = 0; i < st.size(); i++)
    for (size_t j = 0; j < st.size(); j++)
      for (int src = 0; src < 2; src++)
        for (int dst = 0; dst < 2; dst++)
          for (int after = 0; after < 4; after++) {
            if (!mc::thorough() && (i + j + src + dst + after) % 2) continue;
            all("buffer", cat(i, j, src, dst, after), [&](const Lib& L, Prog& p) {
              std::string mt = cat("memref<2x", L.ct, ">");
              p.extra = ", %mem: " + mt;
              p.extraKinds = {A_MEM};
              p.body = "    " + ins(L, "s", "ADD", "%a", "%b") + cat("    %x = memref.load %mem[%i", src, "] : ", mt, "\n    ") + ins(L, "t", st[i].first, st[i].second.first, st[i].second.second) + cat("    memref.store %t, %mem[%i", dst, "] : ", mt, "\n");
              std::string r = "%s";
              if (after == 1) r = "%t";
              p.body += "    " + ins(L, "u", st[j].first, j % 2 ? "%t" : st[j].second.first, st[j].second.second);
              if (after == 2) p.body += cat("    %y = memref.load %mem[%i", src, "] : ", mt, "\n    ") + ins(L, "v", "ADD", "%u", "%y"), r = "%v";
              if (after == 3) p.body += cat("    memref.store %u, %mem[%i1] : ", mt, "\n"), r = "%u";
              p.rets = r + ", %u";
              p.retTypes = list(L.ct, 2);
              return true;
            });
          }
}

static void calls() {
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> st = {{"ADD", {"%g", "%h"}}, {"NEG", {"%g", ""}}, {"SUB", {"%h", "%g"}}, {"ROT1", {"%g", ""}}};
  for (size_t i = 0; i < st.size(); i++)
    for (size_t j = 0; j < st.size(); j++)
      for (int arg = 0; arg < 4; arg++)
        for (int after = 0; after < (int)afters.size(); after++)
          for (int keep = 0; keep < 2; keep++)
            all("call", cat(i, j, arg, after, keep), [&](const Lib& L, Prog& p) {
              p.helper = cat("  func.func private @g(%cc: ", L.cc, ", %g: ", L.ct, ", %h: ", L.ct, ") -> ", L.ct, " {\n    ", ins(L, "t", st[i].first, st[i].second.first, st[i].second.second), "    ", ins(L, "u", st[j].first, "%t", "%h"), "    return %u : ", L.ct, "\n  }\n");
              p.body = "    " + ins(L, "s", "ADD", "%a", "%b");
              const char* args[] = {"%s, %a", "%a, %s", "%s, %s", "%b, %a"};
              p.body += cat("    %l = func.call @g(%cc, ", args[arg], ") : (", L.cc, ", ", L.ct, ", ", L.ct, ") -> ", L.ct, "\n");
              return finish(L, p, after, keep);
            });
}

// Storage that passes through several operations and levels before another chain finds it free.
static void reuse() {
  std::vector<std::string> un = {"NEG", "DROP", "RESC", "ROT1"};
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> join = {{"SUB", {"%x", "%z"}}, {"ADD", {"%z", "%x"}}, {"NEG", {"%x", ""}}, {"MUL", {"%z", "%z"}}}, last = {{"MUL", {"%a", "%b"}}, {"NEG", {"%a", ""}}, {"ROT1", {"%c", ""}}, {"DROP", {"%a", ""}}, {"RESC", {"%c", ""}}};
  for (int len : {2, 3})
    mc::product(std::vector<int64_t>(len, un.size()), [&](const std::vector<int64_t>& c) {
      for (size_t j = 0; j < join.size(); j++)
        for (size_t l = 0; l < last.size(); l++)
          for (int more = 0; more < 3; more++) {
            if (!mc::thorough() && len == 3 && (c[0] + c[1] + c[2] + j + l + more) % 3) continue;
            std::string id;
            for (auto k : c) id += cat(k);
            all("reuse", cat(id, ":", j, l, more), [&](const Lib& L, Prog& p) {
              p.body = "    " + ins(L, "z", "NEG", "%a") + "    " + ins(L, "s", "ADD", "%a", "%b");
              std::string x = "%s";
              for (size_t k = 0; k < c.size(); k++) { p.body += "    " + ins(L, cat("s", k), un[c[k]], x); x = cat("%s", k); }
              auto st = [&](auto& e, const std::string& r) { auto f = [&](const std::string& n) { return n == "%x" ? x : n; }; p.body += "    " + ins(L, r, e.first, f(e.second.first), f(e.second.second)); };
              st(join[j], "m");
              st(last[l], "n");
              p.rets = "%m, %n";
              if (more) { p.body += "    " + ins(L, "q", more == 1 ? "NEG" : "ADD", "%n", "%c") + "    " + ins(L, "w", "MUL", "%q", "%c"); p.rets = more == 1 ? "%m, %w" : "%m, %q, %w"; }
              p.retTypes = list(L.ct, more == 2 ? 3 : 2);
              return true;
            });
          }
    });
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  DialectRegistry reg;
  reg.insert<mlir::arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, memref::MemRefDialect, affine::AffineDialect, lattigo::LattigoDialect, openfhe::OpenfheDialect>();
  CompilationTargetRegistry::registerTarget(CompilationTarget{BackendName::Lattigo, 16, 0, 0});
  CompilationTargetRegistry::registerTarget(CompilationTarget{BackendName::OpenFHE, 0, 0, 0});
  Driver d(reg);
  D = &d;
  dags(1, {"ADD", "SUB", "MUL"}, {"NEG", "SQ", "REL", "RESC", "DROP", "ROT1", "ROTM", "ADDP", "SUBP", "PSUB", "MULP", "KC", "BOOT"});
  dags(2, {"ADD", "SUB", "MUL"}, {"NEG", "SQ", "REL", "RESC", "DROP", "ROT1", "ROT2", "ADDP", "SUBP", "PSUB", "MULP", "KC", "BOOT"});
  if (mc::thorough()) { dags(3, {"ADD", "SUB"}, {"NEG", "SQ", "RESC", "DROP", "ROT1", "ROT2", "PSUB"}); dags(4, {"ADD"}, {"NEG", "ROT1"}); }
  else dags(3, {"ADD"}, {"NEG", "ROT1", "ROT2"});
  loops();
  branches();
  containers();
  calls();
  reuse();
  return mc::finish();
}
