// P23: inserted ciphertext management keeps the meaning, and levels, dimensions and scales are consistent along every execution.
#include "lib/Dialect/BGV/IR/BGVAttributes.h"
#include "lib/Dialect/BGV/IR/BGVDialect.h"
#include "lib/Dialect/CKKS/IR/CKKSDialect.h"
#include "lib/Dialect/HEIRInterfaces.h"
#include "lib/Dialect/Mgmt/IR/MgmtAttributes.h"
#include "lib/Dialect/Mgmt/IR/MgmtDialect.h"
#include "lib/Dialect/Mgmt/IR/MgmtOps.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretOps.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Dialect/TensorExt/IR/TensorExtDialect.h"
#include "lib/Dialect/TensorExt/IR/TensorExtOps.h"
#include "lib/Target/CompilationTarget/CompilationTarget.h"
#include "lib/Transforms/PopulateScale/PopulateScale.h"
#include "lib/Transforms/SecretInsertMgmt/Passes.h"
#include "lib/Utils/AttributeUtils.h"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include "mlir/Transforms/Passes.h"
#include "ctmc.h"
using namespace pm;
using namespace mlir::heir;

static Driver* D;
struct Bad { std::string kind, what; };
enum { CLEAR, PT, CT };
static const int64_t T = 65537;
// Level primes of the scale runs: multiplication and inversion modulo T only need them non-zero modulo T.
static const std::vector<int64_t> Q = {134250497, 17179967489, 35184372121601, 67239937, 8796093202433, 1095233372161, 1032955396097, 1005037682689, 998595133441, 972824936449, 959939837953, 2148728833, 2148794369, 2149810177, 2150072321, 2152202241};

static int64_t inv(int64_t a) { int64_t r = 1; a %= T; for (int64_t e = T - 2; e; e >>= 1, a = a * a % T) if (e & 1) r = r * a % T; return r; }

// Executes the annotated program; every ciphertext carries its true level, dimension and scale.
struct Monitor {
  bool scales = false, ckks = false;
  int64_t top = 0, bootTo = 0, maxSeen = 0;
  int boots = 0;
  std::string nm(Operation* op) { return op->getName().getStringRef().str(); }
  void annotated(Value v, const V& x, Operation* at) {
    if (x.g.kind == CLEAR) return;
    auto a = mgmt::findMgmtAttrAssociatedWith(v);
    if (!a) throw Bad{isa<mlir::arith::SelectOp>(at) ? "unannotated-select" : "unannotated", cat("a ciphertext has no mgmt attribute at ", text(at).substr(0, 300))};
    if (a.getLevel() != x.g.level) throw Bad{"level", cat("annotated level ", a.getLevel(), ", true level ", x.g.level, " at ", text(at).substr(0, 300))};
    if (x.g.kind == CT && a.getDimension() != x.g.dim) throw Bad{"dimension", cat("annotated dimension ", a.getDimension(), ", true dimension ", x.g.dim, " at ", text(at).substr(0, 300))};
    if (scales && a.getScale() != x.g.scale) throw Bad{"scale", cat("annotated scale ", a.getScale(), ", true scale ", x.g.scale, " at ", text(at).substr(0, 300))};
  }
  void operator()(Operation* op, const Vs& given, Vs& out) {
    Vs in = given;
    // An encoded plaintext that enters a loop or leaves a branch in the place of a ciphertext is one from there on.
    for (size_t k = 0; k < in.size(); k++) {
      auto v = op->getOperand(k);
      auto* d = v.getDefiningOp();
      if (in[k].g.kind == PT && (!d || d->getNumRegions())) in[k].g.kind = CT, in[k].g.dim = 2;
    }
    for (size_t k = 0; k < in.size(); k++) annotated(op->getOperand(k), in[k], op);
    auto here = [&] { return cat(" at ", text(op).substr(0, 300)); };
    if (op->getNumRegions() == 0) step(op, in, out, here);
    for (size_t k = 0; k < out.size(); k++) annotated(op->getResult(k), out[k], op);
  }
  void step(Operation* op, const Vs& in, Vs& out, const std::function<std::string()>& here) {
    if (auto i = dyn_cast<mgmt::InitOp>(op)) {
      if (in[0].g.kind == CT) throw Bad{"init", "mgmt.init of a ciphertext" + here()};
      auto a = mgmt::findMgmtAttrAssociatedWith(i.getResult());
      if (!a) throw Bad{"unannotated", "mgmt.init without mgmt attribute" + here()};
      out[0].g = {PT, a.getLevel(), 2, a.getScale()};
      return;
    }
    // A yield of something that is not secret at all is folded to an encryption of it, at whatever level it is annotated with.
    if (op->getName().getStringRef() == "secret.conceal") {
      auto a = mgmt::findMgmtAttrAssociatedWith(op->getResult(0));
      if (a) out[0].g = {CT, a.getLevel(), a.getDimension(), a.getScale()};
      return;
    }
    bool ct = false;
    for (auto& v : in) ct |= v.g.kind == CT;
    bool any = false;
    for (auto& v : in) any |= v.g.kind != CLEAR;
    if (!any) return;
    auto name = op->getName().getStringRef();
    if (isa<func::ReturnOp>(op)) return;
    auto g = in[0].g;
    if (name == "arith.select") {
      // Two branches merged on a cleartext condition: either may be taken, so both must agree.
      for (int k = 1; k < 3; k++)
        if (in[k].g.kind == CLEAR) throw Bad{"cleartext", "a cleartext operand was never encoded (no mgmt.init)" + here()};
      if (in[1].g.level != in[2].g.level) throw Bad{"operands", cat("operand levels ", in[1].g.level, " and ", in[2].g.level, here())};
      g = in[1].g;
      g.kind = in[1].g.kind == CT || in[2].g.kind == CT ? CT : PT;
      g.dim = std::max(in[1].g.dim, in[2].g.dim);
      if (scales && in[1].g.scale != in[2].g.scale) throw Bad{"addscale", cat("operand scales ", in[1].g.scale, " and ", in[2].g.scale, here())};
    } else if (isa<mgmt::ModReduceOp>(op)) {
      if (g.level < 1) throw Bad{"underflow", "mod reduction at level 0" + here()};
      if (scales) g.scale = g.scale * inv(Q[g.level]) % T;
      g.level--;
    } else if (auto r = dyn_cast<mgmt::LevelReduceOp>(op)) {
      if (g.level < (int64_t)r.getLevelToDrop()) throw Bad{"underflow", "level reduction below level 0" + here()};
      g.level -= r.getLevelToDrop();
    } else if (isa<mgmt::LevelReduceMinOp>(op)) g.level = 0;
    else if (isa<mgmt::RelinearizeOp>(op)) g.dim = 2;
    else if (isa<mgmt::BootstrapOp>(op)) {
      if (g.dim != 2) throw Bad{"linear", "bootstrap of a non-linear ciphertext" + here()};
      g.level = bootTo;
      boots++;
    } else if (isa<mgmt::AdjustScaleOp>(op)) {
      if (scales) throw Bad{"harness", "adjust_scale left" + here()};
    } else if (name == "arith.muli" || name == "arith.mulf" || name == "arith.addi" || name == "arith.addf" || name == "arith.subi" || name == "arith.subf") {
      bool mul = name.starts_with("arith.mul");
      if (!ct && (in[0].g.kind == CLEAR || in[1].g.kind == CLEAR)) { out[0].g = in[0].g.kind ? in[0].g : in[1].g; return; }
      for (auto& v : in)
        if (v.g.kind == CLEAR) throw Bad{"cleartext", "a cleartext operand was never encoded (no mgmt.init)" + here()};
      if (in[0].g.level != in[1].g.level) throw Bad{"operands", cat("operand levels ", in[0].g.level, " and ", in[1].g.level, here())};
      if (mul)
        for (auto& v : in)
          if (v.g.kind == CT && v.g.dim != 2) throw Bad{"linear", "multiplication of a non-linear ciphertext" + here()};
      g.kind = ct ? CT : PT;
      g.dim = mul && in[0].g.kind == CT && in[1].g.kind == CT ? 3 : std::max(in[0].g.dim, in[1].g.dim);
      if (scales) {
        if (mul) g.scale = in[0].g.scale * in[1].g.scale % T;
        else if (in[0].g.scale != in[1].g.scale) throw Bad{"addscale", cat("operand scales ", in[0].g.scale, " and ", in[1].g.scale, here())};
      }
    } else if (name == "tensor_ext.rotate" || name == "arith.negf") {
      if (g.dim != 2) throw Bad{"linear", "rotation of a non-linear ciphertext" + here()};
    } else if (name == "tensor.extract_slice" || name == "tensor.extract" || name == "tensor.collapse_shape" || name == "tensor.expand_shape") {
    } else if (name == "tensor.insert_slice" || name == "tensor.insert") {
      for (int k = 0; k < 2; k++)
        if (in[k].g.kind == CLEAR) throw Bad{"cleartext", "a cleartext operand was never encoded (no mgmt.init)" + here()};
      if (in[0].g.level != in[1].g.level) throw Bad{"operands", cat("operand levels ", in[0].g.level, " and ", in[1].g.level, here())};
      g.kind = CT;
      g.dim = std::max(in[0].g.dim, in[1].g.dim);
      if (scales && in[0].g.scale != in[1].g.scale) throw Bad{"addscale", cat("operand scales ", in[0].g.scale, " and ", in[1].g.scale, here())};
    } else throw Bad{"harness", "unmodelled operation on a ciphertext" + here()};
    for (auto& o : out) o.g = g;
  }
};

// Runs f in a child: the text of the failed assertion, or empty when f returns.
static std::string aborts(const std::function<void()>& f) {
  if (!getenv("P23_FORK")) return "";  // for triage only: a crash also ends the shard with a violation
  int fd[2];
  if (pipe(fd)) return "";
  pid_t p = fork();
  if (!p) {
    close(fd[0]);
    dup2(fd[1], 2);
    signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGALRM, SIG_DFL);
    alarm(20);
    f();
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char b[4096];
  for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) if (s.size() < 100000) s.append(b, n);
  close(fd[0]);
  int st;
  waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return "hangs";
  auto at = s.find("Assertion `");
  if (at == std::string::npos) { at = s.find("UNREACHABLE"); if (at == std::string::npos) return cat("crash ", st); return "unreachable"; }
  return s.substr(at, s.find('\n', at) - at);
}

struct Conf { std::string name, scheme; int mode; int budget = -1, waterline = 0, consumed = 0; };
static std::vector<Conf> confs;

static std::string funArgs(const std::string& ty, int cts, int pts, bool conds, bool generic) {
  std::string s;
  for (int k = 0; k < cts; k++) s += cat(s.empty() ? "" : ", ", "%s", k, ": !secret.secret<", ty, ">");
  for (int k = 0; k < pts; k++) s += cat(s.empty() ? "" : ", ", "%p", k, ": ", ty);
  if (conds) s += ", %cond: i1";
  return s;
}

struct Prog { std::string body; std::vector<std::string> rets; int cts = 1; bool cond = false; std::vector<int64_t> shape; std::vector<std::string> rty; };

// body uses %x0.. (secret), %p0 (cleartext), ADD/SUB/MUL/TY placeholders.
static std::string render(const Prog& p, const Conf& c, std::string& head) {
  bool fl = c.scheme == "ckks";
  std::string el = fl ? "f32" : "i16", ty = el;
  if (!p.shape.empty()) { ty = "tensor<"; for (auto d : p.shape) ty += cat(d, "x"); ty += el + ">"; }
  std::string b = p.body;
  auto sub = [&](const std::string& a, const std::string& r) { for (size_t at; (at = b.find(a)) != std::string::npos;) b.replace(at, a.size(), r); };
  sub("ADD", fl ? "arith.addf" : "arith.addi"); sub("SUB", fl ? "arith.subf" : "arith.subi"); sub("MUL", fl ? "arith.mulf" : "arith.muli");
  sub("TY", ty); sub("EL", el); sub("ONE", p.shape.empty() ? (fl ? "-1.0" : "-1") : fl ? "dense<-1.0>" : "dense<-1>");
  std::string rt, st, rv, yt;
  for (size_t k = 0; k < p.rets.size(); k++) {
    std::string r = p.rty.empty() ? ty : p.rty[k];
    for (size_t at; (at = r.find("EL")) != std::string::npos;) r.replace(at, 2, el);
    st += cat(k ? ", " : "", "!secret.secret<", r, ">"); rv += cat(k ? ", " : "", p.rets.size() > 1 ? cat("%r#", k) : "%r"); yt += cat(k ? ", " : "", r); rt += cat(k ? ", " : "", p.rets[k]);
  }
  std::string mod = "module attributes {scheme." + c.scheme;
  if (c.scheme == "ckks") mod += ", backend.lattigo, backend.config_override = {bootstrapLevelsConsumed = " + cat(c.consumed) + " : i32}";
  if (c.scheme == "bgv-openfhe") mod = "module attributes {backend.openfhe";
  mod += "} {\n";
  std::string gi, ba;
  for (int k = 0; k < p.cts; k++) gi += cat(k ? ", " : "", "%s", k, ": !secret.secret<", ty, ">"), ba += cat(k ? ", " : "", "%x", k, ": ", ty);
  head = mod;
  return mod + "func.func @f(" + funArgs(ty, p.cts, 1, p.cond, false) + ") -> (" + st + ") {\n  %k0 = arith.constant 0 : index\n  %k1 = arith.constant 1 : index\n  %k2 = arith.constant 2 : index\n  %k3 = arith.constant 3 : index\n  %k5 = arith.constant 5 : index\n" +
         cat("  %r", p.rets.size() > 1 ? cat(":", p.rets.size()) : "", " = secret.generic(", gi, ") {\n  ^bb0(", ba, "):\n", b, "    secret.yield ", rt, " : ", yt, "\n  } -> (", st, ")\n  return ", rv, " : ", st, "\n}\n}");
}

static Outcome monitored(ModuleOp m, const Vs& in, Monitor& M, std::string& kind, std::string& what) {
  Outcome o;
  auto f = *m.getOps<func::FuncOp>().begin();
  Vs args = in;
  for (unsigned k = 0; k < f.getNumArguments(); k++) {
    if (!isa<secret::SecretType>(f.getArgument(k).getType())) continue;
    auto a = mgmt::findMgmtAttrAssociatedWith(f.getArgument(k));
    if (!a) { kind = "unannotated"; what = "a secret argument has no mgmt attribute"; return o; }
    args[k].g = {CT, a.getLevel(), a.getDimension(), a.getScale()};
    M.top = std::max<int64_t>(M.top, a.getLevel());
    if (a.getDimension() != 2) { kind = "dimension"; what = "a function argument has a dimension other than 2"; return o; }
  }
  try {
    o = exec(m, "f", args, [&](interp::Machine& mm) {
      ct::setup(mm);
      mm.watch = [&](Operation* op, const Vs& a, const Vs& r) { M(op, a, const_cast<Vs&>(r)); };
    });
  } catch (Bad& b) { kind = b.kind; what = b.what; return o; }
  if (o.kind != Outcome::OK) return o;
  for (size_t k = 0; k < o.vals.size(); k++) {
    auto a = dyn_cast_or_null<mgmt::MgmtAttr>(f.getResultAttr(k, mgmt::MgmtDialect::kArgMgmtAttrName));
    auto& g = o.vals[k].g;
    if (g.kind != CT) { if (a && g.kind == PT) continue; continue; }
    if (!a) { kind = "unannotated"; what = "a result has no mgmt attribute"; return o; }
    if (a.getLevel() != g.level || a.getDimension() != g.dim || (M.scales && a.getScale() != g.scale)) {
      kind = "result"; what = cat("result ", k, " is annotated with level ", a.getLevel(), " dimension ", a.getDimension(), " scale ", a.getScale(), " but has level ", g.level, " dimension ", g.dim, " scale ", g.scale);
      return o;
    }
  }
  return o;
}

static void go(const std::string& fam, const std::string& id, const Prog& p, const Conf& c, bool mayReject = false) {
  // The deeper nests are told apart one by one.
  std::string key = fam == "nest" && mc::thorough() ? id : fam + "/" + c.name;
  mc::doing(key);
  mc::guarded([&] {
    std::string head, prog = render(p, c, head);
    auto before = D->need(prog);
    if (!before) return;
    mc::state();
    // The pipelines canonicalize programs before they insert management.
    OwningOpRef<ModuleOp> canon(before->clone());
    if (!D->run(*canon, [](OpPassManager& pm) { pm.addPass(createCanonicalizerPass()); })) { mc::violate("harness", "cannot canonicalize\n" + prog); return; }
    // Conditionals that are simplified to selects are not managed.
    bool select = false;
    canon->walk([&](mlir::arith::SelectOp) { select = true; });
    if (select) { mc::count("selects"); return; }
    OwningOpRef<ModuleOp> after(canon->clone());
    auto pass = [&](OpPassManager& pm) {
      if (c.scheme == "bfv") pm.addPass(createSecretInsertMgmtBFV());
      else if (c.scheme == "ckks") {
        SecretInsertMgmtCKKSOptions o;
        o.afterMul = c.mode == 0; o.beforeMulIncludeFirstMul = c.mode == 2; o.levelBudget = c.budget; o.bootstrapWaterline = c.waterline;
        pm.addPass(createSecretInsertMgmtCKKS(o));
      } else {
        SecretInsertMgmtBGVOptions o;
        o.afterMul = c.mode == 0; o.beforeMulIncludeFirstMul = c.mode == 2; o.levelBudget = c.budget;
        pm.addPass(createSecretInsertMgmtBGV(o));
      }
    };
    auto say = [&](const std::string& k, const std::string& w, ModuleOp m) { mc::violate(key + k, cat(mc::S().cur, " ", c.name, ": ", w, "\nprogram:\n", prog, "\nafter:\n", text(m))); };
    auto dead = aborts([&] { OwningOpRef<ModuleOp> m(canon->clone()); (void)D->run(*m, pass); });
    if (!dead.empty()) { say(":crash", dead, *before); return; }
    if (!D->run(*after, pass)) {
      if (mayReject) { mc::count("rejected"); mc::outcome("rejected"); return; }
      say(":rejects", D->diag, *after);
      return;
    }
    if (failed(verify(*after))) { say(":invalid", D->diag, *after); return; }
    std::vector<Vs> ins;
    int64_t n = 1;
    for (auto d : p.shape) n *= d;
    for (int cond = 0; cond < (p.cond ? 2 : 1); cond++) {
      Vs in;
      int v = 0;
      for (int k = 0; k < p.cts + 1; k++) {
        std::vector<Sc> d;
        for (int64_t j = 0; j < n; j++) d.push_back(Sc::var(v++));
        in.push_back(p.shape.empty() ? V::scalar(d[0]) : V::tensor(p.shape, d));
      }
      if (p.cond) in.push_back(V::scalar(Sc::in(-cond)));
      ins.push_back(in);
    }
    auto check = [&](ModuleOp m, bool scales, const std::string& stage) {
      for (auto& in : ins) {
        Outcome a = exec(*before, "f", in, ct::setup);
        if (a.kind != Outcome::OK) { mc::violate("harness", cat("cannot interpret: ", a.why, "\n", prog)); return false; }
        Monitor M;
        M.scales = scales; M.ckks = c.scheme == "ckks";
        auto f = *m.getOps<func::FuncOp>().begin();
        int64_t top = 0;
        m->walk([&](Operation* o) { (void)o; });
        for (unsigned k = 0; k < f.getNumArguments(); k++) if (auto x = mgmt::findMgmtAttrAssociatedWith(f.getArgument(k))) top = std::max<int64_t>(top, x.getLevel());
        // A bootstrapped ciphertext has what bootstrapping itself does not consume of the highest level.
        M.bootTo = top - c.consumed;
        std::string kind, what;
        Outcome b = monitored(m, in, M, kind, what);
        mc::trace();
        mc::eval();
        if (!kind.empty()) { say(stage + ":" + kind, what, m); return false; }
        auto w = differs(a, b);
        if (!w.empty()) { say(stage, w, m); return false; }
        if (c.budget >= 0 && M.top > c.budget + c.consumed) { say(stage + ":budget", cat("level ", M.top, " exceeds the budget"), m); return false; }
        mc::outcome(cat(key, stage, M.top, ",", M.boots));
      }
      return true;
    };
    if (!check(*after, false, "")) return;
    if (c.scheme == "bgv") {
      OwningOpRef<ModuleOp> sc(after->clone());
      auto i64 = [&](ArrayRef<int64_t> v) { return DenseI64ArrayAttr::get(&D->ctx, v); };
      (*sc)->setAttr(bgv::BGVDialect::kSchemeParamAttrName, bgv::SchemeParamAttr::get(&D->ctx, 13, i64(Q), i64({35184372203521}), T, bgv::BGVEncryptionType::pk, bgv::BGVEncryptionTechnique::standard));
      mc::state();
      auto scale = [](OpPassManager& p) { p.addPass(createPopulateScaleBGV()); };
      auto dead = aborts([&] { OwningOpRef<ModuleOp> m(sc->clone()); (void)D->run(*m, scale); });
      if (!dead.empty()) { say("/scale:crash", dead, *sc); return; }
      if (!D->run(*sc, scale)) { say("/scale:rejects", D->diag, *sc); return; }
      if (failed(verify(*sc))) { say("/scale:invalid", D->diag, *sc); return; }
      check(*sc, true, "/scale");
    }
  });
}
static void all(const std::string& fam, const std::string& id, const Prog& p, bool mayReject = false) {
  // Only CKKS has bootstrapping, which is what keeps the levels of a loop-carried ciphertext bounded; the others unroll.
  bool ckks = fam.find("loop") != std::string::npos || fam == "nest", noBfv = fam == "if";
  for (auto& c : confs) {
    if ((ckks && c.scheme != "ckks") || (noBfv && c.scheme == "bfv")) continue;
    std::string cid = fam + ":" + id + ":" + c.name;
    if (!mc::mine() || !mc::begin(cid)) continue;
    go(fam, cid, p, c, mayReject || c.budget >= 0);
  }
}

// Straight-line programs of n operations over x0, x1?, p0 and every earlier result; every result is used.
static void dags(const std::string& fam, int n, int cts, const std::vector<std::string>& ops, bool two) {
  struct O { int op, a, b; };
  std::vector<O> seq;
  int base = cts + 1;
  std::function<void()> rec = [&] {
    if ((int)seq.size() == n) {
      std::set<int> used;
      bool ct = false;
      for (auto& o : seq) used.insert(o.a), used.insert(o.b), ct |= o.a < cts || o.b < cts;
      for (int k = 0; k < cts; k++) if (!used.count(k)) return;
      for (int y2 = two ? -1 : -1; y2 < (two ? base + n - 1 : 0); y2++) {
        if (y2 == cts) continue;  // a cleartext result
        bool ok = true;
        for (int k = 0; k + 1 < n; k++) ok &= used.count(base + k) || y2 == base + k;
        if (!ok) continue;
        auto nm = [&](int v) { return v < cts ? cat("%x", v) : v == cts ? std::string("%p0") : cat("%v", v - base); };
        Prog p;
        p.cts = cts;
        std::string id;
        for (int k = 0; k < n; k++) { p.body += cat("    %v", k, " = ", ops[seq[k].op], " ", nm(seq[k].a), ", ", nm(seq[k].b), " : TY\n"); id += cat(ops[seq[k].op][0], seq[k].a, seq[k].b); }
        p.rets = {nm(base + n - 1)};
        if (y2 >= 0) { p.rets.push_back(nm(y2)); id += cat("y", y2); }
        all(fam, id, p);
      }
      return;
    }
    int have = base + seq.size();
    for (size_t op = 0; op < ops.size(); op++)
      for (int a = 0; a < have; a++)
        for (int b = ops[op] == "SUB" ? 0 : a; b < have; b++) {
          if (a == cts && b == cts) continue;
          if (ops[op] == "SUB" && a == b) continue;  // folds to a cleartext zero
          seq.push_back({(int)op, a, b});
          rec();
          seq.pop_back();
        }
  };
  rec();
}

static void loops() {
  std::vector<std::string> inits = {"%x0", "%p0", "%s", "%c"};
  // one or two statements on the accumulator
  std::vector<std::string> b1 = {"ADD %a, %x0", "MUL %a, %x0", "MUL %a, %a", "MUL %a, %p0", "ADD %a, %p0", "SUB %x0, %a", "ADD %a, %s", "MUL %a, %s"};
  std::vector<std::string> b2 = {"", "ADD %t, %x0", "MUL %t, %x0", "MUL %t, %p0", "MUL %t, %a", "ADD %t, %a"};
  std::vector<std::string> post = {"", "ADD %l, %x0", "MUL %l, %x0"};
  for (auto trips : mc::thorough() ? std::vector<int>{1, 2, 3, 4, 5, 7} : std::vector<int>{1, 2, 3})
    for (auto& in : inits)
      for (size_t i = 0; i < b1.size(); i++)
        for (size_t j = 0; j < b2.size(); j++)
          for (size_t k = 0; k < post.size(); k++) {
            if (!mc::thorough() && ((i + j + k + trips) % 2)) continue;
            for (int kind = 0; kind < 2; kind++) {
              Prog p;
              p.body = "    %s = MUL %x0, %x0 : TY\n    %c = arith.constant ONE : TY\n";
              p.body += kind ? cat("    %l = affine.for %i = 0 to ", trips) : cat("    %l = scf.for %i = %k0 to %t", trips, "c step %k1");
              if (!kind) p.body = cat("    %t", trips, "c = arith.constant ", trips, " : index\n") + p.body;
              p.body += cat(" iter_args(%a = ", in, ") -> (TY) {\n      %t = ", b1[i], " : TY\n");
              if (b2[j].size()) p.body += cat("      %u = ", b2[j], " : TY\n");
              p.body += cat("      ", kind ? "affine" : "scf", ".yield ", b2[j].size() ? "%u" : "%t", " : TY\n    }\n");
              if (post[k].size()) p.body += cat("    %o = ", post[k], " : TY\n");
              p.rets = {post[k].size() ? "%o" : "%l"};
              all("loop", cat(trips, in, i, j, k, kind), p);
            }
          }
  // two accumulators
  std::vector<std::string> s1 = {"MUL %a, %x0", "MUL %a, %b", "ADD %a, %b", "MUL %b, %b", "ADD %b, %p0"}, y = {"%t, %a", "%t, %b", "%t, %u", "%b, %t"};
  for (int trips : {1, 2, 3})
    for (size_t i = 0; i < s1.size(); i++)
      for (size_t j = 0; j < y.size(); j++)
        for (int in = 0; in < 2; in++)
          for (int out = 0; out < 3; out++) {
            if (!mc::thorough() && (i + j + in + out + trips) % 2) continue;
            Prog p;
            p.body = cat("    %s = MUL %x0, %x0 : TY\n    %l:2 = affine.for %i = 0 to ", trips, " iter_args(%a = ", in == 1 ? "%s" : "%x0", ", %b = ", in == 2 ? "%s" : "%x0", ") -> (TY, TY) {\n      %t = ", s1[i], " : TY\n      %u = ADD %t, %x0 : TY\n      affine.yield ", y[j], " : TY, TY\n    }\n");
            if (out == 2) p.body += "    %o = ADD %l#0, %l#1 : TY\n";
            p.rets = out == 2 ? std::vector<std::string>{"%o"} : out ? std::vector<std::string>{"%l#1"} : std::vector<std::string>{"%l#0", "%l#1"};
            all("loop2", cat(trips, i, j, in, out), p);
          }
  // nests
  std::vector<std::string> inner = {"MUL %b, %x0", "ADD %b, %x0", "MUL %b, %a", "ADD %b, %a", "MUL %b, %b"}, outer = {"", "ADD %m, %x0", "MUL %m, %x0", "ADD %m, %a"};
  for (int t1 : {1, 2, 3})
    for (int t2 : {1, 2, 3})
      for (size_t i = 0; i < inner.size(); i++)
        for (size_t o = 0; o < outer.size(); o++)
          for (int in = 0; in < 3; in++) {
            if (!mc::thorough() && (i + o + in + t1 + t2) % 3) continue;
            Prog p;
            p.body = cat("    %s = MUL %x0, %x0 : TY\n    %l = affine.for %i = 0 to ", t1, " iter_args(%a = ", in == 1 ? "%s" : "%x0", ") -> (TY) {\n      %m = affine.for %j = 0 to ", t2, " iter_args(%b = ", in == 2 ? "%x0" : "%a", ") -> (TY) {\n        %t = ", inner[i], " : TY\n        affine.yield %t : TY\n      }\n");
            if (outer[o].size()) p.body += cat("      %u = ", outer[o], " : TY\n");
            p.body += cat("      affine.yield ", outer[o].size() ? "%u" : "%m", " : TY\n    }\n");
            p.rets = {"%l"};
            all("nest", cat(t1, t2, i, o, in), p);
          }
}

static void branches() {
  std::vector<std::string> br = {"%x0", "%p0", "%s", "MUL %x0, %x0", "MUL %x0, %p0", "MUL %s, %x0", "ADD %s, %x0", "MUL %s, %s", "ADD %x0, %p0"};
  std::vector<std::string> post = {"", "ADD %l, %x0", "MUL %l, %x0", "MUL %l, %l", "ADD %l, %s", "MUL %l, %p0"};
  auto arm = [&](const std::string& e, const std::string& n) {
    if (e[0] == '%') return cat("      scf.yield ", e, " : TY\n");
    return cat("      %", n, " = ", e, " : TY\n      scf.yield %", n, " : TY\n");
  };
  for (size_t i = 0; i < br.size(); i++)
    for (size_t j = 0; j < br.size(); j++)
      for (size_t k = 0; k < post.size(); k++) {
        Prog p;
        p.cond = true;
        p.body = cat("    %s = MUL %x0, %x0 : TY\n    %l = scf.if %cond -> (TY) {\n", arm(br[i], "t"), "    } else {\n", arm(br[j], "e"), "    }\n");
        if (post[k].size()) p.body += cat("    %o = ", post[k], " : TY\n");
        p.rets = {post[k].size() ? "%o" : "%l"};
        if (br[i] == "%p0" || br[j] == "%p0") continue;  // a cleartext branch is not encoded
        all("if", cat(i, j, k), p);
      }
  // a branch inside a loop, and a loop inside a branch
  for (int trips : {1, 2, 3})
    for (auto& t : {"%a", "MUL %a, %x0", "ADD %a, %x0", "MUL %a, %p0"})
      for (auto& e : {"%a", "MUL %a, %a", "ADD %a, %p0", "%x0"})
        for (auto& in : {"%x0"})
          for (int k = 0; k < 2; k++) {
            Prog p;
            p.cond = true;
            p.body = cat("    %l = affine.for %i = 0 to ", trips, " iter_args(%a = ", in, ") -> (TY) {\n      %m = scf.if %cond -> (TY) {\n", arm(t, "t"), "      } else {\n", arm(e, "e"), "      }\n      affine.yield %m : TY\n    }\n");
            if (k) p.body += "    %o = MUL %l, %x0 : TY\n";
            p.rets = {k ? "%o" : "%l"};
            all("loopif", cat(trips, t, e, in, k), p);
            Prog q;
            q.cond = true;
            q.body = cat("    %l = scf.if %cond -> (TY) {\n      %m = affine.for %i = 0 to ", trips, " iter_args(%a = ", in, ") -> (TY) {\n");
            std::string ts = t;
            q.body += ts[0] == '%' ? cat("        affine.yield ", ts, " : TY\n") : cat("        %t = ", ts, " : TY\n        affine.yield %t : TY\n");
            q.body += cat("      }\n      scf.yield %m : TY\n    } else {\n      scf.yield %x0 : TY\n    }\n");
            if (k) q.body += "    %o = MUL %l, %x0 : TY\n";
            q.rets = {k ? "%o" : "%l"};
            if (std::string(e) == "%a") all("ifloop", cat(trips, t, in, k), q);
          }
}

static void tensors() {
  // rotations between products, slices and inserts
  std::vector<std::string> st = {"tensor_ext.rotate %P, %k1 : TY, index", "MUL %P, %x0 : TY", "ADD %P, %x0 : TY", "MUL %P, %P : TY", "MUL %P, %p0 : TY", "ADD %P, %p0 : TY"};
  int n = mc::thorough() ? 4 : 3;
  std::vector<int64_t> b(n, st.size());
  mc::product(b, [&](const std::vector<int64_t>& c) {
    Prog p;
    p.shape = {4};
    std::string prev = "x0", id;
    for (int k = 0; k < n; k++) {
      std::string s = st[c[k]];
      for (size_t at; (at = s.find("%P")) != std::string::npos;) s.replace(at, 2, "%" + prev);
      p.body += cat("    %v", k, " = ", s, "\n");
      prev = cat("v", k);
      id += cat(c[k]);
    }
    p.rets = {"%" + prev};
    all("rot", id, p);
  });
  std::vector<std::string> src = {"%x0", "%s", "%q", "%p0"};
  for (auto& a : src)
    for (auto& d : src)
      for (int post = 0; post < 4; post++)
        for (int kind = 0; kind < 3; kind++) {
          Prog p;
          p.shape = {2, 2};
          p.body = "    %s = MUL %x0, %x0 : TY\n    %q = MUL %s, %x0 : TY\n";
          if (kind == 0) p.body += cat("    %e = tensor.extract_slice ", a, "[1, 0] [1, 2] [1, 1] : TY to tensor<1x2xEL>\n    %l = tensor.insert_slice %e into ", d, "[0, 0] [1, 2] [1, 1] : tensor<1x2xEL> into TY\n");
          else if (kind == 1) p.body += cat("    %e = tensor.extract ", a, "[%k0, %k1] : TY\n    %l = tensor.insert %e into ", d, "[%k1, %k1] : TY\n");
          else p.body += cat("    %z = tensor.empty() : TY\n    %l = scf.for %i = %k0 to %k2 step %k1 iter_args(%acc = %z) -> (TY) {\n      %e = tensor.extract_slice ", a, "[%i, 0] [1, 2] [1, 1] : TY to tensor<1x2xEL>\n      %f = tensor.extract_slice ", d, "[%i, 0] [1, 2] [1, 1] : TY to tensor<1x2xEL>\n      %m = MUL %e, %f : tensor<1x2xEL>\n      %w = tensor.insert_slice %m into %acc[%i, 0] [1, 2] [1, 1] : tensor<1x2xEL> into TY\n      scf.yield %w : TY\n    }\n");
          if (a == "%p0" && d == "%p0") continue;
          if (kind == 1 && d == "%p0") continue;  // becomes an encryption of the destination outside
          if (kind == 2) continue;
          if (post == 1) p.body += "    %o = ADD %l, %x0 : TY\n";
          if (post == 2) p.body += "    %o = MUL %l, %x0 : TY\n";
          if (post == 3) p.body += "    %o = MUL %l, %s : TY\n";
          p.rets = {post ? "%o" : "%l"};
          all("slice", cat(a, d, post, kind), p);
        }
}

int main(int argc, char** argv) {
  mc::init(argc, argv);
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, mlir::arith::ArithDialect, func::FuncDialect, scf::SCFDialect, tensor::TensorDialect, secret::SecretDialect, tensor_ext::TensorExtDialect, mgmt::MgmtDialect, bgv::BGVDialect, ckks::CKKSDialect>();
  registerOperandAndResultAttrInterface(reg);
  registerIncreasesMulDepthOpInterface(reg);
  registerPlaintextOperandInterface(reg);
  CompilationTargetRegistry::registerTarget(CompilationTarget{BackendName::Lattigo, 16, 0, 0});
  CompilationTargetRegistry::registerTarget(CompilationTarget{BackendName::OpenFHE, 0, 0, 0});
  Driver d(reg);
  D = &d;
  confs = {{"bgv-after", "bgv", 0}, {"bgv-before", "bgv", 1}, {"bgv-first", "bgv", 2}, {"bfv", "bfv", 1}, {"ckks-after", "ckks", 0}, {"ckks-before", "ckks", 1}, {"ckks-first", "ckks", 2}, {"ckks-b2", "ckks", 1, 2}, {"ckks-b2after", "ckks", 0, 2}, {"ckks-b4c1", "ckks", 2, 3, 1, 1}};
  if (!mc::thorough()) confs.erase(confs.begin() + 8);
  dags("dag2", 2, 1, {"MUL", "ADD", "SUB"}, true);
  dags("dag2", 2, 2, {"MUL", "ADD"}, true);
  dags("dag3", 3, 1, {"MUL", "ADD"}, mc::thorough());
  if (mc::thorough()) { dags("dag3", 3, 2, {"MUL", "ADD"}, false); dags("dag4", 4, 1, {"MUL", "ADD"}, false); }
  loops();
  branches();
  tensors();
  return mc::finish();
}
