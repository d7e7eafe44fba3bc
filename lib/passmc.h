// Drives the repository's passes on enumerated programs and compares the meaning of the result with the original's.
#ifndef VERIF_LIB_PASSMC_H_
#define VERIF_LIB_PASSMC_H_

#include <set>
#include "interp.h"
#include "mc.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/Passes.h"

namespace pm {
using namespace mlir;
using interp::Sc;
using interp::V;
using interp::Vs;
using mc::cat;

struct Driver {
  MLIRContext ctx;
  std::string diag;
  explicit Driver(const DialectRegistry& reg) : ctx(reg, MLIRContext::Threading::DISABLED) {
    ctx.loadAllAvailableDialects();
    ctx.getDiagEngine().registerHandler([this](Diagnostic& d) {
      if (d.getSeverity() == DiagnosticSeverity::Error) { diag += d.str() + "; "; }
      return success();
    });
  }
  OwningOpRef<ModuleOp> parse(const std::string& text) {
    diag.clear();
    return parseSourceString<ModuleOp>(text, &ctx);
  }
  // The harness's own programs must parse: a failure here means the program or the dialect is broken.
  OwningOpRef<ModuleOp> need(const std::string& text) {
    auto m = parse(text);
    if (!m) mc::violate("parse:" + mc::S().cur.substr(0, mc::S().cur.find(':')), "program of case " + mc::S().cur + " rejected: " + diag + " in " + text);
    return m;
  }
  bool run(ModuleOp m, const std::function<void(OpPassManager&)>& build) {
    diag.clear();
    PassManager p(&ctx);
    build(p);
    return succeeded(p.run(m));
  }
};

inline std::string text(Operation* op) {
  std::string s;
  llvm::raw_string_ostream o(s);
  op->print(o);
  return s;
}
inline int count(Operation* root, StringRef name) {
  int n = 0;
  root->walk([&](Operation* o) { n += o->getName().getStringRef() == name; });
  return n;
}

struct Outcome {
  enum { OK, UNDEF, UNSUP } kind = OK;
  Vs vals;
  std::vector<std::vector<Sc>> bufs;  // contents of memref arguments afterwards
  std::string why;
  uint64_t steps = 0;
};
using Setup = std::function<void(interp::Machine&)>;

inline V copyArg(const V& v) {
  V r = v;
  r.d = std::make_shared<std::vector<Sc>>(*v.d);
  if (v.live) r.live = std::make_shared<bool>(*v.live);
  return r;
}
inline Outcome exec(ModuleOp m, StringRef fn, const Vs& args, const Setup& setup = nullptr) {
  Outcome o;
  interp::Machine M(m);
  if (setup) setup(M);
  Vs in;
  for (auto& a : args) in.push_back(copyArg(a));
  try {
    o.vals = M.call(fn, in);
    for (auto& v : in) if (v.mem) o.bufs.push_back(*v.d);
    for (auto& [n, vs] : M.effects) for (auto& v : vs) o.bufs.push_back(v.flat());
  } catch (interp::UB& e) { o.kind = Outcome::UNDEF; o.why = e.what(); }
  catch (interp::Unsupported& e) { o.kind = Outcome::UNSUP; o.why = e.what(); }
  o.steps = M.steps;
  mc::step(M.steps);
  return o;
}
inline std::string show(const Vs& vs) { std::string s; for (auto& v : vs) s += v.str() + " "; return s; }

// Does `after` refine `before`?  Empty string: yes.
inline std::string differs(const Outcome& before, const Outcome& after) {
  if (after.kind == Outcome::UNSUP) return "the result cannot be interpreted: " + after.why;
  if (after.kind == Outcome::UNDEF) return "the result has undefined behaviour: " + after.why;
  if (before.vals.size() != after.vals.size()) return "result count changed";
  for (size_t k = 0; k < before.vals.size(); k++) {
    auto a = before.vals[k].flat(), b = after.vals[k].flat();
    if (a.size() != b.size()) return "result size changed";
    for (size_t j = 0; j < a.size(); j++)
      if (!b[j].refines(a[j])) return cat("result ", k, " element ", j, " is ", b[j].str(), ", want ", a[j].str());
  }
  if (before.bufs.size() != after.bufs.size()) return "number of side effects changed";
  for (size_t k = 0; k < before.bufs.size(); k++)
    for (size_t j = 0; j < before.bufs[k].size(); j++)
      if (!after.bufs[k][j].refines(before.bufs[k][j])) return cat("buffer ", k, " element ", j, " is ", after.bufs[k][j].str(), ", want ", before.bufs[k][j].str());
  return "";
}

// Run `build` on a copy of the program and compare on every input.  Returns the transformed module (null if the pass failed).
inline OwningOpRef<ModuleOp> preserve(Driver& d, const std::string& key, const std::string& prog, StringRef fn, const std::function<void(OpPassManager&)>& build,
                                      const std::vector<Vs>& inputs, bool mayFail = false, const Setup& setup = nullptr) {
  auto before = d.need(prog);
  if (!before) return nullptr;
  OwningOpRef<ModuleOp> after(before->clone());
  mc::state();
  if (!d.run(*after, build)) {
    if (!mayFail) mc::violate(key + ":fails", cat(mc::S().cur, ": the pass rejects a valid program: ", d.diag, "\n", prog));
    else mc::count("rejected");
    return nullptr;
  }
  if (failed(verify(*after))) {
    mc::violate(key + ":invalid", cat(mc::S().cur, ": the pass produced invalid IR: ", d.diag, "\n", prog));
    return nullptr;
  }
  for (auto& in : inputs) {
    Outcome a = exec(*before, fn, in, setup);
    if (a.kind == Outcome::UNSUP) { mc::violate(key + ":harness", cat("the harness cannot interpret its own program: ", a.why, "\n", prog)); return after; }
    if (a.kind == Outcome::UNDEF) { mc::count("undefined inputs skipped"); continue; }
    Outcome b = exec(*after, fn, in, setup);
    mc::trace();
    mc::eval();
    std::string w = differs(a, b);
    if (!w.empty()) {
      mc::violate(key, cat(mc::S().cur, " on ", show(in), ": ", w, "\nprogram:\n", prog, "\nafter:\n", text(*after)));
      return after;
    }
    mc::outcome(cat(key, show(a.vals)));
  }
  return after;
}

// All IR reached from a program by at most `depth` applications of the given passes: each must be valid and mean the same.
struct PassStep { std::string name; std::function<void(OpPassManager&)> add; };
using Also = std::function<std::string(ModuleOp)>;  // a further demand on every reached state; empty when it holds
inline void explore(Driver& d, const std::string& key, const std::string& prog, StringRef fn, const std::vector<PassStep>& steps, int depth, const std::vector<Vs>& inputs,
                    const Setup& setup = nullptr, const Also& also = nullptr) {
  auto before = d.need(prog);
  if (!before) return;
  std::vector<Outcome> want;
  for (auto& in : inputs) {
    want.push_back(exec(*before, fn, in, setup));
    if (want.back().kind == Outcome::UNSUP) { mc::violate(key + ":harness", cat("the harness cannot interpret its own program: ", want.back().why, "\n", prog)); return; }
    if (want.back().kind == Outcome::OK) mc::outcome(cat(key, show(want.back().vals)));
  }
  std::set<std::string> seen{text(*before)};
  struct N { OwningOpRef<ModuleOp> m; std::string path; };
  std::vector<N> front;
  front.push_back({OwningOpRef<ModuleOp>(before->clone()), ""});
  mc::state();
  for (int dep = 0; dep < depth; dep++) {
    std::vector<N> next;
    for (auto& n : front)
      for (auto& s : steps) {
        OwningOpRef<ModuleOp> c(n.m->clone());
        mc::step();
        std::string path = n.path.empty() ? s.name : n.path + "," + s.name, what = key + "/" + s.name;
        auto say = [&](const std::string& kind, const std::string& w) { mc::violate(what + kind, cat(mc::S().cur, " after ", path, ": ", w, "\nprogram:\n", prog, "\nbefore ", s.name, ":\n", text(*n.m), "\nafter:\n", text(*c))); };
        if (!d.run(*c, s.add)) { say(":fails", d.diag); continue; }
        if (failed(verify(*c))) { say(":invalid", d.diag); continue; }
        if (!seen.insert(text(*c)).second) continue;
        mc::state();
        if (also) { auto w = also(*c); if (!w.empty()) { say(":also", w); continue; } }
        bool good = true;
        for (size_t k = 0; k < inputs.size() && good; k++) {
          if (want[k].kind != Outcome::OK) continue;
          Outcome b = exec(*c, fn, inputs[k], setup);
          mc::trace();
          mc::eval();
          auto w = differs(want[k], b);
          if (!w.empty()) { say("", cat("on ", show(inputs[k]), ": ", w)); good = false; }
        }
        if (good) next.push_back({std::move(c), path});
      }
    front = std::move(next);
  }
}
}  // namespace pm
#endif
