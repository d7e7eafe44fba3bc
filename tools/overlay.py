"""The repository targets a newer MLIR than the one installed (20).  This writes, under _build/ov, copies of the
installed MLIR headers and TableGen files with the missing spellings added as inline code: static Op::create, moved
headers, renamed interface members, and the like.  Nothing of the repository is changed, no object layout of the
installed library changes, and no behaviour of the installed MLIR code changes."""
import os, re

CREATE = r'''
  // compat: newer MLIR spells builder.create<Op>(loc, ...) as Op::create(builder, loc, ...).
  template <typename B, typename... A>
  static auto create(B &&b, A &&...a) -> std::enable_if_t<std::is_base_of_v<::mlir::Builder, std::remove_cv_t<std::remove_reference_t<B>>>, OPCLASS> {
    return ::mlir::heir_compat::createOp<OPCLASS>(b, std::forward<A>(a)...);
  }
'''

CREATE_OP = r'''
namespace mlir {
class Builder; class OpBuilder; class ImplicitLocOpBuilder;
namespace heir_compat {
template <typename Op, typename T, typename B, typename... A>
auto createWith(B &b, A &&...a) { return b.template create<Op>(std::forward<A>(a)...); }
template <typename Op, typename B>
auto createOp(B &b) { return b.template create<Op>(); }
template <typename Op, typename B, typename L, typename... A>
auto createOp(B &b, L &&l, A &&...a) {
  if constexpr (!std::is_base_of_v<::mlir::ImplicitLocOpBuilder, std::remove_cv_t<B>>)
    return b.template create<Op>(Location(l), std::forward<A>(a)...);
  else if constexpr (std::is_convertible_v<L, Location> && !std::is_convertible_v<L, Value> && !std::is_convertible_v<L, Type>)
    return static_cast<std::conditional_t<sizeof(B) != 0, ::mlir::OpBuilder, void> &>(b).template create<Op>(Location(l), std::forward<A>(a)...);
  else
    return b.template create<Op>(std::forward<L>(l), std::forward<A>(a)...);
}
}
}
'''


def sub(path, *pairs):
    s = open(path).read()
    for a, b in pairs:
        assert a in s, (path, a)
        s = s.replace(a, b, 1)
    return s


def create(cls):
    return CREATE.replace("OPCLASS", cls)


def split_args(a):
    out, depth, cur = [], 0, ""
    for ch in a:
        depth += ch in "(<{["
        depth -= ch in ")>}]"
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if cur.strip() else out


def exact_creates(text):
    """Mirror each op's build() overloads as create(), the way newer MLIR's generator does."""
    out, cls, fresh = [], None, False
    for line in text.split("\n"):
        out.append(line)
        m = re.match(r"class (\w+) : public ::mlir::Op<", line)
        if m:
            cls, fresh = m[1], True
        if fresh and line == "public:":
            out.append("  using Op::create;")
            fresh = False
        m = re.match(r"\s*static void build\(::mlir::OpBuilder &\s*\w*, ::mlir::OperationState &\s*\w*(?:, )?(.*)\);$", line)
        if not m or not cls:
            continue
        params, names = [], []
        for i, a in enumerate(split_args(m[1])):
            d = ""
            k = re.search(r"\s=\s", a)
            if k:
                a, d = a[:k.start()], " = " + a[k.end():]
            a = a.strip()
            q = re.match(r"(.*[\s&*>])(\w+)$", a, re.S)
            t = q[1] if q else a
            params.append(f"{t} ha{i}{d}")
            byval = not t.strip().endswith("&")
            names.append(f"std::move(ha{i})" if byval else f"ha{i}")
        if any(re.match(r"(\w+::)*\w+Op\s", x) for x in params):
            continue
        p, n = "".join(", " + x for x in params), "".join(", " + x for x in names)
        body = f"{{ ::mlir::OperationState st(l, getOperationName()); build(b, st{n}); return ::llvm::cast<{cls}>(b.create(st)); }}"
        out.append(f"  static {cls} create(::mlir::OpBuilder &b, ::mlir::Location l{p}) {body}")
        out.append(f"  static {cls} create(::mlir::ImplicitLocOpBuilder &b{p}) {body.replace('st(l,', 'st(b.getLoc(),')}")
    return "\n".join(out)


DEPRECATED = r"\n  template <typename(?:\.\.\.)? \w+>\n  \[\[deprecated\([^\n]*\n  \w+ (?:isa|isa_and_nonnull|dyn_cast|dyn_cast_or_null|cast)\(\) const;"
DEPRECATED_DEF = r"\ntemplate <typename(?:\.\.\.)? \w+>\n\w+ (?:Type|Attribute)::(?:isa|isa_and_nonnull|dyn_cast|dyn_cast_or_null|cast)\(\) const \{.*?\n\}"


def drop_casts(text):
    """Newer MLIR has no member casts; left in, they hide the free functions inside attribute and type classes."""
    return re.sub(DEPRECATED_DEF, "", re.sub(DEPRECATED, "", text), flags=re.S)


EXACT = ["Tensor/IR/TensorOps", "Linalg/IR/LinalgOps", "Linalg/IR/LinalgStructuredOps", "MemRef/IR/MemRefOps", "SCF/IR/SCFOps", "Affine/IR/AffineOps",
         "Func/IR/FuncOps", "ControlFlow/IR/ControlFlowOps", "EmitC/IR/EmitC", "Bufferization/IR/BufferizationOps", "Arith/IR/ArithOps"]


def files(inc):
    done = {}
    for rel, text in plain_files(inc):
        done[rel] = text
    for e in EXACT:
        rel = f"Dialect/{e}.h.inc"
        text = done.get(rel) or open(os.path.join(inc, "mlir", rel)).read()
        done[rel] = exact_creates(text)
    yield from done.items()


def plain_files(inc):
    m = os.path.join(inc, "mlir")
    op_class = "template <typename ConcreteType, template <typename T> class... Traits>\nclass Op : public OpState"
    yield "IR/OpDefinition.h", sub(
        f"{m}/IR/OpDefinition.h",
        ("namespace mlir {", CREATE_OP + "\nnamespace mlir {"),
        ("  /// This is a public constructor.  Any op can be initialized to null.\n  explicit Op() : OpState(nullptr) {}",
         create("ConcreteType") + "  explicit Op() : OpState(nullptr) {}"))
    for path, classes in (("Dialect/Func/IR/FuncOps.h.inc", ["FuncOp"]), ("IR/BuiltinOps.h.inc", ["ModuleOp"])):
        pairs = []
        for c in classes:
            text = open(f"{m}/{path}").read()
            a = re.search(rf"class {c} : public ::mlir::Op<.*?\{{\npublic:\n", text, re.S)[0]
            pairs.append((a, a + create(c)))
        yield path, sub(f"{m}/{path}", *pairs)
    # arith constants: newer argument orders
    ariths = []
    for c, extra in (("ConstantIntOp", '''
  static ConstantIntOp createAt(OpBuilder &b, Location l, Type t, int64_t v) { return b.create<ConstantIntOp>(l, v, t); }
  static ConstantIntOp createAt(OpBuilder &b, Location l, int64_t v, unsigned w) { return b.create<ConstantIntOp>(l, v, w); }
  static ConstantIntOp createAt(OpBuilder &b, Location l, Type t, const APInt &v) { return b.create<ConstantIntOp>(l, v.getSExtValue(), t); }
'''), ("ConstantFloatOp", '''
  static ConstantFloatOp createAt(OpBuilder &b, Location l, FloatType t, const APFloat &v) { return b.create<ConstantFloatOp>(l, v, t); }
'''), ("ConstantIndexOp", '''
  static ConstantIndexOp createAt(OpBuilder &b, Location l, int64_t v) { return b.create<ConstantIndexOp>(l, v); }
''')):
        ariths.append((f"class {c} : public arith::ConstantOp {{\npublic:", f"class {c} : public arith::ConstantOp {{\npublic:{extra}" + f'''
  template <typename... A> static {c} create(OpBuilder &b, Location l, A &&...a) {{ return createAt(b, l, std::forward<A>(a)...); }}
  template <typename B, typename A0, typename... A>
  static auto create(B &b, A0 &&a0, A &&...a) -> std::enable_if_t<std::is_base_of_v<::mlir::ImplicitLocOpBuilder, B> && !(std::is_convertible_v<A0, Location> && !std::is_convertible_v<A0, Type> && !std::is_convertible_v<A0, Value>), {c}> {{
    return createAt(b, b.getLoc(), std::forward<A0>(a0), std::forward<A>(a)...);
  }}
'''))
    yield "Dialect/Arith/IR/Arith.h", sub(f"{m}/Dialect/Arith/IR/Arith.h", ('#include "mlir/IR/BuiltinTypes.h"', '#include "mlir/IR/BuiltinTypes.h"\n#include "mlir/IR/ImplicitLocOpBuilder.h"') if '#include "mlir/IR/BuiltinTypes.h"' in open(f"{m}/Dialect/Arith/IR/Arith.h").read() else ("#include", '#include "mlir/IR/ImplicitLocOpBuilder.h"\n#include'), *ariths)
    yield "IR/OpImplementation.h", open(f"{m}/IR/OpImplementation.h").read()
    b = open(f"{m}/IR/Builders.h").read()
    i = b.rindex("#endif")
    yield "IR/Builders.h", b[:i] + '#include "mlir/IR/ImplicitLocOpBuilder.h"\n' + b[i:]
    # opaque properties
    yield "IR/OperationSupport.h", sub(
        f"{m}/IR/OperationSupport.h",
        ("  OpaqueProperties(void *prop) : properties(prop) {}", "  OpaqueProperties(void *prop) : properties(prop) {}\n  TypeID getTypeID() const { return TypeID::getFromOpaquePointer(nullptr); }\n  OpaqueProperties(TypeID, void *prop) : properties(prop) {}"),
        ("  void *properties;\n};", "  void *properties;\n};\nusing PropertyRef = OpaqueProperties;"))
    yield "Transforms/DialectConversion.h", sub(
        f"{m}/Transforms/DialectConversion.h", ("struct ConversionConfig {", "struct ConversionConfig {\n  static inline bool allowPatternRollback = true;  // compat", ) if "struct ConversionConfig {" in open(f"{m}/Transforms/DialectConversion.h").read() else ("", ""))
    # backward analyses: a hook newer MLIR declares; the installed solver has no such call
    t = open(f"{m}/Analysis/DataFlow/SparseAnalysis.h").read()
    a = "class SparseBackwardDataFlowAnalysis\n    : public AbstractSparseBackwardDataFlowAnalysis {\npublic:"
    assert a in t
    yield "Analysis/DataFlow/SparseAnalysis.h", t.replace(a, a + "\n  virtual void visitNonControlFlowArguments(RegionSuccessor &, ArrayRef<BlockArgument>) {}  // compat", 1)
    # region control flow
    c = open(f"{m}/Interfaces/ControlFlowInterfaces.h").read()
    a = "  RegionSuccessor(Region *region, Block::BlockArgListType regionInputs = {})\n      : region(region), inputs(regionInputs) {}"
    assert a in c
    c = c.replace(a, '''  RegionSuccessor(Region *region, Block::BlockArgListType regionInputs)
      : region(region), inputs(regionInputs) {}
  // compat: newer MLIR keeps the inputs apart; every region argument receives a forwarded value
  RegionSuccessor(Region *region) : region(region), inputs(region->empty() ? ValueRange() : ValueRange(region->getArguments())) {}
  RegionSuccessor(Operation *parent) : inputs(ValueRange(parent->getResults())) {}
  RegionSuccessor(class RegionBranchPoint point);
  bool isOperation() const { return region == nullptr; }''', 1)
    a = "private:\n  // Private constructor to encourage the use of `RegionBranchPoint::parent`."
    assert a in c
    i = c.index("};", c.index(a)) + 2
    c = c[:i] + '''
inline RegionSuccessor::RegionSuccessor(RegionBranchPoint point) : region(point.getRegionOrNull()) {
  if (region && !region->empty()) inputs = ValueRange(region->getArguments());
}
using RegionBranchSuccessorMapping = DenseMap<OpOperand *, SmallVector<Value>>;
using RegionBranchInverseSuccessorMapping = DenseMap<Value, SmallVector<OpOperand *>>;
''' + c[i:]
    yield "Interfaces/ControlFlowInterfaces.h", c
    t = open(f"{m}/Interfaces/ControlFlowInterfaces.h.inc").read()
    a = "  using ::mlir::OpInterface<RegionBranchOpInterface, detail::RegionBranchOpInterfaceInterfaceTraits>::OpInterface;\n"
    assert a in t
    yield "Interfaces/ControlFlowInterfaces.h.inc", "namespace mlir { class RegionBranchTerminatorOpInterface; }\n" + t.replace(a, a + r'''
  // compat
  ValueRange getSuccessorInputs(::mlir::RegionSuccessor s) { return s.getSuccessorInputs(); }
  template <typename M> void addSuccessorMapping(M &mapping, MutableArrayRef<OpOperand> ops, RegionSuccessor s) {
    for (auto [op, in] : llvm::zip(ops, s.getSuccessorInputs())) mapping[&op].push_back(in);
  }
  template <typename M> void getSuccessorOperandInputMapping(M &mapping, RegionBranchPoint src) {
    Operation *o = this->getOperation();
    SmallVector<RegionSuccessor> succ;
    getSuccessorRegions(src, succ);
    for (RegionSuccessor s : succ) {
      if (src.isParent()) {
        OperandRange r = getEntrySuccessorOperands(s);
        if (!r.empty()) addSuccessorMapping(mapping, o->getOpOperands().slice(r.getBeginOperandIndex(), r.size()), s);
      } else {
        for (Block &blk : *src.getRegionOrNull())
          if (auto t = dyn_cast<std::conditional_t<sizeof(M) != 0, RegionBranchTerminatorOpInterface, void>>(blk.getTerminator())) {
            OperandRange r = t.getSuccessorOperands(s);
            if (!r.empty()) addSuccessorMapping(mapping, t->getOpOperands().slice(r.getBeginOperandIndex(), r.size()), s);
          }
      }
    }
  }
  template <typename M> void getSuccessorOperandInputMapping(M &mapping) {
    getSuccessorOperandInputMapping(mapping, RegionBranchPoint::parent());
    for (Region &r : this->getOperation()->getRegions()) if (!r.empty()) getSuccessorOperandInputMapping(mapping, RegionBranchPoint(r));
  }
  template <typename M> void getSuccessorInputOperandMapping(M &inverse) {
    RegionBranchSuccessorMapping mapping;
    getSuccessorOperandInputMapping(mapping);
    for (auto &[op, ins] : mapping) for (Value in : ins) inverse[in].push_back(op);
  }
''', 1)
    # TableGen
    yield "IR/AttrTypeBase.td", sub(f"{m}/IR/AttrTypeBase.td", ("  bit genAccessors = 1;", "  bit genAccessors = 1;\n  bit genMnemonicAlias = 0;"))
    yield "IR/OpAsmInterface.td", sub(f"{m}/IR/OpAsmInterface.td", ("def OpAsmTypeInterface", 'def OpAsmAttrInterface : NativeAttrTrait<"OpAsmAttrAlias">;\n\ndef OpAsmTypeInterface'))
    yield "IR/Types.h", drop_casts(open(f"{m}/IR/Types.h").read())
    yield "IR/Attributes.h", drop_casts(sub(f"{m}/IR/Attributes.h", ("} // namespace AttributeTrait", "template <typename C> class OpAsmAttrAlias : public TraitBase<C, OpAsmAttrAlias> {};\n} // namespace AttributeTrait")))
    yield "IR/CommonTypeConstraints.td", sub(
        f"{m}/IR/CommonTypeConstraints.td",
        ("    : TypeConstraint<Or<[\n  allowedType.predicate,\n  ValueSemanticsContainerOf", "    : Type<Or<[\n  allowedType.predicate,\n  ValueSemanticsContainerOf"),
        ("class StaticShapeMemRefOf", '''class TensorOrMemRef<list<Type> allowed> : AnyTypeOf<[TensorOf<allowed>, MemRefOf<allowed>],
    "tensor or memref", "::mlir::ShapedType">;
class StaticShapeMemRefOf'''))
    # the branch point is called a successor in newer declarations
    yield "Interfaces/ControlFlowInterfaces.td", sub(
        f"{m}/Interfaces/ControlFlowInterfaces.td",
        ('      "::mlir::OperandRange", "getEntrySuccessorOperands",\n      (ins "::mlir::RegionBranchPoint":$point)', '''      "::mlir::ValueRange", "getSuccessorInputs", (ins "::mlir::RegionSuccessor":$successor)>,
    InterfaceMethod<[{}], "::mlir::OperandRange", "getEntrySuccessorOperands",
      (ins "::mlir::RegionSuccessor":$point)'''))
    # Attributes that float arithmetic and unsigned casts have in newer MLIR; used only to type rewrite patterns.
    t = open(f"{m}/Dialect/Arith/IR/ArithOps.td").read()
    for n in ("Add", "Sub", "Mul", "Div"):
        t = re.sub(rf"(def Arith_{n}FOp : Arith_FloatBinaryOp<[^{{]*){{", r"""\1{
  let arguments = (ins FloatLike:$lhs, FloatLike:$rhs,
      DefaultValuedAttr<Arith_FastMathAttr, "::mlir::arith::FastMathFlags::none">:$fastmath,
      OptionalAttr<Arith_RoundingModeAttr>:$roundingmode);""", t, count=1)
    for n in ("UIToFP", "ExtUI"):
        t = re.sub(rf"(def Arith_{n}Op : [^{{]*){{", r"\1{\n  let arguments = (ins SignlessFixedWidthIntegerLike:$in, UnitAttr:$nneg);", t, count=1)
    yield "Dialect/Arith/IR/ArithOps.td", t
    # loops
    t = open(f"{m}/Interfaces/LoopLikeInterface.h.inc").read()
    a = "class LoopLikeOpInterface : public ::mlir::OpInterface<LoopLikeOpInterface, detail::LoopLikeOpInterfaceInterfaceTraits> {\npublic:\n"
    assert a in t
    trip = '''  // compat
  std::optional<::llvm::APInt> getStaticTripCount() { return ::mlir::heir_compat::tripCount(*this); }
'''
    yield "Interfaces/LoopLikeInterface.h.inc", t.replace(a, a + trip, 1)
    t = open(f"{m}/Interfaces/LoopLikeInterface.h").read()
    a = '/// Include the generated interface declarations.\n'
    assert a in t
    yield "Interfaces/LoopLikeInterface.h", t.replace(a, r'''
namespace mlir::heir_compat {
template <typename L> std::optional<::llvm::APInt> tripCount(L loop) {
  auto lb = loop.getLoopLowerBounds(), ub = loop.getLoopUpperBounds(), st = loop.getLoopSteps();
  if (!lb || !ub || !st || lb->size() != 1) return std::nullopt;
  auto l = getConstantIntValue((*lb)[0]), u = getConstantIntValue((*ub)[0]), s = getConstantIntValue((*st)[0]);
  if (!l || !u || !s || *s <= 0) return std::nullopt;
  return ::llvm::APInt(64, *u <= *l ? 0 : (*u - *l + *s - 1) / *s);
}
}
''' + a, 1).replace("#include", '#include "mlir/Dialect/Utils/StaticValueUtils.h"\n#include', 1)
    for path, ops in (("Dialect/Affine/IR/AffineOps.h.inc", ["AffineForOp"]), ("Dialect/SCF/IR/SCFOps.h.inc", ["ForOp"])):
        t = open(f"{m}/{path}").read()
        for c in ops:
            a = re.search(rf"class {c} : public ::mlir::Op<.*?\{{\npublic:\n", t, re.S)[0]
            t = t.replace(a, a + "  std::optional<::llvm::APInt> getStaticTripCount() { return ::mlir::heir_compat::tripCount(*this); }  // compat\n", 1)
        yield path, t
    t = open(f"{m}/Dialect/Affine/IR/AffineOps.h").read()
    yield "Dialect/Affine/IR/AffineOps.h", t.replace("#include", '#include "mlir/IR/IntegerSet.h"\n#include', 1)
    yield "IR/Value.h", sub(f"{m}/IR/Value.h", ("  bool hasOneUse() const { return impl->hasOneUse(); }", "  bool hasOneUse() const { return impl->hasOneUse(); }\n  unsigned getNumUses() const { return std::distance(use_begin(), use_end()); }"))
    t = open(f"{m}/IR/Diagnostics.h").read()
    a = "  Diagnostic &operator<<(char val)"
    assert a in t
    yield "IR/Diagnostics.h", t.replace(a, "  template <typename E> std::enable_if_t<std::is_enum_v<E> && !std::is_convertible_v<E, int>, Diagnostic &> operator<<(E e) { return *this << static_cast<int>(e); }\n" + a, 1)
    t = open(f"{m}/Transforms/Inliner.h").read()
    yield "Transforms/Inliner.h", t.replace("  void setMaxInliningIterations", "  bool getCloneCallback() const { return true; }\n  void setMaxInliningIterations", 1)
    t = open(f"{m}/Transforms/InliningUtils.h").read()
    a = "LogicalResult inlineCall("
    i = t.index(";", t.index(a)) + 1
    yield "Transforms/InliningUtils.h", t[:i] + """
inline LogicalResult inlineCall(InlinerInterface &i, bool, CallOpInterface call, CallableOpInterface callable, Region *src) {
  return inlineCall(i, call, callable, src, true);
}
""" + t[i:]
    yield "Transforms/GreedyPatternRewriteDriver.h", sub(f"{m}/Transforms/GreedyPatternRewriteDriver.h", (
        "  bool cseConstants = true;\n};", "  bool cseConstants = true;\n  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness s) { strictMode = s; return *this; }\n"
        "  GreedyRewriteConfig &enableFolding(bool v = true) { fold = v; return *this; }\n"
        "  GreedyRewriteConfig &setUseTopDownTraversal(bool v = true) { useTopDownTraversal = v; return *this; }\n};"))
    t = open(f"{m}/Interfaces/FunctionInterfaces.h.inc").read()
    t = t.replace("    void insertArgument(unsigned argIndex", "    LogicalResult insertArgument(unsigned argIndex").replace("insertArguments({argIndex}, {argType}, {argAttrs}, {argLoc});\n", "insertArguments({argIndex}, {argType}, {argAttrs}, {argLoc});\n      return success();\n")
    a = "    ::mlir::Attribute removeResultAttr(unsigned index, ::mlir::StringAttr name) {"
    assert a in t
    for who in ("(*this)", "(*static_cast<ConcreteOp *>(this))"):
        t = t.replace(a + f"\n      return ::mlir::function_interface_impl::removeResultAttr({who}",
                      f"    ::mlir::Attribute removeResultAttr(unsigned index, const char *name) {{ return removeResultAttr(index, ::mlir::StringAttr::get({who}->getContext(), name)); }}\n"
                      + a + f"\n      return ::mlir::function_interface_impl::removeResultAttr({who}")
    yield "Interfaces/FunctionInterfaces.h.inc", t
    t = open(f"{m}/IR/OpAsmTypeInterface.h.inc").read()
    a = "  using ::mlir::TypeInterface<OpAsmTypeInterface, detail::OpAsmTypeInterfaceInterfaceTraits>::TypeInterface;"
    assert a in t
    yield "IR/OpAsmTypeInterface.h.inc", t.replace(a, a + "\n  ::mlir::OpAsmDialectInterface::AliasResult getAlias(::llvm::raw_ostream &) { return ::mlir::OpAsmDialectInterface::AliasResult::NoAlias; }  // compat: type aliases are a printing nicety", 1)
    t = open(f"{m}/Dialect/Tensor/IR/TensorOps.h.inc").read()
    for c, names in (("InsertOp", ("scalar", "dest")), ("ExtractOp", ("tensor",)), ("InsertSliceOp", ("source", "dest"))):
        a = re.search(rf"class {c} : public ::mlir::Op<.*?\{{\npublic:\n", t, re.S)[0]
        t = t.replace(a, a + "".join(f"  static constexpr unsigned odsIndex_{n} = {i};\n" for i, n in enumerate(names)), 1)
    yield "Dialect/Tensor/IR/TensorOps.h.inc", t
    t = open(f"{m}/Dialect/Math/IR/Math.h").read()
    i = t.rindex("#endif")
    yield "Dialect/Math/IR/Math.h", t[:i] + """
namespace mlir::math {  // compat: an operation the installed version does not have, so no program contains it
class ErfcOp : public Op<ErfcOp, OpTrait::ZeroRegions, OpTrait::OneResult, OpTrait::OneTypedResult<Type>::Impl, OpTrait::ZeroSuccessors, OpTrait::OneOperand> {
public:
  using Op::Op;
  static StringRef getOperationName() { return "math.erfc"; }
  static ArrayRef<StringRef> getAttributeNames() { return {}; }
};
}
""" + t[i:]
    t = open(f"{m}/Dialect/Linalg/IR/Linalg.h").read()
    i = t.rindex("#endif")
    yield "Dialect/Linalg/IR/Linalg.h", t[:i] + """
namespace mlir::linalg {  // compat: an operation the installed version does not have, so no program contains it
class ContractOp : public Op<ContractOp, OpTrait::OneRegion, OpTrait::ZeroSuccessors, OpTrait::VariadicOperands> {
public:
  using Op::Op;
  static StringRef getOperationName() { return "linalg.contract"; }
  static ArrayRef<StringRef> getAttributeNames() { return {}; }
};
}
""" + t[i:]
    yield "Conversion/ConvertToEmitC/ToEmitCInterface.h", """#ifndef HEIR_COMPAT_TOEMITC_H_
#define HEIR_COMPAT_TOEMITC_H_
#include "mlir/IR/DialectInterface.h"
#include "mlir/Transforms/DialectConversion.h"
namespace mlir {
class ConvertToEmitCPatternInterface : public DialectInterface::Base<ConvertToEmitCPatternInterface> {
public:
  ConvertToEmitCPatternInterface(Dialect *dialect) : Base(dialect) {}
  virtual void populateConvertToEmitCConversionPatterns(ConversionTarget &, TypeConverter &, RewritePatternSet &, std::optional<bool>) const = 0;
};
}
#endif
"""
    yield "Analysis/Presburger/IntegerRelation.h", sub(f"{m}/Analysis/Presburger/IntegerRelation.h", (
        "  inline int64_t atEq64(", "  int64_t atConstraint64(unsigned i, unsigned j) const { return i < getNumInequalities() ? atIneq64(i, j) : atEq64(i - getNumInequalities(), j); }\n  inline int64_t atEq64("))
    t = open(f"{m}/Dialect/SCF/Utils/Utils.h").read()
    i = t.index(";", t.index("FailureOr<UnrolledLoopInfo> loopUnrollByFactor(")) + 1
    yield "Dialect/SCF/Utils/Utils.h", "#include \"mlir/Dialect/SCF/IR/SCF.h\"\n" + t[:i] + """
inline LogicalResult loopUnrollFull(scf::ForOp f) {  // compat
  auto n = f.getStaticTripCount();
  if (!n) return failure();
  if (n->isZero()) return success();
  if (n->isOne()) { IRRewriter rw(f.getContext()); return f.promoteIfSingleIteration(rw); }
  return success(succeeded(loopUnrollByFactor(f, n->getZExtValue())));
}
""" + t[i:]
    # moved headers
    yield "Support/WalkResult.h", '#include "mlir/IR/Visitors.h"\n'
    yield "Dialect/Affine/Transforms/Passes.h", '#include "mlir/Dialect/Affine/Passes.h"\n'
    yield "Analysis/DataFlow/Utils.h", '''#ifndef HEIR_COMPAT_DATAFLOW_UTILS_H_
#define HEIR_COMPAT_DATAFLOW_UTILS_H_
#include "mlir/Analysis/DataFlow/ConstantPropagationAnalysis.h"
#include "mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
#include "mlir/Analysis/DataFlowFramework.h"
namespace mlir::dataflow {
inline void loadBaselineAnalyses(DataFlowSolver &s) { s.load<DeadCodeAnalysis>(); s.load<SparseConstantPropagation>(); }
}
#endif
'''


def llvm_files(inc):
    """Keys without sentinel values: newer LLVM's DenseMap needs none."""
    sent = '''
namespace llvm::heir_compat {
template <typename K, typename I> K sentinel(int which) {
  if constexpr (requires { I::getEmptyKey(); }) return which ? I::getTombstoneKey() : I::getEmptyKey();
  else if constexpr (requires(K k) { k.type; k.attr; }) {
    K k;
    using T = decltype(k.type); using A = decltype(k.attr);
    k.type = which ? DenseMapInfo<T>::getTombstoneKey() : DenseMapInfo<T>::getEmptyKey();
    k.attr = DenseMapInfo<A>::getEmptyKey();
    return k;
  } else {
    const int64_t v[] = {-0x7edcba9876543210, which, 0x123456789abcdef};
    return K(ArrayRef<std::conditional_t<sizeof(K) != 0, int64_t, void>>(v));
  }
}
}
'''
    p = os.path.join(inc, "llvm/ADT/DenseMapInfo.h")
    s = open(p).read()
    i = s.rindex("#endif")
    s = s[:i] + sent + s[i:]
    s = s.replace("FirstInfo::getEmptyKey()", "heir_compat::sentinel<T, FirstInfo>(0)").replace("SecondInfo::getEmptyKey()", "heir_compat::sentinel<U, SecondInfo>(0)")
    s = s.replace("FirstInfo::getTombstoneKey()", "heir_compat::sentinel<T, FirstInfo>(1)").replace("SecondInfo::getTombstoneKey()", "heir_compat::sentinel<U, SecondInfo>(1)")
    s = s.replace("namespace llvm {", '#include "llvm/ADT/ArrayRef.h"\nnamespace llvm {' if False else "namespace llvm::heir_compat { template <typename K, typename I> K sentinel(int which); }\nnamespace llvm {", 1)
    yield "ADT/DenseMapInfo.h", s
    p = os.path.join(inc, "llvm/ADT/DenseMap.h")
    s = open(p).read()
    s = s.replace("    return KeyInfoT::getEmptyKey();", "    return heir_compat::sentinel<KeyT, KeyInfoT>(0);").replace("return KeyInfoT::getTombstoneKey(); }", "return heir_compat::sentinel<KeyT, KeyInfoT>(1); }")
    s = s.replace("const KeyT Empty = KeyInfoT::getEmptyKey();", "const KeyT Empty = heir_compat::sentinel<KeyT, KeyInfoT>(0);").replace("const KeyT Tombstone = KeyInfoT::getTombstoneKey();", "const KeyT Tombstone = heir_compat::sentinel<KeyT, KeyInfoT>(1);")
    yield "ADT/DenseMap.h", s


def write(out, inc):
    todo = [(r, t, ("mlir", "mlir/include/mlir")) for r, t in files(inc)] + [(r, t, ("llvm", "llvm/include/llvm")) for r, t in llvm_files(inc)]
    for rel, text, bases in todo:
        for base in bases:
            p = os.path.join(out, base, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p).read() != text:
                open(p, "w").write(text)
