"""Build targets, properties and checks.  tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
LINK = "-lMLIR -lLLVM-20 -lisl -lpthread"
import os

COMPAT = "-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "compat")
TARGETS, CHECKS = {}, {}
TECH = "bounded exhaustive model checking of the real code against a reference model"


def target(name, srcs=(), **kw):
    TARGETS[name] = dict(dict(harness=[f"checks/{name}.cpp"], srcs=list(srcs), libs=LINK), **kw)


def prop(pid, title, statement, over, qtext, why, files, mech, parts, rule, quick, thorough=None, note="", observe=None,
         assumptions=None, technique=TECH):
    assert len(title) <= 80, title
    CHECKS[pid] = dict(
        parts=parts, level="model_checking", rule=rule, bounds=dict(quick=quick, thorough=thorough or quick),
        assumptions=assumptions or [], technique=technique, note=note,
        text=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}))))


def cpp(name, t=None):
    return dict(name=name, kind="cpp", target=t or name)


def py(name, script, **kw):
    return dict(name=name, kind="py", script=script, **kw)


MATH = ["lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp"]
K = "lib/Kernel/"

# --------------------------------------------------------------------------------------------- kernels
for _t in ("p01", "p02", "p03"):
    target(_t, MATH)
prop("P01", "Packed matrix-vector kernels compute the matrix-vector product",
     "For every matrix shape and slot count, the diagonal, squat-diagonal and baby-step/giant-step matrix-vector kernels the compiler builds "
     "leave in every slot exactly the product of the packed matrix with the packed vector, as a polynomial identity in the entries. Emitting the kernel as a loop or "
     "fully unrolled, and telling it which diagonals are zero, never changes the result.",
     ["inputs", "configurations"], "all matrix entries (symbolically) x all shapes, slot counts, zero-diagonal sets, rolled/unrolled, up to the bounds",
     "The unit tests evaluate a handful of shapes on one concrete matrix each; partial reductions, non-power-of-two step counts and zero-diagonal sets interact, and "
     "a wrong rotation is invisible on inputs with repeated entries.",
     [K + "KernelImplementation.h", K + "ArithmeticDag.h", "lib/Utils/MathUtils.cpp"],
     [("diagonal and Halevi-Shoup matvec builders", K + "KernelImplementation.h"), ("baby-step giant-step rotate-and-reduce", K + "KernelImplementation.h")],
     [cpp("p01")], "one case per (kernel, logical shape, slot count, declared zero-diagonal set, rolled/unrolled); entries are free variables, so one case decides all inputs of the shape",
     "shapes <= 12x12 (all), diagonals <= 20 slots, zero-diagonal subsets of shapes <= 8x8 (all) and pairs at 16x16, giant-step counts <= 26, periods <= 3",
     "shapes <= 24x24, diagonals <= 40 slots, giant-step counts <= 40",
     note="Every case is decided for all inputs at once (evaluation in the free commutative ring). Trusts the reference DAG evaluator and the packing definition in the harness; shapes above the bound are not covered.")
prop("P02", "Rotate-and-reduce, dot-product and broadcast-reduce kernels are exact",
     "For every step count, stride and slot count the reduction kernels accumulate each slot over precisely its strided neighbours, by sum or by product; the dot-product kernel yields the "
     "inner product; and the broadcasted reduction leaves the reduction of each block in every slot of that block. Loop and unrolled forms agree.",
     ["inputs", "configurations"], "all slot contents (symbolically) x all steps, periods, slot counts, operations, rolled/unrolled, up to the bounds",
     "Tests pick a few power-of-two sizes with additive reduction; multiplicative, masked and cyclic wrap-around variants are untested.",
     [K + "KernelImplementation.h"], [("rotate-and-reduce accumulation", K + "KernelImplementation.h"), ("broadcasted reduction", K + "KernelImplementation.h")],
     [cpp("p02")], "one case per (kernel, steps, period, slots, operation, rolled/unrolled)",
     "steps <= 32, periods <= 7, six slot counts each; dot <= 128; broadcast <= 64 slots with every block split", "steps <= 64, periods <= 12; dot <= 256; broadcast <= 128 slots",
     note="Symbolic in the slot contents. Step counts are powers of two for plain accumulation, the kernel's stated domain.")
prop("P03", "Bicyclic and tricyclic matrix-matrix kernels compute the product",
     "For every pairwise coprime triple of dimensions, and every coprime batch size in the batched form, multiplying two cyclically packed matrices yields, in every slot of the valid prefix, the entry of the true "
     "matrix product that the cyclic packing assigns to that slot, and the valid prefix is long enough to recover the whole product.",
     ["inputs", "configurations"], "all entries (symbolically) x all coprime dimension triples, batch sizes and slot counts up to the bounds",
     "Tests use one or two triples with fixed numbers; the rotation arithmetic uses modular inverses and remainders whose mistakes appear only for particular residues.",
     [K + "KernelImplementation.h", "lib/Utils/APIntUtils.cpp"], [("bicyclic and tricyclic matmul builders", K + "KernelImplementation.h")],
     [cpp("p03")], "one case per (kernel, dimensions, slot count)", "bicyclic dimensions <= 9, tricyclic h <= 5 and dimensions <= 7", "bicyclic <= 14; tricyclic h <= 7, dimensions <= 9",
     note="Symbolic in the entries; the packing model is the modular index definition.")
EVAL = ["lib/Kernel/EvalVisitor.cpp"]
target("p04", MATH + EVAL + ["lib/Kernel/RotationCountVisitor.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"], pre=COMPAT)
target("p05", EVAL, pre=COMPAT)
prop("P04", "Rotation analyses predict exactly the rotations a kernel performs",
     "The set of rotation keys predicted for a kernel is exactly the set of nonzero rotation amounts, reduced to the slot count, that evaluating it performs, including amounts computed in loops, branches and bulk rotations; "
     "the closed-form lists used for key generation contain exactly what the matching kernels need, and the kernel cost equals the number of distinct rotations of encrypted data.",
     ["programs", "configurations"], "all small loop/branch/bulk rotation programs and all kernel configurations up to the bounds",
     "A missing key shows only at run time for the one amount that is missing; tests compare a few fixed kernels.",
     ["lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp", K + "RotationCountVisitor.cpp", K + "KernelImplementation.h", "lib/Utils/MathUtils.cpp"],
     [("rotation evaluation visitor", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"), ("rotation-count cost model", K + "RotationCountVisitor.cpp"), ("closed-form rotation lists", K)],
     [cpp("p04")], "one case per program or configuration; the oracle counts rotations while evaluating the DAG with the reference evaluator",
     "kernels with <= 26 steps, loops with amounts a*i+b for |a|<=3, bulk lists <= 3, linear transforms on <= 8 slots with every diagonal set, DAGs of depth <= 4", "kernels <= 40 steps, DAG depth <= 5",
     note="Cost is claimed for unrolled kernels only: the cost model treats loop variables as plaintext.")
prop("P05", "Evaluating a kernel expression gives the meaning of its operations",
     "Evaluating an arithmetic kernel expression, alone or together with others, returns for every root what executing its operations in order would return: sharing of subexpressions, result caching, loops with carried values, nested scopes and "
     "conditionals never change the value.",
     ["programs", "inputs"], "all programs of up to two operations over a pool of values, and families of loops, nests, branches and shared subexpressions, up to the bounds",
     "The caches of the evaluator are keyed by node and scope, so faults need a particular sharing pattern across loop iterations or roots; tests check a few trees.",
     [K + "EvalVisitor.cpp", K + "EvalVisitor.h", K + "ArithmeticDag.h"], [("evaluation visitor and its scoped cache", K + "ArithmeticDag.h"), ("concrete evaluation", K + "EvalVisitor.cpp")],
     [cpp("p05")], "one case per program; results that leave 32-bit range or index out of bounds have no defined meaning and are skipped",
     "every program of two operations over seven operands; loops with <= 4 iterations, nesting 2, every small body", "larger bodies",
     note="Integer literals as the evaluator supports them; the reference evaluator is independent of the repository's visitors.")
CHEB = ["lib/Utils/Polynomial/ChebyshevDecomposition.cpp"]
POLY = ["lib/Utils/Polynomial/Polynomial.cpp"]
PD = "lib/Utils/Polynomial/"
target("p06", CHEB)
prop("P06", "Polynomial-evaluation expressions equal the polynomial they evaluate",
     "The expressions built by Horner's rule, Paterson-Stockmeyer and their Chebyshev-basis counterparts, and the tables of powers and Chebyshev values, are equal to the given polynomial for every value of the "
     "argument, scalar or vector, integer or float; and the logarithmic-depth forms never exceed the promised multiplicative depth.",
     ["inputs", "configurations"], "all arguments (as a polynomial identity) x all small coefficient vectors, all supports up to a degree, and all degrees up to a bound in several shapes",
     "Sparse supports select different block splits and skipped powers; the unit tests evaluate fewer than twenty polynomials at a few floating-point arguments.",
     [PD + "Horner.h", PD + "PatersonStockmeyer.h", PD + "ChebyshevPatersonStockmeyer.h", PD + "ChebyshevDecomposition.cpp"],
     [("Paterson-Stockmeyer in the monomial basis", PD + "PatersonStockmeyer.h"), ("Chebyshev Paterson-Stockmeyer", PD + "ChebyshevPatersonStockmeyer.h"), ("Horner", PD + "Horner.h")],
     [cpp("p06")], "one case per (algorithm, coefficient vector, element type); the expression is evaluated as a formal polynomial in its argument, so a case decides every argument",
     "every coefficient vector over three values up to degree 8, every support up to degree 15, eight shapes of every degree <= 300, powers <= 400", "degree 9, supports <= 16, degrees <= 500",
     note="Identities are checked over Z/2^64 at several argument shifts, which is exact for these coefficients; rounding of real coefficients is not covered.")
target("p07", CHEB + POLY)
prop("P07", "Polynomial and Chebyshev-series algebra is exact",
     "Addition, subtraction, multiplication, scaling, composition, monic monomial multiplication, parsing, printing, equality and ordering of single-variable polynomials agree with the ring of polynomials, keep terms normalised, and Chebyshev series "
     "convert, compose with a line, divide and decompose without changing the function they denote.",
     ["inputs", "histories"], "all pairs of small polynomials, all term lists up to a length, all short Chebyshev series, all decomposition widths",
     "Merging of like terms, cancellation to zero and gaps between degrees depend on the combination of two supports; the tests use a few hand-picked pairs.",
     [PD + "Polynomial.h", PD + "Polynomial.cpp", PD + "ChebyshevDecomposition.cpp", PD + "ChebyshevDecomposition.h"],
     [("term merging in addition and multiplication", PD + "Polynomial.h"), ("Chebyshev polynomial algebra", PD + "Polynomial.h"), ("series decomposition", PD + "ChebyshevDecomposition.cpp")],
     [cpp("p07")], "one case per operand pair or series; compared with a map-based reference ring",
     "all pairs of degree <= 3 over five coefficients, sparse pairs, term lists <= 5, series <= 8 terms, decompositions <= 40 terms", "term lists <= 6, series <= 9",
     note="Composition requires a nonzero outer polynomial (asserted in the code) and, for Chebyshev series, a linear inner one. Coefficients are integers exactly representable in double.")
target("p08", [PD + "NTT.cpp", "lib/Utils/APIntUtils.cpp"], libs=LINK + " -labsl_int128")
prop("P08", "The number-theoretic transform is the negacyclic transform and inverts",
     "For every power-of-two size, every suitable prime modulus up to the full width of the word and every primitive root, the forward transform evaluates the polynomial at the odd powers of the root in bit-reversed order, the inverse "
     "transform undoes it exactly, and multiplying pointwise in between is multiplication modulo x^n + 1.",
     ["inputs", "configurations"], "all coefficient vectors for small (n, q); for all sizes and large moduli all basis vectors and all extreme-value combinations",
     "Overflow of intermediate products and wrong reductions occur only for moduli near the word size or coefficients near the modulus; tests use one modulus and size.",
     [PD + "NTT.cpp", PD + "NTT.h"], [("in-place transforms and modular arithmetic", PD + "NTT.cpp")],
     [cpp("p08")], "one case per (n, q, root, leading coefficient) with every vector inside, or per (n, q, root) with every basis vector",
     "all vectors for n <= 4, q <= 257 (n=2) and q = 17 (n=4); basis and extremes for n <= 256 and 25 primes up to 2^64", "q = 41 (n=4), n <= 1024",
     note="The transform is linear, so basis vectors decide it up to overflow; the extreme vectors target overflow. Root of unity is passed in, as the code requires.")
target("p09", MATH)
prop("P09", "Number-theory and integer helpers are correct at every width",
     "Modular inverse, multiplication and exponentiation, primality, factorisation, primitive roots and roots of unity, power-of-two helpers, float-format conversion and the inverse error function return the mathematically correct answer for every bit width "
     "and value in their domain, reporting absence exactly when no answer exists.",
     ["inputs"], "all residues for all small moduli in several widths, boundary values at every width, all integers below the bound, all half-precision floats",
     "Widths chosen by the compiler make intermediate values wrap at moduli close to the type's maximum; tests use small constants in wide types.",
     MATH + ["lib/Utils/APIntUtils.h", "lib/Utils/MathUtils.h"], [("modular inverse and exponentiation", MATH[0]), ("root finding, factorisation and power-of-two helpers", MATH[1])],
     [cpp("p09")], "one case per modulus/value block; compared with 128-bit reference arithmetic",
     "inverses: all x < m <= 700 and 120 boundary moduli per width; primes < 2^17; roots of unity for q < 2000, n <= 2q", "m <= 2000, primes < 2^20, q < 6000",
     note="Modular exponentiation is claimed for moduli >= 2; erfinv to 1e-6 on (-1,1) and 1e-3 relative up to 1 - 2^-22.")
target("p10"); target("p11")
GR = "lib/Utils/Graph/Graph.h"
prop("P10", "Directed-graph container and algorithms are correct for every graph",
     "After any sequence of vertex and edge insertions and contractions, the queries describe exactly the resulting graph; topological order, level sort, strongly connected components, condensation, longest and shortest paths and reachability-type results are correct and "
     "deterministic for every graph, and cycles are reported as failure.",
     ["histories", "inputs"], "all operation histories to a depth over three vertices, every directed graph on up to four vertices with self-loops, every loop-free one on five, every acyclic one on six, all weightings on four",
     "Errors hide in cycles, self-loops, disconnected parts and re-insertion after contraction; tests cover a dozen graphs.",
     [GR], [("adjacency bookkeeping and contraction", GR), ("components, condensation and path searches", GR)],
     [cpp("p10")], "one case per history or graph; compared with adjacency-matrix references",
     "histories of length 4 (n=3) and 2 from every start graph; all graphs as stated", "histories of length 5 and 3; acyclic graphs on seven vertices",
     note="Edge weights cannot be observed; contracting a vertex with itself is outside the domain; a member template that is never instantiated in the repository and does not compile is not covered.")
prop("P11", "Greedy graph colouring is always a proper, compact colouring",
     "For every undirected graph, colouring gives adjacent vertices different colours, uses consecutive colours from zero, at most one more than the largest degree, at most two on bipartite graphs, and gives the same answer on every run and on reuse of the object.",
     ["inputs", "histories"], "every graph on up to seven vertices, every 4+4 bipartite graph, structured families up to eighty vertices",
     "Two rotation groups sharing a colour corrupt data only for conflict graphs with a particular shape; tests colour three graphs.",
     [GR], [("saturation-ordered greedy colouring", GR)],
     [cpp("p11")], "one case per labelled graph", "n <= 7 (all labelled graphs), all 4+4 bipartite graphs, n <= 80 for six families", note="Graphs without self-loops.")

# --------------------------------------------------------------------------------------------- compiler passes
def passes(name, roots, also=(), **kw):
    """A harness linked with the passes under roots and everything they include, built against the overlay."""
    target(name, ov=True, roots=list(roots), headers=["interp.h", "passmc.h", *also], **kw)


TR = "lib/Transforms/"
DI = "lib/Dialect/"
passes("p12", [])
prop("P12", "Data-oblivious conversion keeps meaning and removes secret-dependent control",
     "The data-oblivious pipeline (static extract and insert, while and for loops to static loops, branches to selects) computes the same results as the original program on every input whose static bounds hold, and afterwards no branch, loop bound or "
     "element address depends on a secret; while loops it does not support are left alone.",
     ["programs", "inputs"], "all generated programs with branches, loops, while loops and addresses in every combination of secret and public operands; every small input",
     "Loop alignment, clamping and operand order matter only for particular bounds, steps and secret values; the file tests compare the printed shape of a dozen programs.",
     [TR + "ConvertIfToSelect/ConvertIfToSelect.cpp", TR + "ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp", TR + "ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp",
      TR + "ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp", TR + "ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp", "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp"],
     [("the five conversions, in pipeline order", "lib/Transforms/"), ("secretness analysis that selects what to convert", "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp")],
     [cpp("p12")], "one case per program; results compared on every input, control traces compared between inputs that agree on the public part",
     "1500 programs, loops <= 5 iterations and steps <= 3, tensors <= 4 elements", "loops <= 6, tensors <= 5",
     note="Programs are executed by the reference interpreter of lib/interp.h. One known finding: addresses computed by a branch on a secret with public results.")
LY = "lib/Utils/Layout/"
passes("p13", [LY + "Utils.cpp"])
passes("p14", [LY + "Utils.cpp", LY + "Codegen.cpp", LY + "Hoisting.cpp"])
passes("p15", [LY + "Utils.cpp", LY + "Convolution.cpp"])
prop("P13", "Layout constructors place every tensor element where the layout says",
     "The row-major, diagonal, per-row, bicyclic, tricyclic, bicyclic-diagonal and periodic layouts relate exactly the (element, ciphertext, slot) triples of their definition for every shape and slot count, packing followed by unpacking returns the tensor, "
     "and size, range, density, complement, equality, volume and recogniser queries answer truthfully.",
     ["inputs", "configurations"], "all tensor shapes and slot counts up to the bounds; all pairs of layouts of a shape, in two spellings",
     "Each layout is a system of modular constraints; an off-by-one in padding, wrap-around or ciphertext count shows only for particular shape and slot-count combinations.",
     [LY + "Utils.cpp", LY + "Utils.h", LY + "Evaluate.h", LY + "IslConversion.cpp"], [("layout relation constructors, recognisers and queries", LY + "Utils.cpp"), ("packing and unpacking", LY + "Evaluate.h")],
     [cpp("p13")], "one case per (layout, shape, slot count); the relation's point set is compared with one enumerated from the definition",
     "vectors <= 9, matrices <= 6x6, 3-D <= 3x3x3 (5 for tricyclic), slots <= 60; ciphertext counts of tensors to 2^28 elements", "matrices <= 9x9",
     note="Recognisers are only required to accept layouts of the constructor they name; the bicyclic and tricyclic ones only where each dimension exceeds one.")
prop("P14", "Layout transformations and generated loop nests preserve the point set",
     "Every layout transformation (variable shifts, pass-through dimensions, collapsing and expanding unit dimensions, reshapes, slices, slice insertion, padding, diagonalisation, modulus constraints, permutation folding, hoisting through a matrix-vector product, "
     "text and isl round trips) yields exactly the relation its definition gives, and the loop nest generated for a layout visits exactly the layout's points, each once.",
     ["inputs", "configurations"], "all small layouts, all reshape groupings, all slices (offset, size, stride, rank reduction) of all small shapes, all loop nests of a pool of layouts",
     "These transformations rewrite dimension indices by hand; errors show only when unit dimensions, several groups, strides or local variables combine.",
     [LY + "Utils.cpp", LY + "Codegen.cpp", LY + "Hoisting.cpp", LY + "IslConversion.cpp", LY + "Parser.cpp"], [("relation transformations", LY + "Utils.cpp"), ("loop nest generation from a relation", LY + "Codegen.cpp"), ("hoisting", LY + "Hoisting.cpp")],
     [cpp("p14")], "one case per (transformation, layout, parameters); point sets compared with ones enumerated from the definition; loop nests executed by the interpreter",
     "shapes of rank <= 4 with extents <= 4, strides <= 3", "larger shapes and slot counts")
prop("P15", "Convolution layouts compute the convolution",
     "The expanded filter matrix of a 1-D or 2-D convolution, single or multichannel, is the Toeplitz matrix of the convolution for every shape, stride and padding; its diagonal packing, optional row interchange and result layout together make the "
     "matrix-vector kernel return every output of the convolution.",
     ["inputs", "configurations"], "all channel counts, filter sizes, data sizes, strides, paddings and slot counts up to the bounds",
     "Strides, padding and interchange interact through nested floor divisions; the tests use a handful of shapes, and the sizes where padding or unused columns change the answer are rare.",
     [LY + "Convolution.cpp", LY + "Convolution.h", LY + "Utils.cpp"], [("Toeplitz relations, diagonalisation and row interchange", LY + "Convolution.cpp")],
     [cpp("p15")], "one case per (channels, filter, data, stride, padding); relations compared as point sets and evaluated end to end with formal filter and data entries",
     "filters <= 4 (1-D) and 3x3, data <= 7 (1-D) and 4x4, strides <= 4, padding <= 3, channels <= 4", "data <= 10 (1-D) and 5x5",
     note="Row interchange requires channel counts divisible by the stride (1-D) or its square (2-D, equal strides); multichannel 2-D cases have padding below the filter extent.")
MA = TR + "MemrefToArith/"
passes("p16", [MA + f for f in ("ExpandCopy.cpp", "ExtractLoopBody.cpp", "MemrefGlobalReplace.cpp", "UnrollAndForward.cpp", "Utils.cpp")])
prop("P16", "Memory-forwarding and loop-unrolling passes keep meaning",
     "Store-to-load, insert-to-extract and slice forwarding, unused-buffer removal, copy expansion, global constant replacement, loop-body extraction, unroll-and-forward and removal of unused pure calls never change a function's results, the contents of its "
     "memref arguments, or its impure calls, on any program and input.",
     ["programs", "inputs"], "all short sequences of stores, loads, inserts, extracts, slices, copies and calls at constant and variable addresses, in straight-line code, branches and loops; every small input",
     "A forwarding pass is wrong only when something clobbers, aliases or conditionally skips the write it looked at; the file tests hold one happy path each.",
     [TR + f + "/" + f + ".cpp" for f in ("ForwardStoreToLoad", "ForwardInsertToExtract", "ForwardInsertSliceToExtractSlice", "UnusedMemRef", "RemoveUnusedPureCall")] + [MA + f for f in ("ExpandCopy.cpp", "ExtractLoopBody.cpp", "MemrefGlobalReplace.cpp", "UnrollAndForward.cpp", "Utils.cpp")],
     [("forwarding of writes to reads", TR + "ForwardStoreToLoad/ForwardStoreToLoad.cpp"), ("memref lowering", MA + "UnrollAndForward.cpp")],
     [cpp("p16")], "one case per program; results, buffers and impure calls compared on every input", "sequences of up to 4 operations on buffers of up to 4 elements", "sequences of up to 5 operations",
     note="Memref values that are not views of one another are assumed not to alias. Loop bodies given to body extraction use only loads, constants and their own operations; unroll-and-forward gets straight-line accesses and constant-trip loops of initialised local buffers.")
SE = DI + "Secret/Transforms/"
passes("p17", [TR + "Secretize/WrapGeneric.cpp"])
prop("P17", "Secret-generic transformations keep meaning and secrecy",
     "Every sequence of the secret dialect's transformations (wrap, distribute, capture ambient scope, absorb constants and deallocs, merge adjacent generics, extract bodies, hoist, add debug ports) keeps the program's results, buffers and calls, "
     "adds no reveal of a secret value, and gives valid IR; forgetting secrets gives the plain program with the same meaning and no secret types left.",
     ["programs", "schedules", "inputs"], "all IR states reachable by sequences of the passes from wrapped straight-line, branching, looping, tensor and memref programs; every small input on every state",
     "The passes rewrite regions through each other's output; an error needs a particular pass order, a value yielded twice or not at all, mixed public and secret loop values, or an ambient index.",
     [SE + f for f in ("DistributeGeneric.cpp", "CaptureGenericAmbientScope.cpp", "MergeAdjacentGenerics.cpp", "GenericAbsorbConstants.cpp", "GenericAbsorbDealloc.cpp", "ExtractGenericBody.cpp", "AddDebugPort.cpp", "ForgetSecrets.cpp")] + [DI + "Secret/IR/SecretPatterns.cpp", DI + "Secret/IR/SecretOps.cpp", TR + "Secretize/WrapGeneric.cpp"],
     [("secret patterns", DI + "Secret/IR/SecretPatterns.cpp"), ("distribution", SE + "DistributeGeneric.cpp")],
     [cpp("p17")], "breadth-first exploration of pass applications with state deduplication; each state interpreted on all inputs", "programs of up to 3 statements", "programs of up to 4 statements",
     note="Memref operands of a generic are assumed not to alias. Body extraction is preceded by capture of the ambient scope. Functions with calls are not wrapped.")
TE = "lib/Dialect/TensorExt/"
passes("p19", [TE + "Transforms/" + f for f in ("CollapseInsertionChains.cpp", "ImplementRotateAndReduce.cpp", "ImplementShiftNetwork.cpp", "InsertRotate.cpp", "RotateAndReduce.cpp")] + [TE + "Conversions/TensorExtToTensor/TensorExtToTensor.cpp"], also=["ctmc.h", "layoutref.h"])
MD = "lib/Dialect/ModArith/"
passes("p21", [MD + "Conversions/ModArithToArith/ModArithToArith.cpp", MD + "Transforms/ConvertToMac.cpp", "lib/Dialect/RNS/Transforms/LowerConvertBasis.cpp", "lib/Dialect/Arith/Conversions/ArithToModArith/ArithToModArith.cpp"], also=["modmc.h"])
PO = "lib/Dialect/Polynomial/"
passes("p22", [PO + "Conversions/PolynomialToModArith/PolynomialToModArith.cpp", PO + "Transforms/AttachNTTRoots.cpp", MD + "Conversions/ModArithToArith/ModArithToArith.cpp"], also=["modmc.h", "polymc.h"])
passes("p20", [TE + "Transforms/ImplementRotateAndReduce.cpp", TE + "Transforms/ImplementShiftNetwork.cpp", TR + "RotationAnalysis/RotationAnalysis.cpp", TR + "ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp", TR + "LayoutPropagation/LayoutPropagation.cpp", TR + "Secretize/WrapGeneric.cpp", TR + "ApplyFolders/ApplyFolders.cpp"], also=["ctmc.h", "layoutref.h"])
passes("p18", [TR + "ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp", TR + "LayoutPropagation/LayoutPropagation.cpp", TR + "LayoutOptimization/LayoutOptimization.cpp", TR + "AddClientInterface/AddClientInterface.cpp", TR + "Secretize/WrapGeneric.cpp"], also=["ctmc.h", "layoutref.h"])
prop("P18", "Layout assignment and kernel lowering preserve the tensor program",
     "For every supported tensor program on secrets (elementwise, matvec, matmul, batch matmul, dot, reductions, 1-D/2-D convolutions, slices, extract/insert, pad, reshapes, and chains of them) and every slot count, layout propagation, layout optimization, conversion to ciphertext semantics and the client interface "
     "keep the meaning: decrypting (unpacking) what the ciphertext program computes from the encrypted (packed) inputs gives what the tensor program computes; a program that is not supported is rejected with an error.",
     ["programs", "configurations"], "all shapes up to a bound x all slot counts x optimization on/off x unrolled or rolled kernels; inputs are formal variables, so each run covers every input value",
     "Layouts are presburger relations transformed by kernels that rotate and mask; an error shows only for particular shapes, slot counts, paddings and operation combinations.",
     [TR + f for f in ("ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp", "LayoutPropagation/LayoutPropagation.cpp", "LayoutPropagation/Utils.cpp", "LayoutOptimization/LayoutOptimization.cpp", "LayoutOptimization/InterfaceImpl.cpp", "LayoutOptimization/Patterns.cpp", "AddClientInterface/AddClientInterface.cpp")] + ["lib/Kernel/KernelImplementation.h"],
     [("layout assignment", TR + "LayoutPropagation/LayoutPropagation.cpp"), ("kernels", TR + "ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp")],
     [cpp("p18")], "exhaustive enumeration of small programs and packing configurations, each stage interpreted on formal inputs and compared with the tensor program", "shapes up to about 4x4, chains of 2 operations, slot counts 4 to 64", "larger shapes, chains of 3 operations",
     note="Rejections with an error are accepted where the compiler documents a limit (vecmat, matrices that need several ciphertexts, non-zero padding, non-unit slices). Padding a row slice is left out: the installed MLIR crashes composing its relations.")

prop("P19", "Rotation-level rewriting of packed tensors keeps the meaning",
     "Every rewrite between programs of rotations, slot-wise arithmetic, element extraction and insertion on packed tensors keeps what the program computes: canonicalization, insert-rotate, collapse-insertion-chains, rotate-and-reduce, "
     "implement-rotate-and-reduce (rolled or unrolled), implement-shift-network and the lowering of rotations to slices accept every valid program, produce valid IR and compute the same result, in any order of application.",
     ["programs", "histories"], "all programs up to a length x sequences of passes; inputs are formal variables, so each run covers every input value",
     "The rewrites compose shifts modulo sizes and match reductions in any association; errors need particular shifts, sizes, operand orders, shared values or pass orders.",
     ["lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td", "lib/Dialect/TensorExt/IR/TensorExtOps.cpp", TE + "Transforms/InsertRotate.td", TE + "Transforms/InsertRotate.cpp", TE + "Transforms/CollapseInsertionChains.cpp", TE + "Transforms/RotateAndReduce.cpp", TE + "Transforms/ImplementRotateAndReduce.cpp", TE + "Transforms/ImplementShiftNetwork.cpp", TE + "Conversions/TensorExtToTensor/TensorExtToTensor.cpp", "lib/Analysis/TargetSlotAnalysis/TargetSlotAnalysis.cpp"],
     [("canonicalization", "lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td"), ("rewrites", TE + "Transforms/InsertRotate.td"), ("shift networks", TE + "Transforms/ShiftScheme.cpp")],
     [cpp("p19")], "explicit-state search over the IR reachable by pass sequences from every small program, each state interpreted on formal inputs", "2-3 operations, tensors of 1-4 slots, sequences of up to 3 passes", "3 operations on every shape, sequences of 4 passes",
     note="Shift networks are built for power-of-two slot counts, as their documentation demands.")
passes("p24", [TR + f + "/" + f + ".cpp" for f in ("ApplyFolders", "CompareToSignRewrite", "FoldPlaintextMasks", "LowerPolynomialEval", "OperationBalancer", "PolynomialApproximation", "SelectRewrite")])
passes("p23", [TR + "SecretInsertMgmt/" + f for f in ("SecretInsertMgmtBGV.cpp", "SecretInsertMgmtBFV.cpp", "SecretInsertMgmtCKKS.cpp", "Pipeline.cpp", "SecretInsertMgmtPatterns.cpp")] + [TR + "PopulateScale/PopulateScaleBGV.cpp"], also=["ctmc.h", "layoutref.h"])
prop("P20", "Every rotation a program executes is among the indices of the analysis",
     "Whenever the rotation analysis accepts a program it records, modulo the slot count, the amount of every rotation of a ciphertext that any execution of the program performs, through loops, conditionals, nesting, tables, composite operations and lowered kernels; "
     "and it accepts every program whose amounts are computed from constants and constant-bound loop counters. A key that is generated from the recorded indices therefore suffices.",
     ["programs", "inputs"], "all programs of bounded shape (shift expressions x loop bounds x conditions x nesting) x runtime inputs",
     "The analysis simulates the program's control flow on partially known values; a missing index needs a particular bound, branch, table entry or dead value, and is fatal only when the compiled program runs.",
     ["lib/Analysis/RotationAnalysis/RotationAnalysis.cpp", "lib/Analysis/RotationAnalysis/DagBuilder.cpp", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp", TR + "RotationAnalysis/RotationAnalysis.cpp"],
     [("simulation", "lib/Analysis/RotationAnalysis/DagBuilder.cpp"), ("evaluation", "lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"), ("pass", TR + "RotationAnalysis/RotationAnalysis.cpp")],
     [cpp("p20")], "exhaustive exploration of the executions of every bounded program, each executed rotation checked against the recorded set", "expressions of depth 1-2, loops of up to 5 trips, nests of 2, slot counts 4-8", "expressions of depth 3, more bounds and slot counts",
     note="Shift amounts beyond 32 bits are excluded. Rotations of plaintext constants need no key.")
prop("P21", "Modular and residue-number arithmetic is exact through every rewrite",
     "Every operation on integers modulo q and on residue number systems (add, sub, mul, mac, reduce, lift, Barrett reduction, conditional subtraction, modulus switching, splitting into and joining from residues, basis conversion) means exactly the documented function of its operands, "
     "and constant folding, canonicalization, mac formation, basis lowering and the lowering to machine integers all keep that meaning, for scalars, tensors and residue tuples and for every modulus and storage width.",
     ["programs", "inputs"], "all programs of bounded shape x all moduli of a range x storage widths x all operand values",
     "Overflow at the storage width, unreduced constants and reassociation go wrong for particular moduli and operand values; the lit tests compare text for a handful of moduli and never compute a residue.",
     [MD + "IR/ModArithOps.cpp", MD + "IR/ModArithCanonicalization.td", MD + "Conversions/ModArithToArith/ModArithToArith.cpp", MD + "Transforms/ConvertToMac.cpp", "lib/Dialect/RNS/IR/RNSOps.cpp", "lib/Dialect/RNS/Transforms/LowerConvertBasis.cpp", "lib/Utils/APIntUtils.cpp"],
     [("folding", MD + "IR/ModArithOps.cpp"), ("lowering", MD + "Conversions/ModArithToArith/ModArithToArith.cpp"), ("basis conversion", "lib/Dialect/RNS/IR/RNSOps.cpp")],
     [cpp("p21")], "explicit-state search over the IR reachable by pass sequences from every small program, each state run on all operand values and compared with exact integers", "moduli 2-13 and powers of two up to 33, 2-3 operations, sequences of up to 3 passes", "moduli up to 24, more operations and constants, sequences of 4 passes",
     note="mod_switch between two moduli: the side of the middle residue (q-1)/2 is undocumented and left out. Negative constants are left out. Barrett inputs lie in [0,q^2).")
prop("P22", "Polynomial-ring arithmetic is exact through every rewrite",
     "Every operation on polynomials over a quotient ring (add, sub, mul, scalar mul, monomials and multiplication by them, leading term, tensor conversions, limb extraction, coefficientwise application, NTT and inverse NTT) means exactly the documented function of its operands, "
     "and constant folding, canonicalization, root attachment and the lowering to modular and then machine arithmetic keep that meaning, for every ring, coefficient type, form and storage width.",
     ["programs", "inputs"], "all programs of bounded shape x rings (modulus polynomial, coefficient moduli, storage width, form) x operand polynomials",
     "Quotient reduction, transforms and folded constants go wrong for particular ring moduli, degrees, coefficients and forms; the lit tests compare text or run single examples.",
     [PO + "IR/PolynomialOps.cpp", PO + "IR/PolynomialAttributes.cpp", PO + "IR/PolynomialCanonicalization.td", PO + "Conversions/PolynomialToModArith/PolynomialToModArith.cpp", PO + "Transforms/AttachNTTRoots.cpp", "lib/Utils/Polynomial/RNSPolynomial.cpp", "lib/Utils/Polynomial/Polynomial.h"],
     [("folding", PO + "IR/PolynomialOps.cpp"), ("lowering", PO + "Conversions/PolynomialToModArith/PolynomialToModArith.cpp"), ("canonicalization", PO + "IR/PolynomialCanonicalization.td")],
     [cpp("p22")], "explicit-state search over the IR reachable by pass sequences from every small program, each state run on all operand polynomials and compared with exact ring arithmetic", "degrees 1-8, moduli 3-97, all or up to a few hundred operand polynomials", "more rings, more operands, products of every pair of constants")
prop("P23", "Ciphertext management keeps meaning, with true levels, dimensions and scales",
     "For every secret program, the BGV, BFV and CKKS management pipelines (in each of their modes), the scale population for BGV and the loop handling for CKKS keep what the program computes, and along every execution each ciphertext's annotated level, ciphertext dimension and BGV scale are the ones its operations really produce, operands of one operation agree, no operation goes below level 0 or multiplies an unrelinearized ciphertext, and loops are level-invariant.",
     ["programs", "inputs"], "all bounded secret programs (straight-line, loops, branches, nests) x schemes and modes x executions",
     "Whether the inserted operations and annotations are consistent depends on the exact mix of additions, products, plaintexts, re-use and control flow; the lit tests compare text for a few programs.",
     [TR + "SecretInsertMgmt/SecretInsertMgmtPatterns.cpp", TR + "SecretInsertMgmt/Pipeline.cpp", TR + "SecretInsertMgmt/SecretInsertMgmtBGV.cpp", TR + "SecretInsertMgmt/SecretInsertMgmtBFV.cpp", TR + "SecretInsertMgmt/SecretInsertMgmtCKKS.cpp", TR + "PopulateScale/PopulateScaleBGV.cpp", TR + "Halo/Patterns.cpp", "lib/Analysis/LevelAnalysis/LevelAnalysis.cpp", "lib/Analysis/DimensionAnalysis/DimensionAnalysis.cpp", "lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp", "lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.cpp"],
     [("management", TR + "SecretInsertMgmt/SecretInsertMgmtPatterns.cpp"), ("scales", TR + "PopulateScale/PopulateScaleBGV.cpp"), ("loops", TR + "Halo/Patterns.cpp")],
     [cpp("p23")], "explicit-state exploration of every bounded secret program through the real management pipelines, with a monitor that tracks true level, dimension and scale along each execution", "programs of up to 3 operations, loops of 1-3 trips, nests, branches, 10 mode configurations", "more operations, trips, modes")
passes("p25", [TR + f + "/" + f + ".cpp" for f in ("ApplyFolders", "ElementwiseToAffine", "FoldConstantTensors", "FullLoopUnroll", "InlineActivations", "TensorLinalgToAffineLoops", "TensorToScalars")])
passes("p27", ["lib/Dialect/Openfhe/Transforms/%s.cpp" % f for f in ("AllocToInPlace", "FastRotationPrecompute", "ConvertToExtendedBasis")] + ["lib/Dialect/Lattigo/Transforms/AllocToInPlace.cpp"], also=["bemc.h"])
passes("p28", ["lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp", "lib/Dialect/Secret/Transforms/DistributeGeneric.cpp", "lib/Dialect/CGGI/Transforms/DecomposeOperations.cpp", TR + "BooleanVectorizer/BooleanVectorizer.cpp", TR + "StraightLineVectorizer/StraightLineVectorizer.cpp"] + ["lib/Dialect/CGGI/Conversions/%s/%s.cpp" % (f, f) for f in ("CGGIToJaxite", "CGGIToTfheRust", "CGGIToTfheRustBool")])
passes("p26", [TR + f + "/" + f + ".cpp" for f in ("ActivationCanonicalizations", "DropUnitDims", "LinalgCanonicalizations", "LinalgFuseLinearOps", "ReductionCanonicalizations")] + [TR + "LinalgCanonicalizations/ConvPoolFusion.cpp"])
prop("P24", "Arithmetic rewrites and function approximation keep what the program computes",
     "Operation balancing, turning selects and comparisons into arithmetic, folding plaintext masks, approximating non-polynomial functions and lowering polynomial evaluation compute the same values as before (approximations: as close to the function over its domain as a good polynomial of the degree), "
     "for every expression, constant, element type and shape they accept; balanced trees have the least depth, and a supported function or polynomial is never silently left behind.",
     ["programs", "inputs"], "all bounded expression DAGs, operator/type/constant/domain/degree combinations, and grids of inputs",
     "The lit tests compare the text of a few rewritten programs and never run them; a wrong sign, operand order, coefficient or shape shows only on particular predicates, constants, sides and types.",
     [TR + f + "/" + f + ".cpp" for f in ("OperationBalancer", "SelectRewrite", "CompareToSignRewrite", "FoldPlaintextMasks", "PolynomialApproximation", "LowerPolynomialEval")] + [TR + "SelectRewrite/SelectRewrite.td", TR + "FoldPlaintextMasks/Patterns.td", TR + "LowerPolynomialEval/Patterns.cpp", "lib/Kernel/IRMaterializingVisitor.cpp"],
     [("balancing", TR + "OperationBalancer/OperationBalancer.cpp"), ("approximation", TR + "PolynomialApproximation/PolynomialApproximation.cpp"), ("lowering", TR + "LowerPolynomialEval/Patterns.cpp"), ("masks", TR + "FoldPlaintextMasks/Patterns.td")],
     [cpp("p24")], "explicit-state search over the IR reachable by the passes from every bounded program, each state run on a grid of inputs and compared with the program's meaning", "DAGs of 3 operations, trees of 6 leaves, degrees to 20, 30 functions x 6 domains x 5 degrees", "DAGs of 4 operations, trees of 7 leaves, degrees to 40, 12 approximation degrees")

prop("P25", "Lowering tensor programs to loops and scalars keeps what they compute",
     "Turning elementwise, linear-algebra and tensor operations into affine loops, unrolling loops completely, replacing tensors by their scalars, folding constant tensors, applying folders and inlining activation functions give a valid program that computes the same values as before, "
     "for every rank (including 0), shape, index, loop nest and call structure they accept; elements keep their row-major order.",
     ["programs", "inputs"], "all bounded tensor programs (operations x shapes x indices x loop bounds x call structures), each with symbolic or distinct values in every element",
     "The lit tests compare the text of a few rewritten programs and never run them, mostly on rank-1 tensors; a wrong element order, loop bound or insertion position shows only on particular ranks, shapes and indices.",
     [TR + f + "/" + f + ".cpp" for f in ("ElementwiseToAffine", "FullLoopUnroll", "TensorToScalars", "FoldConstantTensors", "TensorLinalgToAffineLoops", "ApplyFolders", "InlineActivations")],
     [("elementwise", TR + "ElementwiseToAffine/ElementwiseToAffine.cpp"), ("scalars", TR + "TensorToScalars/TensorToScalars.cpp"), ("loops", TR + "TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp"), ("constants", TR + "FoldConstantTensors/FoldConstantTensors.cpp")],
     [cpp("p25")], "explicit-state search over the IR reachable by the passes from every bounded program, each state executed and compared with the program's meaning", "shapes to rank 3, loop nests of 3 levels, all index positions", "larger shapes, one more level")

prop("P26", "Rewrites of linear-algebra operations keep what the program computes",
     "Canonicalizing linear-algebra operations (maps, generics, broadcasts, transposes, fills, slices, pooling and dilated or pooled convolutions), fusing arithmetic into their weights and accumulators, dropping unit dimensions, and canonicalizing reductions and activations give a valid program that computes the same values as before, "
     "for every operand order, indexing map, shape, stride, dilation, initial value, constant and use structure.",
     ["programs", "inputs"], "all bounded combinations of operations, indexing maps, shapes, strides, dilations, initial values, scalings, operand sides and uses, with symbolic or distinct element values",
     "The lit tests compare the text of a few rewritten programs and never run them; a wrong map, axis, operand side, initial value or a second use shows only on particular combinations.",
     [TR + f for f in ("LinalgCanonicalizations/LinalgCanonicalizations.cpp", "LinalgCanonicalizations/ConvPoolFusion.cpp", "LinalgFuseLinearOps/LinalgFuseLinearOps.cpp", "DropUnitDims/DropUnitDims.cpp", "ReductionCanonicalizations/ReductionCanonicalizations.cpp", "ActivationCanonicalizations/ActivationCanonicalizations.cpp")],
     [("canonicalization", TR + "LinalgCanonicalizations/LinalgCanonicalizations.cpp"), ("pooled convolutions", TR + "LinalgCanonicalizations/ConvPoolFusion.cpp"), ("fusion", TR + "LinalgFuseLinearOps/LinalgFuseLinearOps.cpp"), ("reductions", TR + "ReductionCanonicalizations/ReductionCanonicalizations.cpp")],
     [cpp("p26")], "explicit-state search over the IR reachable by the passes from every bounded program, each state executed (on symbolic values where the arithmetic is linear) and compared with the program's meaning", "4 loops, 2 filters/channels, windows to 3, strides and dilations to 2 (3), pass sequences of 2", "all channel and filter counts, more shapes, all slices to 12 elements")

prop("P27", "In-place operations and fast rotations keep what a backend program computes",
     "Replacing OpenFHE and Lattigo operations by variants that write into an existing ciphertext, rotations by fast rotations with precomputed digits, and fast rotations by their extended-basis form keep every value the program returns or leaves in its buffers, and its level, "
     "when ciphertexts are the mutable objects that variables, tensors, buffers, loop arguments and callees refer to.",
     ["programs", "inputs"], "all bounded backend programs (DAGs, loops, nests, branches, tensors and buffers of ciphertexts, calls; later uses of every value) x pass sequences",
     "The lit tests compare the text of a few straight-line programs; a ciphertext overwritten while something else still refers to it shows only with a particular later use, loop, container or call, and only when the program runs.",
     ["lib/Dialect/Openfhe/Transforms/AllocToInPlace.cpp", "lib/Dialect/Openfhe/Transforms/FastRotationPrecompute.cpp", "lib/Dialect/Openfhe/Transforms/ConvertToExtendedBasis.cpp", "lib/Dialect/Lattigo/Transforms/AllocToInPlace.cpp", "lib/Utils/AllocToInPlaceUtils.h"],
     [("OpenFHE", "lib/Dialect/Openfhe/Transforms/AllocToInPlace.cpp"), ("Lattigo", "lib/Dialect/Lattigo/Transforms/AllocToInPlace.cpp"), ("storage", "lib/Utils/AllocToInPlaceUtils.h"), ("rotations", "lib/Dialect/Openfhe/Transforms/FastRotationPrecompute.cpp")],
     [cpp("p27")], "explicit-state search over the IR reachable by the passes from every bounded backend program, each state executed on a heap of mutable ciphertexts and compared with the program's meaning", "DAGs of 3 operations, 3 libraries, loops of 3 trips, sequences of 3 passes", "DAGs of 4 operations, all loop bodies of two statements",
     note="OpenFHE programs own their ciphertext arguments; loops copy their initial ciphertexts, as the OpenFHE emitter does.")
prop("P28", "Boolean circuits keep their truth function down to the CGGI backends",
     "Lowering a Boolean program on secret bits, integers and tensors to CGGI, decomposing lookup tables, packing the gates of a level (boolean and straight-line vectorizer) and lowering to tfhe-rust, tfhe-rust's Boolean API and jaxite succeeds wherever every gate has a counterpart, "
     "and every stage computes, on every assignment of its inputs, the bits the program on plaintexts computes.",
     ["programs", "inputs"], "all bounded circuits (gate DAGs, every truth table on three and four inputs of every kind, conversions between integers and tensors of bits, loops and branches that capture gates) x pass sequences x input assignments",
     "The lit tests count operations; a table indexed in the wrong order, an element read from the wrong place or a gate packed before its input exists needs particular operands, shapes or regions, and the program to be run.",
     ["lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp", "lib/Dialect/CGGI/Transforms/DecomposeOperations.cpp", "lib/Dialect/CGGI/IR/CGGIOps.cpp", "lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp", "lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp", "lib/Dialect/CGGI/Conversions/CGGIToJaxite/CGGIToJaxite.cpp", "lib/Dialect/CGGI/Conversions/CGGIToTfheRust/CGGIToTfheRust.cpp", "lib/Dialect/CGGI/Conversions/CGGIToTfheRustBool/CGGIToTfheRustBool.cpp"],
     [("CGGI", "lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp"), ("packing", "lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp"), ("straight line", "lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp"), ("tfhe-rust", "lib/Dialect/CGGI/Conversions/CGGIToTfheRust/CGGIToTfheRust.cpp"), ("jaxite", "lib/Dialect/CGGI/Conversions/CGGIToJaxite/CGGIToJaxite.cpp")],
     [cpp("p28")], "explicit-state search over the IR reachable by the passes from every bounded circuit, each state evaluated on every input assignment and compared with the circuit's truth function", "every gate and 3-input table on every kind of operand, DAGs of 3 gates, one 4-input table in eight, pass sequences of 3", "every 4-input table in six operand orders, all gates at every node of the DAGs",
     note="Ciphertexts are modelled by the message they hold; noise is not.")
