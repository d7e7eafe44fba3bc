// Headers that newer MLIR includes transitively.
#pragma once
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/TypeSwitch.h"
namespace mlir { class RewritePatternSet; namespace tensor { inline void populateFoldCollapseExtractPatterns(RewritePatternSet &) {} } }  // an optional cleanup
