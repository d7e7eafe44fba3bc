// Stand-in for LLVM >= 22's llvm/Support/DebugLog.h: debug logging discarded.
#ifndef VERIF_COMPAT_DEBUGLOG_H_
#define VERIF_COMPAT_DEBUGLOG_H_
#include "llvm/Support/raw_ostream.h"
#ifndef LDBG
#define LDBG(...) while (false) ::llvm::nulls()
#endif
#ifndef LDBG_OS
#define LDBG_OS(...) while (false) ::llvm::nulls()
#endif
#endif
