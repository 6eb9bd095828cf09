// Rational functions: clients compute with quotients of polynomials, some reduced after every step and some on demand,
// and exchange them.
// build-flags: -DNDEBUG -include @VERIF@/harness/cocoa_stub.h
#include "ratfun.h"
namespace sim { const char* const harness_name = "ratfun"; }
