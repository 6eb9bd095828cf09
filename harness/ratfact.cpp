// Rational functions over factorised polynomials whose factors live in one shared, bounded cache.
// build-flags: -DNDEBUG -DRATFUN_FACTORIZED -include @VERIF@/harness/cocoa_stub.h
#include "ratfun.h"
namespace sim { const char* const harness_name = "ratfact"; }
