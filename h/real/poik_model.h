// POIK_MODEL_CHECK over the real primes: only the repetition count and the chain lengths are reduced
#if POIK_BITS == 434
#include "P434/P434_poik_api.h"
#elif POIK_BITS == 503
#include "P503/P503_poik_api.h"
#elif POIK_BITS == 610
#include "P610/P610_poik_api.h"
#else
#include "P751/P751_poik_api.h"
#endif
