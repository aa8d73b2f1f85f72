/* Stands in for gccheck.c when it does not compile against the sources. */
#include "sim.h"
void gcBefore(struct lThread *ctx){ (void)ctx; }
void gcAfter(struct lThread *ctx, bool poison, bool exact, bool native){ (void)ctx; (void)poison; (void)exact; (void)native; }
size_t gcNativeBytes;
