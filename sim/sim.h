/* Deterministic simulator for the Nujel runtime: shared declarations. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>

/* result arenas, in memory shared with the fork server */
typedef struct {
	int  done;          /* 1 once the run has ended in a way the simulator knows */
	int  status;        /* exit status */
	char why[32];       /* exit | hang | crash | blocked | oracle */
	size_t logLen, outLen, errLen, vfsLen, msgLen;
	uint64_t logHash;
	uint64_t steps, safepoints, gcs, gcChecked, mallocs, faultsFired, now;
	uint64_t reached;   /* objects marked by the independent collector oracle */
	uint64_t freed;     /* objects found freed by it */
	uint64_t shapes;    /* hash over (safepoint kind, stack depth) sequence at GCs */
	size_t openFiles, leakBytes, leakCount;
} SimResult;

extern SimResult *simRes;

void simLog(const char *fmt, ...) __attribute__((format(printf,1,2)));
void simEnd(const char *why, int status) __attribute__((noreturn));
void simOracle(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
void simStep(void);

/* gccheck.c */
struct lThread;
extern size_t gcNativeBytes; /* of native memory allocated by the run, at the last collection */
void gcBefore(struct lThread *ctx);
void gcAfter(struct lThread *ctx, bool poison, bool exact, bool native);
/* sim.c allocation table */
size_t simAllocCount(void);
void  *simAllocAt(size_t i, size_t *size, bool *baseline);
bool   simAllocFind(const void *p, size_t *size);
#endif
