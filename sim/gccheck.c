/* An independent statement of what a collection has to do, checked around
 * every collection of a simulated run:
 *   - nothing that can still be reached from the roots is freed
 *   - everything that can no longer be reached is freed, exactly once
 *   - native memory lives exactly as long as the heap object owning it
 */
#define _GNU_SOURCE
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include "nujel-private.h"

#define TYPES(X) \
	X(lArray, ARR_MAX) X(lClosure, CLO_MAX) X(lTree, TRE_MAX) X(lTreeRoot, TRR_MAX) \
	X(lBytecodeArray, BCA_MAX) X(lBuffer, BUF_MAX) X(lBufferView, BFV_MAX) X(lPair, CON_MAX)

#define X(T, N) static uint8_t seen_##T[N], free_##T[N], was_##T[N];
TYPES(X)
#undef X
static uint8_t seen_lSymbol[SYM_MAX], free_lSymbol[SYM_MAX], pinned_lSymbol[SYM_MAX];
static uint8_t seen_lNFunc[NFN_MAX];

extern void *__real_realloc(void*, size_t);

typedef struct { int kind; const void *p; } Item;
enum { K_ARRAY, K_CLOSURE, K_TREE, K_ROOT, K_BCA, K_BUF, K_VIEW, K_PAIR, K_SYM, K_NF };
static Item *stk; static size_t stkN, stkCap;

static void push(int kind, const void *p){
	if(p == NULL){return;}
	if(stkN == stkCap){ stkCap = stkCap ? stkCap*2 : 4096; stk = __real_realloc(stk, stkCap*sizeof(Item)); }
	stk[stkN++] = (Item){kind, p};
}
static void pushVal(lVal v){
	switch(v.type){
	case ltPair: case ltException:                       push(K_PAIR, v.vList); break;
	case ltMacro: case ltEnvironment: case ltLambda:     push(K_CLOSURE, v.vClosure); break;
	case ltArray:                                        push(K_ARRAY, v.vArray); break;
	case ltNativeFunc:                                   push(K_NF, v.vNFunc); break;
	case ltKeyword: case ltSymbol:                       push(K_SYM, v.vSymbol); break;
	case ltTree:                                         push(K_ROOT, v.vTree); break;
	case ltBytecodeArr:                                  push(K_BCA, v.vBytecodeArr); break;
	case ltString: case ltBuffer:                        push(K_BUF, v.vBuffer); break;
	case ltBufferView:                                   push(K_VIEW, v.vBufferView); break;
	default: break;
	}
}
#define VISIT(T, N) { \
	const T *o = it.p; \
	if(o < T##List || o >= T##List + (N)){ simOracle("a reachable value points outside of the " #T " heap"); } \
	const size_t i = o - T##List; \
	if(seen_##T[i]){continue;} \
	seen_##T[i] = 1; \
	simRes->reached++;
static void trace(void){
	while(stkN){
		const Item it = stk[--stkN];
		switch(it.kind){
		case K_ARRAY: VISIT(lArray, ARR_MAX) for(int k=0;k<o->length;k++){ pushVal(o->data[k]); } break; }
		case K_CLOSURE: VISIT(lClosure, CLO_MAX)
			push(K_CLOSURE, o->parent); push(K_TREE, o->data); push(K_TREE, o->meta); push(K_BCA, o->text); pushVal(o->args); break; }
		case K_TREE: VISIT(lTree, TRE_MAX) push(K_SYM, o->key); pushVal(o->value); push(K_TREE, o->left); push(K_TREE, o->right); break; }
		case K_ROOT: VISIT(lTreeRoot, TRR_MAX) push(K_TREE, o->root); break; }
		case K_BCA: VISIT(lBytecodeArray, BCA_MAX) push(K_ARRAY, o->literals); break; }
		case K_BUF: VISIT(lBuffer, BUF_MAX) break; }
		case K_VIEW: VISIT(lBufferView, BFV_MAX) push(K_BUF, o->buf); break; }
		case K_PAIR: VISIT(lPair, CON_MAX) pushVal(o->car); pushVal(o->cdr); break; }
		case K_SYM: VISIT(lSymbol, SYM_MAX) break; }
		case K_NF: VISIT(lNFunc, NFN_MAX) pushVal(o->args); push(K_TREE, o->meta); break; }
		}
	}
}

/* Walk the free list of every type */
static void freeLists(uint8_t *dst, const char *what, const void *list, size_t size, size_t max, const void *first, size_t nextOff){
	memset(dst, 0, max);
	for(const char *p = first; p; ){
		if(p < (const char*)list || p >= (const char*)list + size*max || (p - (const char*)list) % size){
			simOracle("the free list of %s leaves its heap", what);
		}
		size_t i = (p - (const char*)list) / size;
		if(dst[i]){ simOracle("%s %zu is on the free list twice", what, i); }
		dst[i] = 1;
		memcpy(&p, p + nextOff, sizeof(p));
	}
}
static void allFreeLists(void){
	#define X(T, N) freeLists(free_##T, #T, T##List, sizeof(T), N, T##FFree, offsetof(T, nextFree));
	TYPES(X)
	X(lSymbol, SYM_MAX)
	#undef X
}

void gcBefore(lThread *ctx){
	#define X(T, N) memset(seen_##T, 0, N);
	TYPES(X) X(lSymbol, SYM_MAX) X(lNFunc, NFN_MAX)
	#undef X
	stkN = 0;
	for(int i=0;i<64;i++){
		push(K_SYM, lClassList[i].name);
		push(K_TREE, lClassList[i].methods);
		push(K_TREE, lClassList[i].staticMethods);
	}
	for(unsigned i=0;i<lNFuncMax;i++){ push(K_NF, &lNFuncList[i]); }
	push(K_BCA, ctx->text);
	for(int i=0;i<=ctx->csp;i++){ push(K_CLOSURE, ctx->closureStack[i]); }
	for(int i=0;i<=ctx->sp;i++){ pushVal(ctx->valueStack[i]); }
	trace();
	allFreeLists();
	#define X(T, N) for(size_t i=0;i<T##Max;i++){ if(seen_##T[i] && free_##T[i]){ simOracle("a reachable " #T " had already been freed"); } }
	TYPES(X)
	#undef X
	#define X(T, N) memcpy(was_##T, free_##T, N);
	TYPES(X)
	#undef X
	for(unsigned i=0;i<SYM_MAX;i++){
		if(seen_lSymbol[i] && free_lSymbol[i]){ simOracle("a reachable symbol had already been freed"); }
		pinned_lSymbol[i] = lSymbolMarkMap[i] & 2;
	}
}

typedef struct { void *p; } Own;
size_t gcNativeBytes;
static uint8_t *ownMark; static size_t ownCap;
static size_t findIdx(const void *p){
	size_t cap = simAllocCount();
	size_t s = (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) & (cap-1);
	for(;;){
		size_t sz; bool b;
		void *q = simAllocAt(s, &sz, &b);
		if(!q){return (size_t)-1;}
		if(q == p){return s;}
		s = (s+1) & (cap-1);
	}
}
static void own(const void *p, size_t need, const char *what, size_t idx){
	if(p == NULL){return;}
	size_t i = findIdx(p);
	if(i == (size_t)-1){ simOracle("live %s %zu refers to native memory that is not allocated", what, idx); }
	size_t sz; bool b;
	simAllocAt(i, &sz, &b);
	if(sz < need){ simOracle("live %s %zu needs %zu bytes of native memory, but only %zu are allocated", what, idx, need, sz); }
	if(ownMark[i]){ simOracle("native memory of %s %zu is shared with another object", what, idx); }
	ownMark[i] = 1;
}

void gcAfter(lThread *ctx, bool poison, bool exact, bool native){
	allFreeLists();
	#define X(T, N) { \
		size_t act = 0; \
		for(size_t i=0;i<T##Max;i++){ \
			if(!free_##T[i]){act++;} \
			if(seen_##T[i] && free_##T[i]){ simOracle("a reachable " #T " has been freed by the collector (slot %zu)", i); } \
			if(exact && !seen_##T[i] && !free_##T[i]){ simOracle("an unreachable " #T " has not been freed by the collector (slot %zu)", i); } \
			if(free_##T[i] && !was_##T[i]){ simRes->freed++; } \
		} \
		if(exact && act != T##Active){ simOracle(#T ": %zu objects are allocated, but %u are accounted for", act, T##Active); } \
	}
	TYPES(X)
	#undef X
	for(unsigned i=0;i<lSymbolMax;i++){
		if(seen_lSymbol[i] && free_lSymbol[i]){ simOracle("a reachable symbol has been freed by the collector (slot %u)", i); }
		if(exact && !seen_lSymbol[i] && !pinned_lSymbol[i] && !free_lSymbol[i]){ simOracle("an unreachable symbol has not been freed by the collector (slot %u: %.40s)", i, lSymbolList[i].c); }
	}
	if(native){
		size_t cap = simAllocCount();
		if(cap > ownCap){ ownCap = cap; ownMark = __real_realloc(ownMark, cap); }
		memset(ownMark, 0, cap);
		gcNativeBytes = 0;
		own(ctx->valueStack, ((size_t)ctx->sp + 1) * sizeof(lVal), "value stack", 0);
		own(ctx->closureStack, ((size_t)ctx->csp + 1) * sizeof(lClosure*), "call stack", 0);
		for(size_t i=0;i<lArrayMax;i++){ if(!free_lArray[i]){ own(lArrayList[i].data, (size_t)lArrayList[i].length * sizeof(lVal), "array", i); } }
		for(size_t i=0;i<lBufferMax;i++){ if(!free_lBuffer[i] && !(lBufferList[i].flags & BUFFER_STATIC)){ own(lBufferList[i].buf, lBufferList[i].length, "buffer", i); } }
		for(size_t i=0;i<lBytecodeArrayMax;i++){ if(!free_lBytecodeArray[i] && !(lBytecodeArrayList[i].flags & BUFFER_STATIC)){ own(lBytecodeArrayList[i].data, lBytecodeArrayList[i].dataEnd - lBytecodeArrayList[i].data, "bytecode", i); } }
		for(size_t i=0;i<cap;i++){
			size_t sz; bool b;
			void *p = simAllocAt(i, &sz, &b);
			if(p && !b){ gcNativeBytes += sz; }
			if(p && !b && !ownMark[i]){ simOracle("%zu bytes of native memory are no longer owned by anything (leaked)", sz); }
		}
	}
	if(poison){
		/* whatever still uses a freed object sees rubbish */
		#define X(T, N) for(size_t i=0;i<T##Max;i++){ if(free_##T[i]){ \
			char *b = (char*)&T##List[i]; const size_t o = offsetof(T, nextFree); \
			memset(b, 0xA5, o); memset(b + o + sizeof(void*), 0xA5, sizeof(T) - o - sizeof(void*)); } }
		TYPES(X)
		#undef X
		for(size_t i=0;i<lSymbolMax;i++){ if(free_lSymbol[i]){ memset(lSymbolList[i].c + sizeof(void*), 0xA5, sizeof(lSymbolList[i].c) - 1 - sizeof(void*)); } }
	}
}
