/* A canonical description of everything a value can reach: two values have the
 * same description exactly when no program can tell them apart, wherever their
 * parts happen to lie in memory. Trees are listed by the names of their keys,
 * objects are numbered in the order in which they are first come across, and
 * so are the symbols the compiler generates. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include "nujel-private.h"

extern void *__real_realloc(void*, size_t);
extern void __real_free(void*);

static char *out; static size_t outN, outCap;
static void put(const char *s, size_t n){
	if(outN + n > outCap){ outCap = (outN + n) * 2; out = __real_realloc(out, outCap); }
	memcpy(out + outN, s, n); outN += n;
}
static void putf(const char *fmt, ...){
	char b[256];
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	put(b, n < (int)sizeof(b) ? n : (int)sizeof(b) - 1);
}

typedef struct { const void *p; unsigned n; } Num;
static Num *num; static size_t numCap; static unsigned numN;
/* The number of an object; true when it is new */
static bool number(const void *p, unsigned *n){
	if(numN * 2 >= numCap){
		size_t oc = numCap; Num *o = num;
		numCap = oc ? oc * 2 : 65536;
		num = __real_realloc(NULL, numCap * sizeof(Num));
		memset(num, 0, numCap * sizeof(Num));
		for(size_t i=0;i<oc;i++){ if(o[i].p){
			size_t s = (((uintptr_t)o[i].p >> 3) * 0x9E3779B97F4A7C15ULL) & (numCap-1);
			while(num[s].p){ s = (s+1) & (numCap-1); }
			num[s] = o[i];
		} }
		__real_free(o);
	}
	size_t s = (((uintptr_t)p >> 3) * 0x9E3779B97F4A7C15ULL) & (numCap-1);
	while(num[s].p && num[s].p != p){ s = (s+1) & (numCap-1); }
	if(num[s].p){ *n = num[s].n; return false; }
	num[s] = (Num){p, *n = numN++};
	return true;
}

static void cnSymName(const lSymbol *s, char *b, size_t n){
	if(s == NULL){ snprintf(b, n, "<none>"); return; }
	snprintf(b, n, "%.*s", (int)sizeof(s->c), s->c);
}
static bool generated(const lSymbol *s){
	return s && strstr(s->c, "\xCE\xA3") != NULL;    /* the capital sigma of a generated name */
}
static void sym(const lSymbol *s){
	char b[128];
	unsigned n;
	if(generated(s)){ number(s, &n); putf("$%u", n); return; }
	cnSymName(s, b, sizeof(b));
	putf("%s", b);
}

static void val(lVal v);
typedef struct { const lTree *t; char name[128]; } Ent;
static int entCmp(const void *a, const void *b){
	const Ent *x = a, *y = b;
	const bool gx = generated(x->t->key), gy = generated(y->t->key);
	if(gx != gy){ return gx - gy; }
	if(gx){ /* in the order they were generated in */
		const size_t lx = strlen(x->name), ly = strlen(y->name);
		if(lx != ly){ return lx < ly ? -1 : 1; }
	}
	return strcmp(x->name, y->name);
}
static size_t entCount(const lTree *t){ return t ? 1 + entCount(t->left) + entCount(t->right) : 0; }
static Ent *entFill(const lTree *t, Ent *e){
	if(t == NULL){ return e; }
	e = entFill(t->left, e);
	e->t = t; cnSymName(t->key, e->name, sizeof(e->name));
	return entFill(t->right, e + 1);
}
static void tree(const lTree *t){
	const size_t n = entCount(t);
	if(n == 0){ put("{}", 2); return; }
	Ent *e = __real_realloc(NULL, n * sizeof(Ent));
	entFill(t, e);
	qsort(e, n, sizeof(Ent), entCmp);
	put("{", 1);
	for(size_t i=0;i<n;i++){ put("\n", 1); sym(e[i].t->key); put(" ", 1); val(e[i].t->value); }
	put("}", 1);
	__real_free(e);
}
static void bytes(const void *p, size_t n){
	const unsigned char *b = p;
	for(size_t i=0;i<n;i++){ putf(b[i] >= 32 && b[i] < 127 && b[i] != '\\' ? "%c" : "\\%02x", b[i]); }
}
static void bca(const lBytecodeArray *b);
static void closure(const lClosure *c){
	unsigned n;
	if(c == NULL){ put("-", 1); return; }
	if(!number(c, &n)){ putf("#%u", n); return; }
	putf("\n#%u=closure type %d sp %d args ", n, c->type, c->sp);
	val(c->args);
	put(" meta ", 6); tree(c->meta);
	put(" text ", 6); bca(c->text);
	if(c->text){ putf(" ip %ld", c->ip ? (long)(c->ip - c->text->data) : -1L); }
	put(" data ", 6); tree(c->data);
	put(" parent ", 8); closure(c->parent);
}
static void arr(const lArray *a){
	unsigned n;
	if(a == NULL){ put("-", 1); return; }
	if(!number(a, &n)){ putf("#%u", n); return; }
	putf("#%u=[%d", n, a->length);
	for(int i=0;i<a->length;i++){ put(" ", 1); val(a->data[i]); }
	put("]", 1);
}
static void bca(const lBytecodeArray *b){
	unsigned n;
	if(b == NULL){ put("-", 1); return; }
	if(!number(b, &n)){ putf("#%u", n); return; }
	putf("#%u=code ", n);
	bytes(b->data, b->dataEnd - b->data);
	put(" ", 1);
	arr(b->literals);
}
static void buffer(const lBuffer *b){
	unsigned n;
	if(b == NULL){ put("-", 1); return; }
	if(!number(b, &n)){ putf("#%u", n); return; }
	putf("#%u=\"%d:", n, b->length);
	if(b->buf){ bytes(b->buf, b->length); }
	putf("\"%s", b->flags & BUFFER_IMMUTABLE ? "i" : "");
}
static void val(lVal v){
	unsigned n;
	switch(v.type){
	case ltNil:       put("nil", 3); break;
	case ltBool:      putf("%s", v.vBool ? "#t" : "#f"); break;
	case ltInt:       putf("%lld", (long long)v.vInt); break;
	case ltFloat:     putf("%a", v.vFloat); break;
	case ltSymbol:    sym(v.vSymbol); break;
	case ltKeyword:   put(":", 1); sym(v.vSymbol); break;
	case ltType:      putf("type %ld", (long)(v.vType - lClassList)); break;
	case ltNativeFunc:
		if(v.vNFunc){ put("native ", 7); sym(v.vNFunc->name); }else{ put("native -", 8); }
		break;
	case ltFileHandle:
		putf("file %s", v.vFileHandle == stdin ? "in" : v.vFileHandle == stdout ? "out" : v.vFileHandle == stderr ? "err" : "?");
		break;
	case ltMacro: case ltEnvironment: case ltLambda: putf("%s ", v.type == ltMacro ? "macro" : v.type == ltLambda ? "lambda" : "env"); closure(v.vClosure); break;
	case ltArray:     arr(v.vArray); break;
	case ltBytecodeArr: bca(v.vBytecodeArr); break;
	case ltString:    put("s", 1); buffer(v.vBuffer); break;
	case ltBuffer:    put("b", 1); buffer(v.vBuffer); break;
	case ltBufferView:
		if(!number(v.vBufferView, &n)){ putf("#%u", n); break; }
		putf("#%u=view %d %zu %zu %d ", n, v.vBufferView->type, v.vBufferView->offset, v.vBufferView->length, v.vBufferView->flags);
		buffer(v.vBufferView->buf);
		break;
	case ltTree:
		if(!number(v.vTree, &n)){ putf("#%u", n); break; }
		putf("#%u=tree ", n); tree(v.vTree->root);
		break;
	case ltPair: case ltException:
		put(v.type == ltPair ? "(" : "!(", v.type == ltPair ? 1 : 2);
		for(bool first = true;; first = false){
			if(v.vList == NULL){ put("empty", 5); break; }
			if(!first){ put(" ", 1); }
			if(!number(v.vList, &n)){ putf("#%u", n); break; }
			val(v.vList->car);
			v = v.vList->cdr;
			if(v.type == ltNil){ break; }
			if(v.type != ltPair){ put(" . ", 3); val(v); break; }
		}
		put(")", 1);
		break;
	default:          putf("type %d", v.type); break;
	}
}
const char *canonOf(const void *value, size_t *len, unsigned *objects){
	outN = 0; numN = 0;
	if(num){ memset(num, 0, numCap * sizeof(Num)); }
	val(*(const lVal*)value);
	*len = outN; *objects = numN;
	return out;
}
