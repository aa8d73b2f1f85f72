/* Deterministic simulator for the Nujel runtime.
 *
 * The whole nujel program (lib/, bin/, its compiled-in image) runs unmodified
 * inside this process.  Every libc call through which it can observe the
 * outside world is replaced at link time (-Wl,--wrap) by an implementation on
 * top of an in-memory world, and the collector is driven through the guarded
 * hook in lib/vm.c.  A run is a pure function of the scenario text.
 */
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <unistd.h>
#include <time.h>
#include <netdb.h>
#include <termios.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "nujel-private.h"

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

/* ------------------------------------------------------------------ arenas */
#define LOG_MAX (24u<<20)
#define OUT_MAX (8u<<20)
#define ERR_MAX (2u<<20)
#define VFS_MAX (16u<<20)
#define MSG_MAX (64u<<10)

SimResult *simRes;
static char *aLog, *aOut, *aErr, *aVfs, *aMsg;
static uint64_t maxSteps = 50000000;
static bool quiet = true;       /* before the run starts nothing is recorded */
static int logLevel = 1;

static void putArena(char *arena, size_t *len, size_t max, const void *buf, size_t n){
	if(*len + n > max){ n = max - *len; }
	memcpy(arena + *len, buf, n);
	*len += n;
}

void simLog(const char *fmt, ...){
	if(quiet){return;}
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof(buf)-1, fmt, ap);
	va_end(ap);
	if(n > (int)sizeof(buf)-2){n = sizeof(buf)-2;}
	buf[n++] = '\n';
	for(int i=0;i<n;i++){ simRes->logHash = (simRes->logHash ^ (uint8_t)buf[i]) * 1099511628211ULL; }
	putArena(aLog, &simRes->logLen, LOG_MAX, buf, n);
}

static void logHex(const char *pre, const void *buf, size_t n){
	if(quiet){return;}
	static const char hx[] = "0123456789abcdef";
	char line[2*256+2];
	const unsigned char *p = buf;
	simLog("%s %zu", pre, n);
	while(n){
		size_t k = n > 256 ? 256 : n;
		for(size_t i=0;i<k;i++){ line[i*2] = hx[p[i]>>4]; line[i*2+1] = hx[p[i]&15]; }
		line[k*2] = 0;
		simLog("+%s", line);
		p += k; n -= k;
	}
}

static void dumpVfs(void);
static void logCalls(void);
static bool allocTracking;

void simEnd(const char *why, int status){
	allocTracking = false;
	logCalls();
	dumpVfs();
	snprintf(simRes->why, sizeof(simRes->why), "%s", why);
	simRes->status = status;
	simRes->done = 1;
	_exit(0);
}

void simOracle(const char *fmt, ...){
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if(n > (int)sizeof(buf)-1){n = sizeof(buf)-1;}
	putArena(aMsg, &simRes->msgLen, MSG_MAX, buf, n);
	simEnd("oracle", 0);
}

void simStep(void){
	if(quiet){return;}
	if(++simRes->steps > maxSteps){ simLog("HANG"); simEnd("hang", 0); }
}

/* ------------------------------------------------------------------ faults */
enum { F_OPEN, F_READ, F_WRITE, F_CLOSE, F_SEEK, F_STAT, F_UNLINK, F_MKDIR, F_RMDIR,
	F_CHDIR, F_GETCWD, F_OPENDIR, F_READDIR, F_ACCESS, F_POPEN, F_PREAD, F_PCLOSE,
	F_GAI, F_SOCKET, F_CONNECT, F_FDOPEN, F_SREAD, F_SWRITE, F_SCLOSE, F_MALLOC, F_IOCTL,
	F_TCGET, F_TCSET, F_INREAD, F_OUTWRITE, F_CLOCK, F_SAFEPOINT, F_COUNT };
static const char *fName[F_COUNT] = {"open","read","write","close","seek","stat","unlink","mkdir","rmdir",
	"chdir","getcwd","opendir","readdir","access","popen","pread","pclose",
	"gai","socket","connect","fdopen","sread","swrite","sclose","malloc","ioctl",
	"tcget","tcset","inread","outwrite","clock","safepoint"};
typedef struct { int op; long idx; int err; long arg; } Fault;
#define ERR_CRASH 9999      /* the process dies here: nothing buffered survives */
static Fault *faults; static int faultN;
static long fCount[F_COUNT];
static uint64_t fHas;       /* bitmap: any fault configured for that op */

static void logCalls(void){
	char b[900]; int n = snprintf(b, sizeof(b), "calls");
	for(int i=0;i<F_COUNT;i++){
		if(fCount[i] && i != F_MALLOC && i != F_SAFEPOINT){ n += snprintf(b+n, sizeof(b)-n, " %s %ld", fName[i], fCount[i]); }
	}
	simLog("%s", b);
}

static void simCrash(void){ simLog("CRASH"); simEnd("crash", 0); }

/* Count a call of kind OP, and return the fault scheduled for it, if any */
static Fault *fault(int op){
	long n = fCount[op]++;
	if(op != F_MALLOC && op != F_SAFEPOINT){ simStep(); }
	if(!(fHas & (1ull << op)) || quiet){return NULL;}
	for(int i=0;i<faultN;i++){
		if(faults[i].op == op && (faults[i].idx == n || (faults[i].idx < 0 && n >= -faults[i].idx - 1))){
			simRes->faultsFired++;
			simLog("FAULT %s %ld %d %ld", fName[op], n, faults[i].err, faults[i].arg);
			if(faults[i].err == ERR_CRASH && faults[i].arg <= 0){ simCrash(); }
			return &faults[i];
		}
	}
	return NULL;
}

/* ------------------------------------------------------------------- clock */
static uint64_t nowMs = 1000000;      /* monotonic */
static int64_t  wallOff = 1600000000000LL;
static uint64_t tickMs = 1;
typedef struct { long idx; int64_t wall; int64_t mono; } Jump;
static Jump *jumps; static int jumpN;
static long clockQueries;

static void clockTick(void){
	simStep();
	for(int i=0;i<jumpN;i++){
		if(jumps[i].idx == clockQueries){
			wallOff += jumps[i].wall; nowMs += jumps[i].mono;
			simRes->faultsFired++;
			simLog("JUMP %ld %lld %lld", clockQueries, (long long)jumps[i].wall, (long long)jumps[i].mono);
		}
	}
	clockQueries++;
	nowMs += tickMs;
}
static int64_t nsOff;            /* nanoseconds into the current millisecond */
static unsigned long workEvery, workCount;   /* safepoints per millisecond of computation */
static void clockWork(void){
	if(workEvery && ++workCount >= workEvery){ workCount = 0; nowMs++; }
}
static int64_t floorDiv(int64_t a, int64_t b){ return a / b - (a % b < 0); }
static int64_t wallMs(void){ return (int64_t)nowMs + wallOff; }
static void clockLog(const char *what){
	simLog("%s mono %lld wall %lld", what, (long long)nowMs, (long long)wallMs());
}
int __wrap_clock_gettime(clockid_t id, struct timespec *ts){
	clockTick();
	int64_t ms = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wallMs() : (int64_t)nowMs;
	ts->tv_sec = floorDiv(ms, 1000);
	ts->tv_nsec = (ms - ts->tv_sec * 1000) * 1000000 + nsOff;
	clockLog("clock");
	return 0;
}
time_t __wrap_time(time_t *t){
	clockTick();
	time_t r = floorDiv(wallMs(), 1000);
	if(t){*t = r;}
	clockLog("time");
	return r;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz){
	(void)tz;
	clockTick();
	tv->tv_sec = floorDiv(wallMs(), 1000);
	tv->tv_usec = (wallMs() - tv->tv_sec * 1000) * 1000 + nsOff / 1000;
	clockLog("gettimeofday");
	return 0;
}
clock_t __wrap_clock(void){
	clockTick();
	clockLog("cpuclock");
	return (clock_t)nowMs * (CLOCKS_PER_SEC/1000);
}

/* -------------------------------------------------------------- allocation */
typedef struct { void *p; size_t n; bool base; } Alloc;
static Alloc *allocTab; static size_t allocCap, allocLive;
extern void *__real_malloc(size_t), *__real_calloc(size_t,size_t), *__real_realloc(void*,size_t);
extern void  __real_free(void*);

static size_t aSlot(const void *p){ return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) & (allocCap-1); }
static void aGrow(void){
	size_t oc = allocCap; Alloc *ot = allocTab;
	allocCap = oc ? oc*2 : 1u<<16;
	allocTab = __real_calloc(allocCap, sizeof(Alloc));
	for(size_t i=0;i<oc;i++){
		if(!ot[i].p){continue;}
		size_t s = aSlot(ot[i].p);
		while(allocTab[s].p){ s = (s+1)&(allocCap-1); }
		allocTab[s] = ot[i];
	}
	__real_free(ot);
}
static void aAddAs(void *p, size_t n, bool base){
	if(!p){return;}
	if((allocLive+1)*2 > allocCap){ aGrow(); }
	size_t s = aSlot(p);
	while(allocTab[s].p){ s = (s+1)&(allocCap-1); }
	allocTab[s] = (Alloc){p, n, base};
	allocLive++;
}
static void aAdd(void *p, size_t n){ aAddAs(p, n, quiet); }
static bool aIsBase(const void *p){
	if(!p || !allocCap){return false;}
	size_t s = aSlot(p);
	while(allocTab[s].p && allocTab[s].p != p){ s = (s+1)&(allocCap-1); }
	return allocTab[s].p && allocTab[s].base;
}
static void aDel(void *p){
	if(!p || !allocCap){return;}
	size_t s = aSlot(p);
	while(allocTab[s].p && allocTab[s].p != p){ s = (s+1)&(allocCap-1); }
	if(!allocTab[s].p){return;}
	allocTab[s].p = NULL; allocLive--;
	for(size_t i = (s+1)&(allocCap-1); allocTab[i].p; i = (i+1)&(allocCap-1)){
		Alloc m = allocTab[i];
		allocTab[i].p = NULL;
		size_t j = aSlot(m.p);
		while(allocTab[j].p){ j = (j+1)&(allocCap-1); }
		allocTab[j] = m;
	}
}
size_t simAllocCount(void){ return allocCap; }
void *simAllocAt(size_t i, size_t *size, bool *baseline){
	*size = allocTab[i].n; *baseline = allocTab[i].base;
	return allocTab[i].p;
}
bool simAllocFind(const void *p, size_t *size){
	if(!p || !allocCap){return false;}
	size_t s = aSlot(p);
	while(allocTab[s].p && allocTab[s].p != p){ s = (s+1)&(allocCap-1); }
	if(!allocTab[s].p){return false;}
	if(size){ *size = allocTab[s].n; }
	return true;
}

static int fillByte = 0xCB;
/* Which calls, by the innermost callers, allocated when: up to SITE_TIMES times of each */
#define SITES 2048
#define SITE_TIMES 24
static bool mallocSites = false;
static struct { uintptr_t key[3]; uint64_t n, at[SITE_TIMES]; } site[SITES];
static int siteIdx[SITES*2], siteLen;
static void siteAdd(uintptr_t a, uintptr_t b, uintptr_t c, uint64_t now){
	unsigned h = (unsigned)((a*31 + b)*31 + c) * 2654435761u % (SITES*2);
	for(int i;(i = siteIdx[h]);h = (h+1) % (SITES*2)){
		if(site[i-1].key[0] == a && site[i-1].key[1] == b && site[i-1].key[2] == c){
			/* the first ones, then ever sparser */
			const uint64_t n = site[i-1].n++;
			if(n < SITE_TIMES){ site[i-1].at[n] = now; }
			else if((n & (n-1)) == 0 || n % 97 == 0){ site[i-1].at[n * 7 % SITE_TIMES] = now; }
			return;
		}
	}
	if(siteLen >= SITES-1){return;}
	siteIdx[h] = siteLen+1;
	site[siteLen].key[0] = a; site[siteLen].key[1] = b; site[siteLen].key[2] = c;
	site[siteLen].n = 1; site[siteLen].at[0] = now;
	siteLen++;
}
static void siteLog(void){
	if(!mallocSites){return;}
	for(int i=0;i<siteLen;i++){
		char b[SITE_TIMES*12+16]; int l = 0;
		for(uint64_t j=0;j<site[i].n && j < SITE_TIMES;j++){ l += snprintf(b+l, sizeof(b)-l, " %llu", (unsigned long long)site[i].at[j]); }
		simLog("site%s", b);
	}
}
#define mallocFail(n) (mallocFail_(n, (uintptr_t)__builtin_return_address(0), (uintptr_t)__builtin_return_address(1), (uintptr_t)__builtin_return_address(2)))
static bool mallocFail_(size_t n, uintptr_t a, uintptr_t b, uintptr_t c){
	if(quiet){return false;}
	if(mallocSites){ siteAdd(a, b, c, simRes->mallocs); }
	simRes->mallocs++;
	if((simRes->mallocs & 255) == 0){ simStep(); }
	Fault *f = fault(F_MALLOC);
	(void)n;
	if(f){ errno = ENOMEM; return true; }
	return false;
}
void *__wrap_malloc(size_t n){
	if(mallocFail(n)){return NULL;}
	void *p = __real_malloc(n);
	if(p && n){ memset(p, fillByte, n); }     /* uninitialised memory is never accidentally zero */
	aAdd(p, n);
	return p;
}
void *__wrap_calloc(size_t a, size_t b){
	if(mallocFail(a*b)){return NULL;}
	void *p = __real_calloc(a, b);
	aAdd(p, a*b);
	return p;
}
void *__wrap_realloc(void *o, size_t n){
	if(mallocFail(n)){return NULL;}
	if(o && allocTracking && !quiet && !simAllocFind(o, NULL)){ simOracle("realloc of a pointer that is not a live allocation"); }
	/* memory that was there before the run started stays accounted to it */
	const bool base = quiet || aIsBase(o);
	size_t old = 0;
	const bool known = o == NULL || simAllocFind(o, &old);
	aDel(o);
	void *p = __real_realloc(o, n);
	if(p && known && n > old){ memset((char *)p + old, fillByte, n - old); }
	aAddAs(p, n, base);
	return p;
}
void __wrap_free(void *p){
	if(p && allocTracking && !quiet){
		if(!simAllocFind(p, NULL)){ simOracle("free of a pointer that is not a live allocation (double free?)"); }
	}
#if !SIM_ASAN
	size_t n;
	if(p && simAllocFind(p, &n)){ memset(p, 0xDD, n); }
#endif
	aDel(p);
	__real_free(p);
}

char *__wrap_strndup(const char *s, size_t max){
	size_t n = strnlen(s, max);
	char *r = __wrap_malloc(n+1);
	if(r){ memcpy(r, s, n); r[n] = 0; }
	return r;
}
char *__wrap_strdup(const char *s){ return __wrap_strndup(s, (size_t)-1 >> 1); }

/* --------------------------------------------------------------------- VFS */
typedef struct Node {
	char *path; bool dir; char *data; size_t len, cap; int refs; bool linked; time_t mtime; int noaccess; mode_t kind; long long shown; char *link; int deny; unsigned uid, gid;
} Node;
enum { D_READ = 1, D_WRITE = 2, D_SEARCH = 4 };   /* what is not permitted */
static Node **nodes; static int nodeN, nodeCap;
static char cwd[2048] = "/sim";
#define FILE_MAX_SIZE ((off_t)64 << 20)
static size_t diskCap = (size_t)-1;

static void *xmal(size_t n){ void *p = __real_malloc(n ? n : 1); if(!p){abort();} return p; }
static void *xre(void *o, size_t n){ void *p = __real_realloc(o, n ? n : 1); if(!p){abort();} return p; }
static char *xdup(const char *s){ size_t n = strlen(s)+1; char *r = xmal(n); memcpy(r,s,n); return r; }

static bool normPath(const char *in, char *out, size_t max){
	char tmp[4096];
	if(in[0] == '/'){ snprintf(tmp, sizeof(tmp), "%s", in); }
	else{ snprintf(tmp, sizeof(tmp), "%s/%s", cwd, in); }
	size_t o = 0; out[0] = 0;
	char *save = NULL;
	for(char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)){
		if(!strcmp(t, ".")){continue;}
		if(!strcmp(t, "..")){
			while(o > 0 && out[o-1] != '/'){o--;}
			if(o > 0){o--;}
			out[o] = 0;
			continue;
		}
		if(o + strlen(t) + 2 > max){return false;}
		out[o++] = '/';
		strcpy(&out[o], t);
		o += strlen(t);
	}
	if(o == 0){ strcpy(out, "/"); }
	return true;
}
static Node *findNode(const char *norm){
	for(int i=0;i<nodeN;i++){ if(nodes[i]->linked && !strcmp(nodes[i]->path, norm)){return nodes[i];} }
	return NULL;
}
static Node *addNode(const char *norm, bool dir){
	if(nodeN == nodeCap){ nodeCap = nodeCap ? nodeCap*2 : 64; nodes = xre(nodes, nodeCap*sizeof(Node*)); }
	Node *n = xmal(sizeof(Node));
	memset(n, 0, sizeof(*n));
	n->path = xdup(norm); n->dir = dir; n->linked = true; n->mtime = 1600000000; n->uid = 1000; n->gid = 2000;
	nodes[nodeN++] = n;
	return n;
}
/* Resolve a path name by name, the way the kernel does: 0, or the error. The
 * last name need not exist; whether the link it may be is followed is a choice. */
static int resolveAt(const char *base, const char *in, char *out, size_t max, bool follow, int depth){
	char cur[2048], next[2048+300];
	if(!in[0]){return ENOENT;}
	if(strlen(in) >= 4096){return ENAMETOOLONG;}
	if(depth > 40){return ELOOP;}
	snprintf(cur, sizeof(cur), "%s", in[0] == '/' || !strcmp(base, "/") ? "" : base);
	const char *s = in;
	while(1){
		while(*s == '/'){s++;}
		if(cur[0] || *s){
			Node *d = cur[0] ? findNode(cur) : NULL;
			if(cur[0] && !d){return ENOENT;}
			if(d && !d->dir){return ENOTDIR;}
			if(d && *s && (d->deny & D_SEARCH)){return EACCES;}
		}
		if(!*s){break;}
		size_t l = strcspn(s, "/");
		if(l > 255){return ENAMETOOLONG;}
		const char *t = s;
		s += l;
		const bool slash = *s == '/', last = !s[strspn(s, "/")];
		if(l == 1 && t[0] == '.'){continue;}
		if(l == 2 && t[0] == '.' && t[1] == '.'){ char *sl = strrchr(cur, '/'); if(sl){*sl = 0;} continue; }
		snprintf(next, sizeof(next), "%s/%.*s", cur, (int)l, t);
		if(strlen(next) + 1 > max || strlen(next) >= sizeof(cur)){return ENAMETOOLONG;}
		Node *n = findNode(next);
		if(!n){
			if(!last){return ENOENT;}
			strcpy(out, next);
			return 0;
		}
		if(n->link && (!last || follow || slash)){
			char *full = xmal(strlen(n->link) + strlen(s) + 1);
			strcpy(full, n->link); strcat(full, s);
			int e = resolveAt(cur[0] ? cur : "/", full, out, max, follow, depth+1);
			__real_free(full);
			return e;
		}
		if(last && !slash){ strcpy(out, next); return 0; }
		strcpy(cur, next);
	}
	if(strlen(cur) + 2 > max){return ENAMETOOLONG;}
	strcpy(out, cur[0] ? cur : "/");
	return 0;
}
static int resolve(const char *in, char *out, size_t max, bool follow){ return resolveAt(cwd, in, out, max, follow, 0); }
/* May the directory the resolved path is in be changed: 0, or the error */
static int parentDeny(const char *norm){
	char par[2048];
	snprintf(par, sizeof(par), "%s", norm);
	char *sl = strrchr(par, '/');
	if(sl == par){return 0;}
	*sl = 0;
	Node *p = findNode(par);
	return p && (p->deny & D_WRITE) ? EACCES : 0;
}
static size_t diskUsed(void){
	size_t s = 0;
	for(int i=0;i<nodeN;i++){ if((nodes[i]->linked || nodes[i]->refs) && !nodes[i]->dir){ s += nodes[i]->len; } }
	return s;
}
static void dumpVfs(void){
	static const char hx[] = "0123456789abcdef";
	for(int i=0;i<nodeN;i++){
		Node *n = nodes[i];
		if(!n->linked){continue;}
		char head[2200];
		int k = snprintf(head, sizeof(head), "%c %s ", n->dir ? 'd' : n->link ? 'l' : 'f', n->path);
		if(n->link){ n->data = n->link; n->len = strlen(n->link); }
		putArena(aVfs, &simRes->vfsLen, VFS_MAX, head, k);
		for(size_t j=0;j<n->len;j++){
			char b[2] = {hx[((unsigned char)n->data[j])>>4], hx[n->data[j]&15]};
			putArena(aVfs, &simRes->vfsLen, VFS_MAX, b, 2);
		}
		putArena(aVfs, &simRes->vfsLen, VFS_MAX, "\n", 1);
	}
}

/* ----------------------------------------------------------------- streams */
enum { S_FILE, S_STDIN, S_STDOUT, S_STDERR, S_PIPE, S_SOCK };
typedef struct { long *v; int n; int at; } Sizes;
static Sizes chunkFile, chunkIn, chunkPipe;
static size_t nextChunk(Sizes *s, size_t want){
	if(!s->n){return want;}
	long v = s->v[s->at % s->n]; s->at++;
	if(v <= 0){return want;}
	return (size_t)v < want ? (size_t)v : want;
}
typedef struct Srv Srv;
typedef struct Stream {
	int kind, id, fd;
	FILE *fh;
	Node *node; off_t pos; bool rd, wr, app;
	/* pipe */
	const char *buf; size_t len, off; int status;
	/* sock */
	Srv *srv; char *req; size_t reqLen; bool reqDone, dead;
	bool closed;
} Stream;
static Stream *streams[4096]; static int streamN;
static int openMax = 4096;

static Stream *newStream(int kind){
	Stream *s = xmal(sizeof(Stream));
	memset(s, 0, sizeof(*s));
	s->kind = kind; s->id = streamN; s->fd = -1;
	if(streamN >= 4096){ simLog("too many streams"); simEnd("hang", 0); }
	streams[streamN++] = s;
	return s;
}
static size_t openCount(void){
	size_t n = 0;
	for(int i=0;i<streamN;i++){ if(!streams[i]->closed && streams[i]->kind != S_STDIN && streams[i]->kind != S_STDOUT && streams[i]->kind != S_STDERR){n++;} }
	return n;
}

/* stdin: bytes arrive at points in simulated time */
typedef struct { uint64_t t; char *d; size_t n; } Arr;
static Arr *arr; static int arrN, arrCur; static size_t arrOff; static bool inHang, inRelative;
static uint64_t inBase;
static void inFixTimes(void){ inBase = nowMs; }
static size_t inAvailable(void){
	size_t s = 0;
	for(int i=arrCur;i<arrN;i++){
		if(arr[i].t + inBase > nowMs){break;}
		s += arr[i].n - (i == arrCur ? arrOff : 0);
	}
	return s;
}
static ssize_t inRead(char *buf, size_t n){
	Fault *f = fault(F_INREAD);
	if(f){ errno = f->err; return -1; }
	while(arrCur < arrN && arrOff >= arr[arrCur].n){ arrCur++; arrOff = 0; }
	if(arrCur >= arrN){
		if(inHang){ simLog("blocked on stdin"); simEnd("blocked", 0); }
		simLog("stdin eof");
		return 0;
	}
	if(arr[arrCur].t + inBase > nowMs){ nowMs = arr[arrCur].t + inBase; simLog("wait until %llu", (unsigned long long)(nowMs)); }
	size_t av = inAvailable();
	size_t want = nextChunk(&chunkIn, n < av ? n : av);
	size_t got = 0;
	while(got < want){
		size_t k = arr[arrCur].n - arrOff;
		if(k > want - got){ k = want - got; }
		memcpy(buf+got, arr[arrCur].d + arrOff, k);
		got += k; arrOff += k;
		if(arrOff >= arr[arrCur].n){ arrCur++; arrOff = 0; }
	}
	simLog("stdin %zu/%zu", got, n);
	return got;
}

/* network */
static bool srvAgain; /* servers take any number of connections */
struct Srv { char addr[64]; int port; bool refuse; int err; bool used; char *term; size_t termLen; int endKind; char *resp; size_t respLen, off; Sizes seg; uint64_t delay; };
static Srv *srvs; static int srvN;
/* What a server has for a request, and how the connection ends */
typedef struct { char addr[64]; int port; char *req; size_t reqLen; char *resp; size_t respLen; int endKind; uint64_t delay; } SrvPage;
static SrvPage *srvPages; static int srvPageN;
typedef struct { char *name; char fam[16]; char addr[16][64]; int n; } Host;
static Host *hosts; static int hostN;
typedef struct { bool used; int fam; Srv *srv; bool connected, closed, dgram; Stream *st; } Sock;
static Sock socks[4096]; static int sockN;
#define SOCK_FD 10000
static struct addrinfo *gaiLive[1024]; static int gaiN, gaiFreed;

static ssize_t sockRead(Stream *s, char *buf, size_t n){
	Fault *f = fault(F_SREAD);
	/* the error of a connection is reported once, afterwards there is nothing more to read */
	if(f){
		if(f->err == ECONNRESET || f->err == ETIMEDOUT || f->err == EHOSTUNREACH || f->err == ENETUNREACH || f->err == ENETRESET){ s->dead = true; }
		errno = f->err; simLog("sread %d err %d", s->id, f->err); return -1;
	}
	if(s->dead){ simLog("sread %d dead", s->id); return 0; }
	Srv *v = s->srv;
	if(v->termLen && !s->reqDone){
		simLog("blocked: client reads before it sent a complete request");
		simEnd("blocked", 0);
	}
	if(v->off >= v->respLen){
		if(v->endKind == 0){ simLog("sread %d eof", s->id); return 0; }
		if(v->endKind == 1){ simLog("sread %d reset", s->id); s->dead = true; errno = ECONNRESET; return -1; }
		simLog("blocked: peer stalls"); simEnd("blocked", 0);
	}
	nowMs += v->delay;
	size_t k = v->respLen - v->off;
	if(k > n){k = n;}
	k = nextChunk(&v->seg, k);
	memcpy(buf, v->resp + v->off, k);
	v->off += k;
	simLog("sread %d %zu", s->id, k);
	return k;
}
static ssize_t sockWrite(Stream *s, const char *buf, size_t n){
	Fault *f = fault(F_SWRITE);
	size_t k = n; int err = 0;
	if(f){ err = f->err; k = f->arg > 0 ? ((size_t)f->arg < n ? (size_t)f->arg : n) : 0; }
	s->req = xre(s->req, s->reqLen + k + 1);
	memcpy(s->req + s->reqLen, buf, k);
	s->reqLen += k;
	char pre[64];
	snprintf(pre, sizeof(pre), "swrite %d", s->id);
	logHex(pre, buf, k);
	if(s->srv->termLen && s->reqLen >= s->srv->termLen &&
	   memmem(s->req, s->reqLen, s->srv->term, s->srv->termLen)){
		for(int i=0;i<srvPageN && !s->reqDone;i++){
			SrvPage *g = &srvPages[i]; Srv *v = s->srv;
			if(!srvAgain || strcmp(g->addr, v->addr) || g->port != v->port || g->reqLen != s->reqLen || memcmp(g->req, s->req, g->reqLen)){continue;}
			v->resp = g->resp; v->respLen = g->respLen; v->endKind = g->endKind; v->delay = g->delay;
		}
		s->reqDone = true;
	}
	if(err && k < n){ errno = err; }
	return k;
}

static bool epipe, gcOut, gcAsked;
static ssize_t ckRead(void *ck, char *buf, size_t n){
	Stream *s = ck;
	if(s->kind == S_STDIN){return inRead(buf, n);}
	if(s->kind == S_SOCK){return sockRead(s, buf, n);}
	if(s->kind == S_PIPE){
		Fault *f = fault(F_PREAD);
		if(f){ errno = f->err; return -1; }
		size_t k = s->len - s->off;
		if(k > n){k = n;}
		k = nextChunk(&chunkPipe, k);
		memcpy(buf, s->buf + s->off, k);
		s->off += k;
		simLog("pread %zu", k);
		return k;
	}
	if(s->kind != S_FILE || !s->rd){ errno = EBADF; return -1; }
	Fault *f = fault(F_READ);
	if(f){
		if(f->err == 0){ /* the file shrinks under the reader */
			if((size_t)f->arg < s->node->len){ s->node->len = f->arg; }
		}else{ errno = f->err; simLog("read %d err %d", s->id, f->err); return -1; }
	}
	if(s->node->dir){ errno = EISDIR; return -1; }
	size_t k = (size_t)s->pos < s->node->len ? s->node->len - s->pos : 0;
	if(k > n){k = n;}
	k = nextChunk(&chunkFile, k);
	memcpy(buf, s->node->data + s->pos, k);
	s->pos += k;
	simLog("read %d %zu/%zu", s->id, k, n);
	return k;
}
/* As the C library does for a file: keep calling write(2) until everything is
 * written or it fails. */
static ssize_t ckWrite(void *ck, const char *buf, size_t n){
	Stream *s = ck;
	size_t done = 0;
	if(s->kind == S_STDERR){
		simStep();
		putArena(aErr, &simRes->errLen, ERR_MAX, buf, n);
		return n;
	}
	if(s->kind == S_SOCK){
		while(done < n){
			ssize_t k = sockWrite(s, buf+done, n-done);
			if(k <= 0){break;}
			done += k;
		}
		return done;
	}
	if(s->kind == S_STDOUT){
		Fault *f = fault(F_OUTWRITE);
		if(f || epipe){
			if(f && f->err == EPIPE){epipe = true;}
			errno = f ? f->err : EPIPE;
			return 0;
		}
		putArena(aOut, &simRes->outLen, OUT_MAX, buf, n);
		gcAsked = gcOut;
		if(logLevel > 2){ clockLog("at"); }
		if(logLevel > 1){ simLog("out %zu %llu %llu", n, (unsigned long long)simRes->safepoints, (unsigned long long)simRes->mallocs); }
		return n;
	}
	if(s->kind != S_FILE || !s->wr){ errno = EBADF; return 0; }
	while(done < n){
		size_t k = nextChunk(&chunkFile, n - done);
		Fault *f = fault(F_WRITE);
		int err = 0;
		if(f){
			err = f->err;
			k = f->arg > 0 ? ((size_t)f->arg < (n-done) ? (size_t)f->arg : (n-done)) : 0;
			if(err == ERR_CRASH){ /* torn write, then death */ }
		}
		off_t at = s->app ? (off_t)s->node->len : s->pos;
		size_t grow = at + k > s->node->len ? at + k - s->node->len : 0;
		if(diskCap != (size_t)-1 && grow){
			size_t used = diskUsed();
			size_t room = used < diskCap ? diskCap - used : 0;
			if(grow > room){
				k = grow - room < k ? k - (grow - room) : 0;
				simRes->faultsFired++;
				simLog("FAULT disk-full");
				if(!err){ err = k ? 0 : ENOSPC; }
			}
		}
		if(at + k > FILE_MAX_SIZE && k){ /* the largest file this file system can hold */
			k = 0;
			simRes->faultsFired++;
			simLog("FAULT file-too-big");
			if(!err){ err = EFBIG; }
		}
		if(k && at + k > s->node->cap){
			s->node->cap = (at + k)*2 + 64;
			s->node->data = xre(s->node->data, s->node->cap);
		}
		if(k && (size_t)at > s->node->len){ memset(s->node->data + s->node->len, 0, at - s->node->len); }
		memcpy(s->node->data + at, buf + done, k);
		if(k && at + k > s->node->len){ s->node->len = at + k; }
		s->pos = at + k;
		done += k;
		simLog("write %d %zu/%zu", s->id, k, n);
		if(err == ERR_CRASH){ simCrash(); }
		if(err){ errno = err; break; }
	}
	return done;
}
static int ckSeek(void *ck, off64_t *off, int whence){
	Stream *s = ck;
	Fault *f = fault(F_SEEK);
	if(f){ errno = f->err; return -1; }
	if(s->kind != S_FILE){ errno = ESPIPE; return -1; }
	off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? s->pos : (off64_t)s->node->len;
	if(base + *off < 0){ errno = EINVAL; return -1; }
	if(s->node->dir && whence == SEEK_END){ base = 0x7fffffffffffffffLL; } /* as ext4 has it */
	s->pos = base + *off;
	*off = s->pos;
	return 0;
}
static int ckClose(void *ck){
	Stream *s = ck;
	int op = s->kind == S_SOCK ? F_SCLOSE : F_CLOSE;
	s->closed = true;
	if(s->kind == S_FILE){ s->node->refs--; }
	if(s->kind == S_SOCK){ socks[s->fd - SOCK_FD].closed = true; }
	simLog("close %d", s->id);
	if(s->kind == S_PIPE){return 0;}
	Fault *f = fault(op);
	if(f){ errno = f->err; return EOF; }
	return 0;
}
static int bufMode = -1, outBuf = 0;
static FILE *cookie(Stream *s, const char *mode){
	cookie_io_functions_t io = {ckRead, ckWrite, s->kind == S_FILE ? ckSeek : NULL, ckClose};
	FILE *fh = fopencookie(s, mode, io);
	s->fh = fh;
	if(fh && bufMode >= 0 && s->kind != S_STDOUT && s->kind != S_STDERR){
		if(bufMode == 0){ setvbuf(fh, NULL, _IONBF, 0); }
		else { setvbuf(fh, NULL, _IOFBF, bufMode); }
	}
	return fh;
}
static Stream *streamOf(FILE *fh){
	for(int i=0;i<streamN;i++){ if(!streams[i]->closed && streams[i]->fh == fh){return streams[i];} }
	return NULL;
}

FILE *__wrap_fopen(const char *path, const char *mode){
	char p[2048];
	Fault *f = fault(F_OPEN);
	int e = 0;
	Node *n = NULL;
	bool w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+') != NULL;
	if(f){ e = f->err; goto out; }
	if(openCount() + 3 >= (size_t)openMax){ simRes->faultsFired++; e = EMFILE; goto out; }
	e = resolve(path, p, sizeof(p), true);
	if(e){goto out;}
	n = findNode(p);
	if(!n){
		if(!strcmp(p, "/")){ e = EISDIR; goto out; }
		e = !w && !a ? ENOENT : path[strlen(path)-1] == '/' ? EISDIR : parentDeny(p);
		if(e){goto out;}
		n = addNode(p, false);
	}else if(n->dir && (w || a || plus)){ e = EISDIR; goto out; }
	else if(n->noaccess || ((n->deny & D_READ) && (mode[0] == 'r' || plus)) || ((n->deny & D_WRITE) && (w || a || plus))){ e = EACCES; goto out; }
	else if(w){ n->len = 0; }
out:
	simLog("open %s %s -> %d", path, mode, e);
	if(e){ errno = e; return NULL; }
	Stream *s = newStream(S_FILE);
	s->node = n; n->refs++;
	s->rd = mode[0] == 'r' || plus;
	s->wr = w || a || plus;
	s->app = a;
	return cookie(s, mode);
}
int __wrap_fileno(FILE *fh){
	if(fh == stdin){return 0;}
	if(fh == stdout){return 1;}
	if(fh == stderr){return 2;}
	Stream *s = streamOf(fh);
	if(!s){ errno = EBADF; return -1; }
	return 100 + s->id;
}
int __wrap_ioctl(int fd, unsigned long req, ...){
	va_list ap; va_start(ap, req);
	void *p = va_arg(ap, void*);
	va_end(ap);
	Fault *f = fault(F_IOCTL);
	if(f){ errno = f->err; return -1; }
	if(req != FIONREAD){ errno = EINVAL; return -1; }
	nowMs += tickMs;
	if(fd == 0){ *(int*)p = (int)inAvailable(); simLog("fionread %d", *(int*)p); return 0; }
	if(fd >= 100 && fd < 100+streamN && !streams[fd-100]->closed){
		Stream *s = streams[fd-100];
		if(s->kind == S_FILE){ *(int*)p = (size_t)s->pos < s->node->len ? (int)(s->node->len - s->pos) : 0; return 0; }
		if(s->kind == S_PIPE){ *(int*)p = (int)(s->len - s->off); return 0; }
		if(s->kind == S_SOCK){ *(int*)p = (int)(s->srv->respLen - s->srv->off); return 0; }
	}
	errno = ENOTTY;
	return -1;
}
static struct termios tty, ttyFirst; static bool ttyIs = true; static int ttySets;
/* control characters and speeds, which nobody changes */
static const char *ttyRest(void){
	return (memcmp(tty.c_cc, ttyFirst.c_cc, sizeof(tty.c_cc)) || tty.c_line != ttyFirst.c_line || tty.c_ispeed != ttyFirst.c_ispeed || tty.c_ospeed != ttyFirst.c_ospeed) ? " changed" : "";
}
int __wrap_tcgetattr(int fd, struct termios *t){
	Fault *f = fault(F_TCGET);
	if(f){ errno = f->err; return -1; }
	if(!ttyIs || fd < 0 || fd > 2){ errno = ENOTTY; return -1; }
	*t = tty;
	simLog("tcgetattr %d", fd);
	return 0;
}
int __wrap_tcsetattr(int fd, int act, const struct termios *t){
	Fault *f = fault(F_TCSET);
	if(f){ errno = f->err; return -1; }
	(void)act;
	if(!ttyIs || fd < 0 || fd > 2){ errno = ENOTTY; return -1; }
	tty = *t;
	ttySets++;
	simLog("tcsetattr %d i%x o%x c%x l%x%s", fd, t->c_iflag, t->c_oflag, t->c_cflag, t->c_lflag, ttyRest());
	return 0;
}
static int statPath(const char *path, struct stat *st, bool follow){
	char p[2048];
	Fault *f = fault(F_STAT);
	if(f){ errno = f->err; return -1; }
	int e = resolve(path, p, sizeof(p), follow);
	if(e){ errno = e; return -1; }
	Node *n = findNode(p);
	if(!n && !strcmp(p, "/")){ memset(st, 0, sizeof(*st)); st->st_mode = S_IFDIR|0755; return 0; }
	if(!n){ errno = ENOENT; return -1; }
	memset(st, 0, sizeof(*st));
	st->st_mode = n->link ? (S_IFLNK|0777) : n->dir ? (S_IFDIR|0755) : n->kind ? (n->kind|0644) : (S_IFREG|0644);
	st->st_size = n->link ? (off_t)strlen(n->link) : n->dir ? 4096 : n->shown ? n->shown : (off_t)n->len;
	st->st_uid = n->uid; st->st_gid = n->gid;
	st->st_mtime = n->mtime; st->st_atime = n->mtime + 7; st->st_ctime = n->mtime + 11;
	simLog("stat %s %zu", path, n->len);
	return 0;
}
int __wrap_stat(const char *path, struct stat *st){ return statPath(path, st, true); }
int __wrap_lstat(const char *path, struct stat *st){ return statPath(path, st, false); }
int __wrap_access(const char *path, int m){
	char p[2048];
	Fault *f = fault(F_ACCESS);
	if(f){ errno = f->err; return -1; }
	int e = resolve(path, p, sizeof(p), true);
	if(e){ errno = e; return -1; }
	Node *n = findNode(p);
	if(!n && strcmp(p, "/")){ errno = ENOENT; return -1; }
	if(n && (((m & R_OK) && (n->noaccess || (n->deny & D_READ))) || ((m & W_OK) && (n->noaccess || (n->deny & D_WRITE))) || ((m & X_OK) && (!n->dir || (n->deny & D_SEARCH))))){ errno = EACCES; return -1; }
	return 0;
}
int __wrap_unlink(const char *path){
	char p[2048];
	Fault *f = fault(F_UNLINK);
	if(f){ errno = f->err; simLog("unlink %s err %d", path, f->err); return -1; }
	int e = resolve(path, p, sizeof(p), false);
	if(e){ errno = e; return -1; }
	Node *n = findNode(p);
	simLog("unlink %s %d", path, n != NULL);
	if(!n){ errno = strcmp(p, "/") ? ENOENT : EISDIR; return -1; }
	if(n->dir){ errno = EISDIR; return -1; }
	if(path[strlen(path)-1] == '/'){ errno = ENOTDIR; return -1; }
	if((e = parentDeny(p))){ errno = e; return -1; }
	n->linked = false;
	return 0;
}
int __wrap_mkdir(const char *path, mode_t m){
	char p[2048]; (void)m;
	Fault *f = fault(F_MKDIR);
	if(f){ errno = f->err; return -1; }
	int e = resolve(path, p, sizeof(p), false);
	if(e){ errno = e; return -1; }
	if(findNode(p) || !strcmp(p, "/")){ errno = EEXIST; return -1; }
	e = parentDeny(p);
	if(e){ errno = e; return -1; }
	addNode(p, true);
	simLog("mkdir %s", path);
	return 0;
}
static bool dirEmpty(const char *p){
	size_t l = strlen(p);
	for(int i=0;i<nodeN;i++){
		if(nodes[i]->linked && !strncmp(nodes[i]->path, p, l) && nodes[i]->path[l] == '/'){return false;}
	}
	return true;
}
int __wrap_rmdir(const char *path){
	char p[2048];
	Fault *f = fault(F_RMDIR);
	if(f){ errno = f->err; return -1; }
	size_t pl = strlen(path);
	while(pl > 1 && path[pl-1] == '/'){pl--;}
	char *cut = xdup(path);
	cut[pl] = 0;    /* a link is not followed here, whatever comes after it */
	int e = resolve(cut, p, sizeof(p), false);
	__real_free(cut);
	if(e){ errno = e; return -1; }
	Node *n = findNode(p);
	if(!n){ errno = strcmp(p, "/") ? ENOENT : EBUSY; return -1; }
	if(!n->dir){ errno = ENOTDIR; return -1; }
	if(!strcmp(path, ".") || (pl > 1 && path[pl-1] == '.' && path[pl-2] == '/')){ errno = EINVAL; return -1; }
	if(!dirEmpty(p)){ errno = ENOTEMPTY; return -1; }
	if((e = parentDeny(p))){ errno = e; return -1; }
	n->linked = false;
	simLog("rmdir %s", path);
	return 0;
}
int __wrap_remove(const char *path){
	char p[2048];
	Node *n = !resolve(path, p, sizeof(p), false) ? findNode(p) : NULL;
	return n && n->dir ? __wrap_rmdir(path) : __wrap_unlink(path);
}
int __wrap_rename(const char *a, const char *b){
	char pa[2048], pb[2048];
	simStep();
	int e = resolve(a, pa, sizeof(pa), false);
	if(!e){ e = resolve(b, pb, sizeof(pb), false); }
	if(e){ errno = e; return -1; }
	Node *n = findNode(pa), *o = findNode(pb);
	if(!n){ errno = ENOENT; return -1; }
	e = parentDeny(pb);
	if(!e){ e = parentDeny(pa); }
	if(e){ errno = e; return -1; }
	if(o && o != n){ o->linked = false; }
	n->path = xdup(pb);
	simLog("rename %s %s", a, b);
	return 0;
}
int __wrap_chdir(const char *path){
	char p[2048];
	Fault *f = fault(F_CHDIR);
	if(f){ errno = f->err; return -1; }
	int e = resolve(path, p, sizeof(p), true);
	if(e){ errno = e; return -1; }
	Node *n = findNode(p);
	if(strcmp(p, "/") && !n){ errno = ENOENT; return -1; }
	if(n && !n->dir){ errno = ENOTDIR; return -1; }
	if(n && (n->deny & D_SEARCH)){ errno = EACCES; return -1; }
	snprintf(cwd, sizeof(cwd), "%s", p);
	simLog("chdir %s", p);
	return 0;
}
char *__wrap_getcwd(char *buf, size_t n){
	Fault *f = fault(F_GETCWD);
	if(f){ errno = f->err; return NULL; }
	if(strcmp(cwd, "/") && !findNode(cwd)){ errno = ENOENT; return NULL; }
	if(strlen(cwd)+1 > n){ errno = ERANGE; return NULL; }
	strcpy(buf, cwd);
	return buf;
}
typedef struct { char dir[2048]; int at; int phase; struct dirent de; bool open; unsigned perm; } SimDir;
static int dirsOpen;
static unsigned dirPerm;   /* readdir order: a permutation chosen by the scenario */
DIR *__wrap_opendir(const char *path){
	char p[2048];
	Fault *f = fault(F_OPENDIR);
	if(f){ errno = f->err; return NULL; }
	int e = resolve(path, p, sizeof(p), true);
	if(e){ errno = e; return NULL; }
	Node *n = findNode(p);
	if(!n && strcmp(p, "/")){ errno = ENOENT; return NULL; }
	if(n && !n->dir){ errno = ENOTDIR; return NULL; }
	if(n && (n->deny & D_READ)){ errno = EACCES; return NULL; }
	SimDir *d = xmal(sizeof(SimDir));
	memset(d, 0, sizeof(*d));
	snprintf(d->dir, sizeof(d->dir), "%s", p);
	d->open = true; d->perm = dirPerm;
	dirsOpen++;
	simLog("opendir %s", p);
	return (DIR*)d;
}
struct dirent *__wrap_readdir(DIR *dp){
	SimDir *d = (SimDir*)dp;
	Fault *f = fault(F_READDIR);
	if(f){ errno = f->err; return NULL; }
	memset(&d->de, 0, sizeof(d->de));
	const bool dotsLast = d->perm & 2;
	d->de.d_ino = 1 + d->at;
	d->de.d_type = d->perm & 4 ? DT_UNKNOWN : DT_DIR;       /* not every file system knows the types */
	if(!dotsLast && d->phase < 2){ strcpy(d->de.d_name, d->phase ? ".." : "."); d->phase++; return &d->de; }
	size_t l = strcmp(d->dir, "/") ? strlen(d->dir) : 0;
	while(d->at < nodeN){
		int i = d->at++;
		int j = d->perm ? (int)(((uint64_t)i * 2654435761u + d->perm) % (unsigned)nodeN) : i;
		if(d->perm){ /* walk in an order derived from perm, each index once */
			j = (i + (int)(d->perm % (unsigned)nodeN)) % nodeN;
			if(d->perm & 1){ j = nodeN - 1 - j; }
		}
		Node *n = nodes[j];
		if(!n->linked || strncmp(n->path, d->dir, l) || n->path[l] != '/' || strchr(n->path+l+1, '/')){continue;}
		snprintf(d->de.d_name, sizeof(d->de.d_name), "%s", n->path+l+1);
		d->de.d_ino = 3 + i;
		if(!(d->perm & 4)) d->de.d_type = n->dir ? DT_DIR : n->link ? DT_LNK : DT_REG;
		return &d->de;
	}
	if(dotsLast && d->phase < 2){ strcpy(d->de.d_name, d->phase ? ".." : "."); d->phase++; return &d->de; }
	return NULL;
}
int __wrap_closedir(DIR *dp){
	SimDir *d = (SimDir*)dp;
	if(!d->open){ simOracle("closedir on a directory that is not open"); }
	d->open = false;
	dirsOpen--;
	return 0;
}

/* ------------------------------------------------------------------ popen */
typedef struct { char *out; size_t len; int status; } Proc;
static Proc *procs; static int procN, procAt;
FILE *__wrap_popen(const char *cmd, const char *mode){
	Fault *f = fault(F_POPEN);
	logHex("popen", cmd, strlen(cmd));
	if(f){ errno = f->err; return NULL; }
	if(mode[0] != 'r' || procAt >= procN){ errno = ENOSYS; return NULL; }
	Stream *s = newStream(S_PIPE);
	s->buf = procs[procAt].out; s->len = procs[procAt].len; s->status = procs[procAt].status;
	procAt++;
	return cookie(s, "r");
}
int __wrap_pclose(FILE *fh){
	Stream *s = streamOf(fh);
	Fault *f = fault(F_PCLOSE);
	if(!s){ simOracle("pclose of a stream that is not open"); }
	int st = s->status;
	simLog("pclose %d", st);
	fclose(fh);
	if(f){ errno = f->err; return -1; }
	return st;
}

/* ---------------------------------------------------------------- network */
/* Appends the entries of one address: one for every kind of socket it can be used with */
static struct addrinfo **gaiAdd(struct addrinfo **tail, char fam, const char *addr, int port, int type, const char *canon){
	static const int types[3] = {SOCK_STREAM, SOCK_DGRAM, SOCK_RAW};
	for(int t=0;t<3;t++){
		if(type ? t > 0 : 0){break;}
		size_t cl = canon ? strlen(canon) + 1 : 0;
		struct addrinfo *a = xmal(sizeof(*a) + sizeof(struct sockaddr_in6) + cl);
		memset(a, 0, sizeof(*a) + sizeof(struct sockaddr_in6) + cl);
		a->ai_socktype = type ? type : types[t];
		a->ai_protocol = a->ai_socktype == SOCK_STREAM ? IPPROTO_TCP : a->ai_socktype == SOCK_DGRAM ? IPPROTO_UDP : 0;
		a->ai_addr = (struct sockaddr*)(a+1);
		if(canon){
			a->ai_canonname = (char*)(a+1) + sizeof(struct sockaddr_in6);
			memcpy(a->ai_canonname, canon, cl);
			canon = NULL;
		}
		if(fam == '4'){
			a->ai_family = AF_INET; a->ai_addrlen = sizeof(struct sockaddr_in);
			struct sockaddr_in *in = (void*)a->ai_addr;
			in->sin_family = AF_INET; in->sin_port = htons(port);
			inet_pton(AF_INET, addr, &in->sin_addr);
		}else if(fam == '6'){
			a->ai_family = AF_INET6; a->ai_addrlen = sizeof(struct sockaddr_in6);
			struct sockaddr_in6 *in = (void*)a->ai_addr;
			in->sin6_family = AF_INET6; in->sin6_port = htons(port);
			inet_pton(AF_INET6, addr, &in->sin6_addr);
		}else{
			a->ai_family = AF_UNIX; a->ai_addrlen = 16;
			a->ai_addr->sa_family = AF_UNIX;
		}
		*tail = a; tail = &a->ai_next;
	}
	return tail;
}
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res){
	Fault *f = fault(F_GAI);
	const int family = hints ? hints->ai_family : AF_UNSPEC, type = hints ? hints->ai_socktype : 0, flags = hints ? hints->ai_flags : 0;
	int port = 0;
	logHex("getaddrinfo", node, strlen(node));
	if(f){return f->err < 0 ? f->err : EAI_AGAIN;}
	if(family != AF_UNSPEC && family != AF_INET && family != AF_INET6){return EAI_FAMILY;}
	if(service){
		char *end; long v = strtol(service, &end, 10);
		if(*end || v < 0 || v > 65535 || !*service){return EAI_SERVICE;}
		port = v;
	}
	struct addrinfo *first = NULL, **tail = &first;
	const char *canon = flags & AI_CANONNAME ? node : NULL;
	char num[16]; bool known = false;
	for(int i=0;i<hostN;i++){
		if(strcmp(hosts[i].name, node)){continue;}
		known = true;
		if(flags & AI_NUMERICHOST){break;}
		for(int k=0;k<hosts[i].n;k++){
			char fam = hosts[i].fam[k];
			if(family != AF_UNSPEC && fam != (family == AF_INET ? '4' : '6')){continue;}
			tail = gaiAdd(tail, fam, hosts[i].addr[k], port, type, first ? NULL : canon);
		}
		break;
	}
	if(!known){
		int v4 = inet_pton(AF_INET, node, num) == 1, v6 = !v4 && inet_pton(AF_INET6, node, num) == 1;
		if((v4 && family != AF_INET6) || (v6 && family != AF_INET)){ tail = gaiAdd(tail, v4 ? '4' : '6', node, port, type, canon); }
	}
	if(!first){return EAI_NONAME;}
	gaiLive[gaiN++ & 1023] = first;
	*res = first;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a){
	simStep();
	for(int i=0;i<gaiN && i<1024;i++){ if(gaiLive[i] == a && a){ gaiLive[i] = NULL; gaiFreed++; return; } }
	simOracle("freeaddrinfo of a list that is not live");
}
int __wrap_socket(int fam, int type, int proto){
	(void)proto;
	Fault *f = fault(F_SOCKET);
	simLog("socket %d%s", fam, f ? " fails" : "");
	if(f){ errno = f->err; return -1; }
	if(sockN >= 4000){ errno = EMFILE; return -1; }
	if((type & 0xF) == SOCK_RAW){ errno = EPERM; return -1; }
	socks[sockN] = (Sock){.used = true, .fam = fam, .dgram = (type & 0xF) == SOCK_DGRAM};
	return SOCK_FD + sockN++;
}
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t l){
	char addr[64] = ""; int port = 0;
	Fault *f = fault(F_CONNECT);
	if(fd < SOCK_FD || fd >= SOCK_FD + sockN || socks[fd-SOCK_FD].closed){ errno = EBADF; return -1; }
	if(sa->sa_family == AF_INET){
		inet_ntop(AF_INET, &((struct sockaddr_in*)sa)->sin_addr, addr, sizeof(addr));
		port = ntohs(((struct sockaddr_in*)sa)->sin_port);
	}else if(sa->sa_family == AF_INET6){
		inet_ntop(AF_INET6, &((struct sockaddr_in6*)sa)->sin6_addr, addr, sizeof(addr));
		port = ntohs(((struct sockaddr_in6*)sa)->sin6_port);
	}
	simLog("connect %d %s %d%s", fd - SOCK_FD, addr, port, f ? " fails" : "");
	if(f){ errno = f->err; return -1; }
	if(socks[fd-SOCK_FD].connected){ errno = EISCONN; return -1; }
	if(l < (sa->sa_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in))){ errno = EINVAL; return -1; }
	if(sa->sa_family != socks[fd-SOCK_FD].fam){ errno = EAFNOSUPPORT; return -1; }
	if(socks[fd-SOCK_FD].dgram){
		/* Nobody is asked, and nobody answers */
		simLog("connected without a connection");
		socks[fd-SOCK_FD].srv = xre(NULL, sizeof(Srv)); memset(socks[fd-SOCK_FD].srv, 0, sizeof(Srv));
		socks[fd-SOCK_FD].srv->endKind = -1;
		socks[fd-SOCK_FD].connected = true;
		return 0;
	}
	for(int i=0;i<srvN;i++){
		if(srvs[i].used || strcmp(srvs[i].addr, addr) || srvs[i].port != port){continue;}
		Srv *srv = &srvs[i];
		if(srvAgain){ srv = xre(NULL, sizeof(Srv)); *srv = srvs[i]; }
		else{ srv->used = true; }
		if(srvs[i].refuse){ simRes->faultsFired++; simLog("refused"); errno = srvs[i].err; return -1; }
		socks[fd-SOCK_FD].srv = srv;
		socks[fd-SOCK_FD].connected = true;
		return 0;
	}
	simLog("nobody listens");
	errno = ECONNREFUSED;
	return -1;
}
extern int __real_close(int);
extern FILE *__real_fdopen(int, const char*);
FILE *__wrap_fdopen(int fd, const char *mode){
	if(fd < SOCK_FD){return __real_fdopen(fd, mode);}
	Fault *f = fault(F_FDOPEN);
	simLog("fdopen %d %s%s", fd - SOCK_FD, mode, f ? " fails" : "");
	if(f){ errno = f->err; return NULL; }
	Sock *k = &socks[fd-SOCK_FD];
	if(!k->connected || k->closed){ errno = EBADF; return NULL; }
	Stream *s = newStream(S_SOCK);
	s->srv = k->srv; s->fd = fd; k->st = s;
	return cookie(s, mode);
}
int __wrap_close(int fd){
	if(fd < SOCK_FD || fd >= SOCK_FD + sockN){return __real_close(fd);}
	Sock *k = &socks[fd-SOCK_FD];
	simStep();
	simLog("sockclose %d", fd - SOCK_FD);
	if(k->closed){ errno = EBADF; return -1; }
	k->closed = true;
	return 0;
}
ssize_t __wrap_sendto(void){ errno = ENOSYS; return -1; }

/* -------------------------------------------------------- exit and signals */
typedef void (*AtExit)(void);
static AtExit atExits[64]; static int atExitN;
int __wrap_atexit(AtExit f){
	if(atExitN < 64){ atExits[atExitN++] = f; }
	return 0;
}
static bool gcFinal, gcPoison, gcExact = false, gcNative = true, gcCheck = true, exiting;
static void finish(int code){
	if(exiting){ simEnd("exit", code & 255); }
	exiting = true;
	siteLog();
	simLog("exit %d open=%zu dirs=%d socks=%d gai=%d raw=%d", code & 255, openCount(), dirsOpen,
		({int n=0; for(int i=0;i<sockN;i++){ if(!socks[i].closed){n++;} } n;}), gaiN - gaiFreed, ttySets);
	while(atExitN > 0){ atExits[--atExitN](); }
	/* stdio flushes what is still buffered */
	for(int i=0;i<streamN;i++){ if(!streams[i]->closed && streams[i]->kind == S_FILE){ fflush(streams[i]->fh); } }
	fflush(stdout);
	if(ttyIs){ simLog("tty i%x o%x c%x l%x%s", tty.c_iflag, tty.c_oflag, tty.c_cflag, tty.c_lflag, ttyRest()); }
	simRes->now = nowMs;
	simEnd("exit", code & 255);
}
void __wrap_exit(int code){
	if(quiet){ fprintf(stderr, "exit(%d) while starting up\n", code); _exit(70); }
	finish(code);
	__builtin_unreachable();
}
void __wrap_abort(void){
	simLog("abort");
	simEnd("abort", 134);
}

/* ---------------------------------------------------------------- GC seam */
typedef struct { uint64_t from, to; } Range;
static Range *gcAt; static int gcAtN; static uint64_t gcEvery;
static uint64_t *gcList; static size_t gcListN, gcListAt;
static uint64_t gcBudget = (uint64_t)-1;
static bool gcNatural = true;

void nujelSimSafePoint(void){
	if(quiet){return;}
	uint64_t n = simRes->safepoints++;
	clockWork();
	if((n & 15) == 0){ simStep(); }
	Fault *f = fault(F_SAFEPOINT);
	(void)f;
	bool run = false;
	if(gcEvery && n % gcEvery == 0){ run = true; }
	while(gcListAt < gcListN && gcList[gcListAt] < n){ gcListAt++; }
	if(gcListAt < gcListN && gcList[gcListAt] == n){ run = true; gcListAt++; }
	for(int i=0;i<gcAtN;i++){ if(n >= gcAt[i].from && n < gcAt[i].to){ run = true; } }
	if(gcAsked){ gcAsked = false; run = true; }
	if(run && simRes->gcs < gcBudget){ lGCShouldRunSoon = true; }
}
extern void __real_lGarbageCollect(lThread *ctx);
void __wrap_lGarbageCollect(lThread *ctx){
	if(quiet){ __real_lGarbageCollect(ctx); return; }
	simRes->gcs++;
	simRes->shapes = (simRes->shapes ^ (uint64_t)(ctx->sp * 64 + ctx->csp)) * 1099511628211ULL;
	const uint64_t before = simRes->reached;
	if(gcCheck){ gcBefore(ctx); }
	__real_lGarbageCollect(ctx);
	if(gcCheck){ simRes->gcChecked++; gcAfter(ctx, gcPoison, gcExact, gcNative); if(logLevel > 1){ simLog("gc %llu %zu", (unsigned long long)(simRes->reached - before), gcNativeBytes); } }
}

/* --------------------------------------------------------------- scenario */
static char **argvS; static int argcS;
static char **envS; static int envN;
static int hexv(int c){ return c <= '9' ? c - '0' : (c|32) - 'a' + 10; }
static char *unhex(const char *h, size_t *len){
	if(!strcmp(h, "-")){h = "";}
	size_t n = strlen(h)/2;
	char *r = xmal(n+1);
	for(size_t i=0;i<n;i++){ r[i] = hexv(h[2*i])<<4 | hexv(h[2*i+1]); }
	r[n] = 0;
	if(len){*len = n;}
	return r;
}
static void addSize(Sizes *s, long v){ s->v = xre(s->v, (s->n+1)*sizeof(long)); s->v[s->n++] = v; }
static void mkParents(const char *norm){
	char p[2048];
	snprintf(p, sizeof(p), "%s", norm);
	for(char *c = p+1; *c; c++){
		if(*c != '/'){continue;}
		*c = 0;
		if(!findNode(p)){ addNode(p, true); }
		*c = '/';
	}
}
static int canonWhat;
static void scenarioLine(char *line){
	char *w[4096]; int n = 0;
	char *save = NULL;
	for(char *t = strtok_r(line, " ", &save); t && n < 4095; t = strtok_r(NULL, " ", &save)){ w[n++] = t; }
	w[n] = NULL;
	if(n == 0){return;}
	#define IS(s) (!strcmp(w[0], s))
	{ /* how many words each line has at least */
		static const struct { const char *k; int n; } min[] = {{"env",2},{"cwd",2},{"dir",2},{"file",2},{"cap",2},{"openmax",2},{"maxsteps",2},{"loglevel",2},
			{"chunk",3},{"bufsize",2},{"outbuf",2},{"stdin",2},{"dirperm",2},{"fault",4},{"proc",2},{"host",2},{"srv",5},{"srvpage",7},{"tick",2},{"clock",3},{"nsoff",2},{"canon",2},{"tty",5},{"work",2},{"tz",2},{"jump",4},
			{"gcevery",2},{"fill",2},{"gcbudget",2},{"gcrange",3},{"gccheck",2},{"gcpoison",2},{"gcexact",2},{"gcout",2},{"gcnative",2},{"sites",2},{"link",3},{"deny",3},{"meta",5}};
		for(size_t i=0;i<sizeof(min)/sizeof(min[0]);i++){
			if(IS(min[i].k) && n < min[i].n){ fprintf(stderr, "bad scenario line %s\n", w[0]); _exit(71); }
		}
	}
	char p[2048];
	if(IS("arg")){ argvS = xre(argvS, (argcS+2)*sizeof(char*)); argvS[argcS++] = unhex(n > 1 ? w[1] : "", NULL); argvS[argcS] = NULL; }
	else if(IS("env")){ envS = xre(envS, (envN+2)*sizeof(char*)); envS[envN++] = unhex(w[1], NULL); envS[envN] = NULL; }
	else if(IS("cwd")){ char *s = unhex(w[1], NULL); normPath(s, p, sizeof(p)); mkParents(p); if(!findNode(p) && strcmp(p,"/")){addNode(p, true);} snprintf(cwd, sizeof(cwd), "%s", p); }
	else if(IS("dir")){ char *s = unhex(w[1], NULL); normPath(s, p, sizeof(p)); mkParents(p); if(!findNode(p) && strcmp(p,"/")){addNode(p, true);} }
	else if(IS("file")){
		char *s = unhex(w[1], NULL); normPath(s, p, sizeof(p)); mkParents(p);
		Node *nd = findNode(p);
		if(!nd){ nd = addNode(p, false); }
		nd->data = unhex(n > 2 ? w[2] : "", &nd->len); nd->cap = nd->len;
		if(n > 3){ nd->noaccess = atoi(w[3]); }
	}
	else if(IS("meta")){ /* meta PATH MTIME SIZE KIND: what stat says about a file */
		char *z = unhex(w[1], NULL); normPath(z, p, sizeof(p));
		Node *nd = findNode(p);
		if(nd){
			nd->mtime = atoll(w[2]); nd->shown = atoll(w[3]);
			nd->kind = *w[4] == 'c' ? S_IFCHR : *w[4] == 'b' ? S_IFBLK : *w[4] == 'p' ? S_IFIFO : *w[4] == 's' ? S_IFSOCK : 0;
			if(n > 6){ nd->uid = strtoul(w[5], NULL, 10); nd->gid = strtoul(w[6], NULL, 10); }
		}
	}
	else if(IS("link")){ /* link PATH TARGET */
		char *z = unhex(w[1], NULL); normPath(z, p, sizeof(p)); mkParents(p);
		if(!findNode(p)){ addNode(p, false)->link = unhex(w[2], NULL); }
	}
	else if(IS("deny")){ /* deny PATH BITS: what is not permitted */
		char *z = unhex(w[1], NULL); normPath(z, p, sizeof(p));
		Node *nd = findNode(p);
		if(nd){ nd->deny = atoi(w[2]); }
	}
	else if(IS("cap")){ diskCap = strtoull(w[1], NULL, 10); }
	else if(IS("openmax")){ openMax = atoi(w[1]); }
	else if(IS("maxsteps")){ maxSteps = strtoull(w[1], NULL, 10); }
	else if(IS("loglevel")){ logLevel = atoi(w[1]); }
	else if(IS("chunk")){
		Sizes *s = !strcmp(w[1], "file") ? &chunkFile : !strcmp(w[1], "in") ? &chunkIn : &chunkPipe;
		for(int i=2;i<n;i++){ addSize(s, atol(w[i])); }
	}
	else if(IS("bufsize")){ bufMode = atoi(w[1]); }
	else if(IS("outbuf")){ outBuf = atoi(w[1]); }
	else if(IS("stdin")){ arr = xre(arr, (arrN+1)*sizeof(Arr)); arr[arrN].t = strtoull(w[1], NULL, 10); arr[arrN].d = unhex(n > 2 ? w[2] : "", &arr[arrN].n); arrN++; }
	else if(IS("stdinhang")){ inHang = true; }
	else if(IS("tty")){
		tty.c_iflag = strtoul(w[1], NULL, 16); tty.c_oflag = strtoul(w[2], NULL, 16); tty.c_cflag = strtoul(w[3], NULL, 16); tty.c_lflag = strtoul(w[4], NULL, 16);
		ttyFirst = tty;
	}
	else if(IS("notty")){ ttyIs = false; }
	else if(IS("dirperm")){ dirPerm = strtoul(w[1], NULL, 10); }
	else if(IS("fault")){
		int op = -1;
		for(int i=0;i<F_COUNT;i++){ if(!strcmp(w[1], fName[i])){op = i;} }
		if(op < 0){ fprintf(stderr, "bad fault op %s\n", w[1]); _exit(71); }
		faults = xre(faults, (faultN+1)*sizeof(Fault));
		faults[faultN++] = (Fault){op, atol(w[2]), atoi(w[3]), n > 4 ? atol(w[4]) : 0};
		fHas |= 1ull << op;
	}
	else if(IS("proc")){ procs = xre(procs, (procN+1)*sizeof(Proc)); procs[procN].status = atoi(w[1]); procs[procN].out = unhex(n > 2 ? w[2] : "", &procs[procN].len); procN++; }
	else if(IS("host")){
		hosts = xre(hosts, (hostN+1)*sizeof(Host));
		Host *h = &hosts[hostN++];
		memset(h, 0, sizeof(*h));
		h->name = unhex(w[1], NULL);
		for(int i=2;i<n && h->n < 16;i++){ h->fam[h->n] = w[i][0]; snprintf(h->addr[h->n], 64, "%s", w[i]+2); h->n++; }
	}
	else if(IS("srv")){ /* srv ADDR PORT refuse ERRNO | srv ADDR PORT accept TERM END DELAY RESP seg... */
		srvs = xre(srvs, (srvN+1)*sizeof(Srv));
		Srv *s = &srvs[srvN++];
		memset(s, 0, sizeof(*s));
		snprintf(s->addr, sizeof(s->addr), "%s", w[1]);
		s->port = atoi(w[2]);
		if(!strcmp(w[3], "refuse")){ s->refuse = true; s->err = atoi(w[4]); }
		else{
			if(n < 8){ fprintf(stderr, "bad scenario line srv\n"); _exit(71); }
			s->term = unhex(w[4], &s->termLen);
			s->endKind = atoi(w[5]);
			s->delay = atoi(w[6]);
			s->resp = unhex(w[7], &s->respLen);
			for(int i=8;i<n;i++){ addSize(&s->seg, atol(w[i])); }
		}
	}
	else if(IS("srvpage")){ /* srvpage ADDR PORT REQ END DELAY RESP */
		srvPages = xre(srvPages, (srvPageN+1)*sizeof(SrvPage));
		SrvPage *g = &srvPages[srvPageN++];
		memset(g, 0, sizeof(*g));
		snprintf(g->addr, sizeof(g->addr), "%s", w[1]);
		g->port = atoi(w[2]);
		g->req = unhex(w[3], &g->reqLen);
		g->endKind = atoi(w[4]);
		g->delay = strtoull(w[5], NULL, 10);
		g->resp = unhex(w[6], &g->respLen);
	}
	else if(IS("srvagain")){ srvAgain = true; }
	else if(IS("tick")){ tickMs = strtoull(w[1], NULL, 10); }
	else if(IS("tz")){ setenv("TZ", w[1], 1); tzset(); }
	else if(IS("canon")){ canonWhat = atoi(w[1]); }
	else if(IS("nsoff")){ nsOff = atoll(w[1]); }
	else if(IS("work")){ workEvery = atol(w[1]); }
	else if(IS("clock")){ nowMs = strtoull(w[1], NULL, 10); wallOff = strtoll(w[2], NULL, 10); }
	else if(IS("jump")){ jumps = xre(jumps, (jumpN+1)*sizeof(Jump)); jumps[jumpN++] = (Jump){atol(w[1]), atoll(w[2]), atoll(w[3])}; }
	else if(IS("gcevery")){ gcEvery = strtoull(w[1], NULL, 10); }
	else if(IS("fill")){ fillByte = atoi(w[1]); }
	else if(IS("gcbudget")){ gcBudget = strtoull(w[1], NULL, 10); }
	else if(IS("gcat")){ for(int i=1;i<n;i++){ gcList = xre(gcList, (gcListN+1)*sizeof(uint64_t)); gcList[gcListN++] = strtoull(w[i], NULL, 10); } }
	else if(IS("gcrange")){ gcAt = xre(gcAt, (gcAtN+1)*sizeof(Range)); gcAt[gcAtN++] = (Range){strtoull(w[1],NULL,10), strtoull(w[2],NULL,10)}; }
	else if(IS("gccheck")){ gcCheck = atoi(w[1]); }
	else if(IS("gcpoison")){ gcPoison = atoi(w[1]); }
	else if(IS("gcout")){ gcOut = atoi(w[1]); }
	else if(IS("gcexact")){ gcExact = atoi(w[1]); }
	else if(IS("sites")){ mallocSites = atoi(w[1]); }
	else if(IS("gcnative")){ gcNative = atoi(w[1]); }
	else{ fprintf(stderr, "bad scenario line %s\n", w[0]); _exit(71); }
}
static void loadScenario(char *text){
	char *save = NULL;
	for(char *l = strtok_r(text, "\n", &save); l; l = strtok_r(NULL, "\n", &save)){ scenarioLine(l); }
	if(!findNode(cwd) && strcmp(cwd, "/")){ mkParents(cwd); addNode(cwd, true); }
}
static void openStd(void){
	stdin  = cookie(newStream(S_STDIN), "r");
	stdout = cookie(newStream(S_STDOUT), "w");
	stderr = cookie(newStream(S_STDERR), "w");
	setvbuf(stdout, NULL, _IONBF, 0);
	setvbuf(stderr, NULL, _IONBF, 0);
	tty.c_iflag = BRKINT|ICRNL|IXON; tty.c_oflag = OPOST|ONLCR; tty.c_cflag = CS8|CREAD; tty.c_lflag = ECHO|ICANON|IEXTEN|ISIG;
	for(size_t i=0;i<sizeof(tty.c_cc);i++){ tty.c_cc[i] = i * 7 + 1; }
	tty.c_ispeed = B9600; tty.c_ospeed = B38400; tty.c_line = 3;
	ttyFirst = tty;
}

/* ------------------------------------------------------------ fork server */
extern int nujel_main(int argc, char **argv);
extern lVal __real_lApply(lVal fun, lVal args);
extern char **environ;
static bool serverMode, served;

static bool readAll(int fd, void *buf, size_t n){
	char *p = buf;
	while(n){ ssize_t k = read(fd, p, n); if(k <= 0){return false;} p += k; n -= k; }
	return true;
}
static void writeAll(int fd, const void *buf, size_t n){
	const char *p = buf;
	while(n){ ssize_t k = write(fd, p, n); if(k <= 0){_exit(72);} p += k; n -= k; }
}
static void startRun(void){
	if(bufMode >= 0){
		if(bufMode == 0){ setvbuf(stdin, NULL, _IONBF, 0); }
		else{ setvbuf(stdin, xmal(bufMode), _IOFBF, bufMode); }
	}
	if(outBuf > 0){ setvbuf(stdout, xmal(outBuf), _IOFBF, outBuf); }
	inFixTimes();
	memset(fCount, 0, sizeof(fCount));
	clockQueries = 0;
	allocTracking = true;
	quiet = false;
}
static void report(int st){
	char head[512];
	int n = snprintf(head, sizeof(head),
		"{\"wait\":%d,\"done\":%d,\"status\":%d,\"why\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"safepoints\":%llu,\"gcs\":%llu,\"gcChecked\":%llu,\"mallocs\":%llu,\"faults\":%llu,\"now\":%llu,\"reached\":%llu,\"freed\":%llu,\"shapes\":\"%016llx\",\"lens\":[%zu,%zu,%zu,%zu,%zu]}",
		st, simRes->done, simRes->status, simRes->why, (unsigned long long)simRes->logHash,
		(unsigned long long)simRes->steps, (unsigned long long)simRes->safepoints, (unsigned long long)simRes->gcs,
		(unsigned long long)simRes->gcChecked, (unsigned long long)simRes->mallocs, (unsigned long long)simRes->faultsFired,
		(unsigned long long)simRes->now, (unsigned long long)simRes->reached, (unsigned long long)simRes->freed,
		(unsigned long long)simRes->shapes,
		simRes->logLen, simRes->outLen, simRes->errLen, simRes->vfsLen, simRes->msgLen);
	uint32_t len = n;
	writeAll(1, &len, 4);
	writeAll(1, head, n);
	writeAll(1, aLog, simRes->logLen);
	writeAll(1, aOut, simRes->outLen);
	writeAll(1, aErr, simRes->errLen);
	writeAll(1, aVfs, simRes->vfsLen);
	writeAll(1, aMsg, simRes->msgLen);
}
static void resetRes(void){ memset(simRes, 0, sizeof(*simRes)); simRes->logHash = 1469598103934665603ULL; }

static lVal serverLoop(void){
	uint32_t len;
	while(readAll(0, &len, 4)){
		char *text = xmal(len+1);
		if(!readAll(0, text, len)){_exit(0);}
		text[len] = 0;
		resetRes();
		pid_t pid = fork();
		if(pid < 0){_exit(73);}
		if(pid == 0){
			struct rlimit rl = {25, 30};
			setrlimit(RLIMIT_CPU, &rl);
			loadScenario(text);
			startRun();
			lVal args = NIL;
			for(int i=argcS-1;i>=0;i--){ args = lCons(lValString(argvS[i]), args); }
			return args;
		}
		int st = 0;
		while(waitpid(pid, &st, 0) < 0){}
		__real_free(text);
		report(st);
	}
	_exit(0);
}
extern const char *canonOf(const void *value, size_t *len, unsigned *objects);
static void canonLog(const void *value){
	size_t len; unsigned objects;
	const char *t = canonOf(value, &len, &objects);
	uint64_t h = 1469598103934665603ULL;
	for(size_t i=0;i<len;i++){ h = (h ^ (unsigned char)t[i]) * 1099511628211ULL; }
	simLog("canon %016llx %zu %u", (unsigned long long)h, len, objects);
	if(canonWhat > 1){
		Node *nd = addNode("/canon", false);
		nd->data = xmal(len + 1); memcpy(nd->data, t, len); nd->len = nd->cap = len;
	}
}
lVal __wrap_lApply(lVal fun, lVal args){
	if(serverMode && !served){
		served = true;
		lRead("\"warm\"", 6); /* the reader keeps one buffer around forever */
		args = serverLoop();
	}
	if(canonWhat && !quiet){ canonLog(&fun); canonWhat = 0; }
	return __real_lApply(fun, args);
}

int main(int argc, char **argv){
	int pers = personality(0xffffffff);
	if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")){
		setenv("SIM_NOASLR_TRIED", "1", 1);
		if(personality(pers | ADDR_NO_RANDOMIZE) != -1){ execv("/proc/self/exe", argv); }
	}
	unsetenv("SIM_NOASLR_TRIED");
	size_t total = sizeof(SimResult) + LOG_MAX + OUT_MAX + ERR_MAX + VFS_MAX + MSG_MAX + 4096;
	char *m = mmap(NULL, total, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(m == MAP_FAILED){return 74;}
	simRes = (SimResult*)m; m += 4096;
	aLog = m; m += LOG_MAX; aOut = m; m += OUT_MAX; aErr = m; m += ERR_MAX; aVfs = m; m += VFS_MAX; aMsg = m;
	resetRes();
	static char *noEnv[] = {"PATH=/bin", "HOME=/sim", "LC_ALL=C", NULL};
	static char *defArgv[] = {"nujel", NULL};
	if(argc > 1 && !strcmp(argv[1], "--server")){
		environ = noEnv;
		openStd();
		serverMode = true;
		finish(nujel_main(1, defArgv));
	}
	if(argc > 1 && !strcmp(argv[1], "--cold-server")){
		/* every run starts from an uninitialised runtime */
		uint32_t len;
		while(readAll(0, &len, 4)){
			char *text = xmal(len+1);
			if(!readAll(0, text, len)){return 0;}
			text[len] = 0;
			resetRes();
			pid_t pid = fork();
			if(pid < 0){return 73;}
			if(pid == 0){
				struct rlimit rl = {25, 30};
				setrlimit(RLIMIT_CPU, &rl);
				loadScenario(text);
				openStd();
				environ = envN ? envS : noEnv;
				startRun();
				finish(nujel_main(argcS, argvS ? argvS : defArgv));
			}
			int st = 0;
			while(waitpid(pid, &st, 0) < 0){}
			__real_free(text);
			report(st);
		}
		return 0;
	}
	return 76;
}
