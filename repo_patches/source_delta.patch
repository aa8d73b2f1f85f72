From 2d69fb8bf529aa4620e57fd41b677440d79c1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 01/60] Add a simulation hook at the points where the GC may
 run (off unless NUJEL_SIM is defined)

---
 lib/vm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index e41f59e..b7518cb 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -97,7 +97,17 @@ static inline lClosure *funCallClosure(lVal lambda) {
 	lits = ops->literals->data;\
 } while (0)
 
+/* Simulation builds (-DNUJEL_SIM) get to decide at which of the points where
+ * a collection may happen one actually does. */
+#ifdef NUJEL_SIM
+void nujelSimSafePoint();
+#define lSimSafePoint() nujelSimSafePoint()
+#else
+#define lSimSafePoint() do {} while(0)
+#endif
+
 #define lGarbageCollectIfNecessary() do {\
+	lSimSafePoint();\
 	if(unlikely(lGCShouldRunSoon)){\
 		lGarbageCollect(&ctx);\
 	}\
-- 
2.43.0


From 998572c848d5554ccf3a6fc62cb6c3710fbc184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 02/60] fix: pop the handler of a try before saving the stack
 depth to return to

A try in operand position left its handler on the value stack when an
exception was caught, so that the surrounding call got one argument too many.
---
 lib/vm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index b7518cb..9e4d556 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -614,14 +614,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopClosurePop)
 		c = ctx.closureStack[--ctx.csp];
 		vmbreak;
-	vmcase(lopTry)
+	vmcase(lopTry) {
+		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
 		c = lClosureNew(c, closureTry);
-		c->exceptionHandler = ctx.valueStack[ctx.sp--];
+		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
-		vmbreak;
+		vmbreak; }
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
-- 
2.43.0


From 7c9add4c685b9231ac6c87501d5b71f0f4f9de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 03/60] fix: keep the saved stack depth of a closure in an int

With more than 65535 values on the value stack the saved depth wrapped around
and a return or caught exception continued with the wrong operands.
---
 lib/nujel-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 543fe61..d09eab9 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -153,7 +153,7 @@ struct lClosure {
 		lVal args;
 		lVal exceptionHandler;
 	};
-	u16 sp;
+	int sp;
 	u8 type;
 };
 
-- 
2.43.0


From f1be1be840f864dfe41cfd3677a6babe7d59aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 04/60] fix: reserve enough stack for the code that is about to
 run

Only 32 values and 16 closures were guaranteed to fit, so a call with more
arguments or deeper nested lets close to the end of the stack wrote past it.
---
 lib/vm.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 9e4d556..e455908 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -45,17 +45,20 @@ static lVal lStackBuildList(lVal *stack, int sp, int len){
 }
 
 static void lBytecodeEnsureSufficientStack(lThread *ctx){
+	/* Every op pushes at most one value/closure, so the size of the code
+	 * about to run is an upper bound for what it may push by itself */
+	const int codeSize = ctx->text->dataEnd - ctx->text->data;
 	const int closureSizeLeft = (ctx->closureStackSize - ctx->csp) - 1;
-	if(unlikely(closureSizeLeft < 16)){
-		ctx->closureStackSize += 512;
+	if(unlikely(closureSizeLeft < codeSize + 16)){
+		ctx->closureStackSize += codeSize + 512;
 		lClosure **t = realloc(ctx->closureStack, ctx->closureStackSize * sizeof(lClosure *));
 		if(unlikely(t == NULL)){ exit(56); }
 		ctx->closureStack = t;
 	}
 
 	const int valueSizeLeft = ctx->valueStackSize - ctx->sp;
-	if(unlikely(valueSizeLeft < 32)){
-		ctx->valueStackSize += 512;
+	if(unlikely(valueSizeLeft < codeSize + 32)){
+		ctx->valueStackSize += codeSize + 512;
 		lVal *t = realloc(ctx->valueStack, ctx->valueStackSize * sizeof(lVal));
 		if(unlikely(t == NULL)){ exit(57); }
 		ctx->valueStack = t;
@@ -203,13 +206,16 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.closureStackSize = 512;
 	ctx.valueStackSize   = 512;
 	ctx.closureStack     = malloc(ctx.closureStackSize * sizeof(lClosure *));
+	if(unlikely(ctx.closureStack == NULL)){ exit(56); }
 	ctx.valueStack       = malloc(ctx.valueStackSize * sizeof(lVal));
+	if(unlikely(ctx.valueStack == NULL)){ exit(57); }
 	ctx.csp              = 0;
 	ctx.sp              = 0;
 	ctx.closureStack[0]  = c;
 	ctx.text             = text;
 	ctx.valueStack[0]    = NIL;
 	ctx.valueStack[1]    = NIL;
+	lBytecodeEnsureSufficientStack(&ctx);
 
 	ip = ops->data;
 
-- 
2.43.0


From 329dbf81381361e8aa2f2ee6451b0dfe7e89bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 05/60] fix: copy what is read from an image passed with
 --base-image

The values referred to the file buffer, which is freed right afterwards.
---
 bin/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/main.c b/bin/main.c
index 1f2b579..47a0c35 100644
--- a/bin/main.c
+++ b/bin/main.c
@@ -13,7 +13,7 @@ static void initBinNativeFuncs(){
 static lClosure *createRootClosureFromExternalImage(const char *filename, lVal *init){
 	size_t len = 0;
 	void *img = loadFile(filename, &len);
-	lVal imgVal = readImage(img, len, true);
+	lVal imgVal = readImage(img, len, false);
 	lClosure *imgC = findRoot(imgVal);
 	if(imgC == NULL){
 		fprintf(stderr,"Can't determine root closure of that image, exiting\n");
-- 
2.43.0


From 2e950ff27ae7d35a7b37447d79f0e93f5d616c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 06/60] fix: neither leak nor leave unterminated the buffers
 read from an image

Mutable buffers had their memory allocated twice, and strings lacked the zero
byte that everything passing them to the C library depends on.
---
 lib/imageReader.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index d3ddb69..59083b2 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -108,14 +108,23 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 	const u32 len = raw & 0x0FFFFFFF;
 	const bool immutable = (raw >> 28) & BUFFER_IMMUTABLE;
 	void *data = (void *)&img->data[off+4];
-	lBuffer *buf = lBufferAlloc(len, immutable);
+	lBuffer *buf = lBufferAllocRaw();
+	buf->length = len;
+	buf->flags = immutable ? BUFFER_IMMUTABLE : 0;
 	readMapSet(map, off, buf);
 	if(staticImage && immutable){
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
 	} else {
-		buf->buf = malloc(len);
-		memcpy(buf->buf, data, len);
+		/* Strings have to be zero terminated */
+		char *mem = malloc((size_t)len + 1);
+		if(unlikely(mem == NULL)){
+			fprintf(stderr, "OOM: Couldn't allocate a buffer of an image\n");
+			exit(136);
+		}
+		memcpy(mem, data, len);
+		mem[len] = 0;
+		buf->buf = mem;
 	}
 	return buf;
 }
-- 
2.43.0


From 4be55bb9c2da12f04067c1bc0637f4dd20edd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 07/60] fix: keep trees shared when they are read from an image

Every reference to a tree got a new root, so that an insertion through one of
them was invisible through the others, and a tree that contained itself ended
up with an incomplete copy of itself.
---
 lib/imageReader.c | 17 ++++++++++++-----
 lib/imageWriter.c | 19 ++++++++++++++++++-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 59083b2..908e48f 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -146,9 +146,9 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 	return view;
 }
 
-static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	const void *mapP = readMapGet(map, off);
-	if(mapP != NULL){ return ((lTreeRoot *)mapP)->root; }
+	if(mapP != NULL){ return (lTreeRoot *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
 	const i32 len = img->data[off] | (img->data[off+1]<<8);
@@ -166,7 +166,12 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 			root->root = lTreeInsert(root->root, s, v);
 		}
 	}
-	return root->root;
+	return root;
+}
+
+static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+	const lTreeRoot *root = readTreeRoot(map, img, off, staticImage);
+	return root == NULL ? NULL : root->root;
 }
 
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
@@ -271,8 +276,10 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 		return lValAlloc(ltType, readType(map, img, tbyte, staticImage));
 	case litBytecodeArr:
 		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
-	case litTree:
-		return lValTree(readTree(map, img, tbyte, staticImage));
+	case litTree: {
+		lTreeRoot *root = readTreeRoot(map, img, tbyte, staticImage);
+		return root == NULL ? lValTree(NULL) : lValAlloc(ltTree, root);
+		}
 	case litArray:
 		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
 	case litPair:
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 12bddf2..20912ff 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -106,6 +106,23 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 	return curOff;
 }
 
+/* Trees can be shared even while they are empty */
+static i32 ctxAddTreeRoot(writeImageContext *ctx, lTreeRoot *v){
+	if(v->root != NULL){return ctxAddTree(ctx, v->root);}
+	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
+	if(mapOff > 0){ return mapOff; }
+
+	const i32 eleSize = 2;
+	ctxRealloc(ctx, eleSize);
+
+	const i32 curOff = ctx->curOff;
+	writeMapSet(&ctx->map, (void *)v, curOff);
+	ctx->start[curOff  ] = 0;
+	ctx->start[curOff+1] = 0;
+	ctx->curOff += eleSize;
+	return curOff;
+}
+
 static i32 ctxAddArray(writeImageContext *ctx, lArray *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
@@ -304,7 +321,7 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	case ltTree: {
 		ctx->curOff += 4;
 		*outb = litTree;
-		const i32 off = ctxAddTree(ctx, v.vTree->root);
+		const i32 off = ctxAddTreeRoot(ctx, v.vTree);
 		outb = ((void *)&ctx->start[curOff+1]);
 		*outb++ = off&0xFF;
 		*outb++ = (off>>8)&0xFF;
-- 
2.43.0


From 33c2b6e3b8c818d400aaf435b47b007cc4eff6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 08/60] fix: keep immutable trees immutable when they are read
 from an image

---
 lib/imageReader.c | 6 +++++-
 lib/imageWriter.c | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 908e48f..3a91f7f 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -151,7 +151,8 @@ static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bo
 	if(mapP != NULL){ return (lTreeRoot *)mapP; }
 	if(off < 0){return NULL;}
 	if(off >= (1<<24)-1){return NULL;}
-	const i32 len = img->data[off] | (img->data[off+1]<<8);
+	const i32 lenFlags = img->data[off] | (img->data[off+1]<<8);
+	const i32 len = lenFlags & 0x7FFF;
 	lTreeRoot *root = lTreeRootAllocRaw();
 	readMapSet(map, off, root);
 	off += 2;
@@ -166,6 +167,9 @@ static lTreeRoot *readTreeRoot(readImageMap *map, const lImage *img, i32 off, bo
 			root->root = lTreeInsert(root->root, s, v);
 		}
 	}
+	if((lenFlags & 0x8000) && root->root){
+		root->root->flags |= TREE_IMMUTABLE;
+	}
 	return root;
 }
 
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 20912ff..182b752 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -99,8 +99,10 @@ static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
 
 	const i32 curOff = ctx->curOff;
 	writeMapSet(&ctx->map, (void *)v, curOff);
-	ctx->start[curOff  ] =  len     & 0xFF;
-	ctx->start[curOff+1] = (len>>8) & 0xFF;
+	/* There are far less than 2^15 symbols, so the topmost bit is free */
+	const int lenFlags = len | ((v->flags & TREE_IMMUTABLE) ? 0x8000 : 0);
+	ctx->start[curOff  ] =  lenFlags     & 0xFF;
+	ctx->start[curOff+1] = (lenFlags>>8) & 0xFF;
 	ctx->curOff += eleSize;
 	ctxAddTreeVal(ctx, curOff + 2, v);
 	return curOff;
-- 
2.43.0


From fe70534454569870467078f77d99b745f7768b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 09/60] fix: check the allocations made while reading and
 writing images

---
 lib/imageReader.c |  8 ++++++++
 lib/imageWriter.c | 20 +++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 3a91f7f..b216e7b 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -29,6 +29,10 @@ static void readMapSet(readImageMap *map, i32 key, void *val){
 		map->size += 32;
 		map->key = realloc(map->key, map->size * sizeof(i32));
 		map->val = realloc(map->val, map->size * sizeof(void *));
+		if(unlikely((map->key == NULL) || (map->val == NULL))){
+			fprintf(stderr, "OOM: Couldn't grow the map of an image\n");
+			exit(137);
+		}
 	}
 	map->key[map->len] = key;
 	map->val[map->len] = val;
@@ -79,6 +83,10 @@ static lBytecodeArray *readBytecodeArray(readImageMap *map, const lImage *img, i
 		ret->data = (void *)in;
 	} else {
 		ret->data = malloc(len);
+		if(unlikely(ret->data == NULL)){
+			fprintf(stderr, "OOM: Couldn't allocate a BC array of an image\n");
+			exit(136);
+		}
 		memcpy(ret->data, in, len);
 	}
 	ret->dataEnd = &ret->data[len];
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 182b752..31ca54e 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -35,6 +35,10 @@ static void writeMapSet(writeImageMap *map, void *key, i32 val){
 		map->size += 32;
 		map->key = realloc(map->key, map->size * sizeof(void *));
 		map->val = realloc(map->val, map->size * sizeof(i32));
+		if(unlikely((map->key == NULL) || (map->val == NULL))){
+			fprintf(stderr, "OOM: Couldn't grow the map of an image\n");
+			exit(137);
+		}
 	}
 	map->key[map->len] = key;
 	map->val[map->len] = val;
@@ -48,6 +52,10 @@ static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
 			ctx->size += 0x100 - (ctx->size & 0xFF);
 		}
 		ctx->start = realloc(ctx->start, ctx->size);
+		if(unlikely(ctx->start == NULL)){
+			fprintf(stderr, "OOM: Couldn't grow an image\n");
+			exit(137);
+		}
 	}
 }
 
@@ -447,16 +455,18 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	size_t size = sizeof(lImage);
 	writeImageContext ctx;
 	memset(&ctx, 0, sizeof(ctx));
-	lImage *buf = malloc(size);
 
+	ctxAddVal(&ctx, rootValue);
+
+	lImage *buf = malloc(sizeof(lImage) + ctx.curOff);
+	if(unlikely(buf == NULL)){
+		fprintf(stderr, "OOM: Couldn't allocate an image\n");
+		exit(137);
+	}
 	buf->magic[0] = 'N';
 	buf->magic[1] = 'u';
 	buf->magic[2] = 'j';
 	buf->magic[3] = 'I';
-
-	ctxAddVal(&ctx, rootValue);
-
-	buf = realloc(buf, sizeof(lImage) + ctx.curOff);
 	memcpy(buf->data, ctx.start, ctx.curOff);
 	size += ctx.curOff;
 	*outSize = size;
-- 
2.43.0


From ae5d9cd69e863bb83b8c6ccea9227e745a9e7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 10/60] fix: refuse to write an image that is too big for its
 24-bit offsets

---
 lib/imageWriter.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 31ca54e..e0b0901 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -457,6 +457,13 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 	memset(&ctx, 0, sizeof(ctx));
 
 	ctxAddVal(&ctx, rootValue);
+	if(unlikely(ctx.curOff >= (1<<24)-1)){
+		/* Offsets are stored in 24 bits */
+		free(ctx.start);
+		free(ctx.map.key);
+		free(ctx.map.val);
+		return NULL;
+	}
 
 	lImage *buf = malloc(sizeof(lImage) + ctx.curOff);
 	if(unlikely(buf == NULL)){
-- 
2.43.0


From dc2786c3f81065e43087a3b6dd95c8cb01cba9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 11/60] fix: setting the length of an array to 0 freed memory
 it still used

---
 lib/array.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index 68bd2c2..38f0c6f 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -10,12 +10,15 @@ static lVal lnmArrayLength(lVal self){
 
 static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	reqNaturalInt(newLength);
+	if(unlikely(newLength.vInt >= INT32_MAX)){
+		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
+	}
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
 
-	lVal *newData = realloc(arr->data,length * sizeof(lVal));
+	/* One more than necessary, since a size of 0 would free the array */
+	lVal *newData = realloc(arr->data,(length + 1) * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
-		free(newData);
 		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
 	}
 	arr->data = newData;
-- 
2.43.0


From de2d08d67011c5a92dde5d6a61266ff457110fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 12/60] fix: array/new wrote past the end of arrays with a nil
 in them

---
 lib/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/array.c b/lib/array.c
index 38f0c6f..a8f56f7 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -32,7 +32,7 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 /* Return the length of the list V */
 static int lListLength(lVal v){
 	int i = 0;
-	for(lVal n = v;(n.type == ltPair) && (n.vList->car.type != ltNil); n = n.vList->cdr){
+	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
 		i++;
 	}
 	return i;
-- 
2.43.0


From df860f6f6e86f29810eeed5ff61caab7472c3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 13/60] fix: report allocations that fail in buffer and array
 procedures

---
 lib/allocator.c |  3 +++
 lib/array.c     |  3 +++
 lib/buffer.c    | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/lib/allocator.c b/lib/allocator.c
index 521ecad..92d9c5c 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -64,6 +64,9 @@ lBuffer *lBufferAlloc(size_t length, bool immutable){
 		ret->flags = BUFFER_IMMUTABLE;
 	}else{
 		ret->buf = calloc(length, 1);
+		if(unlikely(ret->buf == NULL)){
+			ret->length = 0;
+		}
 	}
 	return ret;
 }
diff --git a/lib/array.c b/lib/array.c
index a8f56f7..5eb3965 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -54,6 +54,9 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 
 	reqArray(aLiterals);
 	lBytecodeOp *ops = malloc(sizeof(lBytecodeOp) * len);
+	if(unlikely(ops == NULL)){
+		return lValException(lSymOOM, "Couldn't allocate a bytecode-array", self);
+	}
 	for(int i=0;i<len;i++){
 		if(unlikely(arr->data[i].type != ltInt)){
 			free(ops);
diff --git a/lib/buffer.c b/lib/buffer.c
index 2afba45..7b77f3e 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -33,7 +33,13 @@ size_t lBufferViewLength(const lBufferView *v){
 
 static lVal lnfBufferAllocate(lVal a) {
 	reqNaturalInt(a);
+	if(unlikely(a.vInt >= INT32_MAX)){
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate its buffer", a);
+	}
 	lBuffer *buf = lBufferAlloc(a.vInt, false);
+	if(unlikely(buf->buf == NULL)){
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate its buffer", a);
+	}
 	return lValAlloc(ltBuffer, buf);
 }
 
@@ -43,6 +49,7 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 	retBuf->flags = immutable ? BUFFER_IMMUTABLE : 0;
 	retBuf->buf = malloc(length);
 	if (unlikely(retBuf->buf == NULL)) {
+		retBuf->length = 0;
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate a buffer", NIL);
 	}
 	memcpy(retBuf->buf, data, length);
@@ -171,6 +178,9 @@ static lVal lnmBufferCut(lVal self, lVal start, lVal stop){
 		return lnfBufferAllocate(lValInt(0));
 	}
 	lBuffer *ret = lBufferAlloc(len, false);
+	if(unlikely(ret->buf == NULL)){
+		return lValException(lSymOOM, "(:cut Buffer) couldn't allocate its buffer", self);
+	}
 	memcpy(lBufferDataMutable(ret), buf+off, len);
 	return lValAlloc(ltBuffer, ret);
 }
-- 
2.43.0


From 09e65ca0eee049d544502499f5c2a8d01815058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 14/60] fix: setting the length of an empty buffer to 0 freed
 memory it still used

---
 lib/buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/buffer.c b/lib/buffer.c
index 7b77f3e..9c0bd23 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -140,10 +140,16 @@ static lVal lnmBufferLengthSet(lVal self, lVal newLength){
 	lBuffer *buf = self.vBuffer;
 
 	reqNaturalInt(newLength);
+	if(unlikely(newLength.vInt >= INT32_MAX)){
+		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
+	}
 	const int length = newLength.vInt;
 	if(length < buf->length){
 		return lValException(lSymOutOfBounds, "Buffers can only grow, not shrink.", self);
 	}
+	if(length == buf->length){
+		return self;
+	}
 	void *nBuf = realloc(buf->buf, length);
 	if (unlikely(nBuf == NULL)) {
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
-- 
2.43.0


From 85e4922b48a264d5617e2e93e5806f9a5b481f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 15/60] fix: a view of an immutable buffer can be written to a
 file, but not read into

The check was made for the wrong one of the two accessors.
---
 lib/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 9c0bd23..5627659 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -19,11 +19,11 @@ size_t lBufferLength(const lBuffer *v){
 
 const void *lBufferViewData(lBufferView *v){
 	if(unlikely(v == NULL)){return NULL;}
-	if(unlikely(v->buf->flags & BUFFER_IMMUTABLE)){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
 void *lBufferViewDataMutable(lBufferView *v){
+	if(unlikely((v->flags & BUFFER_VIEW_IMMUTABLE) || (v->buf->flags & BUFFER_IMMUTABLE))){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
-- 
2.43.0


From b7964081c40d65fe5566353bde21d9780bd41585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 16/60] fix: keep every byte of string literals that are longer
 than the read buffer

---
 lib/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index c3abef4..a7a7bec 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -103,7 +103,7 @@ static lVal lParseString(lReadContext *s){
 			if(buf == NULL){
 				exit(21);
 			}
-			b = &buf[i];
+			b = &buf[i-1];
 		}
 		if(unlikely(*s->data == '\\')){
 			s->data++;
-- 
2.43.0


From d0001b4538dc3ec898f89de4eebcee8f20200a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 17/60] fix: don't report a byte of an earlier literal when a
 string is not closed

---
 lib/reader.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index a7a7bec..5dc5544 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -149,17 +149,13 @@ static lVal lParseString(lReadContext *s){
 			s->data++;
 			return lValAlloc(ltString, lStringNew(buf,b-buf));
 		}else if(unlikely(*s->data == 0)){
-			if (likely(i < bufSize)) {
-				buf[i] = 0;
-			}
+			*b = 0;
 			return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 		}else{
 			*b++ = *s->data++;
 		}
 	}
-	if (likely(i < bufSize)) {
-		buf[i] = 0;
-	}
+	*b = 0;
 	return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 }
 
-- 
2.43.0


From b3d0a211cde5b432811b0e8c0bc65583607a74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 18/60] fix: report errors within array and tree literals

They were dropped and an empty literal took the place of the broken one, so that
for example a session did not wait for the rest of an array.
---
 lib/reader.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 5dc5544..fc66b0e 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -392,12 +392,18 @@ static lVal lParseSpecial(lReadContext *s){
 		return NIL;
 	case 't': return lValBool(true);
 	case 'f': return lValBool(false);
-	case '#':
+	case '#': {
 		s->data++;
-		return lnfArrNew(lReadList(s, false, ')'));
+		const lVal list = lReadList(s, false, ')');
+		if(unlikely(list.type == ltException)){return list;}
+		return lnfArrNew(list);
+	}
 	case '@':{
 		s->data++;
-		lVal ret = lnfTreeNew(lReadList(s,false,')'));
+		const lVal list = lReadList(s,false,')');
+		if(unlikely(list.type == ltException)){return list;}
+		lVal ret = lnfTreeNew(list);
+		if(unlikely(ret.type == ltException)){return ret;}
 		if(ret.vTree->root){
 			ret.vTree->root->flags |= TREE_IMMUTABLE;
 		}
-- 
2.43.0


From 0f3bceba5b282a6528a7e6ee5fa0d04d50675c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 19/60] fix: don't read past the end of an image that is too
 short to be one

---
 lib/imageReader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index b216e7b..51985ba 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -321,6 +321,9 @@ lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
 	if(unlikely(img == NULL)){
 		return lValExceptionSimple();
 	}
+	if(unlikely(imgSize <= sizeof(lImage))){
+		return lValException(lSymReadError, "Nujel Image is too short", NIL);
+	}
 	if(unlikely((img->magic[0] != 'N')
 	   || (img->magic[1] != 'u')
 	   || (img->magic[2] != 'j')
-- 
2.43.0


From 5e1b434980b2e813d26c718727166d804e3d5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 20/60] fix: reuse the slots of dropped symbols, and collect
 before there are none left

Once every slot of the index had been used the next new symbol ended the
runtime, as did a full symbol heap, even if hardly any symbol was in use.
---
 lib/symbol.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/symbol.c b/lib/symbol.c
index cfb1247..aa0b43d 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -213,6 +213,10 @@ uint lSymbolIndexSlot(const char *str){
 			h = 0;
 		}
 	} while (h != hInitial);
+	/* Neither there nor an empty slot left, but a deleted one can be reused */
+	if(firstTomb != 0xffffffff){
+		return firstTomb;
+	}
 	exit(111);
 	return 0;
 }
@@ -234,7 +238,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	lSymbolActive++;
+	if(unlikely((SYM_MAX - (++lSymbolActive)) < 128)){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From cf0c4a4592cb56102128238f623aac28cd9e85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 21/60] fix: don't overwrite an existing file when opening it
 has to be an error

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index f1fcb24..f55b835 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -52,9 +52,9 @@ static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
 	FILE *fh = NULL;
 	if(mode == lSymError){
 #if defined(_MSC_VER)
-		if (_access(path, 02) == 0) { lValBool(false); }
+		if (_access(path, 02) == 0) { return lValBool(false); }
 #else
-		if(access(path, F_OK) == 0){lValBool(false);}
+		if(access(path, F_OK) == 0){ return lValBool(false); }
 #endif
 		fh = fopen(path, "wb");
 	}else if(mode == lSymReplace){
-- 
2.43.0


From 13635154a80e05955822ba8490c0b71dab5e255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 22/60] fix: report when flushing or closing a file fails

What was still buffered could be lost without anyone noticing, in particular
spit returned #t even though the disk was full.
---
 bin/port.c    |  8 ++++++--
 binlib/io.nuj | 33 +++++++++++++++++----------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index f55b835..e2de0b4 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -92,7 +92,9 @@ static lVal lnfFileOpenInput(lVal aPathname){
 
 static lVal lnfFileClose(lVal aHandle){
 	reqFileHandle(aHandle);
-	fclose(aHandle.vFileHandle);
+	if(unlikely(fclose(aHandle.vFileHandle) != 0)){
+		return lValException(lSymIOError, "IO Error occured during close", NIL);
+	}
 	return NIL;
 }
 
@@ -183,7 +185,9 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 
 static lVal lnfFileFlush(lVal aHandle){
 	reqFileHandle(aHandle);
-	fflush(aHandle.vFileHandle);
+	if(unlikely(fflush(aHandle.vFileHandle) != 0)){
+		return lValException(lSymIOError, "IO Error occured during flush", aHandle);
+	}
 	return aHandle;
 }
 
diff --git a/binlib/io.nuj b/binlib/io.nuj
index b756c02..155b778 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -66,16 +66,16 @@
       "Read the entirety of PATHNAME and return it as a string if possible, otherwise return #nil."
       (def fh (file/open-input* pathname))
       (when-not fh (return #nil))
-      (try (fn ()
-               (file/close* fh)
-               (return #nil))
-           (file/seek* fh 0 2)
-           (def size (file/tell* fh))
-           (file/seek* fh 0 0)
-           (def buf (buffer/allocate size))
-           (file/read* fh buf size)
-           (file/close* fh)
-           (return buf)))
+      (def content (try (fn () #nil)
+                        (file/seek* fh 0 2)
+                        (def size (file/tell* fh))
+                        (file/seek* fh 0 0)
+                        (def buf (buffer/allocate size))
+                        (file/read* fh buf size)
+                        buf))
+      (try (fn () #nil)
+           (file/close* fh))
+      (return content))
 (def file/read/buffer slurp/buffer)
 
 (defn slurp (pathname)
@@ -88,12 +88,13 @@
       (def fh (file/open-output* pathname :replace))
       (when-not fh (return #f))
 
-      (try (fn ()
-               (file/close* fh)
-               (return #f))
-           (file/write* fh content)
-           (file/close* fh))
-      (return #t))
+      (def written? (try (fn () #f)
+                         (file/write* fh content)
+                         #t))
+      (def closed? (try (fn () #f)
+                        (file/close* fh)
+                        #t))
+      (and written? closed?))
 
 (defn file/write (content pathname)
       "Writes CONTENT into PATHNAME"
-- 
2.43.0


From ee2d42bedaab0e705eab408ef82b58eae15fb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 23/60] fix: don't pad a file that got shorter while it was
 being read with zeroes

---
 binlib/io.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index 155b778..472fc9a 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -71,8 +71,8 @@
                         (def size (file/tell* fh))
                         (file/seek* fh 0 0)
                         (def buf (buffer/allocate size))
-                        (file/read* fh buf size)
-                        buf))
+                        (when (= size (file/read* fh buf size))
+                          buf)))
       (try (fn () #nil)
            (file/close* fh))
       (return content))
-- 
2.43.0


From 60a6c8102e7c1a284c77472060c56ba3eedf3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 24/60] fix: check the handle when querying its position, and
 report failing seeks

---
 bin/port.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bin/port.c b/bin/port.c
index e2de0b4..73c05c7 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -192,7 +192,11 @@ static lVal lnfFileFlush(lVal aHandle){
 }
 
 static lVal lnfFileTell(lVal aHandle){
+	reqFileHandle(aHandle);
 	const i64 pos = ftell(aHandle.vFileHandle);
+	if(unlikely(pos < 0)){
+		return lValException(lSymIOError, "IO Error occured during tell", aHandle);
+	}
 	return lValInt(pos);
 }
 
@@ -207,7 +211,9 @@ static lVal lnfFileSeek(lVal aHandle, lVal aOffset, lVal aWhence){
 		return lValException(lSymTypeError, "Whence has to be in the range 0-2", aWhence);
 	}
 	const int whence = whenceRaw == 0 ? SEEK_SET : whenceRaw == 1 ? SEEK_CUR : SEEK_END;
-	fseek(fh, offset, whence);
+	if(unlikely(fseek(fh, offset, whence) != 0)){
+		return lValException(lSymIOError, "IO Error occured during seek", aHandle);
+	}
 	return aHandle;
 }
 
-- 
2.43.0


From c52acb6e7c117030504b966a2d31eda613486ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 25/60] fix: refuse to transfer bytes that are outside of the
 buffer

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index 73c05c7..ae630e1 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -124,7 +124,7 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 	if(buf == NULL){
 		return lValException(lSymTypeError, "Can't read into an immutable buffer", contentV);
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesRead < size){
@@ -169,7 +169,7 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 	if(size < 0){
 		size = bufSize - offset;
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || (size < 0) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesWritten < size){
-- 
2.43.0


From 261c8af3ed1dfcc13a2c4a9c118983744f06ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 26/60] fix: don't install uninitialised terminal attributes

---
 bin/port.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/port.c b/bin/port.c
index ae630e1..a39240c 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -19,7 +19,9 @@ static lVal lnfFileRaw(lVal handle){
 	reqFileHandle(handle);
 	FILE *fh = handle.vFileHandle;
 
-	tcgetattr(fileno(fh), &raw);
+	if(tcgetattr(fileno(fh), &raw) != 0){
+		return NIL;
+	}
 	if(!rawMode){
 		orig_termios = raw;
 		atexit(disableRawMode);
-- 
2.43.0


From 48fa36c3a1202cab9908f2acbf7b4674701bcd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 27/60] fix: free the buffer of popen when it fails, and notice
 when there is none

---
 bin/io.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bin/io.c b/bin/io.c
index 1005330..87ec136 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -164,6 +164,9 @@ static lVal lnfPopen(lVal aCommand){
 	int len   = 0;
 	int bufSize = readSize;
 	char *buf = malloc(readSize);
+	if(unlikely(buf == NULL)){
+		return lValException(lSymOOM, "(popen) couldn't allocate its buffer", aCommand);
+	}
 
 	FILE *child = popen(lBufferData(aCommand.vString), "r");
 	if(child == NULL){
@@ -178,6 +181,7 @@ static lVal lnfPopen(lVal aCommand){
 				break;
 			}else if(ferror(child)){
 				pclose(child);
+				free(buf);
 				return NIL;
 			}
 		}
@@ -185,7 +189,13 @@ static lVal lnfPopen(lVal aCommand){
 
 		if((len + readSize) >= bufSize){
 			bufSize += readSize;
-			buf = realloc(buf,bufSize);
+			char *newBuf = realloc(buf,bufSize);
+			if(unlikely(newBuf == NULL)){
+				pclose(child);
+				free(buf);
+				return lValException(lSymOOM, "(popen) couldn't allocate its buffer", aCommand);
+			}
+			buf = newBuf;
 		}
 	}
 	#ifdef __MINGW32__
@@ -195,7 +205,12 @@ static lVal lnfPopen(lVal aCommand){
 	const int exitCode = WEXITSTATUS(exitStatus);
 	#endif
 
-	buf = realloc(buf,len+1);
+	char *newBuf = realloc(buf,len+1);
+	if(unlikely(newBuf == NULL)){
+		free(buf);
+		return lValException(lSymOOM, "(popen) couldn't allocate its buffer", aCommand);
+	}
+	buf = newBuf;
 	buf[len] = 0;
 
 	return lCons(lValInt(exitCode),lValStringNoCopy(buf,len));
-- 
2.43.0


From f66d06ceab2b8b57d694180021b72821deef4e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 28/60] fix: a command that is killed by a signal has not
 succeeded

---
 bin/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/io.c b/bin/io.c
index 87ec136..0b19a8b 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -202,7 +202,8 @@ static lVal lnfPopen(lVal aCommand){
 	const int exitCode = pclose(child);
 	#else
 	const int exitStatus = pclose(child);
-	const int exitCode = WEXITSTATUS(exitStatus);
+	/* As the shell does it, so that a killed command doesn't seem to have succeeded */
+	const int exitCode = WIFSIGNALED(exitStatus) ? 128 + WTERMSIG(exitStatus) : WEXITSTATUS(exitStatus);
 	#endif
 
 	char *newBuf = realloc(buf,len+1);
-- 
2.43.0


From c89cb8a137e964c2f40cc253ce3ca2768c3ba9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 29/60] fix: report when a file could not be removed

---
 bin/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/io.c b/bin/io.c
index 0b19a8b..c626769 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -79,7 +79,9 @@ static lVal lnfExit(lVal aStatus){
 
 static lVal lnfFileRemove(lVal aPath){
 	reqString(aPath);
-	unlink(lBufferData(aPath.vString));
+	if(unlink(lBufferData(aPath.vString)) != 0){
+		return NIL;
+	}
 	return aPath;
 }
 
-- 
2.43.0


From 4de434a26aa907b48631faf1e86f2fe8f32bf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 30/60] fix: don't return part of a directory as all of it when
 reading it fails

---
 bin/io.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bin/io.c b/bin/io.c
index c626769..4eb27a1 100644
--- a/bin/io.c
+++ b/bin/io.c
@@ -265,7 +265,16 @@ static lVal lnfDirectoryRead(lVal aPath, lVal aShowHidden){
 	if(dp == NULL){return NIL;}
 	lVal ret = NIL;
 	lVal cur = NIL;
-	for(struct dirent *de = readdir(dp); de ; de = readdir(dp)){
+	while(1){
+		errno = 0;
+		struct dirent *de = readdir(dp);
+		if(de == NULL){
+			if(unlikely(errno != 0)){
+				closedir(dp);
+				return lValException(lSymIOError, "IO Error occured while reading a directory", aPath);
+			}
+			break;
+		}
 		if(!showHidden){
 			if(de->d_name[0] == '.'){continue;}
 		}
-- 
2.43.0


From 186179f61ee41601be7d24e56e1602814e00971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 31/60] fix: go on with the next address when one can't be
 used, and close its socket

An address of an unknown family or a failing socket() made socket/connect spin
forever, and every failing connect() leaked a file descriptor.
---
 bin/net.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/net.c b/bin/net.c
index 2f6b7cb..b7b6009 100644
--- a/bin/net.c
+++ b/bin/net.c
@@ -34,8 +34,7 @@ static lVal lnfSocketConect(lVal host, lVal port){
 	if(errcode != 0){
 		return NIL;
 	}
-	res = result;
-	while (res){
+	for(res = result; res; res = res->ai_next){
 		if(res->ai_family == AF_INET){
 			((struct sockaddr_in*)((void *)res->ai_addr))->sin_port = htons(port.vInt);
 		} else if(res->ai_family == AF_INET6){
@@ -53,11 +52,12 @@ static lVal lnfSocketConect(lVal host, lVal port){
 			freeaddrinfo(result);
 			FILE *fh = fdopen(fd, "rb+");
 			if(fh == NULL){
+				close(fd);
 				return NIL;
 			}
 			return lValFileHandle(fh);
 		}
-		res = res->ai_next;
+		close(fd);
 	}
 
 	freeaddrinfo(result);
-- 
2.43.0


From bc839e377de57fc84a4eb06fa65fa4d497afed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 32/60] fix: report errors within brackets, braces, quotes and
 commented out forms

The error became a part of the list that was returned instead, which then could
be neither evaluated nor even printed.
---
 lib/reader.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index fc66b0e..9eac6f7 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -472,7 +472,9 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 }
 
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
+	const lVal v = lReadValue(s);
+	if(unlikely(v.type == ltException)){return v;}
+	return lCons(lValSymS(carSym), lCons(v, NIL));
 }
 
 static lVal lReadValue(lReadContext *s){
@@ -490,9 +492,12 @@ static lVal lReadValue(lReadContext *s){
 	case '[':
 		s->data++;
 		return lCons(lValSymS(symArr), lReadList(s,false, ']'));
-	case '{':
+	case '{': {
 		s->data++;
-		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
+		const lVal list = lReadList(s, false, '}');
+		if(unlikely(list.type == ltException)){return list;}
+		return lCons(lValSymS(symTreeNew), list);
+	}
 	case '~':
 		s->data++;
 		if(*s->data == '@'){
@@ -517,11 +522,11 @@ static lVal lReadValue(lReadContext *s){
 			++s->data;
 			if((s->data < s->bufEnd) && (*s->data == '(')){
 				s->data++;
-				lReadList(s,false,')');
-				return lValComment();
+				const lVal list = lReadList(s,false,')');
+				return unlikely(list.type == ltException) ? list : lValComment();
 			}else{
-				lReadValue(s);
-				return lValComment();
+				const lVal v = lReadValue(s);
+				return unlikely(v.type == ltException) ? v : lValComment();
 			}
 		}
 		return lParseSpecial(s);
-- 
2.43.0


From 6fb6e03d436bce83035e5df4f43b2d22edb90dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 33/60] fix: an array made of nothing but the reader's
 placeholder stays empty

---
 lib/array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/array.c b/lib/array.c
index 5eb3965..5631c31 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -39,7 +39,12 @@ static int lListLength(lVal v){
 }
 
 lVal lnfArrNew(lVal v){
-	int length = lListLength(v);
+	/* Without any elements the reader passes a single #nil */
+	const bool empty = (v.type != ltPair) || ((v.vList->car.type == ltNil) && (v.vList->cdr.type != ltPair));
+	const int length = empty ? 0 : lListLength(v);
+	if(length == 0){
+		return lValAlloc(ltArray, lArrayAlloc(0));
+	}
 	lVal r = lValAlloc(ltArray, lArrayAlloc(length));
 	int key = 0;
 	for(lVal n = v; n.type == ltPair; n = n.vList->cdr){
-- 
2.43.0


From 573c904057a16eed4bd1575ffce6909db3d206ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 34/60] fix: make HTTP requests work again, and report the ones
 that fail

get called a procedure that doesn't exist anymore, the body was padded to the
size of the read buffer, a response shorter than it declares passed as
complete, and neither HTTP nor Gopher closed the connection when using it
failed.
---
 stdlib_modules/net/gopher.nuj | 18 +++++++++++-------
 stdlib_modules/net/http.nuj   | 31 ++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/stdlib_modules/net/gopher.nuj b/stdlib_modules/net/gopher.nuj
index 67f3d26..942d585 100644
--- a/stdlib_modules/net/gopher.nuj
+++ b/stdlib_modules/net/gopher.nuj
@@ -25,15 +25,19 @@
 (defn get* (host path port)
       (def buf (buffer/allocate 0))
       (def fh (socket/connect host port))
-      (file/write* fh path (:length path))
-      (file/write* fh "\r\n" 2)
-      (file/flush* fh)
+      (when-not fh (exception :connection-error "Couldn't connect to host" host))
       (def bytes-read 0)
       (def bytes-read-now 1)
-      (while (not (zero? bytes-read-now))
-        (:length! buf (+ 8192 (:length buf)))
-        (set! bytes-read-now (file/read* fh buf 8192 bytes-read))
-        (set! bytes-read (+ bytes-read bytes-read-now)))
+      (try (fn (err)
+               (file/close* fh)
+               (throw err))
+           (file/write* fh path (:length path))
+           (file/write* fh "\r\n" 2)
+           (file/flush* fh)
+           (while (not (zero? bytes-read-now))
+             (:length! buf (+ 8192 (:length buf)))
+             (set! bytes-read-now (file/read* fh buf 8192 bytes-read))
+             (set! bytes-read (+ bytes-read bytes-read-now))))
       (file/close* fh)
       (def raw-res (buffer->string buf bytes-read))
       raw-res)
diff --git a/stdlib_modules/net/http.nuj b/stdlib_modules/net/http.nuj
index 44745bb..59d1805 100644
--- a/stdlib_modules/net/http.nuj
+++ b/stdlib_modules/net/http.nuj
@@ -15,14 +15,18 @@
 
       (def buf (buffer/allocate 0))
       (def fh (socket/connect host 80))
-      (file/write* fh req (:length req))
-      (file/flush* fh)
+      (when-not fh (exception :connection-error "Couldn't connect to host" host))
       (def bytes-read 0)
       (def bytes-read-now 1)
-      (while (not (zero? bytes-read-now))
-        (:length! buf (+ 65536 (:length buf)))
-        (set! bytes-read-now (file/read* fh buf 65536 bytes-read))
-        (set! bytes-read (+ bytes-read bytes-read-now)))
+      (try (fn (err)
+               (file/close* fh)
+               (throw err))
+           (file/write* fh req (:length req))
+           (file/flush* fh)
+           (while (not (zero? bytes-read-now))
+             (:length! buf (+ 65536 (:length buf)))
+             (set! bytes-read-now (file/read* fh buf 65536 bytes-read))
+             (set! bytes-read (+ bytes-read bytes-read-now))))
       (file/close* fh)
 
       (def raw-res (buffer->string buf bytes-read))
@@ -32,7 +36,8 @@
       (when (< eoh 0) (return #nil))
 
       (def headers {})
-      (def body (:cut buf (+ 4 eoh)))
+      (def content-length #nil)
+      (def body (:cut buf (+ 4 eoh) bytes-read))
       (def status-list (split (buffer->string buf eosl) " "))
       (def status-code (read/int (cadr status-list)))
       (doseq (header (split (buffer->string buf eoh (+ 2 eosl)) "\r\n"))
@@ -40,7 +45,11 @@
              (when (>= eok 0)
                (def key (:keyword (:cut header 0 eok)))
                (def v (trim (:cut header (inc eok))))
+               (when (= (lower-case (:cut header 0 eok)) "content-length")
+                 (set! content-length (read/int v)))
                (set! headers key v)))
+      ;; The server promised more than what arrived
+      (when (and content-length (< (:length body) content-length)) (return #nil))
 
       { :http-version (car status-list)
         :status-code status-code
@@ -56,8 +65,8 @@
         (set! url (:cut url 7))
         (def path-start (:index-of url "/"))
         (return (if (>= path-start 0)
-                    (http/req* "GET"
-                               (:cut url 0 path-start)
-                               (:cut url path-start))
-                    (http/req* "GET" url "/"))))
+                    (req* "GET"
+                          (:cut url 0 path-start)
+                          (:cut url path-start))
+                    (req* "GET" url "/"))))
       (error "unsupported scheme"))
-- 
2.43.0


From 82598e2304cc553223894f6245a2e05b8c91f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 35/60] fix: read lines of any length, notice the end of input,
 and write single chars

---
 stdlib/string/portng.nuj | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 723c567..3f58d3b 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -34,8 +34,9 @@
       (def c 0)
       (def view (:u8 buf))
       (while #t
-             (while (>= i (:length buf))
-                    (:length! (+ 128 (:length buf))))
+             (when (>= i (:length buf))
+               (:length! buf (+ 128 (:length buf)))
+               (set! view (:u8 buf)))
              (set! c (:char-read port))
              (when (= c :end-of-file)
                    (return (if (zero? i) #nil i)))
@@ -96,7 +97,7 @@
 
   (defn char-write (self char)
         (set! self.temp-buffer 0 char)
-        (file/write* self.handle temporary-buffer 1))
+        (file/write* self.handle self.temp-buffer 1))
 
   (defn close! (self)
         (file/close* self.handle))
@@ -175,8 +176,8 @@
   (defn char-read (self char)
         (when (file/eof*? self.handle)
           (return :end-of-file))
-        (when-not (file/read* self.handle self.temp-buffer 1)
-                  (return :end-of-file))
+        (when (zero? (file/read* self.handle self.temp-buffer 1))
+          (return :end-of-file))
         (ref self.temp-buffer 0))
 
   (defn raw! (self)
-- 
2.43.0


From 012ca742c72fe6d1528dacbe2f0ce332f0fee232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 36/60] fix: continue unfinished forms in the REPLs, which end
 when their input does

---
 binlib/tiny-repl.nuj    | 14 ++++++++++----
 stdlib_modules/repl.nuj | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/binlib/tiny-repl.nuj b/binlib/tiny-repl.nuj
index 25c8387..90b75d2 100644
--- a/binlib/tiny-repl.nuj
+++ b/binlib/tiny-repl.nuj
@@ -14,7 +14,9 @@
                        :export
                        (try (fn (err)
                                 (if (= (car err) :unmatched-opening-bracket)
-                                    (cmd/raw ctx (cat line (readline "... ")))
+                                    (do (def more (readline "... "))
+                                        (when (nil? more) (throw err))
+                                        (cmd/raw (cat line "\n" more)))
                                     (throw err)))
                             (def expr (read line))
                             (when (equal? '() expr)
@@ -29,7 +31,7 @@
                        (def buf "")
                        (def line "")
                        (while (not= (trim line) "[/cmd]")
-                         (set! buf (cat buf line))
+                         (set! buf (cat buf line "\n"))
                          (set! line (readline)))
                        (try exception-handler
                             (def expr (cons do (read buf)))
@@ -38,7 +40,11 @@
                             (newline)))
 
                  (defn read-cmd ()
-                       (def line (readline "> "))
+                       ;; There is no point in going on when the input can't be read anymore
+                       (def line (try (fn (err)
+                                          (exception-handler err)
+                                          (exit 1))
+                                      (readline "> ")))
                        (when (nil? line)
                          (println "Adios, cowboy...")
                          (exit 0))
@@ -48,5 +54,5 @@
 
                  (defn tiny-repl ()
                        (println "Nujel TinyREPL is ready for service!")
-                       (while #t (read-cmd)))
+                       (while #t (try exception-handler (read-cmd))))
 ))
diff --git a/stdlib_modules/repl.nuj b/stdlib_modules/repl.nuj
index 210ab4b..31a2367 100644
--- a/stdlib_modules/repl.nuj
+++ b/stdlib_modules/repl.nuj
@@ -24,7 +24,9 @@
       :export
       (try (fn (err)
                (if (= (car err) :unmatched-opening-bracket)
-                   (cmd/raw ctx (cat line (readline "... ")))
+                   (do (def more (readline "... "))
+                       (when (nil? more) (throw err))
+                       (cmd/raw (cat line "\n" more)))
                    (throw err)))
            (def expr (read line))
            (when (equal? '() expr)
@@ -39,7 +41,7 @@
       (def buf "")
       (def line "")
       (while (not= (trim line) "[/cmd]")
-             (set! buf (cat buf line))
+             (set! buf (cat buf line "\n"))
              (set! line (readline)))
       (def expr (cons do (read buf)))
       (def result (eval-in ctx expr))
@@ -50,7 +52,11 @@
       "> ")
 
 (defn read-cmd ()
-      (def line (readline (prompt)))
+      ;; There is no point in going on when the input can't be read anymore
+      (def line (try (fn (err)
+                         (exception-handler err)
+                         (exit 1))
+                     (readline (prompt))))
       (cons! line line-history)
       (when (nil? line)
             (println "Adios, cowboy...")
-- 
2.43.0


From 2091877a1907fce40f21479fbd4765f29bc5060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 37/60] fix: don't evaluate the next option after a failed -x
 expression

---
 binlib/init.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binlib/init.nuj b/binlib/init.nuj
index 547695f..01ae55a 100644
--- a/binlib/init.nuj
+++ b/binlib/init.nuj
@@ -61,9 +61,9 @@
 
             (defn init/parse-arg (arg args)
                   (cond (init/parse-args/ignore-next (set! init/parse-args/ignore-next #f))
-                        (init/parse-args/eval-next (try print/error
-                                                        (eval-in root-closure (cons do (read arg)))
-                                                        (set! init/parse-args/eval-next #f)))
+                        (init/parse-args/eval-next (set! init/parse-args/eval-next #f)
+                                                   (try print/error
+                                                        (eval-in root-closure (cons do (read arg)))))
                         (init/parse-args/eval-next-module (try (fn (e)
                                                                    (print/error e)
                                                                  (exit 1))
-- 
2.43.0


From 3efa12002e46171f32bd0ae41294fec9d07daf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 38/60] fix: report errors within square brackets, too

As with braces, the error became a part of the list that was returned instead,
which then could be neither evaluated nor even printed.
---
 lib/reader.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 9eac6f7..b823f41 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -489,9 +489,12 @@ static lVal lReadValue(lReadContext *s){
 	case '(':
 		s->data++;
 		return lReadList(s,false,')');
-	case '[':
+	case '[': {
 		s->data++;
-		return lCons(lValSymS(symArr), lReadList(s,false, ']'));
+		const lVal list = lReadList(s, false, ']');
+		if(unlikely(list.type == ltException)){return list;}
+		return lCons(lValSymS(symArr), list);
+	}
 	case '{': {
 		s->data++;
 		const lVal list = lReadList(s, false, '}');
-- 
2.43.0


From 29b902f086e0a50d3c394262bbdf7e8c45066df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 39/60] fix: refuse to write through immutable buffer views

---
 lib/generic.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/generic.c b/lib/generic.c
index 83ece98..ad7cc33 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -105,6 +105,9 @@ static lVal lBufferViewSet(lVal car, size_t i, lVal v){
 	if(unlikely(buf == NULL)){
 		return lValException(lSymTypeError, "Can't ref that", car);
 	}
+	if(unlikely(lBufferViewDataMutable(car.vBufferView) == NULL)){
+		return lValException(lSymTypeError, "Can only set! mutable views", car);
+	}
 	if(unlikely(i >= length)){
 		return lValException(lSymOutOfBounds, "ref - index provided is out of bounds", car);
 	}
-- 
2.43.0


From 4c19b450b5a14ef700045f25fed4cb97462c7794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 40/60] fix: don't write uninitialised memory into images

---
 lib/imageWriter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index e0b0901..dd9a4d2 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -47,6 +47,7 @@ static void writeMapSet(writeImageMap *map, void *key, i32 val){
 
 static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
 	if((ctx->size - ctx->curOff) <= eleSize){
+		const i32 oldSize = ctx->size;
 		ctx->size += eleSize;
 		if(ctx->size & 0xFF){
 			ctx->size += 0x100 - (ctx->size & 0xFF);
@@ -56,6 +57,8 @@ static void ctxRealloc(writeImageContext *ctx, i32 eleSize){
 			fprintf(stderr, "OOM: Couldn't grow an image\n");
 			exit(137);
 		}
+		/* Not every byte of an entry is written */
+		memset(&ctx->start[oldSize], 0, ctx->size - oldSize);
 	}
 }
 
-- 
2.43.0


From e747fa0715378bd5f8865290d5b1103acdb65f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 41/60] fix: end with a failure status when reporting an error
 failed

---
 binlib/init.nuj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binlib/init.nuj b/binlib/init.nuj
index 01ae55a..766974e 100644
--- a/binlib/init.nuj
+++ b/binlib/init.nuj
@@ -86,7 +86,9 @@
                       init/parse-args/run-repl))
 
             (defn init/bin (args)
-                  (try print/error
+                  (try (fn (e)
+                           (print/error e)
+                         (exit 1))
                        (set! init/executable-name (car args))
                        (when (init/parse-args (cdr args))
                          (module/main :repl #nil))))
-- 
2.43.0


From 8b93a717c8fb12968ab8ac2b174138523f3e5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 42/60] fix: report an uncaught exception in the exit status

---
 bin/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/main.c b/bin/main.c
index 47a0c35..d5fd61e 100644
--- a/bin/main.c
+++ b/bin/main.c
@@ -66,6 +66,6 @@ int main(int argc, char *argv[]){
 	initBinNativeFuncs();
 	setIOSymbols();
 
-	initNujel(argc,argv);
-	return 0;
+	const lVal ret = initNujel(argc,argv);
+	return ret.type == ltException ? 1 : 0;
 }
-- 
2.43.0


From ac1959ece4b47c3767d01d44a060652419a276cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 43/60] fix: throw instead of dying when taking the remainder
 of a division by zero

---
 lib/arithmetic.c | 6 +++---
 lib/vm.c         | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 440eddf..b8d036f 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -128,7 +128,7 @@ static lVal lnfRem(lVal a, lVal b){
 			if(b.vInt == 0){
 				return lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL);
 			}
-			return lValInt(a.vInt % b.vInt);
+			return lValInt(b.vInt == -1 ? 0 : a.vInt % b.vInt);
 		case ltFloat: {
 			lVal av = requireFloat(a);
 			if(unlikely(av.type == ltException)){
@@ -191,14 +191,14 @@ static lVal lnfDivAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt / b.vInt);
+	return lValInt(b.vInt == -1 ? (i64)(0 - (u64)a.vInt) : a.vInt / b.vInt);
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt % b.vInt);
+	return lValInt(b.vInt == -1 ? 0 : a.vInt % b.vInt);
 }
 
 static lVal lnfLogAnd(lVal a, lVal b){
diff --git a/lib/vm.c b/lib/vm.c
index e455908..330b7ad 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -364,7 +364,10 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt = a.vInt % b.vInt;
+				if(unlikely(b.vInt == 0)){
+					lThrow(lValException(lSymDivisionByZero, "Can't divide by zero", a));
+				}
+				ctx.valueStack[ctx.sp].vInt = b.vInt == -1 ? 0 : a.vInt % b.vInt;
 			} else if(likely(b.type == ltFloat)){
 				const lVal r = lValFloat(fmod(a.vInt, b.vFloat));
 				if(unlikely(r.type == ltException)){
-- 
2.43.0


From f13de432a1e0b350a05fb2bbcd32cdd6254b7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 44/60] fix: resolve absolute module paths and several .. in a
 row

---
 stdlib/core/module.nuj | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stdlib/core/module.nuj b/stdlib/core/module.nuj
index d189c2e..0baf542 100644
--- a/stdlib/core/module.nuj
+++ b/stdlib/core/module.nuj
@@ -64,20 +64,21 @@
 
 (defn module/resolve-string/join (parts ret)
       :internal
-      (cond ((not parts) ret)
+      (cond ((not parts) (nreverse ret))
             ((or (= "" (car parts))
                  (= "." (car parts)))
              (module/resolve-string/join (cdr parts) ret))
             ((= ".." (car parts))
-             (when-not (cadr parts)
+             (when-not ret
                        (exception "Invalid path" parts))
-             (module/resolve-string/join (cddr parts) ret))
+             (module/resolve-string/join (cdr parts) (cdr ret)))
             (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret)))))
 
 (defn module/resolve-string (name wd)
       :internal
-      (def mod-path wd)
-      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil))
+      (def absolute? (and (> (:length name) 0) (= (ref name 0) #\/)))
+      (def mod-path (if absolute? "" wd))
+      (def parts (module/resolve-string/join (append (split mod-path "/") (split name "/")) #nil))
       (:keyword (join (cons "" parts) "/"))) ; The cons is for the leading /
 
 (defn module/load (name env)
-- 
2.43.0


From 764a6f3c98a95c864591a1acf69f580014988d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 45/60] fix: decode the escape sequences of F1 to F12 and of
 M-{ to M-~

A complete M-O was reported as soon as its two bytes were there, so ESC O P
came out as M-O and a plain P. M-y stopped the range of characters early, so
ESC { stayed in the input buffer and swallowed every key after it. Popping
from the input buffer now removes just the bytes that were decoded.
---
 stdlib_modules/term/TermApp.nuj | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stdlib_modules/term/TermApp.nuj b/stdlib_modules/term/TermApp.nuj
index 0f3dfb8..3aab02e 100644
--- a/stdlib_modules/term/TermApp.nuj
+++ b/stdlib_modules/term/TermApp.nuj
@@ -112,12 +112,12 @@
 
   (defn pop-input-buffer! (self bytes)
         (dotimes (i (:length self.input-buffer))
-          (def src-pos (+ i self.input-buffer-pos))
+          (def src-pos (+ i bytes))
           (def src-key (if (< src-pos (:length self.input-buffer))
-                           (ref self.input-buffer (+ i self.input-buffer-pos))
+                           (ref self.input-buffer src-pos)
                            0))
           (set! self.input-buffer i src-key))
-        (set! self.input-buffer-pos 0)
+        (set! self.input-buffer-pos (max 0 (- self.input-buffer-pos bytes)))
         (return self))
 
   (defn add-input-event (self event)
@@ -155,6 +155,8 @@
             (return (:parse-input-buffer self)))
           (when (= d 79) ; F Input
             (def e (ref self.input-buffer 2))
+            (when (= e 0)
+              (return))
             (when (and (>= e 80) (< e 92))
               (def key (:keyword (fmt "F{}" (- e 79))))
               (:add-input-event self { :T :key-down :key key })
@@ -216,7 +218,7 @@
             (:add-input-event self { :T :key-down :key key })
             (:pop-input-buffer! self 2)
             (return (:parse-input-buffer self)))
-          (when (and (>= d #x20) (< d #x79))
+          (when (and (>= d #x20) (< d #x7F))
             (def key (:keyword (fmt "M-{}" (from-char-code d))))
             (:add-input-event self { :T :key-down :key key })
             (:pop-input-buffer! self 2)
-- 
2.43.0


From f5cea6a7e580c4a9dbcf683f368560deba365bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 46/60] fix: terminal events are reported in the order they
 were typed

The queue was last in first out, so the two events a single byte can complete
came out swapped, and what an application left in the queue stayed there for
ever. The editor now handles all events that are there.
---
 stdlib_modules/app/termed.nuj   | 4 ++--
 stdlib_modules/term/TermApp.nuj | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib_modules/app/termed.nuj b/stdlib_modules/app/termed.nuj
index 25f1607..66a55f9 100644
--- a/stdlib_modules/app/termed.nuj
+++ b/stdlib_modules/app/termed.nuj
@@ -126,8 +126,8 @@
 
 (defn read-input ()
       (:poll-input term)
-      (def e (:get-events term))
-      (when e
+      (def e #nil)
+      (while (set! e (:get-events term))
         (case e.T
               (:key-down (handle-key-down e.key))
               (:input (if cx-active
diff --git a/stdlib_modules/term/TermApp.nuj b/stdlib_modules/term/TermApp.nuj
index 3aab02e..def61da 100644
--- a/stdlib_modules/term/TermApp.nuj
+++ b/stdlib_modules/term/TermApp.nuj
@@ -121,7 +121,7 @@
         (return self))
 
   (defn add-input-event (self event)
-        (set! self.event-queue (cons event self.event-queue)))
+        (set! self.event-queue (append self.event-queue (cons event #nil))))
 
   (defn parse-input-buffer (self)
         (when (zero? self.input-buffer-pos) (return))
-- 
2.43.0


From cfe1d4594314573b5f4c95d78758239ee05dc206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 47/60] fix: building the image fails when the image cannot be
 written

---
 tools/build-image.nuj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/build-image.nuj b/tools/build-image.nuj
index 8afb4ce..452210f 100644
--- a/tools/build-image.nuj
+++ b/tools/build-image.nuj
@@ -49,6 +49,8 @@
     (for-each compile-module-in-env))
 
 (def img (image/serialize (ref env :init)))
+(when-not (file/write img output-file)
+  (efmtln "Couldn't write the image to {output-file}")
+  (exit 1))
 (pfmtln "{} Final size: {}KB" (green "Image built successfully!") (/ (:length img) 1024))
-(file/write img output-file)
 (exit 0)
-- 
2.43.0


From 573c52e163a0b1f2da0daa1bb830457f60615606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 48/60] fix: backspace at the start of the text changes nothing
 in the editor

---
 stdlib_modules/app/termed/buffer.nuj | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stdlib_modules/app/termed/buffer.nuj b/stdlib_modules/app/termed/buffer.nuj
index c93d6e8..b10fcf6 100644
--- a/stdlib_modules/app/termed/buffer.nuj
+++ b/stdlib_modules/app/termed/buffer.nuj
@@ -137,6 +137,7 @@
         (:length! lines (max 0 ll)))
 
   (defn backward-delete-line (self)
+        (when (< self.pos-y 1) (return))
         (def clipboard (:kill-line self))
         (:remove-line self)
         (set! self.pos-y (- self.pos-y 1))
-- 
2.43.0


From 9e8015cab3132060eb67c2d294f50cfb4642ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:06 +0000
Subject: [PATCH 49/60] fix: the marked region is not painted past the end of a
 line in the editor

---
 stdlib_modules/app/termed.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib_modules/app/termed.nuj b/stdlib_modules/app/termed.nuj
index 66a55f9..c151481 100644
--- a/stdlib_modules/app/termed.nuj
+++ b/stdlib_modules/app/termed.nuj
@@ -75,7 +75,7 @@
                                             (not (zero? c)))
                                        #x34 #xFF))
                      (:draw-char term (if (zero? c) #x20 c) (+ 6 term-x i) term-y color))
-                   (:draw-char term #x20 (+ 6 term-x i) term-y color))))
+                   (:draw-char term #x20 (+ 6 term-x i) term-y #xFF))))
 
 (defn draw-buffer (buf x y w h)
       (dotimes (cy h)
-- 
2.43.0


From 39df3fb7c8924e4f27e94cf6c50a9b7a02ba186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 50/60] fix: check indices beyond 32 bits, and don't walk past
 the end of a list

---
 lib/generic.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/generic.c b/lib/generic.c
index ad7cc33..66ec8ad 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -45,22 +45,22 @@ lVal lGenericRef(lVal col, lVal key){
 	switch(col.type){
 	case ltPair:
 		reqNaturalInt(key);
-		for(int i=0;i<key.vInt;i++){
+		for(i64 i=0;(i<key.vInt) && (col.type == ltPair);i++){
 			col = lCdr(col);
 		}
 		return lCar(col);
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		return lValInt(arr->data[i]); }
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
@@ -166,8 +166,8 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		if(unlikely((v.type != ltInt))){
@@ -178,7 +178,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From 7c6e63e8635088f2e507820d3f18d8f944dc8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 51/60] fix: refuse to set! bytes of an immutable buffer

---
 lib/generic.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/generic.c b/lib/generic.c
index 66ec8ad..b695123 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -192,6 +192,9 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		if(unlikely(len <= i)){
 			return lValException(lSymOutOfBounds, "(ref) buffer index provided is out of bounds", col);
 		}
+		if(unlikely(col.vBuffer->flags & BUFFER_IMMUTABLE)){
+			return lValException(lSymTypeError, "Can only set! mutable buffers", col);
+		}
 		if(unlikely((v.type != ltInt))){
 			return lValException(lSymTypeError, "Can't set! a non int value into a BytecodeArray", v);
 		}
-- 
2.43.0


From 05f6f2eb9d9f8134b8a48fad2a8c2414a06d6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 52/60] fix: index-of and last-index-of only look within the
 string

---
 lib/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 6c5036c..f19b1ba 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -96,7 +96,7 @@ static lVal lnmStringIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, 0);
+	const i64 pos = MAX(0, castToInt(start, 0));
 	if(pos > haystackLength-needleLength){return lValInt(-3);}
 	/* Empty strings just return the current position, this is so we can
 	 * split an empty string into each character by passing an empty string
@@ -120,8 +120,9 @@ static lVal lnmStringLastIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, haystackLength - needleLength);
+	const i64 pos = MIN(haystackLength - needleLength, castToInt(start, haystackLength - needleLength));
 
+	if(pos < 0){return lValInt(-1);}
 	for(const char *s = &haystack[pos]; s >= haystack; s--){
 		if(strncmp(s,needle,needleLength)){continue;}
 		return lValInt(s-haystack);
-- 
2.43.0


From 41bdcc27a6af5879f71aed9b1882d84fce760ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 53/60] fix: refuse to turn what is before a buffer into a
 string

---
 lib/buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/buffer.c b/lib/buffer.c
index 5627659..7fe4ae8 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -86,6 +86,9 @@ static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	reqBuffer(a);
 	const i64 length = MIN(a.vBuffer->length, castToInt(aLength, a.vBuffer->length));
 	i64 offset = aOffset.type == ltInt ? aOffset.vInt : 0;
+	if(unlikely(offset < 0)){
+		return lValException(lSymOutOfBounds, "Offset has to be at least 0", aOffset);
+	}
 	if(unlikely(offset > length)){
 		return lValString("");
 	}
-- 
2.43.0


From 2836e1568e449ccafdd813032967f4d75bd61566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 54/60] fix: a line ending in the dot of a dotted pair
 continues on the next one

---
 lib/reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/reader.c b/lib/reader.c
index b823f41..9bc1be0 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -435,6 +435,10 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 		}else if(unlikely(isClosingChar(c))){
 			return lValExceptionReader(s, "Unmatched closing char");
 		}else{
+			if(unlikely((c == '.') && (s->data + 1 >= s->bufEnd) && !rootForm)){
+				s->data++;
+				return lValExceptionReaderCustom(s, "Unmatched opening bracket", lSymUnmatchedOpeningBracket);
+			}
 			const u8 next = s->data[1];
 			if((c == '.') && (isspace(next) || isnonsymbol(next))){
 				if(unlikely(v.type == ltNil)){
-- 
2.43.0


From 9429dfea6057f04d7efd4764475301aebe5113f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 55/60] fix: a comment after the dot of a dotted pair runs to
 the end of its line only

---
 lib/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/reader.c b/lib/reader.c
index 9bc1be0..2f99b6b 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -539,6 +539,7 @@ static lVal lReadValue(lReadContext *s){
 		return lParseSpecial(s);
 	case ';':
 		lStringAdvanceToNextLine(s);
+		lStringAdvanceToNextCharacter(s);
 		return lReadValue(s);
 	default:
 		if((isdigit((u8)c)) || ((c == '-') && isdigit(((u8 *)s->data)[1]))){
-- 
2.43.0


From a8b662e81eabc5a12dce4edceb1b5412ec106e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 56/60] fix: environment entries without a value are no reason
 to read past their end

---
 bin/environment.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/environment.c b/bin/environment.c
index 890161d..9d6fdd3 100644
--- a/bin/environment.c
+++ b/bin/environment.c
@@ -11,7 +11,8 @@
 /* Add environment key/value pair to tree T */
 static lTree *addVar(const char *e, lTree *t){
 	int endOfKey, endOfString;
-	for(endOfKey=0;e[endOfKey] != '=';endOfKey++){}
+	for(endOfKey=0;e[endOfKey] && (e[endOfKey] != '=');endOfKey++){}
+	if(e[endOfKey] == 0){return t;} // Not a key/value pair
 	for(endOfString=endOfKey+1;e[endOfString];endOfString++){}
 	lSymbol *sym = lSymSL(e,endOfKey);
 	lVal v = lValString(&e[endOfKey+1]);
-- 
2.43.0


From 8bcb9a602555502ebde75b5f1b8ba3850e10698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 57/60] fix: The Gopher browser dies when a link leads to
 anything but a menu or a text

---
 stdlib_modules/app/gopher.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib_modules/app/gopher.nuj b/stdlib_modules/app/gopher.nuj
index 1da4d76..8ec94eb 100644
--- a/stdlib_modules/app/gopher.nuj
+++ b/stdlib_modules/app/gopher.nuj
@@ -207,7 +207,7 @@
                   (doseq (e page.data)
                          (when (not= :i e.type)
                            (return (set! page.item e)))))
-                (when (= page.type :0)
+                (when (string? page.data)
                   (set! page.data (split page.data "\n")))))
 
 (defn get-item-pos (page)
-- 
2.43.0


From 7537e068a7ddade35283f646b33c7cbe9eef893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 58/60] fix: The Gopher browser dies when a page can't be
 loaded

---
 stdlib_modules/app/gopher.nuj | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stdlib_modules/app/gopher.nuj b/stdlib_modules/app/gopher.nuj
index 8ec94eb..d399baf 100644
--- a/stdlib_modules/app/gopher.nuj
+++ b/stdlib_modules/app/gopher.nuj
@@ -200,9 +200,16 @@
             ((#\q #\Q) (quit))
             (#x18 (read-cx-input))))
 
+(defn load-data (page)
+      "Return the contents of PAGE, or a note that it couldn't be loaded"
+      (try (fn (err)
+             (def note (fmt "Couldn't load {}: {}" page.url (string/write (car err))))
+             (list (if (= page.type :1) { :type :i :display note } note)))
+           (get page.url page.type)))
+
 (defn get-data (page)
       (when-not page.data
-                (set! page.data (get page.url page.type))
+                (set! page.data (load-data page))
                 (when (= page.type :1)
                   (doseq (e page.data)
                          (when (not= :i e.type)
-- 
2.43.0


From 21a144346f6c39f50109688fd3e5a810213dba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 59/60] fix: reading or loading many values at once exhausts
 the heap although it is mostly garbage

---
 lib/allocator.c          |  3 ++-
 lib/garbage-collection.c | 11 +++++++++++
 lib/nujel-private.h      |  2 ++
 lib/symbol.c             |  3 ++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 92d9c5c..301b3e4 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -10,6 +10,7 @@ bool lGCShouldRunSoon = false;
 T T##List[typeMax]; \
 uint T##Max = 0; \
 uint T##Active = 0; \
+uint T##Reserve = typeMax / 4; \
 T * T##FFree = NULL; \
 T * T##AllocRaw (){\
 	T *ret;\
@@ -24,7 +25,7 @@ T * T##AllocRaw (){\
 		ret = T ## FFree;\
 		(T##FFree) = ret->nextFree;\
 	}\
-	if(unlikely((typeMax - (++T##Active) < 128))){lGCShouldRunSoon = true;} \
+	if(unlikely((typeMax - (++T##Active)) < T##Reserve)){lGCShouldRunSoon = true;} \
 	T##MarkMap[ret - T##List] = 0;\
 	memset(ret,0,sizeof(T));\
 	return ret;\
diff --git a/lib/garbage-collection.c b/lib/garbage-collection.c
index a105907..06a4e12 100644
--- a/lib/garbage-collection.c
+++ b/lib/garbage-collection.c
@@ -255,6 +255,16 @@ static void lGCSweep(){
 	#undef defineAllocator
 }
 
+/* Native functions can't be interrupted by a collection, so the next one has to
+ * happen while there is still enough left for them, without collecting all the
+ * time if there is little to be had */
+static void lGCReserve(){
+	#define defineAllocator(T, TMAX) T##Reserve = (TMAX - T##Active) > 256 ? (TMAX - T##Active) / 2 : 128;
+	allocatorTypes()
+	defineAllocator(lSymbol, SYM_MAX)
+	#undef defineAllocator
+}
+
 /* Force a garbage collection cycle, shouldn't need to be called manually since
  * when the heap is exhausted the GC is run */
 void lGarbageCollect(lThread *ctx){
@@ -263,5 +273,6 @@ void lGarbageCollect(lThread *ctx){
 	lThreadGCMark(ctx);
 
 	lGCSweep();
+	lGCReserve();
 	lGCShouldRunSoon = false;
 }
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index d09eab9..5f61470 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -317,6 +317,7 @@ void lGarbageCollect(lThread *ctx);
 extern T T##List[typeMax]; \
 extern uint T##Max;	   \
 extern uint T##Active; \
+extern uint T##Reserve; \
 extern u8 T##MarkMap[typeMax]; \
 extern T * T##FFree; \
 T * T##AllocRaw();
@@ -343,6 +344,7 @@ static inline int lNFuncID(const lNFunc *n){
 extern lSymbol  lSymbolList [SYM_MAX];
 extern lSymbol *lSymbolFFree;
 extern uint     lSymbolActive;
+extern uint     lSymbolReserve;
 extern uint     lSymbolMax;
 
 extern lSymbol *symType;
diff --git a/lib/symbol.c b/lib/symbol.c
index aa0b43d..0d7f004 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -8,6 +8,7 @@
 
 lSymbol  lSymbolList[SYM_MAX];
 uint     lSymbolActive = 0;
+uint     lSymbolReserve = SYM_MAX / 4;
 uint     lSymbolMax    = 0;
 lSymbol *lSymbolFFree = NULL;
 
@@ -238,7 +239,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	if(unlikely((SYM_MAX - (++lSymbolActive)) < 128)){lGCShouldRunSoon = true;}
+	if(unlikely((SYM_MAX - (++lSymbolActive)) < lSymbolReserve)){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From ec378d97279a1e41a49ae22c6e95343362bcf65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:01 +0000
Subject: [PATCH 60/60] fix: printing a float of 10^24 or more overflows the
 buffer on the stack

---
 lib/core-operators.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index e9d0805..2adbbab 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -141,9 +141,9 @@ static lVal lnfIntToString(lVal a){
 }
 
 static lVal lnfFloatToString(lVal a){
-	char buf[32];
+	char buf[384]; // The biggest ones have more than 300 digits
 	int snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);
-	if(snret < 0){
+	if((snret < 0) || (snret >= (int)sizeof(buf))){
 		return lValException(lSymIOError, "Unprintable flonum", a);
 	}
 	buf[snret--] = 0;
-- 
2.43.0

