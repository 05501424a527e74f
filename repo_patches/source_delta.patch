From fdc09d182011c1c139498dea90edde4c31a557b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 01/35] fix: lst_truncate counts the elements it keeps

The loop looking for the new last element never advanced its counter, so
truncating to two or more elements ran off the end of the list.
---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..48cd7c6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; i++, d = d->next);
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From fb09fc947c8b369fc62ecc7bb21c07ac48ccd6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 02/35] fix: mem_strncpy terminates its copy and reads only the
 given bytes

It copied len + 1 bytes of the source instead of len bytes and a NUL.
---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..b9289bc 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = '\0';
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From 60c92dc353d9927ad9f3088159cab0ef3aed6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 03/35] fix: create the global string pool in str_exists and
 str_copyn

str_exists, str_copyn and str_unique dereferenced a null pool when they were the first
use of the global string pool.
---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index 97cfe97..fd256b5 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -287,6 +287,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -335,6 +336,7 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
 }
 
-- 
2.43.0


From 1ee5ec17c977bd3d870cc6edab4bc73ce35ff43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 04/35] fix: str_pool_finish returns the string already in the
 pool

A grown string that equals a stored one was answered with a second copy
instead of the pointer str_pool_find gives.
---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index fd256b5..eff8f65 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -221,9 +221,11 @@ const char *str_pool_finish( str_Pool pool )
 {
 	poolInfo   p      = (poolInfo)pool;
 	const char *datum;
+	const char *found;
 
 	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
 	datum = mem_finish( p->string );
+	if ((found = hsh_retrieve( p->hash, datum ))) return found;
 	hsh_insert( p->hash, datum, datum );
 
 	return datum;
-- 
2.43.0


From d9e245c297ca6b7a3f7cf1c1e7aaeec016dc5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 05/35] fix: str_pool_iterate leaves the pool writable when
 stopped early

The table stayed read-only after the callback ended the iteration, so that
the next new string was fatal.
---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index eff8f65..c2607aa 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From bfe506d9dcc16dde357c6f00495bca27aec25748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 06/35] fix: check handles before using what they designate

hsh_insert, hsh_delete, hsh_retrieve, set_insert, set_delete, set_member and
mem_get_object read through the handle before checking it, so that a null,
destroyed or foreign handle crashed instead of being reported.
---
 maa/hash.c   | 9 ++++++---
 maa/memory.c | 3 ++-
 maa/set.c    | 9 ++++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..5f6474e 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -219,10 +219,11 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
+	hashValue = t->hash(key);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
    
@@ -268,9 +269,10 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
@@ -301,9 +303,10 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
diff --git a/maa/memory.c b/maa/memory.c
index b9289bc..79ac7bf 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -304,10 +304,11 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
 
+	obj = stk_pop(i->stack);
 	if (!obj) {
 		obj = xmalloc(i->size);
 		stk_push(i->allocated, obj);
diff --git a/maa/set.c b/maa/set.c
index c338d15..0635439 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,10 +226,11 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
+	hashValue = t->hash(elem);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
    
@@ -274,9 +275,10 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
    
@@ -305,9 +307,10 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
-- 
2.43.0


From 208e5e224e3486e23988dc568518fab4350cdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 07/35] fix: stk_push reports running out of memory

It used the result of malloc without checking it.
---
 maa/stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..1f34c98 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = (dataType)xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
-- 
2.43.0


From 242f766004eabb2b01b07bf3d64d233c9c918c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 08/35] fix: err_fatal_errno without a routine prints no null
 string

---
 maa/error.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maa/error.c b/maa/error.c
index de30f4d..e5cb85d 100644
--- a/maa/error.c
+++ b/maa/error.c
@@ -126,8 +126,13 @@ void err_fatal_errno(const char *routine, const char *format, ...)
 
 	va_end(ap);
 
-	fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
-	log_error(routine, "%s: %s", routine, strerror(errorno));
+	if (routine) {
+		fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
+		log_error(routine, "%s: %s", routine, strerror(errorno));
+	} else {
+		fprintf(stderr, " %s\n", strerror(errorno));
+		log_error(routine, "%s", strerror(errorno));
+	}
    
 	fflush(stderr);
 	fflush(stdout);
-- 
2.43.0


From 0d7e0bb39e20bbb2fc25b7d665f69fd2d1f6d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 09/35] fix: log_file with a name that expands to nothing
 opened no file

---
 maa/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..1f6733f 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -209,7 +209,7 @@ static void _log_check_filename(void)
 	tm = localtime(&t);
    
 	strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm);
-	if (strcmp(logFilenameTmp, logFilename)) {
+	if (logFd < 0 || strcmp(logFilenameTmp, logFilename)) {
 		strcpy(logFilename, logFilenameTmp);
 		if (logFd >= 0) close(logFd);
 		log_mkpath(logFilename);
-- 
2.43.0


From 0f6212ea22064f296487ca68b1d69e24032e0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 10/35] fix: flags of the third set are tested in their own set

---
 maa/debug.c | 2 +-
 maa/flags.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..456ff50 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,7 +38,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? (((flags)>>30) & 1                              \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..bb8aa77 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,7 +37,7 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? (((flags)>>30) & 1                              \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
 			 : (((flags)>>30)                                  \
-- 
2.43.0


From ea953ace3a6d86484b7798e29821e75bf968adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 11/35] fix: a flag that is already used cannot be registered
 again

---
 maa/debug.c | 1 +
 maa/flags.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/debug.c b/maa/debug.c
index 456ff50..0d22f14 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -101,6 +101,7 @@ void _dbg_register(dbg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |dbg_register| is used to set up an asociated between a |flag| and
diff --git a/maa/flags.c b/maa/flags.c
index bb8aa77..1850fa3 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -101,6 +101,7 @@ void flg_register(flg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |flg_set| sets the |name| flag.  If |name| is ``none,'' then all
-- 
2.43.0


From 5ec93317e09cba0e96e72173bdc4a9d44d1e1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 12/35] fix: dbg_set refuses unknown names with any first
 character

---
 maa/debug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index 0d22f14..6808520 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -142,9 +142,8 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
 	 
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
-- 
2.43.0


From aa58138bf12c6ff45692a11625074a397c594a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 13/35] fix: timers keep their sub-second part

---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From 8640d011b51354fbee2bae5cb70571db06e21f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 14/35] fix: bit_tst reports bits beyond the width of int

---
 maa/bit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/bit.c b/maa/bit.c
index 20dc204..d1b7299 100644
--- a/maa/bit.c
+++ b/maa/bit.c
@@ -50,7 +50,7 @@ void bit_clr(unsigned long *flags, int bit)
 
 int bit_tst(unsigned long *flags, int bit)
 {
-	return (*flags & (1UL << bit));
+	return (*flags & (1UL << bit)) != 0;
 }
 
 /* \doc Return a count of the number of bits set in |flags|. */
-- 
2.43.0


From 582fe3f2ee39c39df68f14093f395bde81f11d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 15/35] fix: set_add and set_del work with a set and itself

---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index 0635439..023e7d8 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -502,6 +502,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 		err_fatal(__func__,
 				  "Sets do not have identical comparison functions");
 
+	if (t1 == t2) return set1;	/* nothing to add */
+
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
@@ -540,9 +542,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next; /* pt goes when set1 is set2 */
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From 0a99860abf29ecc9a3d7d79809c366ee3741cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 16/35] fix: src_print_error writes to stdout when the stream
 is NULL

---
 maa/source.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..da5ad6d 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -403,10 +403,11 @@ void src_parse_error(FILE *stream, src_Type source, const char *message)
    by the line of source code specified by |source|.  If |stream| is
    "NULL", then "stdout" will be used. */
 
-void src_print_error(FILE *str, src_Type source, const char *format, ...)
+void src_print_error(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
-	sourceType *s = (sourceType *)source;
+	sourceType *s   = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
-- 
2.43.0


From bd206ca253222f578a819bb973e8088e249aca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 17/35] fix: src_parse_error stays inside its buffer and the
 message

---
 maa/source.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index da5ad6d..33a8c04 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -327,12 +327,14 @@ static void _src_print_yyerror(FILE *str, const char *message)
 				fprintf(str, "`%c'", pt[2]);
 				pt += 4;
 			} else if (pt[1] == 'T' && pt[2] == '_') { /* replace symbols */
-				for (b = buf, ++pt; *pt && *pt != '\''; b++, pt++) *b = *pt;
+				for (b = buf, ++pt; *pt && *pt != '\''; pt++)
+					if (b < buf + sizeof(buf) - 1) *b++ = *pt;
 				*b = '\0';
 				if ((concrete = prs_concrete(buf)))
 					fprintf(str, "`%s'", concrete);
 				else
 					fprintf(str, "`%s'", buf);
+				if (!*pt) break;	/* unterminated symbol */
 			} else
 				putc(*pt, str);
 		} else
-- 
2.43.0


From 75bb93342eca75ea68db7e28cefa3b94017c4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 18/35] fix: src_destroy resets the source manager for its next
 use

---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 33a8c04..d3ea25a 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Count = Used = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From 9869adb2f5e72a180c906dc56e36ff8d134b1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 19/35] fix: maa_shutdown drops the concrete forms before their
 strings

The table of prs_register_concrete keeps strings of the global pool, which
maa_shutdown releases; _prs_shutdown left its own table dangling.
---
 maa/maa.c            | 1 +
 maa/parse-concrete.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..4025563 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();	/* its symbols are in the string pool */
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From c9d61fe97adc6bba0d3d6c4cca11c3960f7ceff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 20/35] fix: maa_shutdown destroys the source manager before
 its file names

Positions and the current file refer to strings of the global pool, which
maa_shutdown releases.
---
 maa/maa.c    | 3 ++-
 maa/source.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/maa/maa.c b/maa/maa.c
index 4025563..3543916 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,7 +56,8 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
-	_prs_shutdown();	/* its symbols are in the string pool */
+	_prs_shutdown();	/* its symbols are in the string pool, */
+	src_destroy();		/* and the file names of its positions */
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
diff --git a/maa/source.c b/maa/source.c
index d3ea25a..829c662 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -74,13 +74,13 @@ void src_create(void)
 
 void src_destroy(void)
 {
+	memset(&Info, 0, sizeof(Info));
 	if (!Lines) return;
 	mem_destroy_objects(InfoHeap);
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
 	Count = Used = 0;
-	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From 46720e97d0979b4a71ea4fe0d4e61b43d589c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:11 +0000
Subject: [PATCH 21/35] fix: log keeps its own copies of the ident and of the
 file name

They were strings of the global pool, which maa_shutdown releases while the
log may stay open.
---
 maa/log.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 1f6733f..e6ef36f 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -45,8 +45,8 @@ static int        inhibitFull = 0;
 static int        logOpen;
 static int        logFacility = LOG_USER;
 
-static const char *logIdent;
-static const char *logFilenameOrig;
+static char       *logIdent;
+static char       *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
 static int        logFilenameLen;
@@ -135,6 +135,14 @@ static void _log_set_hostname(void)
 	}
 }
 
+static void _log_set_ident(const char *ident)
+{
+	char *copy = xstrdup(ident);
+
+	if (logIdent) xfree(logIdent);
+	logIdent = copy;
+}
+
 void log_set_facility(const char *facility)
 {
 	CODE *pt;
@@ -227,8 +235,8 @@ void log_file(const char *ident, const char *filename)
 						  "Log file \"%s\" open when trying to open \"%s\"",
 						  logFilename, filename);
 
-		logIdent        = str_find(ident);
-		logFilenameOrig = str_find(filename);
+		_log_set_ident(ident);
+		logFilenameOrig = xstrdup(filename);
 		logFilenameLen  = strlen(filename)*3+1024;
 		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
@@ -251,6 +259,9 @@ void log_file(const char *ident, const char *filename)
 		if (logFilenameTmp) xfree (logFilenameTmp);
 		logFilenameTmp = NULL;
 
+		if (logFilenameOrig) xfree (logFilenameOrig);
+		logFilenameOrig = NULL;
+
 		logFilenameLen = 0;
 
 		--logOpen;
@@ -264,8 +275,8 @@ void log_stream(const char *ident, FILE *stream)
 			err_internal(__func__, "User stream already open");
 
 		logUserStream = stream;
-		logIdent      = str_find(ident);
 
+		_log_set_ident(ident);
 		_log_set_hostname();
 		++logOpen;
 	}else{
-- 
2.43.0


From 69b96a9e1ad6feda11584f7b6848bb0980265653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 22/35] fix: maa_shutdown releases the string pool last

tim_stop compares the names of timers, which may be interned strings.
---
 maa/maa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/maa.c b/maa/maa.c
index 3543916..35dc4f0 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -58,7 +58,6 @@ void maa_shutdown(void)
 	_pr_shutdown();
 	_prs_shutdown();	/* its symbols are in the string pool, */
 	src_destroy();		/* and the file names of its positions */
-	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
 
@@ -69,6 +68,7 @@ void maa_shutdown(void)
 	_tim_shutdown();
 	flg_destroy();
 	dbg_destroy();
+	str_destroy();		/* last: timers may be named by its strings */
 }
 
 int maa_version_major(void)
-- 
2.43.0


From 4117ab1b59243e0d19a64e67362eebd9142eab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 23/35] fix: a child keeps a descriptor that is already its
 standard stream

---
 maa/pr.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..70ff042 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -166,12 +166,16 @@ int pr_open2(const char *command, void(*callback)(void),
 #define CHILD(CREATE,USE,fds,writefd,readfd,fd,FILENO,flag)		\
 		if (flags & CREATE) {									\
 			close(fds[writefd]);                                \
-			dup2(fds[readfd], FILENO);                          \
-			close(fds[readfd]);                                 \
+			if (fds[readfd] != FILENO) {                        \
+				dup2(fds[readfd], FILENO);                      \
+				close(fds[readfd]);                             \
+			}                                                   \
 		} else if (flags & USE) {								\
 			if (fd && *fd) {									\
-				dup2(*fd, FILENO);								\
-				close(*fd);										\
+				if (*fd != FILENO) {							\
+					dup2(*fd, FILENO);							\
+					close(*fd);									\
+				}												\
 			} else {											\
 				if ((null = open("/dev/null", flag)) >= 0) {	\
 					dup2(null, FILENO);							\
-- 
2.43.0


From f7dd23504bb513183d5cccd6199131b5fb41cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 24/35] fix: maa_shutdown kills each child process once

---
 maa/pr.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 70ff042..5a2de8c 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -98,9 +98,16 @@ void _pr_shutdown(void)
 		for (i = 0; i < max_fd(); i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
-				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
-				pr_wait(_pr_objects[i].pid);
-				_pr_objects[i].pid = 0;
+				int pid = _pr_objects[i].pid;
+				int j;
+
+				kill(pid, SIGKILL); /* FIXME! be gentler. */
+				pr_wait(pid);
+				/* A process may own several descriptors, and the
+				   pid may be reused once it has been waited for. */
+				for (j = i; j < max_fd(); j++)
+					if (_pr_objects[j].pid == pid)
+						_pr_objects[j].pid = 0;
 			}
 		}
 		xfree(_pr_objects);
-- 
2.43.0


From fe85281a75b4f30be5068a676b438f822e96e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 25/35] fix: pr_readwrite closes the input of a filter that is
 given no bytes

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 5a2de8c..a7c654f 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -327,6 +327,11 @@ int pr_readwrite(int in, int out,
 
 	n = max(in, out) + 1;
 
+	if (!inLen) {
+		pr_close_nowait(in);
+		n = out + 1;
+	}
+
 	for (;;) {
 		tv.tv_sec  = 5;
 		tv.tv_usec = 0;
-- 
2.43.0


From e2ca893df03846da859db6373cf6203d4c9ac314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 26/35] fix: pr_readwrite notices output that does not fit a
 full buffer

---
 maa/pr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index a7c654f..eaf4b32 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -306,6 +306,7 @@ int pr_readwrite(int in, int out,
 	int            count;
 	int            retval;
 	int            status;
+	char           extra;
    
 	if ((flags = fcntl(in, F_GETFL)) < 0)
 		err_fatal_errno(__func__, "Can't get flags for output stream");
@@ -375,7 +376,13 @@ int pr_readwrite(int in, int out,
 						}
 					}
 				}
-				if ((count = read(out, outPt, outMaxLen)) <= 0) {
+				/* When the buffer is full, a read of 0 bytes would look
+				   like the end of the output. */
+				if (outMaxLen)
+					count = read(out, outPt, outMaxLen);
+				else
+					count = read(out, &extra, 1);
+				if (count <= 0) {
 					if (!count) {
 						if (inLen)
 							err_fatal(__func__,
-- 
2.43.0


From 9893b1dc737465774c1a259625ae71f2510107c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 27/35] fix: pr_readwrite goes on after a signal

---
 maa/pr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index eaf4b32..d65a558 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -348,7 +348,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno != EINTR)
+					err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
@@ -364,7 +367,7 @@ int pr_readwrite(int in, int out,
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
-						if (errno != EAGAIN)
+						if (errno != EAGAIN && errno != EINTR)
 							err_fatal_errno(__func__, "Error writing to filter");
 					} else {
 						PRINTF(MAA_PR,("  wrote %d\n",count));
@@ -392,7 +395,7 @@ int pr_readwrite(int in, int out,
 										"Filter had non-zero exit status: 0x%x",
 										status);
 						return outLen;
-					} else if (errno != EAGAIN)
+					} else if (errno != EAGAIN && errno != EINTR)
 						err_fatal_errno(__func__, "Error reading from filter");
 				} else {
 					PRINTF(MAA_PR,("  read %d\n",count));
-- 
2.43.0


From a125c6848a71ef4619b2c8750bb361d3ddc9c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 28/35] fix: b26_decode is exact for values beyond INT_MAX

---
 maa/base26.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base26.c b/maa/base26.c
index 9e94027..4eb03b4 100644
--- a/maa/base26.c
+++ b/maa/base26.c
@@ -82,7 +82,7 @@ unsigned long b26_decode(const char *val)
 {
 	unsigned long v = 0;
 	int           i;
-	int           offset = 1;
+	unsigned long offset = 1;
 	int           len = strlen(val);
 
 	for (i = len - 1; i >= 0; i--) {
-- 
2.43.0


From b50dd0ec3ea2607c711fb2a056ae3845393e2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 29/35] fix: b64_decode is exact for values with bit 31 set

---
 maa/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base64.c b/maa/base64.c
index b864949..2ab9007 100644
--- a/maa/base64.c
+++ b/maa/base64.c
@@ -109,7 +109,7 @@ unsigned long b64_decode_buf(const char *val, size_t len)
 			err_internal(__func__,
 						 "Illegal character in base64 value: `%c'", val[i]);
 
-		v |= tmp << offset;
+		v |= (unsigned long)tmp << offset;
 		offset += 6;
 	}
 
-- 
2.43.0


From 18bb2dc01abe30419be6f9c45ffda07aef6ae832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 30/35] fix: str_pool_readonly protects the pool's own table

---
 maa/export.sym |  1 +
 maa/maa.h      |  2 +-
 maa/string.c   | 11 +++++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..4110580 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -118,6 +118,7 @@ str_pool_print_stats
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
+str_pool_readonly
 str_pool_iterate
 str_pool_iterate_arg
 str_exists
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..9647fea 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int        str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
diff --git a/maa/string.c b/maa/string.c
index c2607aa..2df3f39 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -176,6 +176,17 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+/* \doc |str_pool_readonly| sets the |readonly| flag of the hash table of
+   the |pool| to |flag| (see |hsh_readonly|), and returns its previous
+   value. */
+
+int str_pool_readonly (str_Pool pool, int flag)
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly (p -> hash, flag);
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0


From 31afb67ad7cde2435db39e78155fbeaef7020a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 31/35] fix: STR_ITERATE_END can be used

---
 maa/maa.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/maa.h b/maa/maa.h
index 9647fea..786e1e5 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
-- 
2.43.0


From 033f76b610d0d5e22d8ffb3d1ba6b869df319b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 32/35] fix: maa_revision_string, declared in maa.h, is defined

---
 maa/export.sym | 1 +
 maa/maa.c      | 6 ++++++
 maa/maa.h      | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/maa/export.sym b/maa/export.sym
index 4110580..431bb53 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -1,3 +1,4 @@
+maa_revision_string
 maa_init
 maa_shutdown
 maa_version_major
diff --git a/maa/maa.c b/maa/maa.c
index 35dc4f0..eb7f114 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -29,6 +29,12 @@
 #include "maaP.h"
 #include "maa.h"
 
+#define REVISION_(x)  #x
+#define REVISION(x)   REVISION_(x)
+
+const char *maa_revision_string = "Libmaa "
+	REVISION(MAA_MAJOR) "." REVISION(MAA_MINOR) "." REVISION(MAA_TEENY);
+
 /* \doc |maa_init| should be called at the start of "main()", and serves to
    initialize debugging and other support for \libmaa. */
 
diff --git a/maa/maa.h b/maa/maa.h
index 786e1e5..9ef4118 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -64,7 +64,7 @@
 #define SL_ENTRY_MAGIC_FREED    0xcadaefde
 #endif
 
-/* version.c */
+/* maa.c */
 
 extern const char *maa_revision_string;
 
-- 
2.43.0


From 6a7ea0fe494d0b5f06121174b35ede5164b2d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 33/35] fix: sl_create uses the datum as the key when no key
 function is given

---
 maa/sl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index fddfb56..2a5ccdd 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -169,6 +169,11 @@ static _sl_Entry _sl_create_entry(int maxLevel, const void *datum)
    pointer will be printed when necessary. */
 
 
+static const void *_sl_key(const void *datum)
+{
+	return datum;
+}
+
 sl_List sl_create(int (*compare)(const void *key1, const void *key2),
 				  const void *(*key)(const void *datum),
 				  const char *(*print)(const void *datum))
@@ -182,8 +187,6 @@ sl_List sl_create(int (*compare)(const void *key1, const void *key2),
 
 	if (!compare)
 		err_internal(__func__, "compare function is NULL");
-	if (!key)
-		err_internal(__func__, "key function is NULL");
 
 	l          = mem_get_object(_sl_Memory);
 #if MAA_MAGIC
@@ -192,7 +195,7 @@ sl_List sl_create(int (*compare)(const void *key1, const void *key2),
 	l->level   = 0;
 	l->head    = _sl_create_entry(_sl_MaxLevel, NULL);
 	l->compare = compare;
-	l->key     = key;
+	l->key     = key ? key : _sl_key;
 	l->print   = print;
 	l->count   = 0;
 
-- 
2.43.0


From 9568b13a527904d806f3800646befd37ae25ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 34/35] fix: iterating a skip list does not overflow the stack
 on long lists

---
 maa/sl.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index 2a5ccdd..e8f4498 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -402,13 +402,17 @@ int sl_iterate(sl_List list, sl_Iterator f)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *));
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i]))) return retcode;
+		if ((retcode = f(copy[i]))) {
+			xfree(copy);
+			return retcode;
+		}
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
@@ -439,14 +443,18 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *));
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		_sl_check_entry(pt, __func__);
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i], arg))) return retcode;
+		if ((retcode = f(copy[i], arg))) {
+			xfree(copy);
+			return retcode;
+		}
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
-- 
2.43.0


From 80d338435e59b09d80bb254ac81484395313afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:02 +0000
Subject: [PATCH 35/35] fix: a child keeps its standard streams when the caller
 has closed its own

With standard descriptors closed in the caller, an end of a pipe got
their number: it was closed again in the next child, overwritten while
the child set up its streams, or (/dev/null opened as descriptor 0)
closed right after it was opened.
---
 maa/pr.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index d65a558..6d50d12 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -116,6 +116,26 @@ void _pr_shutdown(void)
 }
 
 
+/* Like pipe(2), but never uses the descriptors of the standard streams:
+   the child assigns these, and the caller may have closed them. */
+
+static int _pr_pipe(int fds[2])
+{
+	int i;
+	int fd;
+
+	if (pipe(fds) < 0) return -1;
+	for (i = 0; i < 2; i++) {
+		if (fds[i] <= STDERR_FILENO) {
+			if ((fd = fcntl(fds[i], F_DUPFD, STDERR_FILENO + 1)) < 0)
+				return -1;
+			close(fds[i]);
+			fds[i] = fd;
+		}
+	}
+	return 0;
+}
+
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
 	return pr_open2(command, NULL, flags, infd, outfd, errfs);
@@ -154,11 +174,11 @@ int pr_open2(const char *command, void(*callback)(void),
 	arg_get_vector(list, &argc, &argv);
 	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argv[0], command));
 
-	if ((flags & PR_CREATE_STDIN) && pipe(fdin) < 0)
+	if ((flags & PR_CREATE_STDIN) && _pr_pipe(fdin) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdin");
-	if ((flags & PR_CREATE_STDOUT) && pipe(fdout) < 0)
+	if ((flags & PR_CREATE_STDOUT) && _pr_pipe(fdout) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdout");
-	if ((flags & PR_CREATE_STDERR) && pipe(fderr) < 0)
+	if ((flags & PR_CREATE_STDERR) && _pr_pipe(fderr) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stderr");
 
 	if ((pid = fork()) < 0)
@@ -184,7 +204,8 @@ int pr_open2(const char *command, void(*callback)(void),
 					close(*fd);									\
 				}												\
 			} else {											\
-				if ((null = open("/dev/null", flag)) >= 0) {	\
+				if ((null = open("/dev/null", flag)) >= 0		\
+					&& null != FILENO) {						\
 					dup2(null, FILENO);							\
 					close(null);								\
 				}												\
-- 
2.43.0

