From 9931202e52f890f15130a8dbebe86298d9a3e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 01/62] fix: wake every thread blocked in thpool_wait, not just
 one

---
 src/thread/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index ad47491..6d5f4bd 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -392,7 +392,7 @@ static void* thread_do(struct thread* thread_p){
 		pthread_mutex_lock(&thpool_p->thcount_lock);
 		thpool_p->num_threads_working--;
 		if (!thpool_p->num_threads_working) {
-			pthread_cond_signal(&thpool_p->threads_all_idle);
+			pthread_cond_broadcast(&thpool_p->threads_all_idle);
 		}
 		pthread_mutex_unlock(&thpool_p->thcount_lock);
 	}
-- 
2.43.0


From b6c8fd56315f0714dc0c43c23b18e5d327985786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 02/62] fix: thpool_init returns NULL instead of hanging when a
 thread cannot be made

---
 src/thread/thpool.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 6d5f4bd..92054bf 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -164,17 +164,25 @@ struct thpool_* thpool_init(int num_threads){
 	/* Thread init */
 	int n;
 	for (n=0; n<num_threads; n++){
-		thread_init(thpool_p, &thpool_p->threads[n], n);
+		if (thread_init(thpool_p, &thpool_p->threads[n], n) != 0) {
+			break;
+		}
 #if THPOOL_DEBUG
 			printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
 	}
 
 	/* Wait for threads to initialize */
-	while (thpool_p->num_threads_alive != num_threads) {
+	while (thpool_p->num_threads_alive != n) {
 		usleep(1000);
 	}
 
+	if (n != num_threads) {
+		/* not all threads could be made: take down those that were */
+		thpool_destroy(thpool_p);
+		return NULL;
+	}
+
 	return thpool_p;
 }
 
@@ -315,7 +323,12 @@ static int thread_init (thpool_* thpool_p, struct thread** thread_p, int id){
 	(*thread_p)->thpool_p = thpool_p;
 	(*thread_p)->id       = id;
 
-	pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p));
+	if (pthread_create(&(*thread_p)->pthread, NULL, (void * (*)(void *)) thread_do, (*thread_p)) != 0) {
+		err("thread_init(): Could not create thread\n");
+		free(*thread_p);
+		*thread_p = NULL;
+		return -1;
+	}
 	pthread_detach((*thread_p)->pthread);
 	return 0;
 }
-- 
2.43.0


From e3af53052f7149401b16f039e73506f2f2cc5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 03/62] fix: thpool_destroy must not free the pool while the
 last worker unlocks it

---
 src/thread/thpool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 92054bf..9f4570b 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -249,6 +249,10 @@ void thpool_destroy(thpool_* thpool_p){
 		sleep(1);
 	}
 
+	/* The last thread may still be about to release the lock */
+	pthread_mutex_lock(&thpool_p->thcount_lock);
+	pthread_mutex_unlock(&thpool_p->thcount_lock);
+
 	/* Job queue cleanup */
 	jobqueue_destroy(&thpool_p->jobqueue);
 	/* Deallocs */
-- 
2.43.0


From 56f588c6e647dd7d0a06226a155c818c7b5146fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 04/62] fix: creating a thread pool must not resume other
 paused pools

---
 src/thread/thpool.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 9f4570b..46cb960 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -124,7 +124,6 @@ static void  bsem_wait(struct bsem *bsem_p);
 /* Initialize thread pool */
 struct thpool_* thpool_init(int num_threads){
 
-	threads_on_hold   = 0;
 	//threads_keepalive = 1;
 
 	if (num_threads < 0){
-- 
2.43.0


From bd2f4ff3fa41429d9a5e866902e640bc74ec9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 05/62] fix: a pause signal delivered after thpool_resume must
 not stop the pool again

---
 src/thread/thpool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 46cb960..3305e22 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -268,7 +268,6 @@ void thpool_destroy(thpool_* thpool_p){
 /* Sets the calling thread on hold */
 static void thread_hold(int sig_id) {
 	(void)sig_id;
-	threads_on_hold = 1;
 	while (threads_on_hold) {
 		err("thread_hold(): thread(%ld) on sleep(1)...\n", (long)GETTID());
 		sleep(1);
@@ -279,6 +278,8 @@ static void thread_hold(int sig_id) {
 /* Pause all threads in threadpool */
 void thpool_pause(thpool_* thpool_p) {
 	int n;
+	/* set before signalling: a late signal must not undo a resume */
+	threads_on_hold = 1;
 	for (n=0; n < thpool_p->num_threads_alive; n++){
 		if (pthread_kill(thpool_p->threads[n]->pthread, SIGUSR1)) {
 			err("send SIGUSR1 signal to thread failed.\n");
-- 
2.43.0


From ad949a7e943a643c09b3234136efb2733d7e2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 06/62] fix: pausing a pool must not hold a worker that owns a
 pool lock

---
 src/thread/thpool.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 3305e22..4ed36e2 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -100,6 +100,9 @@ typedef struct thpool_{
 static int  thread_init(thpool_* thpool_p, struct thread** thread_p, int id);
 static void* thread_do(struct thread* thread_p);
 static void  thread_hold(int sig_id);
+#ifndef _WIN32
+static void  hold_signal_mask(int how, sigset_t* old_mask);
+#endif // !_WIN32
 static void  thread_destroy(struct thread* thread_p);
 
 static int   jobqueue_init(jobqueue* jobqueue_p);
@@ -205,7 +208,14 @@ int thpool_add_work(thpool_* thpool_p, void (*function_p)(void*), void* arg_p){
 	newjob->arg=arg_p;
 
 	/* add job to queue */
+#ifndef _WIN32
+	sigset_t old_mask; /* a job that adds work must not be held inside the queue */
+	hold_signal_mask(SIG_BLOCK, &old_mask);
+#endif // !_WIN32
 	jobqueue_push(&thpool_p->jobqueue, newjob);
+#ifndef _WIN32
+	pthread_sigmask(SIG_SETMASK, &old_mask, NULL);
+#endif // !_WIN32
 
 	return 0;
 }
@@ -265,6 +275,15 @@ void thpool_destroy(thpool_* thpool_p){
 
 #ifndef _WIN32
 
+/* Blocks or unblocks the pause signal: a thread must only be held
+ * where it holds no lock of the pool, or adding work would block */
+static void hold_signal_mask(int how, sigset_t* old_mask) {
+	sigset_t hold_set;
+	sigemptyset(&hold_set);
+	sigaddset(&hold_set, SIGUSR1);
+	pthread_sigmask(how, &hold_set, old_mask);
+}
+
 /* Sets the calling thread on hold */
 static void thread_hold(int sig_id) {
 	(void)sig_id;
@@ -376,6 +395,7 @@ static void* thread_do(struct thread* thread_p){
 	if (sigaction(SIGUSR1, &act, NULL) == -1) {
 		err("thread_do(): cannot handle SIGUSR1");
 	}
+	hold_signal_mask(SIG_BLOCK, NULL);
 #endif // !_WIN32
 
 	/* Mark thread as alive (initialized) */
@@ -391,6 +411,11 @@ static void* thread_do(struct thread* thread_p){
 			break;
 		}
 
+#ifndef _WIN32
+		hold_signal_mask(SIG_UNBLOCK, NULL); /* a pause takes effect here */
+		hold_signal_mask(SIG_BLOCK, NULL);
+#endif // !_WIN32
+
 		pthread_mutex_lock(&thpool_p->thcount_lock);
 		thpool_p->num_threads_working++;
 		pthread_mutex_unlock(&thpool_p->thcount_lock);
@@ -402,7 +427,13 @@ static void* thread_do(struct thread* thread_p){
 		if (job_p) {
 			func_buff = job_p->function;
 			arg_buff = job_p->arg;
+#ifndef _WIN32
+			hold_signal_mask(SIG_UNBLOCK, NULL);
+#endif // !_WIN32
 			func_buff(arg_buff);
+#ifndef _WIN32
+			hold_signal_mask(SIG_BLOCK, NULL);
+#endif // !_WIN32
 			free(job_p);
 		}
 
-- 
2.43.0


From fc77514f3694b0b8ef8f1dd73078023f94863dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 07/62] fix: portable_mutex_unlock reports an error on an
 uninitialised mutex

---
 src/thread/portable_thread_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/portable_thread_posix.c b/src/thread/portable_thread_posix.c
index 5b656ea..9709b1c 100644
--- a/src/thread/portable_thread_posix.c
+++ b/src/thread/portable_thread_posix.c
@@ -131,7 +131,7 @@ int portable_mutex_lock(portable_mutex_t* mutex)
 
 int portable_mutex_unlock(portable_mutex_t* mutex)
 {
-	if (NULL == mutex)
+	if (NULL == mutex || NULL == *mutex)
 	{
 		return -1;
 	}
-- 
2.43.0


From 13e918bb916fb19cc9924dfd8699684ea44824b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 08/62] fix: msg_queue_pop tells the caller the size of the
 popped message

---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..a087a99 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size; // tell caller the real size of popped msg
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From e37f461b510d04f188719d998d7b0c93e1f5b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 09/62] fix: msg_queue_destroy of a NULL queue must not crash

---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index a087a99..b6c8b51 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -120,7 +120,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !(*msg_queue_pp) || !((*msg_queue_pp)->ring_buf_p))
 	{
 		return;
 	}
-- 
2.43.0


From 163abd9a116bf8d5eba2c5205210d2e522cc5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 10/62] fix: a fixed_msg_queue must have room for
 max_msg_capacity messages

---
 src/ring/fixed_msg_queue.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ring/fixed_msg_queue.c b/src/ring/fixed_msg_queue.c
index ff41210..118b733 100644
--- a/src/ring/fixed_msg_queue.c
+++ b/src/ring/fixed_msg_queue.c
@@ -16,16 +16,19 @@ fixed_msg_queue fixed_msg_queue_create(__in uint32_t one_msg_byte_size,
     {
         return NULL;
     }
-    const size_t expect_mem_size = sizeof(struct _fixed_msg_queue_s) + one_msg_byte_size * max_msg_capacity;
-    char *raw_mem = (char *)malloc(expect_mem_size);
-    if (!raw_mem)
+    const uint64_t all_msg_byte_size = (uint64_t)one_msg_byte_size * max_msg_capacity;
+    if (all_msg_byte_size > (UINT32_MAX / 2U))
+    {
+        return NULL;
+    }
+    fixed_msg_queue msg_queue_p = (fixed_msg_queue)malloc(sizeof(struct _fixed_msg_queue_s));
+    if (!msg_queue_p)
     {
         return NULL;
     }
-    fixed_msg_queue msg_queue_p = (fixed_msg_queue)raw_mem;
     msg_queue_p->one_msg_byte_size = one_msg_byte_size;
-    msg_queue_p->ring_buf_p = RingBuffer_create_with_mem(raw_mem + sizeof(struct _fixed_msg_queue_s),
-        (uint32_t)(expect_mem_size - sizeof(struct _fixed_msg_queue_s)));
+    // RingBuffer_create round up the size, so "max_msg_capacity" msg always can be hold.
+    msg_queue_p->ring_buf_p = RingBuffer_create(all_msg_byte_size < 4U ? 4U : (uint32_t)all_msg_byte_size);
     if (!msg_queue_p->ring_buf_p)
     {
         free(msg_queue_p);
-- 
2.43.0


From 4661f3c3098ca34bc60533fdeb7907bbae71cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 11/62] fix: creating a message handler fails when its
 semaphore cannot be made

---
 src/ring/fixed_msg_queue_handler.c | 4 ++--
 src/ring/msg_queue_handler.c       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ring/fixed_msg_queue_handler.c b/src/ring/fixed_msg_queue_handler.c
index d543cef..2b0d7c7 100644
--- a/src/ring/fixed_msg_queue_handler.c
+++ b/src/ring/fixed_msg_queue_handler.c
@@ -94,9 +94,9 @@ fixed_msg_queue_handler fixed_msg_queue_handler_create(__in uint32_t max_msg_cap
 	memcpy(&handler->param, init_param_p, sizeof(fixed_msg_queue_handler_init_param_t));
 	handler->token_counter = 0;
 	handler->min_valid_token = 0;
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	const int sem_ret = portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = fixed_msg_queue_create(sizeof(fixed_handler_msg_t), max_msg_capacity);
-	if (!handler->msg_queue_p || 
+	if (0 != sem_ret || !handler->msg_queue_p || 
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_fun_handle_msg, handler))
 	{
 		LOGE("error on create thread or queue!");
diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 9ccc864..f8aa019 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -128,9 +128,9 @@ msg_queue_handler msg_queue_handler_create(__in uint32_t queue_buf_size,
 	}
 	handler->flag2exit = false;
 	memcpy(&(handler->param), param_p, sizeof(msg_queue_handler_init_param_t));
-	portable_sem_init(&(handler->semaphore), 0, 0);
+	const int sem_ret = portable_sem_init(&(handler->semaphore), 0, 0);
 	handler->msg_queue_p = msg_queue_create(queue_buf_size);
-	if (!handler->msg_queue_p ||
+	if (0 != sem_ret || !handler->msg_queue_p ||
 		0 != portable_thread_create(&(handler->thread_handler), NULL, thread_worker_handle_msg, handler))
 	{
 		LOGE("error on create thread or queue!");
-- 
2.43.0


From 033a4da4af391353621851b9ccfef0a9c2382851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 12/62] fix: str_char2hex must not write beyond its buffer when
 it truncates

---
 src/mem/strings.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..6acc28b 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -205,13 +205,18 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 
 	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
+		snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
+		len_hex_str = strlen(out_hex_str);
 		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
+		if (len_hex_str + ONE_HEX_STR_SIZE >= out_hex_str_capacity)
+		{
+			break; // no room for one more hex
+		}
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From 0cdd81bef9d8ca03f17f158fef929c9d3534a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 13/62] fix: a record below both the old and the new minimum
 level must not be logged while the level changes

---
 src/log/xlog.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 436cdfc..a8c3ecc 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -106,7 +106,13 @@ static portable_mutex_t g_xlog_mutex = NULL;
 #define XLOG_IS_ANDROID_LOGABLE             _XLOG_IS_TARGET_LOGABLE(LOG_TARGET_ANDROID)
 #define XLOG_IS_USER_CALLBACK_LOGABLE       _XLOG_IS_TARGET_LOGABLE(LOG_TARGET_USER_CALLBACK)
 
-#define XLOG_IS_LEVEL_LOGABLE(level) (g_xlog_cfg.target && g_xlog_cfg.min_level && level < LOG_LEVEL_UNKNOWN && level >= g_xlog_cfg.min_level)
+static inline bool xlog_is_level_logable(LogLevel level)
+{
+	// read min_level only once: it may be changed by another thread between two reads
+	const LogLevel min_level = g_xlog_cfg.min_level;
+	return g_xlog_cfg.target && min_level && level < LOG_LEVEL_UNKNOWN && level >= min_level;
+}
+#define XLOG_IS_LEVEL_LOGABLE(level) xlog_is_level_logable(level)
 
 static const char g_map_level_chars[] = { '0', LEVEL_CHAR_V, LEVEL_CHAR_D, LEVEL_CHAR_I, LEVEL_CHAR_W, LEVEL_CHAR_E, '?' };
 
-- 
2.43.0


From b1f0772c75ef578199ebf9870ff1c7a739d074e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 14/62] fix: a new log piece must not overwrite a piece created
 at the same clock time

---
 src/log/file_logger.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 78e2601..cc99d61 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -220,7 +220,13 @@ static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data)
 		path_buffer[MAX_FULL_PATH_SIZE - 1] = '\0';
 		snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s.log", 
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time);
-		handle->cur_fp = fopen(path_buffer, "wb");
+		// the name is taken if a piece was created at the same clock time already, never overwrite that piece
+		for (unsigned int same_time_index = 1U; 0 == file_util_access(path_buffer, 0) && same_time_index != 0U; ++same_time_index)
+		{
+			snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s_%u.log",
+				handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time, same_time_index);
+		}
+		handle->cur_fp = fopen(path_buffer, "ab");
 		handle->cur_log_file_size_counter = 0U;
 	}
 	if (!handle->cur_fp)
-- 
2.43.0


From 7e21a7442f7dbcd64458c412e2da1e2be72b3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 15/62] fix: file_logger_init returns NULL when memory for the
 folder path runs out

---
 src/log/file_logger.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index cc99d61..3dd6786 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -94,6 +94,13 @@ file_logger_handle file_logger_init(file_logger_cfg *cfg_p)
 		return NULL;
 	}
 	char* log_folder_path_formatted = strreplace(cfg_p->log_folder_path, "\\", "/");
+	if (NULL == log_folder_path_formatted)
+	{
+		msg_queue_handler_destroy(&handle->msg_queue);
+		free(msg);
+		free(handle);
+		return NULL;
+	}
 	strlcpy(cfg_p->log_folder_path, log_folder_path_formatted, MAX_LOG_FOLDER_PATH_SIZE);
 	free(log_folder_path_formatted);
 	size_t log_folder_path_len = strlen(cfg_p->log_folder_path);
-- 
2.43.0


From fd2cfbacd3619d99f67c2eb04de0a8b9773fe5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 16/62] fix: time strings after January 2038 must not overflow

---
 src/time/time_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 0955a69..24419f7 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -193,7 +193,7 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	#define kMagicUnkonwnFirst  (146097)
 	#define kMagicUnkonwnSec    (1461)
 	lt->tm_sec = (*p_unix_sec) % kMinutesInHour;
-	int minutes = ((int)(*p_unix_sec) / kMinutesInHour);
+	int minutes = (int)((*p_unix_sec) / kMinutesInHour); // divide first: seconds since 1970 overflow int in 2038
 	lt->tm_min = minutes % kMinutesInHour; //nn
 	int hours = minutes / kMinutesInHour + timezone_hour;
 	lt->tm_hour = hours % kHoursInDay; // hh
-- 
2.43.0


From 2a8e6114674d31ae6249cd1ef7d32ee1579fe37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 17/62] fix: an empty time cache must not be hit in the first
 second of 1970

---
 src/time/time_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 24419f7..458c81d 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -248,7 +248,8 @@ static inline int get_time_str(char str[TIME_STR_SIZE], struct timeval* tval_p,
 	{
 		time_cache_t* cache_p = &g_time_caches[GET_TIME_FORMAT_TYPE(time_format)];
 		TIME_UTIL_RD_LOCK(&cache_p->rw_lock); // lock rdlock
-		if (cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
+		if (cache_p->format_cache[0] != '\0' /* nothing cached yet if empty */ &&
+			cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
 		{	// hit cache, just copy whole cached time string
 			ftime_len = (int)strlcpy(str, cache_p->format_cache, TIME_STR_SIZE);
 			bool update_millis = cache_p->tval.tv_usec != tval_p->tv_usec;
-- 
2.43.0


From ce620155685e11eab4f9bae18e37be914a584ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 18/62] fix: a tracked allocation fails cleanly when the
 tracker has no memory, and is published only once complete

---
 src/mem/allocation_tracker.c | 19 +++++++++++++++++--
 src/mem/allocator.c          | 16 ++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index 5bba3c6..c0353c7 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -150,6 +150,7 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	}
 	char* return_ptr = (char*)ptr;
 	return_ptr += canary_size;
+	bool is_new = false;
 
 	allocation_t* allocation = (allocation_t*)hashmap_get(allocations, return_ptr);
 	if (allocation)
@@ -159,8 +160,11 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	else
 	{
 		allocation = (allocation_t*)calloc(1, sizeof(allocation_t));
-		ASSERT_ABORT(allocation);
-		hashmap_put(allocations, return_ptr, allocation);
+		if (!allocation)
+		{
+			return NULL;
+		}
+		is_new = true;
 	}
 	allocation->allocator_id = allocator_id;
 	allocation->freed = false;
@@ -179,6 +183,17 @@ void* allocation_tracker_notify_alloc(allocator_id_t allocator_id, void* ptr, si
 	// Add the canary on both sides
 	memcpy(return_ptr - canary_size, canary, canary_size);
 	memcpy(return_ptr + requested_size, canary, canary_size);
+	if (is_new)
+	{
+		// publish the record only after it is complete: other threads may be checking the map
+		hashmap_put(allocations, return_ptr, allocation);
+		if (hashmap_get(allocations, return_ptr) != allocation)
+		{
+			// no memory for the map entry
+			free(allocation);
+			return NULL;
+		}
+	}
 	return return_ptr;
 }
 
diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..9d1d0cd 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -49,6 +49,7 @@ char* lcu_strdup_trace(const char* str, const char* file_path, const char* func_
 		ptr, size, file_path, func_name, file_line);
 	if (!new_string)
 	{
+		free(ptr);
 		return NULL;
 	}
 	memcpy(new_string, str, size);
@@ -77,6 +78,7 @@ char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, cons
 		ptr, size + 1, file_path, func_name, file_line);
 	if (!new_string)
 	{
+		free(ptr);
 		return NULL;
 	}
 	memcpy(new_string, str, size);
@@ -97,7 +99,12 @@ void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name
 	{
 		return NULL;
 	}
-	return allocation_tracker_notify_alloc(ALLOCTOR_ID, ptr, size, file_path, func_name, file_line);
+	void* user_ptr = allocation_tracker_notify_alloc(ALLOCTOR_ID, ptr, size, file_path, func_name, file_line);
+	if (!user_ptr)
+	{
+		free(ptr);
+	}
+	return user_ptr;
 }
 
 void* lcu_malloc(size_t size)
@@ -114,7 +121,12 @@ void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_pat
 	{
 		return NULL;
 	}
-	return allocation_tracker_notify_alloc(ALLOCTOR_ID, ptr, request_size, file_path, func_name, file_line);
+	void* user_ptr = allocation_tracker_notify_alloc(ALLOCTOR_ID, ptr, request_size, file_path, func_name, file_line);
+	if (!user_ptr)
+	{
+		free(ptr);
+	}
+	return user_ptr;
 }
 
 void* lcu_calloc(size_t item_count, size_t item_size)
-- 
2.43.0


From c6f23752e4f44bdaf3594761f22ef5baa8ec9392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 19/62] fix: tracked allocation sizes must not overflow

---
 src/mem/allocator.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 9d1d0cd..08cd131 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -18,6 +18,7 @@
  ******************************************************************************/
 
 #include "mem/mem_debug.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include "mem/allocator.h"
@@ -94,6 +95,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL;
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -114,8 +119,16 @@ void* lcu_malloc(size_t size)
 
 void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_path, const char* func_name, int file_line)
 {
+	if (item_size && item_count > SIZE_MAX / item_size)
+	{
+		return NULL;
+	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if (real_size < request_size)
+	{
+		return NULL;
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
@@ -152,6 +165,11 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return NULL;
 	}
 
+	if (size > SIZE_MAX - 2048U)
+	{
+		return NULL;
+	}
+
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
-- 
2.43.0


From 8e59256a77d2b0bb5e28fb53879b9bba78a84527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 20/62] fix: lcu_realloc must keep the contents when the
 tracker is not initialised

---
 src/mem/allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 08cd131..f1a9c04 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -176,6 +176,12 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (allocation_tracker_resize_for_canary(0) == 0)
+	{
+		//tracker is not initialized: ptr size is unknown, so let libc move the contents.
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0


From 35a0a0f8ae565334c2df23e59c0989e9cd59419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 21/62] fix: file_util_read and file_util_write go on after an
 interrupted system call

---
 src/file/file_util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f859e4..e578972 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -1,6 +1,7 @@
 #include "mem/mem_debug.h"
 #include "file/file_util.h"
 #include "mem/strings.h"
+#include <errno.h>
 #include <sys/stat.h>
 
 #ifdef _WIN32
@@ -143,6 +144,11 @@ static int pri_internal_rw_file(int file_handle, void* buffer, size_t max_char_c
 	do
 	{
 		int once_op_size = (int)target_func(file_handle, (char*)buffer + cur_char_count, max_char_count - cur_char_count);
+		if (once_op_size < 0 && EINTR == errno)
+		{
+			//interrupted by a signal before any byte was transferred
+			continue;
+		}
 		if (once_op_size < 1)
 		{
 			//0:normal rw complete, otherwise error occurred
-- 
2.43.0


From aea6718ddf135896b2d81ee66520caacd46034ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 22/62] fix: file_util_mkdirs succeeds when another thread
 creates the folder first

---
 src/file/file_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index e578972..57f0dc2 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -92,6 +92,11 @@ int file_util_mkdirs(__in const char* folder_path)
 		}
 		if (0 != (ret = MKDIR(tmp_dir_path)))
 		{
+			if (EEXIST == errno && 0 == ACCESS(tmp_dir_path, 0))
+			{
+				//someone else created it at the same time
+				continue;
+			}
 			//error occurred on mkdir
 			return ret;
 		}
-- 
2.43.0


From bc57a5148f6ab919c02d90b7f7006e5383ae934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 23/62] fix: a folder path of 256 characters does not fit the
 buffer of file_util_mkdirs

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 57f0dc2..19f1385 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -72,7 +72,7 @@ int file_util_mkdirs(__in const char* folder_path)
 	}
 	int ret;
 	size_t dir_path_len = strlen(folder_path);
-	if (dir_path_len > MAX_FOLDER_PATH_LEN)
+	if (dir_path_len >= MAX_FOLDER_PATH_LEN)
 	{
 		return -2; // dir too long
 	}
-- 
2.43.0


From fc05d92d17edc7e125c6198ddf475433e974726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 24/62] fix: file_iterator_foreach goes on after an entry that
 cannot be examined

---
 src/file/file_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_iterator.c b/src/file/file_iterator.c
index a8ec870..83923aa 100644
--- a/src/file/file_iterator.c
+++ b/src/file/file_iterator.c
@@ -71,7 +71,7 @@ int file_iterator_foreach(char* dir, file_iterator_handle_file_info_fn handler,
 		}
 		snprintf(path_buf, sizeof(path_buf) - 1, "%s/%s", dir, direntp->d_name);
 		stats = pri_get_file_stat(path_buf, &statbuf);
-		if (stats == -1) break;
+		if (stats == -1) continue; // maybe just removed: go on with the other entries
 		/*if (FILE_ITERATOR_TYPE_FILE == stats)
 		{
 			LOGD("file:%s", path_buf);
-- 
2.43.0


From 8316817173690a265fbd9e3178cb6112061c240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 25/62] fix: a deleted ini section must not stay cached as the
 last used one

---
 src/file/ini_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 957cf5c..db09468 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -422,6 +422,10 @@ ini_parser_code_e ini_parser_delete_section(ini_parser_handle parser_p, const ch
 	{
 		return INI_PARSER_CODE_NOT_FOUND_SECTION_KEY;
 	}
+	if (parser_p->p_last_used_section == p_section)
+	{
+		parser_p->p_last_used_section = NULL;
+	}
 	list_free(p_section->plist_section);
 	return list_remove(parser_p->plist_sections, p_section) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
-- 
2.43.0


From 9538516ec58703ccada00da9d492da6eb656c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 26/62] fix: adding an ini section without memory must not leak
 its list

---
 src/file/ini_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index db09468..543a63b 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -279,6 +279,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 		strlcpy(target_section->section_name, section, sizeof(target_section->section_name));
 		if (false == list_append(parser_p->plist_sections, target_section))
 		{
+			list_free(target_section->plist_section);
 			allocator_my_free(target_section);
 			return NULL;
 		}
-- 
2.43.0


From 444a8029698cd8756632af0afb2c869a66269fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 27/62] fix: a failed ini_parser_put_string must not leave an
 empty section behind

---
 src/file/ini_parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 543a63b..474d7b4 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -318,7 +318,9 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
+	const size_t section_count = list_length(parser_p->plist_sections);
 	section_info_t* target_section = search_target_section(parser_p, true, section, section_len);
+	const bool is_new_section = (section_count != list_length(parser_p->plist_sections));
 	if (!target_section)
 	{
 		return INI_PARSER_CODE_NO_ENOUGH_MEMORY;
@@ -330,6 +332,10 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 		p_kv = (key_value_t*)allocator_my_calloc(1, sizeof(key_value_t));
 		if (!p_kv)
 		{
+			if (is_new_section)
+			{
+				ini_parser_delete_section(parser_p, target_section->section_name);
+			}
 			return INI_PARSER_CODE_NO_ENOUGH_MEMORY;
 		}
 		strlcpy(p_kv->key, key, sizeof(p_kv->key));
@@ -343,6 +349,10 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	else
 	{
 		allocator_my_free(p_kv);
+		if (is_new_section)
+		{
+			ini_parser_delete_section(parser_p, target_section->section_name);
+		}
 		return INI_PARSER_CODE_FAILED;
 	}
 }
-- 
2.43.0


From e884e0b397334c8ca6df85fdb8dc72db6a2b250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 28/62] fix: ini_parser_foreach stops completely when the
 handler breaks the chain

---
 src/file/ini_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 474d7b4..6745f7a 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -219,9 +219,9 @@ static bool iter_foreach_section(void* data, void* context)
 		return true; // just ignored empty section and continue
 	}
 
-	list_foreach(context_p->p_section_info->plist_section,
+	// a broken chain of key-values breaks the chain of sections too
+	return NULL == list_foreach(context_p->p_section_info->plist_section,
 		iter_foreach_section_key_value, context_p);
-	return true;
 }
 
 ini_parser_code_e ini_parser_foreach(ini_parser_handle parser_p, ini_parser_handler handler, void* user)
-- 
2.43.0


From 5637d2f8cf19b9772cefba65e4636e1b2820d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 29/62] fix: dumping an ini reports failure when a section
 cannot be appended

---
 src/file/ini_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 6745f7a..163f53b 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -473,10 +473,17 @@ static bool iter_section_for_dump(void* data, void* context)
 	{
 		return false; // error occurred on foreach last section, break chain.
 	}
-	stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	if (0 != (dump_ctx->ret_code = stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name)))
+	{
+		return false;
+	}
 	list_foreach(p_section->plist_section, iter_key_value_for_dump, dump_ctx);
-	stringbuilder_appendstr(dump_ctx->sb, "\r\n");
-	return true;
+	if (0 != dump_ctx->ret_code)
+	{
+		return false;
+	}
+	dump_ctx->ret_code = stringbuilder_appendstr(dump_ctx->sb, "\r\n");
+	return 0 == dump_ctx->ret_code;
 }
 
 static stringbuilder_t* pri_dump_ini(ini_parser_handle parser_p)
-- 
2.43.0


From ebfe79a1c011074b17109817490937781d46679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 30/62] fix: ini_parser_save reports write failures and never
 leaks its stream

---
 src/file/ini_parser.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 163f53b..a65b503 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -567,11 +567,6 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-	FILE* fp = fopen(file_path, "wb");
-	if (!fp)
-	{
-		return INI_PARSER_CODE_INVALID_PARAM;
-	}
 	char* ini_str = ini_parser_dump(parser_p);
 	if (!ini_str || '\0' == ini_str[0])
 	{
@@ -581,11 +576,20 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		}
 		return INI_PARSER_CODE_FAILED;
 	}
+	FILE* fp = fopen(file_path, "wb");
+	if (!fp)
+	{
+		free(ini_str);
+		return INI_PARSER_CODE_INVALID_PARAM;
+	}
 	size_t ini_str_len = strlen(ini_str);
-	fwrite(ini_str, 1, ini_str_len, fp);
+	bool is_written = (ini_str_len == fwrite(ini_str, 1, ini_str_len, fp));
 	free(ini_str);
-	fclose(fp);
-	return INI_PARSER_CODE_SUCCEED;
+	if (0 != (fclose)(fp))
+	{
+		is_written = false;
+	}
+	return is_written ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
 
 ini_parser_code_e ini_parser_has_section_key(ini_parser_handle parser_p, const char* section, const char* key)
-- 
2.43.0


From 5dd5ae97e0433df85cd23443f9eb83b2ef213241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 31/62] fix: ini_parser_put_string of a NULL section is an
 invalid parameter

---
 src/file/ini_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index a65b503..539cc2d 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -308,7 +308,7 @@ static key_value_t* iter_section_for_search_target_kv(list_t* section, const cha
 ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	const char* section, const char* key, const char* value)
 {
-	if (!parser_p || !key || '\0' == key[0])
+	if (!parser_p || !section || !key || '\0' == key[0])
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
-- 
2.43.0


From a290f979f9944b49acdbbdb8d1b03825ea74a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 32/62] fix: ini_reader reports names without a value also
 after an error

---
 src/file/ini_reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 634a4d3..9ae4bcd 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -220,7 +220,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, value) && !error)
                     error = lineno;
             }
-            else if (!error) {
+            else {
                 /* No '=' or ':' found on name[=:]value line */
 #if INI_ALLOW_NO_VALUE
                 *end = '\0';
@@ -228,7 +228,8 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, NULL) && !error)
                     error = lineno;
 #else
-                error = lineno;
+                if (!error)
+                    error = lineno;
 #endif
             }
         }
-- 
2.43.0


From 8c28454fadea7312bb63faf3bb5e993b06d83b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 33/62] fix: hashmap_foreach stops completely when the callback
 returns false

---
 src/data/hashmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..e98a2ce 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -381,7 +381,8 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 			Entry* next = entry->next;
 			if (!callback(entry->key, entry->value, context))
 			{
-				break;
+				hashmap_leave(map);
+				return;
 			}
 			entry = next;
 		}
-- 
2.43.0


From aed2e24490fcae480e633fd4f40b38114854ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 34/62] fix: hashmap_put must not report ENOMEM when only
 growing the table failed

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index e98a2ce..a3bb3be 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,12 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int savedErrno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion. the entry is already in the map, so this is not an error.
+		errno = savedErrno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0


From 0f260446232128062d9323b78d0bc1a4ab173a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 35/62] fix: str_params_create_str leaks a duplicate key and
 crashes without memory

---
 src/mem/str_params.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 0407bd2..520aba0 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -128,9 +128,26 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			key = strdup(kvpair);
 			value = strdup("");
 		}
-		/* we replaced a value */
+		if (!key || !value)
+		{
+			free(key);
+			free(value);
+			goto label_err_pair;
+		}
+		errno = 0;
 		old_val = hashmap_put(parms->map, key, value);
+		if (!old_val && ENOMEM == errno)
+		{
+			free(key);
+			free(value);
+			goto label_err_pair;
+		}
 		RELEASE_OWNERSHIP(value);
+		if (old_val)
+		{
+			/* we replaced a value, the map keeps its own key */
+			free(key);
+		}
 		RELEASE_OWNERSHIP(old_val);
 		RELEASE_OWNERSHIP(key);
 
@@ -144,6 +161,8 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 	}
 	free(str);
 	return parms;
+label_err_pair:
+	free(str);
 label_err_strdup:
 	str_params_destroy(parms);
 label_err_create_str_parms:
-- 
2.43.0


From 84e7d1d11d81d3a93b868e1cd7b685123a5fc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 36/62] fix: a large double must not be cut when added to
 str_params

---
 src/mem/str_params.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 520aba0..968e20d 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -244,7 +244,7 @@ int str_params_add_int(str_params_ptr params, const char* key, int value)
 
 int str_params_add_double(str_params_ptr params, const char* key, double value)
 {
-	char val_str[32];
+	char val_str[352]; /* DBL_MAX has 309 digits before the point */
 	int ret;
 	ret = snprintf(val_str, sizeof(val_str), "%.10f", value);
 	if (ret < 0)
-- 
2.43.0


From 2e94366dec952bbb65beca911e270ba1386d14d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 37/62] fix: str_params_to_str returns NULL instead of a text
 that misses pairs

---
 src/mem/str_params.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 968e20d..24ca796 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -341,6 +341,7 @@ typedef struct
 {
 	char* str;
 	str_params_ptr params_ptr;
+	bool failed;
 }combine_strings_ctx;
 
 static bool combine_strings(void* key, void* value, void* context)
@@ -367,6 +368,7 @@ static bool combine_strings(void* key, void* value, void* context)
 		new_str = NULL;
 	}
 	combine_ctx->str = NULL;
+	combine_ctx->failed = true;
 	return false;
 }
 
@@ -376,8 +378,13 @@ char* str_params_to_str(str_params_ptr params)
 	{
 	   .str = NULL,
 	   .params_ptr = params,
+	   .failed = false,
 	};
 	hashmap_foreach(params->map, combine_strings, &ctx);
+	if (ctx.failed)
+	{
+		return NULL;
+	}
 	return (ctx.str != NULL) ? ctx.str : strdup("");
 }
 
-- 
2.43.0


From 59677e7da051a9ce247d48a27548fa02f698bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 38/62] fix: stringbuilder_appendnstr must not read beyond the
 string

---
 src/mem/stringbuilder.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..bdabf12 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -111,10 +111,7 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		return -1;
 	}
-	if (len == 0)
-	{
-		len = strlen(str);
-	}
+	len = (len == 0) ? strlen(str) : strnlen(str, len);
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From c6736c26a7c6c3fd10eebabf3a30b99dc62fcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 39/62] fix: a failed format must not change the stringbuilder

---
 src/mem/stringbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index bdabf12..9bd2604 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -137,12 +137,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	int format_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (format_len < 1)
 	{
 		return -2;
 	}
+	size_t len = (size_t)format_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From 8501d92257a5c066b0f52d04d9b42e3d81a2acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 40/62] fix: str_params must free its pairs with the allocator
 that made them

---
 src/mem/str_params.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 24ca796..bcd1a2b 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -52,11 +52,17 @@ static int str_hash_fn(const void* str)
 	return (int)hash;
 }
 
+/* free may be a macro of the allocation tracker, so it can not be a callback by itself */
+static void str_free_fn(void* str)
+{
+	free(str);
+}
+
 str_params_ptr str_params_create(const char* delimiter)
 {
 	str_params_ptr s = (str_params_ptr)calloc(1, sizeof(struct str_params));
 	if (!s) return NULL;
-	s->map = hashmap_create(16, str_hash_fn, free, free, str_eq, NULL);
+	s->map = hashmap_create(16, str_hash_fn, str_free_fn, str_free_fn, str_eq, NULL);
 	if (!s->map)
 	{
 		free(s);
-- 
2.43.0


From d7c7b4213fb2daa74f7646b50557f9979546c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 41/62] fix: str_params_to_str must return a string of the
 tracked allocator

---
 src/mem/str_params.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index bcd1a2b..e3651a8 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -353,26 +353,24 @@ typedef struct
 static bool combine_strings(void* key, void* value, void* context)
 {
 	combine_strings_ctx* combine_ctx = (combine_strings_ctx*)context;
-	char* new_str = NULL;
-	int ret = asprintf(&new_str, "%s%s%s=%s",
-		combine_ctx->str ? combine_ctx->str : "",
-		combine_ctx->str ? combine_ctx->params_ptr->delimiter : "",
-		(char*)key,
-		(char*)value);
+	const char* old_str = combine_ctx->str ? combine_ctx->str : "";
+	const char* delimiter = combine_ctx->str ? combine_ctx->params_ptr->delimiter : "";
+	/* 2 for the equal sign and the NULL terminator */
+	size_t new_size = strlen(old_str) + strlen(delimiter) + strlen((char*)key) + strlen((char*)value) + 2U;
+	char* new_str = (char*)malloc(new_size);
+	if (new_str)
+	{
+		snprintf(new_str, new_size, "%s%s%s=%s", old_str, delimiter, (char*)key, (char*)value);
+	}
 	if (combine_ctx->str)
 	{
 		free(combine_ctx->str);
 	}
-	if (ret >= 0)
+	if (new_str)
 	{
 		combine_ctx->str = new_str;
 		return true;
 	}
-	if (new_str)
-	{
-		free(new_str);
-		new_str = NULL;
-	}
 	combine_ctx->str = NULL;
 	combine_ctx->failed = true;
 	return false;
-- 
2.43.0


From 06dde231772427dbfaa78df905145bf46a295e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 42/62] fix: strreplace must return a string of the tracked
 allocator

---
 src/mem/strings.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 6acc28b..c7a8758 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -1,3 +1,4 @@
+#include "mem/mem_debug.h"
 #include "mem/strings.h"
 #include <malloc.h>
 
-- 
2.43.0


From 90a41fd105d5441906cb45e8018927488568997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 43/62] fix: xlog overflowed its stack buffer with a very long
 function name

The length of func_name was not counted when checking the space left in the
512 byte buffer, so a TRACE log from a function with a name of more than about
440 characters wrote past it.
---
 src/log/xlog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index a8c3ecc..33146ec 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -485,7 +485,7 @@ void __xlog_internal_print(LogLevel level, const char* tag, const char* func_nam
         }
 		buffer_strlen = header_len;
 		if (func_name && file_line > 0 &&
-			(default_buffer_remaining_size = buffer_log_size - buffer_strlen - 1) > 32U) //we should count func_name and line number, but normally, 32 bytes is enough
+			(default_buffer_remaining_size = buffer_log_size - buffer_strlen - 1) > strlen(func_name) + 32U) // skip it if func_name is too long, 32 bytes is enough for line number and brackets
 		{
 #if(defined(USE_SNPRINTF_HEADER) && USE_SNPRINTF_HEADER)
 			buffer_strlen += snprintf(buffer_log + buffer_strlen, default_buffer_remaining_size, "(%s:%d) ", func_name, file_line);
-- 
2.43.0


From 639a1039e8870106eb4fc956bf246b394bf34b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 44/62] fix: strnutf8len must not read beyond max_count bytes

---
 src/mem/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index c7a8758..76b4c53 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -188,7 +188,7 @@ size_t strnutf8len(const char* utf8str, size_t max_count)
 {
 	size_t code_points = 0;
 	size_t chars_count = 0;
-	while (*utf8str && chars_count < max_count) 
+	while (chars_count < max_count && *utf8str)
 	{
 		code_points += ((*utf8str & 0xC0) != 0x80);
 		++utf8str;
-- 
2.43.0


From 14eb527d0f72f919924968754b8b99dd4712ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 45/62] fix: lcu_base64_encode must encode a single byte

---
 src/data/base64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/base64.c b/src/data/base64.c
index 2d7b613..40c06bd 100644
--- a/src/data/base64.c
+++ b/src/data/base64.c
@@ -24,13 +24,13 @@ int lcu_base64_encode(char* out_buf_encoded, const char* src_buf_plain, const si
 {
 	size_t i;
 	char* p;
-    if (src_buf_len < 2)
+    if (src_buf_len < 1)
     {
         return -1;
     }
 
 	p = out_buf_encoded;
-	for (i = 0; i < src_buf_len - 2; i += 3)
+	for (i = 0; i + 2 < src_buf_len; i += 3)
 	{
 		*p++ = basis_64[(src_buf_plain[i] >> 2) & 0x3F];
 		*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |
-- 
2.43.0


From 0c0cbe62967ef7d90018ac3e39367e26c9443947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 46/62] fix: integer_rounddown_pow_of_two returned 0 above 2^31

---
 src/data/integer.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data/integer.c b/src/data/integer.c
index 44a3815..3bd443c 100644
--- a/src/data/integer.c
+++ b/src/data/integer.c
@@ -32,10 +32,12 @@ uint32_t integer_rounddown_pow_of_two(uint32_t i)
 	{
 		return 0;
 	}
-	uint32_t roundup_integer = integer_roundup_pow_of_two(i);
-	if (roundup_integer == i)
-	{
-		return roundup_integer;
-	}
-	return (roundup_integer >> 1);
+	// not from the rounded up number, which overflows above 2^31
+	i |= i >> 1;
+	i |= i >> 2;
+	i |= i >> 4;
+	i |= i >> 8;
+	i |= i >> 16;
+
+	return (i - (i >> 1));
 }
-- 
2.43.0


From b2288722ab3d150c611c521aa7f4c4aff01c20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 47/62] fix: lcu_strndup must not read more than len bytes of
 its source

---
 src/mem/allocator.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index f1a9c04..66c20ff 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -64,11 +64,7 @@ char* lcu_strdup(const char* str)
 
 char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, const char* func_name, int file_line)
 {
-	size_t size = strlen(str);
-	if (len < size)
-	{
-		size = len;
-	}
+	size_t size = strnlen(str, len); // never read more than len bytes, str may be not terminated
 	size_t real_size = allocation_tracker_resize_for_canary(size + 1);
 	void* ptr = malloc(real_size);
 	if (!ptr)
-- 
2.43.0


From 935526d998b551570a74c5dcdd7731ce017707ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 48/62] fix: LOG_BACK2STD of a switched-off logger expands to
 an empty statement

---
 inc/log/xlog.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/log/xlog.h b/inc/log/xlog.h
index 97e1e58..152d0fa 100644
--- a/inc/log/xlog.h
+++ b/inc/log/xlog.h
@@ -179,7 +179,7 @@ extern "C" {
 #endif // !_LOG_NOTHING
 
 #define LOG_STD2FILE(file_path)  do { (void)(file_path); } while (0)
-#define LOG_BACK2STD()           _LOG_NOTHING
+#define LOG_BACK2STD()           _LOG_NOTHING()
 
 #define TLOGV(tag, fmt, ...) _LOG_NOTHING()
 #define TLOGD(tag, fmt, ...) _LOG_NOTHING()
-- 
2.43.0


From 9042603e3422a92572b4b9a4525a29378babac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 49/62] fix: _LCU_LOGGER_DISABLE switches the logger off, not
 on

---
 inc/log/logger_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/log/logger_facade.h b/inc/log/logger_facade.h
index a6a612a..9043a4b 100644
--- a/inc/log/logger_facade.h
+++ b/inc/log/logger_facade.h
@@ -48,7 +48,7 @@
 #undef LOGE_HEX
 //================CLEANUP PREVIOUS DEFINITION================
 
-#if(!defined(_LCU_LOGGER_DISABLE) || 0 != _LCU_LOGGER_DISABLE)
+#if(!defined(_LCU_LOGGER_DISABLE) || 0 == _LCU_LOGGER_DISABLE)
 
 #ifndef _LOG_TAG
 #error "You should define \"_LOG_TAG\" before include <logger_facade_xx.h>"
-- 
2.43.0


From 9b4c76909924be9e670295b927792e8e584482fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 50/62] fix: balance the parentheses of PTR_TO_UINT and
 PTR_TO_INT

---
 inc/common_macro.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/common_macro.h b/inc/common_macro.h
index 898182f..9c0dbb3 100644
--- a/inc/common_macro.h
+++ b/inc/common_macro.h
@@ -247,9 +247,9 @@ typedef intptr_t ssize_t;
  // (never in C++ code). 
  // Whenever integers need to be passed as a pointer, use these macros. 
  // for compatible with 64bit OS, suggest use PTR_TO_LONG64 and LONG64_TO_PTR
-#define PTR_TO_UINT(p)    ((uintptr_t) (p)))
+#define PTR_TO_UINT(p)    ((uintptr_t) (p))
 #define UINT_TO_PTR(u)    ((void *) ((uintptr_t) (u)))
-#define PTR_TO_INT(p)     (((intptr_t) (p))
+#define PTR_TO_INT(p)     ((intptr_t) (p))
 #define INT_TO_PTR(i)     ((void *) ((intptr_t) (i)))
 #define PTR_TO_LONG64(p)  ((long long) ((intptr_t) (p)))
 #define LONG64_TO_PTR(i)  ((void *) ((intptr_t) (i)))
-- 
2.43.0


From 7b60bad69f98ae03e03ba69b15389f2b91a54604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 51/62] fix: refuse an array whose initial size does not fit in
 size_t

---
 src/data/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/array.c b/src/data/array.c
index 7d3246b..49e3ab5 100644
--- a/src/data/array.c
+++ b/src/data/array.c
@@ -49,6 +49,10 @@ array_t* array_new_with_init_capacity(size_t element_size, size_t init_capacity)
 	{
         init_capacity = 4;
 	}
+	if (element_size && init_capacity > (SIZE_MAX - sizeof(array_t)) / element_size)
+	{
+		return NULL;
+	}
 	array_t* array = (array_t*)calloc(1, sizeof(array_t) + element_size * init_capacity);
     if (array == NULL)
     {
-- 
2.43.0


From e193ce988d866a70ea6f7bb475cd1d375b516860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 52/62] fix: RingBuffer_create_with_mem rounds memory above 2
 GiB down to a power of two

---
 src/ring/ringbuffer.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 17debbc..6675e65 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -47,6 +47,15 @@ static inline uint32_t pri_roundup_pow_of_two(uint32_t x)
 	return (uint32_t)(2 << counter);
 }
 
+static inline uint32_t pri_rounddown_pow_of_two(uint32_t x)
+{
+	while (x & (x - 1))
+	{
+		x &= x - 1; // drop the lowest bit until only the highest one is left
+	}
+	return x;
+}
+
 struct __ring_buffer_t
 {
 	bool need_free_myself; /* mark struct and buffer whether is allocated by ourself */
@@ -75,7 +84,7 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 	if (!pri_is_power_of_2(ring_buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, ring_buf_size);
-		ring_buf_size = (pri_roundup_pow_of_two(ring_buf_size) >> 1);
+		ring_buf_size = pri_rounddown_pow_of_two(ring_buf_size);
 		RING_LOGW("%s changed buf_size to %u ", __func__, ring_buf_size);
 	}
 	ring_buffer_handle ring_buffer_p = (ring_buffer_handle)buf;
-- 
2.43.0


From a28a211453a5a4c5045ae02e86bd36c16601f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:22 +0000
Subject: [PATCH 53/62] fix: ini_reader: the heap line buffer is allocated with
 ini_reader_malloc

ini_malloc does not exist, so INI_USE_STACK=0 did not link.
---
 src/file/ini_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 9ae4bcd..82e0fa1 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -120,7 +120,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
     int error = 0;
 
 #if !INI_USE_STACK
-    line = (char*)ini_malloc(INI_INITIAL_ALLOC);
+    line = (char*)ini_reader_malloc(INI_INITIAL_ALLOC);
     if (!line) {
         return -2;
     }
-- 
2.43.0


From 4a02f3b40608ab797a65de046fb15d7ca61386f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:22 +0000
Subject: [PATCH 54/62] fix: ini_reader: terminate the line when reading more
 of it fails

With a growing heap buffer, a read error left the tail of the buffer
indeterminate and the parser ran past it.
---
 src/file/ini_reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 82e0fa1..561e04d 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -146,8 +146,10 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 return -2;
             }
             line = new_line;
-            if (reader(line + offset, (int)(max_line - offset), stream) == NULL)
+            if (reader(line + offset, (int)(max_line - offset), stream) == NULL) {
+                line[offset] = '\0'; /* indeterminate after a read error */
                 break;
+            }
             if (max_line >= INI_MAX_LINE)
                 break;
             offset += strlen(line + offset);
-- 
2.43.0


From ae03e4907dd12ab4f40f73a82b62e9ec5422385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 55/62] fix: publish ringbuffer positions with release, read
 them with acquire

---
 src/ring/ringbuffer.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 6675e65..6562ccb 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -65,7 +65,19 @@ struct __ring_buffer_t
 	char* buf;             /* ring buffer pointer, buf size must be power of 2 */
 };
 
-#define _RING_AVAILABLE_READ(ring_handle)  (ring_handle->in - ring_handle->out)
+/*
+** reader and writer may be two threads: a new position must only be visible
+** after the data (or the space) it announces.
+*/
+#if defined(__GNUC__) || defined(__clang__)
+#define _RING_LOAD_POSITION(position)         __atomic_load_n(&(position), __ATOMIC_ACQUIRE)
+#define _RING_STORE_POSITION(position, value) __atomic_store_n(&(position), (value), __ATOMIC_RELEASE)
+#else // volatile has acquire/release semantics for MSVC
+#define _RING_LOAD_POSITION(position)         (*(volatile uint32_t*)&(position))
+#define _RING_STORE_POSITION(position, value) (*(volatile uint32_t*)&(position) = (value))
+#endif // __GNUC__
+
+#define _RING_AVAILABLE_READ(ring_handle)  (_RING_LOAD_POSITION(ring_handle->in) - _RING_LOAD_POSITION(ring_handle->out))
 #define _RING_AVAILABLE_WRITE(ring_handle) (ring_handle->size - (_RING_AVAILABLE_READ(ring_handle)))
 
 ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_size)
@@ -163,18 +175,18 @@ extern inline void RingBuffer_clear(__in ring_buffer_handle ring_handle)
 	{
 		return;
 	}
-	ring_handle->in = 0;
-	ring_handle->out = 0;
+	_RING_STORE_POSITION(ring_handle->in, 0);
+	_RING_STORE_POSITION(ring_handle->out, 0);
 }
 
 uint32_t RingBuffer_current_read_position(__in ring_buffer_handle ring_handle)
 {
-	return ring_handle->out;
+	return _RING_LOAD_POSITION(ring_handle->out);
 }
 
 uint32_t RingBuffer_current_write_position(__in ring_buffer_handle ring_handle)
 {
-	return ring_handle->in;
+	return _RING_LOAD_POSITION(ring_handle->in);
 }
 
 uint32_t RingBuffer_real_capacity(__in ring_buffer_handle ring_handle) 
@@ -227,7 +239,7 @@ uint32_t RingBuffer_write(__in ring_buffer_handle ring_handle, __in const void*
 	{
 		memcpy(ring_handle->buf, (char*)source + first_part_len, rest_len);
 	}
-	ring_handle->in += size;
+	_RING_STORE_POSITION(ring_handle->in, ring_handle->in + size);
 	return size;
 }
 
@@ -272,7 +284,7 @@ static uint32_t RingBuffer_read_internal(ring_buffer_handle ring_handle, void* t
 	}
 	if (!is_peek)
 	{
-		ring_handle->out += size;
+		_RING_STORE_POSITION(ring_handle->out, ring_handle->out + size);
 	}
 	return size;
 }
-- 
2.43.0


From 7a3e4e68b1e2afd2c72c1c65d287d9cf424d2f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 56/62] fix: publish ring_buf offsets with release, read them
 with acquire

---
 src/ring/ring_buf.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/ring/ring_buf.c b/src/ring/ring_buf.c
index fc015c1..004d4d7 100644
--- a/src/ring/ring_buf.c
+++ b/src/ring/ring_buf.c
@@ -23,9 +23,21 @@ struct __ring_buf_t
 	size_t offset_write;
 };
 
-#define _RING_AVAILABLE_READ(handle)  ((handle->size + handle->offset_write - handle->offset_read) % (handle->size))
+/*
+** reader and writer may be two threads: a new offset must only be visible
+** after the data (or the space) it announces.
+*/
+#if defined(__GNUC__) || defined(__clang__)
+#define _RING_LOAD_OFFSET(offset)         __atomic_load_n(&(offset), __ATOMIC_ACQUIRE)
+#define _RING_STORE_OFFSET(offset, value) __atomic_store_n(&(offset), (value), __ATOMIC_RELEASE)
+#else // volatile has acquire/release semantics for MSVC
+#define _RING_LOAD_OFFSET(offset)         (*(volatile size_t*)&(offset))
+#define _RING_STORE_OFFSET(offset, value) (*(volatile size_t*)&(offset) = (value))
+#endif // __GNUC__
+
+#define _RING_AVAILABLE_READ(handle)  ((handle->size + _RING_LOAD_OFFSET(handle->offset_write) - _RING_LOAD_OFFSET(handle->offset_read)) % (handle->size))
 //#define _RING_AVAILABLE_WRITE(handle) (handle->size - _RING_AVAILABLE_READ(handle) - 1)
-#define _RING_AVAILABLE_WRITE(handle) ((handle->size + handle->offset_read - handle->offset_write - 1U) % (handle->size))
+#define _RING_AVAILABLE_WRITE(handle) ((handle->size + _RING_LOAD_OFFSET(handle->offset_read) - _RING_LOAD_OFFSET(handle->offset_write) - 1U) % (handle->size))
 
 ring_handle ring_buf_create_with_mem(void* pbuf, const size_t buf_size)
 {
@@ -107,7 +119,7 @@ static size_t internal_ring_buf_read(ring_handle handle, bool is_peek, void* tar
 		}
 		if (!is_peek)
 		{
-			handle->offset_read = second_part_len;
+			_RING_STORE_OFFSET(handle->offset_read, second_part_len);
 		}
 	}
 	else 
@@ -119,7 +131,7 @@ static size_t internal_ring_buf_read(ring_handle handle, bool is_peek, void* tar
 			{
 				new_offset_read = 0;
 			}
-			handle->offset_read = new_offset_read;
+			_RING_STORE_OFFSET(handle->offset_read, new_offset_read);
 		}
 	}
 	return len;
@@ -164,19 +176,20 @@ size_t ring_buf_write(ring_handle handle, void* source, size_t len)
 		{
 			new_offset_write = 0;
 		}
-		handle->offset_write = new_offset_write;
+		_RING_STORE_OFFSET(handle->offset_write, new_offset_write);
 	}
 	else 
 	{
 		memcpy(handle->pbuf, (char*)source + first_part_len, second_part_len);
-		handle->offset_write = second_part_len;
+		_RING_STORE_OFFSET(handle->offset_write, second_part_len);
 	}
 	return len;
 }
 
 void ring_buf_clear(ring_handle handle) 
 {
-	handle->offset_read = handle->offset_write = 0;
+	_RING_STORE_OFFSET(handle->offset_write, 0);
+	_RING_STORE_OFFSET(handle->offset_read, 0);
 }
 
 void ring_buf_destroy(ring_handle* handle_p) 
-- 
2.43.0


From 2460c48c38632b385a946302b8ede2e62db5ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 57/62] fix: thpool_wait reads the queue length while workers
 change it under another lock

---
 src/thread/thpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread/thpool.c b/src/thread/thpool.c
index 4ed36e2..84a9985 100644
--- a/src/thread/thpool.c
+++ b/src/thread/thpool.c
@@ -67,7 +67,7 @@ typedef struct jobqueue{
 	job  *front;                         /* pointer to front of queue */
 	job  *rear;                          /* pointer to rear  of queue */
 	bsem *has_jobs;                      /* flag as binary semaphore  */
-	int   len;                           /* number of jobs in queue   */
+	volatile int len;                    /* number of jobs in queue   */
 } jobqueue;
 
 
-- 
2.43.0


From 4b069d51dfad2f676e82697922e3444aa7e9fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 58/62] fix: settings of xlog that are read outside the lock
 are volatile

---
 src/log/xlog.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log/xlog.c b/src/log/xlog.c
index 33146ec..970b504 100644
--- a/src/log/xlog.c
+++ b/src/log/xlog.c
@@ -32,7 +32,7 @@ typedef struct xlog_cb_pack
 typedef struct xlog_config
 {
 	/* min log level: log level must bigger or equal than this or will be discard. */
-	LogLevel min_level;
+	volatile LogLevel min_level;
 	/* if log level bigger than min_level but small than this, transform log level to this */
 	LogLevel trigger_up_level;
 	/* if you don't pass in the TAG, use the default TAG. */
@@ -40,13 +40,13 @@ typedef struct xlog_config
 	/* user callback data pack */
 	xlog_cb_parcel_t cb_pack;
 	/* LogTarget: log target */
-	int target;
+	volatile int target;
 	/* LogFormat: log format */
-	int format;
+	volatile int format;
 	/* the file pointer after redirect stdout */
 	FILE* fp_out;
 	/* LogFlushMode */
-	LogFlushMode flush_mode;
+	volatile LogFlushMode flush_mode;
 	/* for calculate locale time */
 	int timezone_hour;
 
-- 
2.43.0


From 82cb03f4ab1a6c9faba015facbbd3abc25f3df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 59/62] fix: never share the time cache when its rwlock could
 not be created

---
 src/time/time_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 458c81d..1007e80 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -244,9 +244,9 @@ static inline int get_time_str(char str[TIME_STR_SIZE], struct timeval* tval_p,
 	time_t cur_time = (time_t)(tval_p->tv_sec);
 
 #if(defined(USE_TIME_CACHE) && USE_TIME_CACHE)
-	if (use_cache)
+	time_cache_t* cache_p = &g_time_caches[GET_TIME_FORMAT_TYPE(time_format)];
+	if (use_cache && cache_p->rw_lock /* never share the cache without its lock */)
 	{
-		time_cache_t* cache_p = &g_time_caches[GET_TIME_FORMAT_TYPE(time_format)];
 		TIME_UTIL_RD_LOCK(&cache_p->rw_lock); // lock rdlock
 		if (cache_p->format_cache[0] != '\0' /* nothing cached yet if empty */ &&
 			cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
-- 
2.43.0


From 32fca30366436cb0b7c37454a139b114417a85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 60/62] fix: mplite_print_stats copies the counters under the
 lock

---
 src/mem/mplite.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mem/mplite.c b/src/mem/mplite.c
index fb488c1..5ebdade 100644
--- a/src/mem/mplite.c
+++ b/src/mem/mplite.c
@@ -286,36 +286,40 @@ MPLITE_API void mplite_print_stats(const mplite_t* const handle,
 		return;
 	}
 	char zStats[256];
+	/* take one consistent copy: other threads may be allocating */
+	mplite_enter(handle);
+	const mplite_t stats = *handle;
+	mplite_leave(handle);
 	snprintf(zStats, sizeof(zStats), "Total number of calls to malloc: %u",
-		(unsigned)handle->nAlloc);
+		(unsigned)stats.nAlloc);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Total of all malloc calls - includes "
-		"internal fragmentation: %u", (unsigned)handle->totalAlloc);
+		"internal fragmentation: %u", (unsigned)stats.totalAlloc);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Total internal fragmentation: %u",
-		(unsigned)handle->totalExcess);
+		(unsigned)stats.totalExcess);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Current checkout, including internal "
-		"fragmentation: %u", handle->currentOut);
+		"fragmentation: %u", stats.currentOut);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Current number of distinct checkouts: %u",
-		handle->currentCount);
+		stats.currentCount);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Maximum instantaneous currentOut: %u",
-		handle->maxOut);
+		stats.maxOut);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Maximum instantaneous currentCount: %u",
-		handle->maxCount);
+		stats.maxCount);
 	putsfunc(zStats);
 
 	snprintf(zStats, sizeof(zStats), "Largest allocation (exclusive of "
-		"internal frag): %u", handle->maxRequest);
+		"internal frag): %u", stats.maxRequest);
 	putsfunc(zStats);
 }
 
-- 
2.43.0


From 6ed5c628af13a468f58069a64b7d5d07d7acf1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 61/62] fix: the freed mark of a tracked block is read by a
 concurrent check

---
 src/mem/allocation_tracker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/allocation_tracker.c b/src/mem/allocation_tracker.c
index c0353c7..3cc657d 100644
--- a/src/mem/allocation_tracker.c
+++ b/src/mem/allocation_tracker.c
@@ -41,7 +41,7 @@ typedef struct
 	void* ptr;
 	/* ptr request alloc memory size */
 	size_t size;
-	bool freed;
+	volatile bool freed;
 #define MAX_FILE_PATH_LEN (128)
 	char file_path[MAX_FILE_PATH_LEN];
 #define MAX_FUNCTION_NAME_LEN (32)
-- 
2.43.0


From e84f67c179322d0c4ff51e7b4dd356a4a06f3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 62/62] fix: the token counter is read by clear while a push
 advances it

---
 src/ring/fixed_msg_queue_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/fixed_msg_queue_handler.c b/src/ring/fixed_msg_queue_handler.c
index 2b0d7c7..ccb692f 100644
--- a/src/ring/fixed_msg_queue_handler.c
+++ b/src/ring/fixed_msg_queue_handler.c
@@ -23,7 +23,7 @@ struct _fixed_msg_queue_handler_s
 	portable_sem_t semaphore;
 
 	fixed_handler_msg_t msg_send_cache;
-	size_t token_counter;
+	volatile size_t token_counter;
 	volatile size_t min_valid_token;
 };
 
-- 
2.43.0

