From 288c8bdf2fd91722085adcd9001f43de61eafbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:48 +0000
Subject: [PATCH 01/10] fix: don't mix units when inferring -size ranges

The optimizer tracked the operand of -size without its unit, so it believed
-size 1k and -size 2 contradict each other, although a 1024-byte file matches
both.
---
 src/opt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 49e8873..46764e5 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1705,8 +1705,13 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 
 /** Transfer function for -size. */
 static struct bfs_expr *data_flow_size(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
+	// Counts of different units aren't comparable, so only track bytes
+	if (expr->size_unit == BFS_BYTES) {
+		data_flow_icmp(opt, expr, SIZE_RANGE);
+	}
+
 	struct df_range *range = &opt->after_true.ranges[SIZE_RANGE];
-	if (range->min == range->max) {
+	if (range->min == range->max || expr->int_cmp == BFS_INT_EQUAL) {
 		expr->probability = 0.01;
 	} else {
 		expr->probability = 0.5;
@@ -1887,7 +1892,6 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 		{eval_gid,     GID_RANGE},
 		{eval_inum,   INUM_RANGE},
 		{eval_links, LINKS_RANGE},
-		{eval_size,   SIZE_RANGE},
 		{eval_uid,     UID_RANGE},
 	};
 
-- 
2.43.0


From 2f69b1a6833d475a79213b4af6682088dc7c819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:48 +0000
Subject: [PATCH 02/10] fix: don't rule out an inode number when -samefile is
 false

A file with the same inode number on another device is not the same file, so
-not -samefile says nothing about the inode number.
---
 src/opt.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 46764e5..32b3478 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1697,9 +1697,7 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
 	constrain_range(true_range, expr->ino);
 
-	struct df_range *false_range = &opt->after_false.ranges[INUM_RANGE];
-	range_remove(false_range, expr->ino);
-
+	// A different file may have the same inode number on another device
 	return expr;
 }
 
-- 
2.43.0


From e98802ec79c43f306b6f597e70f80729127413da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:48 +0000
Subject: [PATCH 03/10] fix: report fork() failures in bfs_spawn()

Restoring the signal mask set errno to 0, so a failed fork() looked like
success-without-an-error to the caller, and -exec was silently skipped.
---
 src/xspawn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xspawn.c b/src/xspawn.c
index 3fa4e60..4306b94 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -651,12 +651,15 @@ static pid_t bfs_fork_spawn(struct bfs_resolver *res, const struct bfs_spawn *ct
 		bfs_spawn_exec(res, ctx, argv, envp, &old_mask, pipefd);
 	}
 
+	int fork_error = errno;
+
 	// Restore the original signal mask
 	errno = pthread_sigmask(SIG_SETMASK, &old_mask, NULL);
 	bfs_everify(errno == 0, "pthread_sigmask()");
 
 	if (pid < 0) {
 		// fork() failed
+		errno = fork_error;
 		goto fail;
 	}
 
-- 
2.43.0


From 39fa344201578091b219aa6e60c8f33cf4665653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:03 +0000
Subject: [PATCH 04/10] fix: keep earlier signal hooks when the last one is
 removed

rcu_list_remove() pointed the list's tail at its head whenever the last
node was removed, even if other nodes preceded it.  The next
rcu_list_append() then replaced the whole list, silently dropping every
hook registered before.  For example, hiding and re-showing the status
bar lost the hook that resets the terminal's colors.
---
 src/sighook.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index a87bed5..cfe9bc9 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -290,7 +290,7 @@ static void rcu_list_remove(struct rcu_list *list, struct rcu_node *node) {
 	if (next) {
 		next->self = node->self;
 	} else {
-		list->tail = &list->head;
+		list->tail = node->self;
 	}
 	rcu_destroy(&node->next);
 }
-- 
2.43.0


From ff882871b366149fb4331bec347a3acb7158a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 05/10] fix: don't infer -nogroup/-nouser when -gid/-uid is
 false

If -gid N is true, the file's group is known, so -nogroup is known too.
But if it's false, the file may belong to any other group.  The optimizer
assumed the opposite of -nogroup in that case, so that for example

    bfs ! -gid 0 -nogroup

printed every file not in group 0, whether or not its group exists.
---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 32b3478..72a496d 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1655,7 +1655,7 @@ static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOGROUP_PRED, nogroup);
+			constrain_pred(&opt->after_true.preds[NOGROUP_PRED], nogroup);
 		}
 	}
 
@@ -1732,7 +1732,7 @@ static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOUSER_PRED, nouser);
+			constrain_pred(&opt->after_true.preds[NOUSER_PRED], nouser);
 		}
 	}
 
-- 
2.43.0


From 3bd99c40baa3713e22a623eaa0667481e3917d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 06/10] fix: keep facts about ignored expressions that returned
 true

When an expression's result is ignored, the optimizer replaces it with
-false, and the data flow analysis then assumed that the original
expression returned false, too.  So for example

    bfs '(' -type f -o -name x ')' , -type f -print

didn't print anything.
---
 src/opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opt.c b/src/opt.c
index 72a496d..1239526 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1848,6 +1848,10 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 		if (!expr) {
 			return NULL;
 		}
+		if (is_const(expr)) {
+			// The original expression may have returned either result
+			df_join(&opt->after_false, &opt->after_true);
+		}
 	}
 
 	if (df_is_bottom(&opt->before)) {
-- 
2.43.0


From 286089588203532ceaa9a3e0455a61f28a0dc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 07/10] fix: re-annotate comma expressions after simplifying
 them

If the result of a comma expression is ignored, a negation of its last
operand is dropped, so whether it's always true or false changes.  With
stale annotations, for example

    bfs ! '(' -links +1 -o -depth 0 ')' '(' -perm 600 , -print ')'

failed an assertion.
---
 src/opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt.c b/src/opt.c
index 1239526..7545f95 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -2125,7 +2125,7 @@ static struct bfs_expr *simplify_comma(struct bfs_opt *opt, struct bfs_expr *exp
 		return only_child(expr);
 	}
 
-	return expr;
+	return visit_shallow(opt, expr, &annotate);
 }
 
 /**
-- 
2.43.0


From 29fdae0cc9ccb3842adfbfc9805264e606be2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:32 +0000
Subject: [PATCH 08/10] fix: don't replace ignored always-true expressions with
 -false

That contradicted the annotations of their parents, so both outcomes of a
conjunction like -print -maxdepth 2 looked impossible, and the optimizer
deleted everything after it.  For example,

    bfs -print -maxdepth 2 , -exec echo {} +

never ran the command.
---
 src/opt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 7545f95..7233a2b 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1835,8 +1835,9 @@ static struct bfs_expr *opt_ignore(struct bfs_opt *opt, struct bfs_expr *expr, b
 
 done:
 	if (!delete && expr->pure) {
-		// If we're not deleting the expression entirely, replace it with -false
-		expr = opt_const(opt, false);
+		// If we're not deleting the expression entirely, replace it with
+		// a constant that's consistent with its parents' annotations
+		expr = opt_const(opt, expr->always_true);
 	}
 	return expr;
 }
-- 
2.43.0


From 32fe37dd7ebab591326ee17ee286fcf64558dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 09/10] fix: visit mount points with -xdev -depth

Mount points are not descended into with -xdev, so they never got the
post-order visit that -depth evaluates the expression on, and were left
out of the results.
---
 src/bftw.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index f822456..2cf38fb 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -1806,6 +1806,13 @@ static enum bftw_action bftw_call_back(struct bftw_state *state, const char *nam
 		} else if (state->flags & BFTW_PRUNE_MOUNTS) {
 			if (bftw_is_mount(state, name)) {
 				ret = BFTW_PRUNE;
+				if (state->flags & BFTW_POST_ORDER) {
+					// We won't descend, so make the post-order visit now
+					state->ftwbuf.visit = BFTW_POST;
+					if (state->callback(ftwbuf, state->ptr) == BFTW_STOP) {
+						ret = BFTW_STOP;
+					}
+				}
 			}
 		}
 		break;
-- 
2.43.0


From 439a12d303fc77d53b8750cfeb097192a7cb3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:51 +0000
Subject: [PATCH 10/10] fix: keep depth-first order with -S dfs -j1

Without any I/O threads, files that don't need to be stat()ed were moved
to the ready list, which is FIFO, and bftw_pop_dir() prefers ready files
over directories that aren't open yet.  So

    bfs -j1 -S dfs

visited all the files in a directory before anything below them, as if
bftw_must_buffer() had returned false.
---
 src/bftw.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index 2cf38fb..5f1d5e6 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -1502,6 +1502,11 @@ static bool bftw_should_ioq_stat(struct bftw_state *state, struct bftw_file *fil
 
 /** Call stat() on files that need it. */
 static void bftw_stat_files(struct bftw_state *state) {
+	if (!state->ioq) {
+		// Leave the files waiting, in the order they should be visited
+		return;
+	}
+
 	while (true) {
 		struct bftw_file *file = bftw_queue_waiting(&state->fileq);
 		if (!file) {
-- 
2.43.0

