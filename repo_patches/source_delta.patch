From a005b3e0da008f04280332d501f578a40a6d07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:05 +0000
Subject: [PATCH 1/3] fix: make selftest_failed a full word as its comment
 demands

The self test may run on another thread than the one generating random
data. As a one bit wide bit-field, marking the instance rewrites the
neighboring bits (apt_base_set, in_recovery, ...) that the generating
thread modifies concurrently, and vice versa the mark can be lost.
---
 src/jitterentropy-internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..30a5bcc 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	unsigned int selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 3d170b573b3fe6c91707715a61832e5c92db2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:05 +0000
Subject: [PATCH 2/3] fix: carry a failed self test over to the reallocated
 collector

A jent_selftest() failing while a block is being collected (on another
thread, or from the health failure callback) marks the collector. If the
same block ends with an intermittent health failure, the recovering read
replaced the collector and dropped the mark, and output continued.
---
 src/jitterentropy-base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..bf81240 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,9 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/* A failed self test bound to the instance must not be forgotten. */
+	new_ec->selftest_failed = (*ec)->selftest_failed;
+
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
 
-- 
2.43.0


From 798f42cc68c7add29b3a3ae49b2f5b85881c4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:05 +0000
Subject: [PATCH 3/3] fix: revoke the self test latch when a self test of the
 init fails

A failing jent_gcd_selftest() left the latch set although the
initialization failed, and a failing hash self test kept a latch set by an
earlier initialization: a following collector allocation then skipped the
qualification altogether.
---
 src/jitterentropy-base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index bf81240..6605539 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1205,7 +1205,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1233,7 +1233,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0

