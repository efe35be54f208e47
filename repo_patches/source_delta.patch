From f4f858f0c670783d866926b5340bcfb0ae19aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 01/59] fix: do not abort on a frame whose control header is
 larger than ours

The size of the control header is a field of the received frame; asserting on
it lets one such frame take the daemon down.
---
 src/sbn.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 01e48f4..50bef61 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -336,11 +336,9 @@ int copy_ctrlheader(char *ctrlheader, int *ctrlheader_size,
   if(sbnf->ctrlhdr_size > allocatedsize){
     /*
      * If the actual size is larger than the allocated size passed to
-     * the function, we treat it is a non existent, although this is a bug
-     * in the allocation of the size of the buffer.
+     * the function, we treat it is a non existent. The size comes from
+     * the transmission, so it cannot be trusted.
      */
-    assert(allocatedsize >= sbnf->ctrlhdr_size);
-
     return(1);
   }
 
-- 
2.43.0


From 0ef4d01b4a6aa2b5cb4dafe1058117625d36be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 02/59] fix: reject frames whose control header is larger than
 the data block

Otherwise the size of the frame data is negative.
---
 src/sbn.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sbn.c b/src/sbn.c
index 50bef61..658adac 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -204,6 +204,11 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
        */
       return(2);
     }
+
+    if(sbnf->ctrlhdr_size > sbnf->pdh.data_block_size){
+      /* The control header does not fit in the block. */
+      return(2);
+    }
   }
 
   blkdata_offset += sbnf->ctrlhdr_size;
-- 
2.43.0


From 3acf9342df991f41523f6a7cd02cf8fd55f91f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 03/59] fix: do not take product sequence number 0 for an idle
 channel

The number of a closed control element is 0, which is also a valid product
sequence number: frames of such a product reused the state of the previous
product of the channel, and an unfinished one was not noticed.
---
 src/pctl.c | 38 ++++++++++++++++++++++++++++++++++----
 src/pctl.h |  2 ++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/pctl.c b/src/pctl.c
index ada77c0..621c13b 100644
--- a/src/pctl.c
+++ b/src/pctl.c
@@ -61,6 +61,7 @@ static int pctl_init(struct pctl_st *pctl, int numchannels,
 
   pctl->pctldb = NULL;
   pctl->activepce = NULL;
+  pctl->f_active = NULL;
   pctl->outputmf = NULL;
   pctl->pce = NULL;
   pctl->status.current = 0;
@@ -78,6 +79,13 @@ static int pctl_init(struct pctl_st *pctl, int numchannels,
   }
   pctl->num_activechannels = numchannels;
 
+  pctl->f_active = calloc(numchannels, sizeof(int));
+  if(pctl->f_active == NULL){
+    *dberror = errno;
+    status = -1;
+    goto end;
+  }
+
   pctl->outputmf = create_memfile(param->memfile_minsize);
   if(pctl->outputmf == NULL){
     *dberror = errno;
@@ -101,6 +109,8 @@ static int pctl_init(struct pctl_st *pctl, int numchannels,
     if(pctl->activepce != NULL)
       destroy_pce_array(pctl->activepce, pctl->num_activechannels);
 
+    free(pctl->f_active);
+
     if(pctl->outputmf != NULL)      
       close_memfile(pctl->outputmf);
 
@@ -133,7 +143,10 @@ void epctl_close(struct pctl_st *pctl){
     destroy_pce_array(pctl->activepce, pctl->num_activechannels);
     pctl->activepce = NULL;
   }
-  
+
+  free(pctl->f_active);
+  pctl->f_active = NULL;
+
   if(pctl->outputmf != NULL){
     destroy_memfile(pctl->outputmf);
     pctl->outputmf = NULL;
@@ -287,9 +300,14 @@ struct pctl_element_st *open_pctl_activepce(struct pctl_st *pctl,
    * Returning NULL lets the caller know that there is an unfinished
    * product in the active pce.
    */
+  if(pctl->f_active[channel_index])
+    return(NULL);
+
   if(open_pce(pctl->activepce[channel_index]) != 0)
     return(NULL);
 
+  pctl->f_active[channel_index] = 1;
+
   return(pctl->activepce[channel_index]);
 }
 
@@ -300,6 +318,15 @@ void close_pctl_activepce(struct pctl_st *pctl, int channel_index){
     return;
 
   close_pce(pctl->activepce[channel_index]);
+  pctl->f_active[channel_index] = 0;
+}
+
+int pctl_activepce_inuse(struct pctl_st *pctl, int channel_index){
+  /*
+   * 0 is a valid product sequence number, so the one stored
+   * in the activepce cannot tell.
+   */
+  return(pctl->f_active[channel_index]);
 }
 
 struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
@@ -313,7 +340,8 @@ struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
   if((channel_index < 0) || (channel_index >= pctl->num_activechannels))
     return(NULL);
 
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if((pctl->f_active[i] == 0) || 
+     ((pctl->activepce[i])->seq_number != seqnumber))
     return(NULL);
 
   return(pctl->activepce[i]);
@@ -332,7 +360,8 @@ int update_activepce_framecounter(struct pctl_st *pctl,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if((pctl->f_active[i] == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     status = 1;
   else{
     if(block_number == (pctl->activepce[i])->recv_fragments){
@@ -364,7 +393,8 @@ int complete_activepce(struct pctl_st *pctl, int channel_index,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if((pctl->f_active[i] == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     status = 1;
   else{
     if((pctl->activepce[i])->num_fragments > 
diff --git a/src/pctl.h b/src/pctl.h
index 0b7af1e..5bae465 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -93,6 +93,7 @@ struct pctldb_param_st {
 struct pctl_st {
   struct pctldb_st      *pctldb;     /* access by readers and processor */
   struct pctl_element_st **activepce; /* access only by readers */
+  int *f_active;		     /* 1 => the activepce is in use */
   int num_activechannels;	     /* one for each noaaport channel */
   struct memfile_st *outputmf;   /* working mfile for assembling frames */
   struct pctl_element_st *pce;   /* working pce for processor */
@@ -115,6 +116,7 @@ struct memfile_st *reopen_pctl_outputmf(struct pctl_st *pctl);
 struct pctl_element_st *open_pctl_activepce(struct pctl_st *pctl,
 					    int channel_index);
 void close_pctl_activepce(struct pctl_st *pctl, int channel_index);
+int pctl_activepce_inuse(struct pctl_st *pctl, int channel_index);
 int esend_pctl_activepce(struct pctl_st *pctl, int channel_index);
 struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
 					   int channel_index,
-- 
2.43.0


From 3bffbcb89582b2f48ef505e676a3a6597d84b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 04/59] fix: account for the active product when the END of
 another one arrives

It was closed without being counted as missed nor sent to the processor.
---
 src/framep.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/framep.c b/src/framep.c
index d768fa8..5836914 100644
--- a/src/framep.c
+++ b/src/framep.c
@@ -491,6 +491,12 @@ static int e_end_activepce(struct sbn_frame *sbnf){
   if(status == 1){
     log_verbose(3, "END: %u not active on %d.", sbnf->pdh.product_seq_number,
 		sbnf->np_channel_index);
+    if(pctl_activepce_inuse(g.pctl, sbnf->np_channel_index)){
+      /* The product that was active can no longer be completed. */
+      update_stats_products_missed();
+      if(esend_pctl_activepce(g.pctl, sbnf->np_channel_index) != 0)
+	log_errx("Could not add element to processor queue.");
+    }
   }else{
     if(status == 0)
 	update_stats_products_completed();
-- 
2.43.0


From 0eac01d10cb1cf7690eb4e9409cee5a443e97c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 05/59] fix: do not read the wmo header beyond the data of the
 frame

---
 src/sbn.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 658adac..9e2cb14 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -384,6 +384,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    */
   char *wmo;
   char wmobbb[WMO_BBB_SIZE + 1];	/* 6 + 1 */
+  char wmoline[128];	/* NULL-terminated copy for sscanf */
   int count_blanks;
   int i;
   int b;
@@ -422,14 +423,25 @@ int split_wmo_header(struct sbn_frame *sbnf,
   memset(wmo_awips, '\0', WMO_AWIPS_SIZE + 1);
   memset(wmo_notawips, '\0', WMO_NOTAWIPS_SIZE + 1);
 
+  /*
+   * The data is not a string: without the copy, in a short product, sscanf
+   * would continue into whatever the buffer had from a previous frame.
+   */
+  n = data_size;
+  if(n > (int)sizeof(wmoline) - 1)
+    n = sizeof(wmoline) - 1;
+
+  memcpy(wmoline, wmo, n);
+  wmoline[n] = '\0';
+
   /* Count how many parts the wmo header has */
   count_blanks = count_char(wmo, data_size, ' ');
   if(count_blanks == 3) {
-    if(sscanf(wmo, "%6s %4s %6s %6s",
+    if(sscanf(wmoline, "%6s %4s %6s %6s",
 	      wmo_id, wmo_station, wmo_time, wmobbb) < 4)
       return(1);
   } else if(count_blanks == 2) {
-    if(sscanf(wmo, "%6s %4s %6s",
+    if(sscanf(wmoline, "%6s %4s %6s",
 	      wmo_id, wmo_station, wmo_time) < 3)
       return(1);
   } else
-- 
2.43.0


From f90704361c93b718327b472e574930957ca4c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 06/59] fix: do not count a retransmission from the header of
 an earlier frame

---
 src/framep.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framep.c b/src/framep.c
index 5836914..a2f6668 100644
--- a/src/framep.c
+++ b/src/framep.c
@@ -75,7 +75,9 @@ int sbnframeproc(struct sbn_frame *sbnf){
   }
 
   if(transfertype & PDH_TRANSFERTYPE_START){
-    if(sbnf->psh.transfer_status_flag & PSH_STATUSFLAG_RETRANSMIT){
+    /* Only block 0 has a psh; otherwise it is that of an earlier frame. */
+    if((sbnf->pdh.block_number == 0) &&
+       (sbnf->psh.transfer_status_flag & PSH_STATUSFLAG_RETRANSMIT)){
       update_stats_products_retransmitted();
       log_verbose(1, "%u is retransmitting %u.",
 		  sbnf->pdh.product_seq_number, sbnf->psh.orig_seq_number);
-- 
2.43.0


From 6a21cd7dba4dc9036b353658ed602e452c568930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 07/59] fix: normalize the deadline of the queue reads

---
 src/libqdb/qdb.c | 6 +++++-
 src/pctldb.c     | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 87690b5..01eecea 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -213,8 +213,8 @@ int nbspqt_rcv(nbspqtable_t *qtable, int type,
     if(status == ETIMEDOUT)
       status = 1;
     else{
-      status = -1;
       *dberror = status;
+      status = -1;
     }
   }else
     status = qdb_rcv(nbspq, data, data_size, dberror);
@@ -552,4 +552,8 @@ static void queue_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    timeout->tv_sec += 1;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
diff --git a/src/pctldb.c b/src/pctldb.c
index c3da7e1..97cc909 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -466,4 +466,8 @@ static void pctldb_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    timeout->tv_sec += 1;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
-- 
2.43.0


From 0c50eec90a82dc70103b48aa98196519d08048da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 08/59] fix: enforce the hard limit on a queue reloaded above
 it

---
 src/pctldb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 97cc909..8bb780e 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -424,7 +424,7 @@ static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size){
   }
 
   if(pctldb->hardlimit > 0){
-    if(pctldb->n == pctldb->hardlimit)
+    if(pctldb->n >= pctldb->hardlimit)
       return(1);
   }
 
-- 
2.43.0


From 4ed36dfccd794cd4ab0e6f2ba40ae9b475dcf90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 09/59] fix: keep the queue keys unique when the clock is set
 back

---
 src/pctldb.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 8bb780e..748dd61 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -252,6 +252,9 @@ static int pctlmfdb_stat(struct pctldb_st *pctldb, int *dberror){
     if(status == 0){
       memfile_size = data.size;
       pctldb->mf_total_size += memfile_size;
+      /* the keys are ordered, so that this leaves the largest one */
+      if(key.size == sizeof(struct timespec))
+	memcpy(&pctldb->last_tsqueue, key.data, sizeof(struct timespec));
     }
   }
 
@@ -295,14 +298,22 @@ int pctldb_send_pce(struct pctldb_st *pctldb,
   }
 
   /*
-   * If the clock resolution is not enough to separate this product from
-   * the last one, we resolve it manually. This is required in cygwin,
-   * where the resolution is only ms. Perhaps the best is to
+   * The tsqueue is the key of the data of this product in the mf db, so it
+   * must differ from those of all the products in the queue. If the clock
+   * resolution is not enough to separate this product from the last one
+   * (in cygwin the resolution is only ms), or the clock has been set back,
+   * we resolve it manually. Perhaps the best is to
    * use a sequence number instead of the tsqueue.
    */
-  if(pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec){
-    if(pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec)
-      pce->tsqueue.tv_nsec = pctldb->last_tsqueue.tv_nsec + 1;
+  if((pce->tsqueue.tv_sec < pctldb->last_tsqueue.tv_sec) ||
+     ((pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec) &&
+      (pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec))){
+    memcpy(&pce->tsqueue, &pctldb->last_tsqueue, sizeof(struct timespec));
+    ++pce->tsqueue.tv_nsec;
+    if(pce->tsqueue.tv_nsec >= 1000000000){
+      ++pce->tsqueue.tv_sec;
+      pce->tsqueue.tv_nsec -= 1000000000;
+    }
   }
   memcpy(&pctldb->last_tsqueue, &pce->tsqueue, sizeof(struct timespec));
   
-- 
2.43.0


From 4c08625909765b830cda958d7ea11a274606e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 10/59] fix: apply the accept patterns of the nbs1 and nbs2
 clients

---
 src/serverm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serverm.c b/src/serverm.c
index 6d01453..43221b9 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -855,6 +855,15 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
       continue;
     }
 
+    if(((protocol == PROTOCOL_NBS1) &&
+	(nbs1_regex_match(packetinfo->fname) == 1)) ||
+       ((protocol == PROTOCOL_NBS2) &&
+	(nbs2_regex_match(packetinfo->fname) == 1))){
+      log_verbose(1, "Client protocol regex is rejecting %s.",
+		  packetinfo->fname);
+      continue;
+    }
+
     if((g.netfilter_enable == 1) &&
        (allow_filter_get_flag(&g.ct->ce[i]) == 0)){
       log_verbose(1, "%s is not allowed for %s", packetinfo->fname, nameorip);
-- 
2.43.0


From c314bc5666649f846811297281d0978c66c595b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 11/59] fix: do not lose counts of the statistics updated
 concurrently

---
 src/stats.c | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/stats.c b/src/stats.c
index 400b7e3..7830701 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -6,11 +6,19 @@
  * $Id$
  */
 #include <stdio.h>
+#include <pthread.h>
 #include "err.h"
 #include "stats.h"
 #include "globals.h"
 #include "defaults.h"
 
+/*
+ * The counters are updated by the readers and the processor, and reported
+ * and reset by the periodic task.
+ */
+static pthread_mutex_t gstats_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+static void add_stats(unsigned int *counter, unsigned int n);
 static void init_counters(void);
 static void update_stats_goodframes(void);
 static void update_stats_badframes(void);
@@ -44,6 +52,13 @@ static void init_counters(void){
   g.nbspstats.products_rejected = 0;
 };
 
+static void add_stats(unsigned int *counter, unsigned int n){
+
+  (void)pthread_mutex_lock(&gstats_mutex);
+  *counter += n;
+  (void)pthread_mutex_unlock(&gstats_mutex);
+}
+
 void nbspstats_update(void){
 
   time_t now;
@@ -58,10 +73,12 @@ void nbspstats_update(void){
    *    return;
    */
 
+  (void)pthread_mutex_lock(&gstats_mutex);
   update_stats_rtx_index();
   g.nbspstats.time = now;
   nbspstats_report(g.statusfile);
   init_counters();  /* does not clear rtx_index */
+  (void)pthread_mutex_unlock(&gstats_mutex);
 }
 
 void nbspstats_report(char *fname){
@@ -98,8 +115,8 @@ void nbspstats_report(char *fname){
 
 void update_stats_frames_received(unsigned int frame_data_size){
 
-  ++g.nbspstats.frames_received;
-  g.nbspstats.frames_data_size += frame_data_size;
+  add_stats(&g.nbspstats.frames_received, 1);
+  add_stats(&g.nbspstats.frames_data_size, frame_data_size);
 }
 
 void update_stats_frames(int status){
@@ -115,7 +132,7 @@ void update_stats_frames(int status){
 
 void update_stats_frames_jumps(void){
 
-  ++g.nbspstats.frames_jumps;
+  add_stats(&g.nbspstats.frames_jumps, 1);
 }
 
 void update_stats_products(int status){
@@ -126,7 +143,7 @@ void update_stats_products(int status){
 
 void update_stats_products_transmitted(void){
 
-  ++g.nbspstats.products_transmitted;
+  add_stats(&g.nbspstats.products_transmitted, 1);
 }
 
 void update_stats_products_retransmitted(void){
@@ -135,14 +152,14 @@ void update_stats_products_retransmitted(void){
    * flag set. This number is increased indepdendently of whether the
    * entire product is received or not.
    */
-  ++g.nbspstats.products_retransmitted;
+  add_stats(&g.nbspstats.products_retransmitted, 1);
 }
 
 void update_stats_products_retransmitted_c(void){
   /*
    * This number is increased only if the entire product is received.
    */
-  ++g.nbspstats.products_retransmitted_c;
+  add_stats(&g.nbspstats.products_retransmitted_c, 1);
 }
 
 void update_stats_products_retransmitted_pi(int orig_status){
@@ -154,9 +171,9 @@ void update_stats_products_retransmitted_pi(int orig_status){
    */
 
   if(orig_status == 0)
-    ++g.nbspstats.products_retransmitted_i;
+    add_stats(&g.nbspstats.products_retransmitted_i, 1);
   else
-    ++g.nbspstats.products_retransmitted_p;
+    add_stats(&g.nbspstats.products_retransmitted_p, 1);
 }
 
 void update_stats_products_recovered(void){
@@ -164,44 +181,44 @@ void update_stats_products_recovered(void){
    * This is the number of retransmitted products that were able
    * to recover a missing one due missing frames.
    */
-  ++g.nbspstats.products_retransmitted_r;
+  add_stats(&g.nbspstats.products_retransmitted_r, 1);
 }
 
 void update_stats_products_missed(void){
 
-  ++g.nbspstats.products_missed;
+  add_stats(&g.nbspstats.products_missed, 1);
 }
 
 void update_stats_products_completed(void){
   /*
    * All frames received.
    */
-  ++g.nbspstats.products_completed;
+  add_stats(&g.nbspstats.products_completed, 1);
 }
 
 void update_stats_products_aborted(void){
 
-  ++g.nbspstats.products_aborted;
+  add_stats(&g.nbspstats.products_aborted, 1);
 }
 
 void update_stats_products_rejected(void){
 
-  ++g.nbspstats.products_rejected;
+  add_stats(&g.nbspstats.products_rejected, 1);
 }
     
 static void update_stats_goodframes(void){
 
-  ++g.nbspstats.frames_processed;
+  add_stats(&g.nbspstats.frames_processed, 1);
 }
 
 static void update_stats_badframes(void){
 
-  ++g.nbspstats.frames_bad;
+  add_stats(&g.nbspstats.frames_bad, 1);
 }
 
 static void update_stats_badproducts(void){
 
-  ++g.nbspstats.products_bad;
+  add_stats(&g.nbspstats.products_bad, 1);
 }
 
 static void update_stats_rtx_index(void){
-- 
2.43.0


From bf3f2ba45e373f24604a703b58ff406a1628ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 12/59] fix: keep the statistics that could not be written for
 the next report

---
 src/stats.c | 17 ++++++++++++-----
 src/stats.h |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/stats.c b/src/stats.c
index 7830701..dc13569 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -76,19 +76,21 @@ void nbspstats_update(void){
   (void)pthread_mutex_lock(&gstats_mutex);
   update_stats_rtx_index();
   g.nbspstats.time = now;
-  nbspstats_report(g.statusfile);
-  init_counters();  /* does not clear rtx_index */
+  /* The counts that could not be reported are left for the next report. */
+  if(nbspstats_report(g.statusfile) == 0)
+    init_counters();  /* does not clear rtx_index */
   (void)pthread_mutex_unlock(&gstats_mutex);
 }
 
-void nbspstats_report(char *fname){
+int nbspstats_report(char *fname){
 
   FILE *f;
+  int status = 0;
 
   f = fopen(fname, "a");
   if(f == NULL){
     log_err2("Could not open", fname);
-    return;
+    return(-1);
   }
 
   fprintf(f, "%ju %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u\n",
@@ -110,7 +112,12 @@ void nbspstats_report(char *fname){
 	  g.nbspstats.products_aborted,
 	  g.nbspstats.products_bad);
 
-  fclose(f);
+  if(fclose(f) != 0){
+    log_err2("Could not write", fname);
+    status = -1;
+  }
+
+  return(status);
 }
 
 void update_stats_frames_received(unsigned int frame_data_size){
diff --git a/src/stats.h b/src/stats.h
index 2029b6c..d3fa4fa 100644
--- a/src/stats.h
+++ b/src/stats.h
@@ -34,7 +34,7 @@ struct nbsp_stats_st {
 
 void nbspstats_init(void);
 void nbspstats_update(void);
-void nbspstats_report(char *fname);
+int nbspstats_report(char *fname);
 
 unsigned int nbspstats_get_rtx_index(void);
 
-- 
2.43.0


From 33782ee7a0de12dcad99460225dd854528cff050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:45 +0000
Subject: [PATCH 13/59] fix: strip the ccb of the products saved in the memory
 spool

---
 src/nbsp.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 057c86e..7ef60f1 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -862,16 +862,20 @@ static int nbsp_spooldb_insert(char *fpath){
 static int pce_savembdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
+  char *p;
   size_t size;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      p += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_mspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_mspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
@@ -879,16 +883,20 @@ static int pce_savembdb_memfile(struct pctl_element_st *pce,
 static int pce_savecbdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
+  char *p;
   size_t size;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      p += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_cspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_cspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
-- 
2.43.0


From 2758db4162f8b60a04acfd4433a5d2f82ef5c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 14/59] fix: do not confuse the products with the same sequence
 number in the memory spool

---
 src/nbspmspoolbdb.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/nbspmspoolbdb.c b/src/nbspmspoolbdb.c
index cbb5046..4f1d0a5 100644
--- a/src/nbspmspoolbdb.c
+++ b/src/nbspmspoolbdb.c
@@ -27,8 +27,11 @@
  * of an error, return -1 in that case, or return 0 if there is no error.
  */
 
-/* The key will be the sequence number of the file name */
-#define FKEY_SPOOLBDB_SIZE	FSEQNUM_SIZE
+/*
+ * The key will be the file (base) name. (The sequence number by itself is not
+ * enough because it is not unique across the channels.)
+ */
+#define FKEY_SPOOLBDB_SIZE	FBASENAME_SIZE
 
 static int get_fpath_key(char *fpath, char *spoolbdb_fkey);
 
@@ -52,13 +55,17 @@ static int get_fpath_key(char *fpath, char *spoolbdb_fkey){
    */
   char *p;
 
-  p = strrchr(fpath, FNAME_SEQNUM_SEPCHAR);
-  if(p == NULL){
+  p = strrchr(fpath, '/');
+  if(p == NULL)
+    p = fpath;
+  else
+    ++p;
+
+  if(*p == '\0'){
     log_errx("get_fpath_key(): no key in fpath %s", fpath);
     return(1);
   }
 
-  ++p;
   if(strlen(p) > FKEY_SPOOLBDB_SIZE){
     log_errx("get_fpath_key(): key too long in fpath %s", fpath);
     return(1);
-- 
2.43.0


From 880c90d3435347bd2a0f8227c6bd903ec6220058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 15/59] fix: do not leave readers waiting for a spool buffer
 that is free

---
 src/libspoolbdb/spoolslots.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libspoolbdb/spoolslots.c b/src/libspoolbdb/spoolslots.c
index b1b98ec..41741f8 100644
--- a/src/libspoolbdb/spoolslots.c
+++ b/src/libspoolbdb/spoolslots.c
@@ -133,6 +133,12 @@ int spoolbuf_slots_open(struct spoolbuf_slots_st *spoolslots,
    */
   status = _spoolbuf_slots_open_unlocked(spoolslots, spooldb, fkey, sd, 0);
 
+  /*
+   * If the slot was not taken after all, let another waiting thread have it.
+   */
+  if(status != 0)
+    (void)pthread_cond_signal(&spoolslots->cond);
+
   status1 = pthread_mutex_unlock(&spoolslots->mutex);
   if(status == 0)
     status = status1;
-- 
2.43.0


From 9886169b68179e61d35118caa60da3957a7f0fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 16/59] fix: know which product memory generation is the
 current one after a restart

---
 src/rtxdb.c | 87 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 src/rtxdb.h |  5 ++-
 2 files changed, 89 insertions(+), 3 deletions(-)

diff --git a/src/rtxdb.c b/src/rtxdb.c
index 54a4575..09a46df 100644
--- a/src/rtxdb.c
+++ b/src/rtxdb.c
@@ -14,12 +14,18 @@
 
 #define NBSP_RTXDB_FLAGS	(DB_CREATE | DB_THREAD)
 
+/* The key of the generation record; its size is what identifies it */
+#define NBSP_RTXDB_GENERATION_KEY	"g"
+#define NBSP_RTXDB_GENERATION_KEY_SIZE	1
+
 static int rtxdb_write_record(DB *dbp, struct nbsp_rtxdb_rec_st *rec);
 static int rtxdb_read_record(DB *dbp, struct nbsp_rtxdb_rec_st *rec);
 static int rtxdb_read_record2(DB *dbp, unsigned int seqnum,
 			      struct nbsp_rtxdb_data_st *rtxdata);
 static int rtxdb_write_record2(DB *dbp, unsigned int seqnum,
 			       struct nbsp_rtxdb_data_st *rtxdata);
+static int rtxdb_write_generation(DB *dbp, int generation);
+static int rtxdb_read_generation(DB *dbp, int *generation);
 static int rtxdb_compare(DB *dbp, const DBT *a, const DBT *b);
 
 int nbsp_rtxdb_open(struct nbsp_rtxdb_st **rtxdb, DB_ENV *dbenv,
@@ -31,6 +37,8 @@ int nbsp_rtxdb_open(struct nbsp_rtxdb_st **rtxdb, DB_ENV *dbenv,
   uint32_t dbflags = NBSP_RTXDB_FLAGS;
   char *fullname = NULL;
   int fullname_size = 0;
+  int generation1 = 0;
+  int generation2 = 0;
 
   /*
    * If dbfname == NULL, the database is purely memory based without
@@ -65,6 +73,16 @@ int nbsp_rtxdb_open(struct nbsp_rtxdb_st **rtxdb, DB_ENV *dbenv,
       status = dbp2->open(dbp2, NULL, fullname, NULL, DB_BTREE, dbflags, mode);
   }
 
+  /*
+   * If they were kept from a previous run, the current one is the last
+   * one that was truncated.
+   */
+  if(status == 0)
+    status = rtxdb_read_generation(dbp1, &generation1);
+
+  if(status == 0)
+    status = rtxdb_read_generation(dbp2, &generation2);
+
   if(status == 0){
     *rtxdb = malloc(sizeof(struct nbsp_rtxdb_st));
     if(*rtxdb == NULL)
@@ -74,8 +92,15 @@ int nbsp_rtxdb_open(struct nbsp_rtxdb_st **rtxdb, DB_ENV *dbenv,
   if(status == 0){
     (*rtxdb)->dbp1 = dbp1;
     (*rtxdb)->dbp2 = dbp2;
-    (*rtxdb)->dbp_c = dbp1;
-    (*rtxdb)->dbp_o = dbp2;
+    if(generation2 > generation1){
+      (*rtxdb)->dbp_c = dbp2;
+      (*rtxdb)->dbp_o = dbp1;
+      (*rtxdb)->generation = generation2;
+    }else{
+      (*rtxdb)->dbp_c = dbp1;
+      (*rtxdb)->dbp_o = dbp2;
+      (*rtxdb)->generation = generation1;
+    }
   }
 
   if(status != 0){
@@ -166,6 +191,10 @@ int nbsp_rtxdb_truncate(struct nbsp_rtxdb_st *rtxdb){
   if(dbp != NULL)
     status = dbp->truncate(dbp, NULL, &count, 0);
 
+  ++rtxdb->generation;
+  if((dbp != NULL) && (status == 0))
+    status = rtxdb_write_generation(dbp, rtxdb->generation);
+
   return(status);
 }
 
@@ -223,6 +252,7 @@ static int rtxdb_read_record2(DB *dbp,
    * ulen field.
    */
   key.data = (void*)&seqnum;
+  key.size = sizeof(seqnum);
   key.ulen = sizeof(seqnum);
   key.flags = DB_DBT_USERMEM;
   data.data = rtxdata;
@@ -234,6 +264,51 @@ static int rtxdb_read_record2(DB *dbp,
   return(status);
 }
 
+static int rtxdb_write_generation(DB *dbp, int generation){
+
+  DBT key, data;
+
+  memset(&key, 0 , sizeof(DBT));
+  memset(&data, 0 , sizeof(DBT));
+
+  key.data = NBSP_RTXDB_GENERATION_KEY;
+  key.size = NBSP_RTXDB_GENERATION_KEY_SIZE;
+  data.data = &generation;
+  data.size = sizeof(generation);
+
+  return(dbp->put(dbp, NULL, &key, &data, 0));
+}
+
+static int rtxdb_read_generation(DB *dbp, int *generation){
+  /*
+   * If there is no generation record (the db has never been truncated)
+   * then generation is set to 0.
+   */
+  int status;
+  DBT key, data;
+  char generation_key[] = NBSP_RTXDB_GENERATION_KEY;
+
+  memset(&key, 0 , sizeof(DBT));
+  memset(&data, 0 , sizeof(DBT));
+
+  /* With DB_DBT_USERMEM the key is copied back, so it must be writable */
+  key.data = generation_key;
+  key.size = NBSP_RTXDB_GENERATION_KEY_SIZE;
+  key.ulen = NBSP_RTXDB_GENERATION_KEY_SIZE;
+  key.flags = DB_DBT_USERMEM;
+  data.data = generation;
+  data.ulen = sizeof(*generation);
+  data.flags = DB_DBT_USERMEM;
+
+  status = dbp->get(dbp, NULL, &key, &data, 0);
+  if(status == DB_NOTFOUND){
+    *generation = 0;
+    status = 0;
+  }
+
+  return(status);
+}
+
 static int rtxdb_compare(DB *dbp __attribute__((unused)),
 			 const DBT *a, const DBT*b){
   unsigned int ai, bi;
@@ -243,7 +318,15 @@ static int rtxdb_compare(DB *dbp __attribute__((unused)),
    * -1 0 if a < b
    *  0 if a = b
    *  1 if a > b
+   *
+   * The key of the generation record is the shortest one.
    */
+  if(a->size != b->size)
+    return((a->size < b->size) ? -1 : 1);
+
+  if(a->size != sizeof(ai))
+    return(0);
+
   memcpy(&ai, a->data, sizeof(ai));
   memcpy(&bi, b->data, sizeof(bi));
 
diff --git a/src/rtxdb.h b/src/rtxdb.h
index df7fe36..e247ea8 100644
--- a/src/rtxdb.h
+++ b/src/rtxdb.h
@@ -35,7 +35,9 @@
  * is for that.
  *
  * The key is the seqnum and the data is the status, which indicates if
- * the file was received correctly or not.
+ * the file was received correctly or not. In addition each db that has been
+ * truncated has a record (with a shorter key) with its generation number, so
+ * that it is known which one is the current one when they are opened again.
  */
 
 /*
@@ -56,6 +58,7 @@ struct nbsp_rtxdb_st {
   DB *dbp_o;	/* previous */
   DB *dbp1;
   DB *dbp2;
+  int generation;	/* of dbp_c */
 };
 
 struct nbsp_rtxdb_data_st {
-- 
2.43.0


From 303fd4797d1a8bf983e43d1c7e8f609084c3c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 17/59] fix: save all the blocks of a product that is
 decompressed

---
 src/nbsp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 7ef60f1..7b3c58b 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -580,11 +580,15 @@ static int pce_mcat_frames(struct pctl_element_st *pce,
   int pdata_size;
   int f_compressed;
 
-  numfragments = pce->num_fragments;
+  /*
+   * All those received are saved (there can be more than those announced),
+   * including the ones that have no data.
+   */
+  numfragments = pce->recv_fragments;
 
   for(i = 0; i < numfragments; ++i){
     pdata_size = get_memframe(pce->mf, &pdata, &f_compressed);
-    if(pdata_size <= 0){
+    if(pdata_size < 0){
       log_errx("Error reading frame %d from memfile %u.", i, pce->seq_number);
       status = 2;
       break;
-- 
2.43.0


From c48a4b685de249c94fc802402f0ffd9af4778285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 18/59] fix: do not leave in the spool directory the file of a
 product that could not be saved

---
 src/nbsp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nbsp.c b/src/nbsp.c
index 7b3c58b..8fa5159 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -555,6 +555,12 @@ static int pce_savefs_memfile(struct pctl_element_st *pce,
 
   close(fd);
 
+  /*
+   * It is not going to be in the spooldb so that nobody would delete it.
+   */
+  if(status != 0)
+    (void)file_delete(pce->fpath);
+
   return(status);
 }
 
-- 
2.43.0


From 41e0042bf08e9fa32776dd7a1d9b9c13e15e6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 19/59] fix: check the lengths of the fpath packets and unpack
 their codes as unsigned

---
 src/packfp.c  |  2 +-
 src/packfpu.c | 29 ++++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/packfp.c b/src/packfp.c
index f5bc322..3074498 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -193,7 +193,7 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= packetinfo->packet_size); */
-  if(data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
+  if(data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE)
     return(1);
 
   p += NBS_ENVELOPE_SIZE;
diff --git a/src/packfpu.c b/src/packfpu.c
index 2dcd37c..423d123 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -26,10 +26,14 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
   int status = 0;
   unsigned int dataid;
-  int data_size;
+  size_t data_size;
   uint32_t transmitted_checksum;
   uint32_t calculated_checksum;
   char *p;
+  unsigned char *up;
+
+  if(packetinfo->packet_size < NBS_ENVELOPE_SIZE)
+    return(1);
 
   p = (char*)packetinfo->packet;
 
@@ -41,6 +45,14 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
   data_size = unpack_uint32(p, 4);
   transmitted_checksum = unpack_uint32(p, 8);
 
+  /*
+   * The data must be inside the packet, and contain at least the product
+   * codes, the fname and the final '\0' of the fpath.
+   */
+  if((data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE) ||
+     (data_size < 8 + FNAME_SIZE + 1 + 1))
+    return(1);
+
   /*
    * The rest of the message (data_size) is the full path name of the file 
    * (including a trailing '\0'), preceeded by the product data codes
@@ -53,6 +65,12 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
     return(1);
   }
 
+  /* Both strings must be terminated inside their own field */
+  if((memchr(&p[8], '\0', FNAME_SIZE + 1) == NULL) ||
+     (memchr(&p[8 + FNAME_SIZE + 1], '\0',
+	     data_size - (8 + FNAME_SIZE + 1)) == NULL))
+    return(1);
+
   /*
    *  p[0-7] contain the product specific data, defined above:
    *
@@ -66,10 +84,11 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
 
   packetinfo->seq_number = unpack_uint32(p, 0);
-  packetinfo->psh_product_type = p[4];
-  packetinfo->psh_product_category = p[5];
-  packetinfo->psh_product_code = p[6];
-  packetinfo->np_channel_index = p[7];
+  up = (unsigned char*)p;
+  packetinfo->psh_product_type = up[4];
+  packetinfo->psh_product_category = up[5];
+  packetinfo->psh_product_code = up[6];
+  packetinfo->np_channel_index = up[7];
 
   p += 8;
   packetinfo->fname = p;
-- 
2.43.0


From 17fb022f10452ae3db795e26ce70cba92d69ca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 20/59] fix: do not overflow the packet buffer with the size
 received from a master

---
 src/nbs1r.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index b832b64..e3658da 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -121,7 +121,7 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= NBS1_PACKET_MAXSIZE); */
-  if(data_size + NBS_ENVELOPE_SIZE > NBS1_PACKET_MAXSIZE)
+  if(data_size > NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE)
     return(1);
 
   n = readn(fd, &nbs->packet[NBS_ENVELOPE_SIZE], data_size, timeout_s, retry);
-- 
2.43.0


From be449b86e5a1725bf000d81273b44760fcbb8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 21/59] fix: count as missed a product received with
 inconsistent block numbers

---
 src/slavenbs/framep.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index eef245e..a1d4fa0 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -275,6 +275,7 @@ static int eend_activepce(struct nbs1_packet_st *nbs){
   }else if(status == 2){
     log_verbose(3, "END: Incomplete frames received for %u on %d.",
 		nbs->seq_number, nbs->slavenbs_reader_index);
+    update_stats_products_missed();
   }else{
     pce = get_pctl_activepce(g.pctl, nbs->slavenbs_reader_index,
 			     nbs->seq_number);
-- 
2.43.0


From 69ed6ccd76201a4f136dc69d52dd5407fa901651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 22/59] fix: skip a malformed record of the input fifo without
 losing the following ones

---
 src/slavein/reader.c | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 38541ce..43a6669 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -21,6 +21,12 @@
 #include "slavein.h"
 #include "framep.h"
 
+/*
+ * No valid file information can be larger than this: the numbers, the fname
+ * and the fpath.
+ */
+#define INFIFO_FINFO_MAXSIZE	65536
+
 /*
  * private thread info (stored in the info field of the slave_element_st)
  */
@@ -151,12 +157,17 @@ int slavein_loop(struct slave_element_st *slave){
 
   /*
    * We close the input fifo on an error. If there has not been any
-   * input, we don't close since that is not a real error.
+   * input, we don't close since that is not a real error. If the input
+   * is bad but it has been read up to the final '\n' (3 and above), it is
+   * just skipped; closing would discard the good input that follows.
    */ 
   if(status != 0){
     if(status == -2)
       return(0);
-    else{
+    else if(status >= 3){
+      slave_stats_update_errors(slave);
+      return(2);
+    }else{
       slave_stats_update_connect_errors(slave);
       return(1);
     }
@@ -198,6 +209,8 @@ static int recv_in_packet(struct slave_element_st *slave){
   int fpath_len;
   int fname_len;
   int fbasename_len;
+  int names_offset = 0;
+  struct pctl_element_st *pce;
   struct slavein_info_st *slavein_info = (struct slavein_info_st*)slave->info;
 
   n = readn(slave->slave_fd, finfo_size_buf, 4,
@@ -215,6 +228,10 @@ static int recv_in_packet(struct slave_element_st *slave){
   if(status != 0)
     return(status);
 
+  /* The size cannot be trusted before using it to read */
+  if(unpack_uint32(finfo_size_buf, 0) > INFIFO_FINFO_MAXSIZE)
+    return(1);
+
   finfo_size = unpack_uint32(finfo_size_buf, 0);
   if(slavein_info->buffer_size < finfo_size + 1){
     if(slavein_info->buffer != NULL)
@@ -244,24 +261,31 @@ static int recv_in_packet(struct slave_element_st *slave){
 
   slavein_info->buffer[finfo_size] = '\0';
 
-  if(sscanf(slavein_info->buffer, "%u %d %d %d %d",
-	    &(slavein_info->pce)->seq_number,
-	    &(slavein_info->pce)->psh_product_type,
-	    &(slavein_info->pce)->psh_product_category,
-	    &(slavein_info->pce)->psh_product_code,
-	    &(slavein_info->pce)->np_channel_index) != 5){
+  pce = slavein_info->pce;
+  if(sscanf(slavein_info->buffer, "%u %d %d %d %d%n",
+	    &pce->seq_number, &pce->psh_product_type,
+	    &pce->psh_product_category, &pce->psh_product_code,
+	    &pce->np_channel_index, &names_offset) != 5){
+    return(3);
+  }
+
+  /* Each of these is one byte in the packet */
+  if((pce->psh_product_type < 0) || (pce->psh_product_type > 255) ||
+     (pce->psh_product_category < 0) || (pce->psh_product_category > 255) ||
+     (pce->psh_product_code < 0) || (pce->psh_product_code > 255) ||
+     (pce->np_channel_index < 0) || (pce->np_channel_index > 255)){
     return(3);
   }
 
   /*
    * fpath starts after the last blank.
    */
-  fpath = strrchr(slavein_info->buffer, ' ');
+  fpath = strrchr(&slavein_info->buffer[names_offset], ' ');
   if(fpath == NULL)
     return(4);
 
   *fpath = '\0';	/* now fname starts after the last blank as well */
-  fname = strrchr(slavein_info->buffer, ' ');
+  fname = strrchr(&slavein_info->buffer[names_offset], ' ');
   if(fname == NULL)
     return(5);
 
-- 
2.43.0


From 956b2d16dca06de5c21d5bb4791f906a7f7effba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:29 +0000
Subject: [PATCH 23/59] fix: log correctly an invalid configuration of an input
 fifo

---
 src/slavet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slavet.c b/src/slavet.c
index d750e64..ba3d9b7 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -97,7 +97,7 @@ static int slave_element_configure(struct slave_element_st *slave,
 
     if(status != 0){
       log_errx("Invalid configuration [%d] string for SLAVETYPE_INFIFO: %s",
-	       s, status);
+	       status, s);
       status = 1;
       goto End;
     }
-- 
2.43.0


From fde4bce714d8bce46b919f327df70b0f85fda7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:46 +0000
Subject: [PATCH 24/59] fix: nbspinsert truncates an existing file before
 saving the data in it

---
 tools/nbspinsert/nbspinsert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index 048a795..a758484 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -500,7 +500,7 @@ static int save_fpath(void) {
    char input_buffer[FPATH_INPUT_BUFFER_SIZE];
    size_t input_buffer_size = FPATH_INPUT_BUFFER_SIZE;
      
-   fd = open(g.fpath, O_WRONLY | O_CREAT, FPATH_MODE);
+   fd = open(g.fpath, O_WRONLY | O_CREAT | O_TRUNC, FPATH_MODE);
    if(fd == -1){
      log_err(0, "%s %s", "Error opening", g.fpath);
 
-- 
2.43.0


From ab056ef78996882fab54fcf9d61cc316a4cc11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 25/59] fix: set the fname of the packets of the input fifo,
 which the queue patterns are matched with

---
 src/packfp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/packfp.c b/src/packfp.c
index 3074498..7e9a47e 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -68,6 +68,7 @@ int nbsfp_pack_fpath(struct packet_info_st *packetinfo,
 
   packetp = (char*)packetinfo->packet;
   data = &(packetp[NBS_ENVELOPE_SIZE]);
+  packetinfo->fname = &(data[8]);
   packetinfo->fpath = &(data[NBSFP_PINFO_SIZE]);
 
   packetinfo->seq_number = pce->seq_number;
-- 
2.43.0


From 2d0a6377b0d7dea0792e1b00c5da88096cf0a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:17 +0000
Subject: [PATCH 26/59] fix: disconnect a client that never identifies itself
 if the default protocol is not served

---
 src/serverm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serverm.c b/src/serverm.c
index 43221b9..3a147f7 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -628,6 +628,10 @@ static void process_unidentified_connections(void){
 	log_err2("Could not set protocol for", nameorip);
 	poll_kill_client_connection(g.ct, i);
 	numentries = conn_table_get_numentries(g.ct);
+      }else if(match_client_protocol(g.ct, i) != 0){
+	log_errx("Client %s protocol is not being served.", nameorip);
+	poll_kill_client_connection(g.ct, i);
+	numentries = conn_table_get_numentries(g.ct);
       }
     }
   }
-- 
2.43.0


From 66e0e120062f5958c24aedf4411be158c5653929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:17 +0000
Subject: [PATCH 27/59] fix: close the old socket, and forget its events, when
 restoring a client connection

---
 src/libconnth/poll.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libconnth/poll.c b/src/libconnth/poll.c
index ff28c14..b337ce4 100644
--- a/src/libconnth/poll.c
+++ b/src/libconnth/poll.c
@@ -226,8 +226,9 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
   if(status == 0){
     /*
      * A client has reconnected and the (previously closed) connection
-     * has been restored.
+     * has been restored. The element keeps its own copy of the ip.
      */
+    free(client_ip);
     return(0);
   }else if(status == 1){
     /*
@@ -271,6 +272,10 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
    * The limit is disabled if it was initialized to a negative value.
    */
   if((ct->nclientsmax >= 0) && (ct->nclients == ct->nclientsmax)){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
     return(-3);
   }
@@ -394,8 +399,16 @@ static int poll_restore_connection(struct conn_table_st *ct,
    */
   if(conn_element_set_connection_status(&ct->ce[i], client_fd) != 0)
     return(1);
-  
+
+  /*
+   * The old socket may still be open if the server did not have
+   * the chance to close it. In that case the revents are for that socket.
+   */
+  if(ct->pfd[i].fd != -1)
+    close(ct->pfd[i].fd);
+
   ct->pfd[i].fd = client_fd;
+  ct->pfd[i].revents = 0;
 
   return(0);
 }
-- 
2.43.0


From 56a08ff8b78265a7de55e45cd728e81ca7db40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:18 +0000
Subject: [PATCH 28/59] fix: close the file being sent when a client thread is
 canceled

---
 src/serverc.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/serverc.c b/src/serverc.c
index 9071a87..b9238ea 100644
--- a/src/serverc.c
+++ b/src/serverc.c
@@ -279,6 +279,16 @@ static void periodic(struct conn_element_st *ce){
     log_err_write(g.serverthreadsfile);
 }
 
+static void cleanup_emwin_packet(void *arg){
+
+  free_emwin_packet_st((struct emwin_packet_st*)arg);
+}
+
+static void cleanup_nbs1_packet(void *arg){
+
+  free_nbs_packet_st((struct nbs1_packet_st*)arg);
+}
+
 static int send_emwin_client(struct conn_element_st *ce,
 			     struct emwin_queue_info_st *eqinfo,
                              uint32_t eqinfo_size __attribute__((unused))){
@@ -299,6 +309,9 @@ static int send_emwin_client(struct conn_element_st *ce,
   if(status != 0)
     return(status);
 
+  /* The thread can be canceled while it waits to write to the client */
+  pthread_cleanup_push(cleanup_emwin_packet, &ep);
+
   for(i = 1; i <= ep.parts_total; ++i){
     status = build_emwin_packet(&ep);
     if(status == -1)
@@ -313,7 +326,7 @@ static int send_emwin_client(struct conn_element_st *ce,
       break;
   }
 
-  free_emwin_packet_st(&ep);
+  pthread_cleanup_pop(1);
 
   return(status);
 }
@@ -410,6 +423,9 @@ static int send_nbs1_client(struct conn_element_st *ce,
     return(status);
   }
 
+  /* The thread can be canceled while it waits to write to the client */
+  pthread_cleanup_push(cleanup_nbs1_packet, &nbs);
+
   for(i = 1; i <= nbs.num_blocks; ++i){
     status = build_nbs_packet(&nbs);
     if(status == -1)
@@ -428,7 +444,7 @@ static int send_nbs1_client(struct conn_element_st *ce,
       break;
   }
 
-  free_nbs_packet_st(&nbs);
+  pthread_cleanup_pop(1);
 
   return(status);
 }
-- 
2.43.0


From 78e6ce300d3b1880ce179ce82dd4157fd52a9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:04 +0000
Subject: [PATCH 29/59] fix: an entry of the filters directory that cannot be
 examined does not hide the others

---
 src/filters.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filters.c b/src/filters.c
index 2a4fb32..99cfb57 100644
--- a/src/filters.c
+++ b/src/filters.c
@@ -756,8 +756,14 @@ static int process_dir_entry(char *dir, char *name){
     }else if(S_ISREG(sb.st_mode) && ((sb.st_mode & S_IXUSR) != 0)){
       status = add_filter_entry(path, FILTER_TYPE_PIPE);
     }
-  }else
+  }else{
+    /*
+     * Such as a dangling link, or something that was just removed. The
+     * other entries in the directory must be loaded all the same.
+     */
     log_err2("Could not get info for", path);
+    status = 0;
+  }
 
   free(path);
 
-- 
2.43.0


From af8cacecd230fa06e98cfb1b929a90e033c2a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:04 +0000
Subject: [PATCH 30/59] fix: do not write announcements to a file that took the
 place of a filter's fifo

---
 src/filters.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/filters.c b/src/filters.c
index 99cfb57..e4bab30 100644
--- a/src/filters.c
+++ b/src/filters.c
@@ -915,6 +915,7 @@ static int open_fifo_filter(int i){
    *  -1 => open error
    */
   int fd;
+  struct stat sb;
 
   assert(gflist.filters[i].fd == -1);
 
@@ -927,6 +928,12 @@ static int open_fifo_filter(int i){
       return(-1);
   }
 
+  if((fstat(fd, &sb) == -1) || (S_ISFIFO(sb.st_mode) == 0)){
+    /* It was replaced by some other file, which must not be written to. */
+    close(fd);
+    return(1);
+  }
+
   gflist.filters[i].fd = fd;
 
   return(0);
-- 
2.43.0


From 629678a0fb139b793420a654615569b666fe774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:22 +0000
Subject: [PATCH 31/59] fix: nbspmcast: refuse files with more blocks than the
 headers can number

The block number and the number of fragments are 16 bit fields: a larger
file was sent with wrapped numbers, and the receiver could not assemble it.
Sizes within 24 bytes of INT_MAX overflowed when the ccb was added.
---
 tools/nbspmcast/sbnpack/file.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/nbspmcast/sbnpack/file.c b/tools/nbspmcast/sbnpack/file.c
index cab5f29..46d1d1b 100644
--- a/tools/nbspmcast/sbnpack/file.c
+++ b/tools/nbspmcast/sbnpack/file.c
@@ -5,12 +5,18 @@
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <string.h>
-#include <limits.h>
 /* #include <stdio.h> */
 #include "sbnpack.h"
 #include "sbn.h"
 #include "file.h"
 
+/*
+ * The block number and the number of fragments are 16 bit fields in the
+ * headers, so that a product can not have more than 65535 blocks
+ * (see get_file_frame_params() below).
+ */
+#define MAX_FSIZE (UINT16_MAX * DATA_BLOCK_SIZE - 1 - CCB_SIZE)
+
 static int get_file_stat_size(char *fname, int *fsize);
 
 static int get_file_stat_size(char *fname, int *fsize){
@@ -26,7 +32,7 @@ static int get_file_stat_size(char *fname, int *fsize){
     return(-1);
   
   ofsize = sb.st_size;
-  if(ofsize > INT_MAX)
+  if(ofsize > MAX_FSIZE)
     return(1);
 
   *fsize = (int)ofsize;
-- 
2.43.0


From b4d7977d4241cd413daa26830f095e5d6319cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:52 +0000
Subject: [PATCH 32/59] fix: nbspinvrm: delete only files in the directory of
 the first entry

An entry with a relative path (../x, sub/x) was deleted outside of that
directory, a full path in another directory deleted the file with the same
name in the directory of the first entry, a first entry that is not a full
path (or a blank line) deleted the files with those names in the current
directory, lines longer than PATH_MAX were split in pieces, and a line
starting with a null character read and wrote before the buffer.
---
 utils/nbspinvrm/nbspinvrm.c | 83 ++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 11 deletions(-)

diff --git a/utils/nbspinvrm/nbspinvrm.c b/utils/nbspinvrm/nbspinvrm.c
index 24b5a86..fa1610a 100644
--- a/utils/nbspinvrm/nbspinvrm.c
+++ b/utils/nbspinvrm/nbspinvrm.c
@@ -19,7 +19,8 @@
  * an error to stderr when a file could not be deleted. The [-t] flag is
  * just for testing.
  */
-#include <limits.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <fcntl.h>
 #include <string.h>
@@ -29,8 +30,6 @@
 #include <libgen.h>
 #include <errno.h>
 
-#define FPATH_BUFFER_SIZE PATH_MAX
-
 struct {
   int opt_test;		/* [-t] => only test */
   int opt_silent;	/* [-s] => don't write to stderr when removing a file*/
@@ -38,7 +37,9 @@ struct {
   /* variables */
   FILE *fp;
   int cwdfd;		/* current dir fd for fchdir */
-} g = {0, 0, 0, NULL, -1};
+  char *line;		/* getline buffer */
+  size_t line_size;
+} g = {0, 0, 0, NULL, -1, NULL, 0};
 
 /* Functions */
 static void cleanup(void);
@@ -47,6 +48,7 @@ static void write_msg(char *msg);
 static void write_err(char *s1, char *s2);
 static void write_warnx(char *s1, char *s2);
 static int e_unlink(char *fpath);
+static int in_cwd(char *fpath);
 
 int main(int argc, char **argv){
 
@@ -98,14 +100,17 @@ static void cleanup(void){
 
   if(g.cwdfd != -1)
     (void)close(g.cwdfd);
+
+  if(g.line != NULL)
+    free(g.line);
 }
 
 static void process_file(char *input_file){
 
-  char fpath[FPATH_BUFFER_SIZE];
-  char fpathc[FPATH_BUFFER_SIZE];	/* for the copy */
+  char *fpath;
+  char *fpathc = NULL;		/* for the copy */
   char *dir = NULL;
-  int size;
+  ssize_t size;
   int status = 0;
 
   g.fp = fopen(input_file, "r");
@@ -115,13 +120,22 @@ static void process_file(char *input_file){
     return;
   }
 
-  while(fgets(fpath, FPATH_BUFFER_SIZE, g.fp) != NULL){
-    size = strlen(fpath);
+  while((size = getline(&g.line, &g.line_size, g.fp)) != -1){
+    fpath = g.line;
     if(fpath[size - 1] == '\n'){
       fpath[size - 1] = '\0';
       --size;
     }
 
+    /* blank lines */
+    if(size == 0)
+      continue;
+
+    if(strlen(fpath) != (size_t)size){
+      write_warnx(fpath, "ignored. Invalid entry");
+      continue;
+    }
+
     /*
      * Change to the directory indicated by the first path.
      * In FreeBSD dirname() returns a pointer to internal storage but
@@ -130,7 +144,17 @@ static void process_file(char *input_file){
      */
 
     if(dir == NULL){
-      strncpy(fpathc, fpath, size + 1);
+      if(fpath[0] != '/'){
+	write_warnx("The first entry is not a full path in", input_file);
+	fclose(g.fp);
+	g.fp = NULL;
+	return;
+      }
+
+      fpathc = strdup(fpath);
+      if(fpathc == NULL)
+	err(1, "Error from strdup");
+
       dir = dirname(fpathc);
       status = chdir(dir);
       if(status != 0){
@@ -142,13 +166,19 @@ static void process_file(char *input_file){
 	if(errno == ENOENT)
 	  break;
 	else {
+	  free(fpathc);
 	  fclose(g.fp);
 	  g.fp = NULL;
 	  return;
 	}
       }
     }
-      
+
+    if(in_cwd(fpath) == 0){
+      write_warnx(fpath, "ignored. Not in the directory of the first entry");
+      continue;
+    }
+
     if(g.opt_test == 0)
       status = e_unlink(fpath);
 
@@ -156,6 +186,9 @@ static void process_file(char *input_file){
       write_msg(fpath);
   }
 
+  if(fpathc != NULL)
+    free(fpathc);
+
   fclose(g.fp);
   g.fp = NULL;
 
@@ -215,3 +248,31 @@ static int e_unlink(char *fpath){
 
   return(status);
 }
+
+static int in_cwd(char *fpath){
+  /*
+   * An entry can be the name, or the full path, of a file in the current
+   * directory (the directory of the first entry).
+   */
+  struct stat sb, sbdir;
+  char *fpathc;
+  int status;
+
+  if(fpath[0] != '/')
+    return(strchr(fpath, '/') == NULL);
+
+  fpathc = strdup(fpath);
+  if(fpathc == NULL)
+    err(1, "Error from strdup");
+
+  status = stat(dirname(fpathc), &sbdir);
+  free(fpathc);
+
+  if(status == 0)
+    status = stat(".", &sb);
+
+  if(status != 0)
+    return(0);
+
+  return((sb.st_dev == sbdir.st_dev) && (sb.st_ino == sbdir.st_ino));
+}
-- 
2.43.0


From d61b8a7ba711f85dd5d9fcfa5ae9ae5ad0190b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:52 +0000
Subject: [PATCH 33/59] fix: nbspinvrm: keep the inventory when it could not be
 read completely

A read error was taken as the end of the file and the inventory deleted; and
when it was not possible to return to the original directory the next
inventory was looked for in the data directory.
---
 utils/nbspinvrm/nbspinvrm.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/utils/nbspinvrm/nbspinvrm.c b/utils/nbspinvrm/nbspinvrm.c
index fa1610a..15bbc40 100644
--- a/utils/nbspinvrm/nbspinvrm.c
+++ b/utils/nbspinvrm/nbspinvrm.c
@@ -111,6 +111,7 @@ static void process_file(char *input_file){
   char *fpathc = NULL;		/* for the copy */
   char *dir = NULL;
   ssize_t size;
+  int read_error = 0;
   int status = 0;
 
   g.fp = fopen(input_file, "r");
@@ -186,18 +187,28 @@ static void process_file(char *input_file){
       write_msg(fpath);
   }
 
+  if(ferror(g.fp)){
+    read_error = 1;
+    write_err("Error reading", input_file);
+  }
+
   if(fpathc != NULL)
     free(fpathc);
 
   fclose(g.fp);
   g.fp = NULL;
 
+  /* The names of the inventory files are relative to the original directory */
   status = fchdir(g.cwdfd);
-  if(status == 0){
-    if(g.opt_test == 0){
-      status = e_unlink(input_file);
-    }
-  }
+  if(status != 0)
+    err(1, "Cannot return to the original directory.");
+
+  /* The rest of the files in the inventory have not been deleted */
+  if(read_error)
+    return;
+
+  if(g.opt_test == 0)
+    status = e_unlink(input_file);
 
   if(status == 0)
     write_msg(input_file);
-- 
2.43.0


From 2f90fa11286cbdb98ac6a5f8d6faab0c6373a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:28 +0000
Subject: [PATCH 34/59] fix: nbspinvrm: delete the inventory when it is given
 by its full path

Its base name was deleted in the current directory instead.
---
 utils/nbspinvrm/nbspinvrm.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/utils/nbspinvrm/nbspinvrm.c b/utils/nbspinvrm/nbspinvrm.c
index 15bbc40..22359b9 100644
--- a/utils/nbspinvrm/nbspinvrm.c
+++ b/utils/nbspinvrm/nbspinvrm.c
@@ -47,7 +47,8 @@ static void process_file(char *input_file);
 static void write_msg(char *msg);
 static void write_err(char *s1, char *s2);
 static void write_warnx(char *s1, char *s2);
-static int e_unlink(char *fpath);
+static int e_unlink(char *fpath, char *fname);
+static char *e_basename(char *fpath);
 static int in_cwd(char *fpath);
 
 int main(int argc, char **argv){
@@ -181,7 +182,7 @@ static void process_file(char *input_file){
     }
 
     if(g.opt_test == 0)
-      status = e_unlink(fpath);
+      status = e_unlink(fpath, e_basename(fpath));
 
     if(status == 0)
       write_msg(fpath);
@@ -208,7 +209,7 @@ static void process_file(char *input_file){
     return;
 
   if(g.opt_test == 0)
-    status = e_unlink(input_file);
+    status = e_unlink(input_file, input_file);
 
   if(status == 0)
     write_msg(input_file);
@@ -238,18 +239,20 @@ static void write_warnx(char *s1, char *s2){
     warnx("%s %s.", s1, s2);
 }
 
-static int e_unlink(char *fpath){
-
-  int status;
-  char *fbasename;
+static char *e_basename(char *fpath){
 
   /* The function assumes that we have chdir to the parent directory */
   if(fpath[0] == '/')
-    fbasename = basename(fpath);
-  else
-    fbasename = fpath;
+    return(basename(fpath));
+
+  return(fpath);
+}
+
+static int e_unlink(char *fpath, char *fname){
+
+  int status;
 
-  status = unlink(fbasename);
+  status = unlink(fname);
   if(status != 0) {
     if(errno == ENOENT)
       write_warnx(fpath, "not found. Probably a retransmission duplicate.");
-- 
2.43.0


From 80c96da9a22c6e47b6c9349d2dca7ec5eb22fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:22 +0000
Subject: [PATCH 35/59] fix: release the options only after the last use of
 their values at exit

---
 src/init.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/init.c b/src/init.c
index b26dd42..bbd7e09 100644
--- a/src/init.c
+++ b/src/init.c
@@ -289,7 +289,6 @@ void cleanup(void){
   close_queues();
   close_mspool();
 
-  release_confoptions();
   free_nbsp_regex();
 
   cleanup_files();
@@ -298,6 +297,11 @@ void cleanup(void){
 
   log_info("Stopped.");
   (void)exec_stopscript();
+
+  /*
+   * The functions above use the values of the options.
+   */
+  release_confoptions();
 }
 
 void cleanup_files(void){
-- 
2.43.0


From 5016251e800e85c9f0a8674832cfa1014fb63030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:22 +0000
Subject: [PATCH 36/59] fix: do not remove the queue state fifo of the process
 that has the lock

---
 src/init.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/init.c b/src/init.c
index bbd7e09..684ebd7 100644
--- a/src/init.c
+++ b/src/init.c
@@ -306,8 +306,11 @@ void cleanup(void){
 
 void cleanup_files(void){
 
-  kill_qstate_fifo();
+  /*
+   * Without the lock, the fifo and the pid file are those of another process.
+   */
   if(g.f_lock == 1){
+    kill_qstate_fifo();
     if(remove_pidfile(g.pidfile) != 0)
       log_err("Could not remove pidfile.");
 
-- 
2.43.0


From cec3ceb43b4a807434a8df9ee496d4baecb6b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:23 +0000
Subject: [PATCH 37/59] fix: execute the stop script only if the start script
 was executed

---
 src/exec.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 4f1bf40..4fe094c 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -29,11 +29,16 @@
 static void exec_external_program(char *s);
 static void wait_first_child(pid_t child_pid, char *name);
 
+/* The stop script is executed only if the start script was. */
+static int f_started = 0;
+
 int exec_startscript(void){
 
   char *s = g.startscript;
   int status = 0;
 
+  f_started = 1;
+
   if(valid_str(s) == 0)
     return(0);
   
@@ -52,7 +57,7 @@ int exec_stopscript(void){
   char *s = g.stopscript;
   int status = 0;
 
-  if(valid_str(s) == 0)
+  if((f_started == 0) || (valid_str(s) == 0))
     return(0);
   
   if(file_exists(s) != 0){
-- 
2.43.0


From adb75afe6a6abd188003349c92da1c76596d8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:34 +0000
Subject: [PATCH 38/59] fix: do not execute the start script when the daemon is
 already running

---
 src/init.c | 14 ++++++++++++++
 src/init.h |  1 +
 src/main.c |  3 +++
 3 files changed, 18 insertions(+)

diff --git a/src/init.c b/src/init.c
index 684ebd7..e410474 100644
--- a/src/init.c
+++ b/src/init.c
@@ -22,6 +22,7 @@
 #include "util.h"
 #include "strsplit.h"
 #include "server.h"
+#include "file.h"
 #include "pid.h"
 #include "pw.h"
 #include "qstate.h"
@@ -343,6 +344,19 @@ int init_daemon(void){
   return(status);
 }
 
+int verify_lock(void){
+  /*
+   * The start script is executed before the lock is taken (in init_lock);
+   * it should not be if the daemon is already running.
+   */
+  if(file_exists(g.pidfile) == 0){
+    log_errx("%s exists. Already running?", g.pidfile);
+    return(1);
+  }
+
+  return(0);
+}
+
 int init_lock(void){
   /*
    * This has to be done after daemon() so that the lock file  contains the
diff --git a/src/init.h b/src/init.h
index 655f0fd..892e50e 100644
--- a/src/init.h
+++ b/src/init.h
@@ -12,6 +12,7 @@ void init_globals(void);
 void cleanup(void);
 void cleanup_files(void);
 int init_daemon(void);
+int verify_lock(void);
 int init_lock(void);
 int init_directories(void);
 int drop_privs(void);
diff --git a/src/main.c b/src/main.c
index cc1417a..e925ebb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -125,6 +125,9 @@ int main(int argc, char **argv){
   if(status == 0)
     status = init_directories();
 
+  if(status == 0)
+    status = verify_lock();
+
   /*
    * The last configuration step, just before becoming a daemon.
    */
-- 
2.43.0


From 2a28f6bbb7edee6931e718b1e061286c20b05944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:34 +0000
Subject: [PATCH 39/59] fix: validate multicastport

---
 src/conf.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c.in b/src/conf.c.in
index e0a909b..2d4690a 100644
--- a/src/conf.c.in
+++ b/src/conf.c.in
@@ -997,7 +997,7 @@ int validate_configuration(void){
   /* char* user, group, home can be NULL or empty */
   /* mode_t umask	type */
   VALIDATE_STR(g.multicastip, "multicastip");
-  VALIDATE_STR(g.multicastip, "multicastport");
+  VALIDATE_STR(g.multicastport, "multicastport");
   /* char* ifname, ifip  can be NULL or empty */
   VALIDATE_PARAM_L(g.udprcvsize, -1, "udprcvsize");
   /* char* startscript, stopscript  can be NULL or empty. */
-- 
2.43.0


From 18d8439908b9f51151c069e8379b70a7818eb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:27 +0000
Subject: [PATCH 40/59] fix: stop, instead of hanging, when the daemon receives
 SIGABRT

---
 src/signal.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index c9cb66e..345fb27 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -178,14 +178,11 @@ static void signal_handler(int sig){
     log_info("Received quit signal.");
     break;
   case SIGABRT:
+    /*
+     * Do not call exit() from this thread: cleanup() would wait here for
+     * threads that do not quit because the flag has not been set.
+     */
     log_info("Received abort signal.");
-    if(g.f_debug){
-      /*
-       * Don't exit so that it dumps core.
-       */
-      ;
-    }else
-      exit(1);
     break;
   default:
     log_info("Received signal %d.", sig);
-- 
2.43.0


From f2973d59314cf271032b3f2bbc5474ccc301a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:27 +0000
Subject: [PATCH 41/59] fix: remove the input fifo when it could not be set up

---
 src/slave_in.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/slave_in.c b/src/slave_in.c
index 487381b..9e52bee 100644
--- a/src/slave_in.c
+++ b/src/slave_in.c
@@ -188,6 +188,7 @@ static int slavein_open(struct slave_element_st *slave){
   if(slave->slave_fd == -1){
     status = -1;
     log_err2("Slave cannot open", slave->infifo);
+    (void)unlink(slave->infifo);
   }
 
   return(status);
-- 
2.43.0


From a611d72d56e37d24a9102e68f23feec9717d352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:41 +0000
Subject: [PATCH 42/59] fix: do not leave the input fifo when its thread is
 canceled while opening it

---
 src/slave_in.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/slave_in.c b/src/slave_in.c
index 9e52bee..9d5b6fe 100644
--- a/src/slave_in.c
+++ b/src/slave_in.c
@@ -160,6 +160,13 @@ static void slavein_cleanup_info(void *arg){
 static int slavein_open(struct slave_element_st *slave){
 
   int status = 0;
+  int cancel_state;
+
+  /*
+   * If the thread is canceled here, the cleanup would not know
+   * that the fifo exists (slave_fd is -1) and it would not be removed.
+   */
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
 
   (void)unlink(slave->infifo);
   status = mkfifo(slave->infifo, slave->options.infifo_mode);
@@ -191,16 +198,21 @@ static int slavein_open(struct slave_element_st *slave){
     (void)unlink(slave->infifo);
   }
 
+  (void)pthread_setcancelstate(cancel_state, &cancel_state);
+
   return(status);
 }
 
 static int slavein_close(struct slave_element_st *slave){
 
   int status = 0;
+  int cancel_state;
 
   if(slave->slave_fd == -1)
     return(0);
 
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
+
   status = close(slave->slave_fd);
   if(status == 0){
     slave->slave_fd = -1;
@@ -208,6 +220,8 @@ static int slavein_close(struct slave_element_st *slave){
   }else
     log_err2("Error closing", slave->infifo);
 
+  (void)pthread_setcancelstate(cancel_state, &cancel_state);
+
   return(status);
 }
 
-- 
2.43.0


From 100e80a81e165a43d5eac29fe66da3dfbf736540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:25 +0000
Subject: [PATCH 43/59] fix: throttle the readers until the load becomes less
 than the soft limit

---
 src/load.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/load.c b/src/load.c
index ddd4bbb..a9d1370 100644
--- a/src/load.c
+++ b/src/load.c
@@ -20,6 +20,7 @@ void verify_load_ave_condition(void){
   double loadavg[3];
   int n;
   int current_load_avg;
+  int last_loadave_max = g.f_loadave_max;
 
   g.f_loadave_max = 0;
   g.f_loadave_max_rtx = 0;
@@ -31,8 +32,12 @@ void verify_load_ave_condition(void){
   }
   current_load_avg = (int)loadavg[0];
 
+  /*
+   * Once the readers are throttled, they are throttled until the load
+   * becomes less than the soft limit.
+   */
   if((g.loadave_max_soft > 0) && (current_load_avg >= g.loadave_max_soft))
-    g.f_loadave_max = 1;
+    g.f_loadave_max = (last_loadave_max == 2) ? 2 : 1;
 
   if((g.loadave_max_hard > 0) && (current_load_avg >= g.loadave_max_hard))
     g.f_loadave_max = 2;
-- 
2.43.0


From 47428b7a8b24b314f2d59082294946899e57e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:01 +0000
Subject: [PATCH 44/59] fix: refuse negative values of options kept in unsigned
 or wider variables

---
 src/conf.c.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/conf.c.in b/src/conf.c.in
index 2d4690a..94845e9 100644
--- a/src/conf.c.in
+++ b/src/conf.c.in
@@ -981,8 +981,12 @@ void print_confoptions(void){
 #define VALIDATE_PARAMETER(v, a, b, s) \
   if((v < a) || (v > b)){varname = s; goto end;}
 
+/*
+ * The options are int in the configuration file, but some of the variables
+ * are unsigned or wider; there, a negative value must still be negative.
+ */
 #define VALIDATE_PARAM_L(v, a, s) \
-  if(v < a){varname = s; goto end;}
+  if((int)v < a){varname = s; goto end;}
 
 #define VALIDATE_PARAM_H(v, a, s) \
   if(v > a){varname = s; goto end;}
-- 
2.43.0


From 567c7a1a99d67b68139f44dd2d0939803c108e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:30 +0000
Subject: [PATCH 45/59] fix: nbspz took the number of bytes read for an error
 and wrote nothing

---
 filters/filterlib/c/nbspz.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/filters/filterlib/c/nbspz.c b/filters/filterlib/c/nbspz.c
index 3bbb598..f49b72d 100644
--- a/filters/filterlib/c/nbspz.c
+++ b/filters/filterlib/c/nbspz.c
@@ -160,13 +160,20 @@ static int process_file(void){
   if(g.output_fp == NULL)
     log_err_open(g.opt_output_fname);
   
-  status = read_page(g.input_fp, g.buffer, g.buffer_size);
+  /*
+   * These functions return the number of bytes read or written.
+   */
+  if(read_page(g.input_fp, g.buffer, g.buffer_size) != g.buffer_size)
+    status = 1;
 
   if(status == 0){
-    if(g.opt_compress_level > 0)
-	status = write_cpage(g.output_fp, g.buffer, g.buffer_size);
-    else
-      status = write_page(g.output_fp, g.buffer, g.buffer_size);
+    if(g.opt_compress_level > 0){
+      if(write_cpage(g.output_fp, g.buffer, g.buffer_size) == -1)
+	status = 1;
+    }else{
+      if(write_page(g.output_fp, g.buffer, g.buffer_size) == -1)
+	status = 1;
+    }
   }
 
   return(status);
-- 
2.43.0


From e18ab56ea722ec84770899ad5ac2f6b3ca400f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:30 +0000
Subject: [PATCH 46/59] fix: nbspunz wrote the rest of a frame that is larger
 than its buffer still compressed

---
 filters/filterlib/c/nbspunz.c | 41 +++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/filters/filterlib/c/nbspunz.c b/filters/filterlib/c/nbspunz.c
index d04c950..aa2b400 100644
--- a/filters/filterlib/c/nbspunz.c
+++ b/filters/filterlib/c/nbspunz.c
@@ -231,7 +231,8 @@ static int process_frame(struct memfile_st *mf, z_stream *zs, int *zstatus){
   if((gframenumber == 0) && (opt_skipcount > 0))
     skip = opt_skipcount;
 
-  if((zs->next_in[0] != ZBYTE0) || (zs->next_in[1] != ZBYTE1)){
+  if((zs->avail_in < 2) ||
+     (zs->next_in[0] != ZBYTE0) || (zs->next_in[1] != ZBYTE1)){
     if((n = write_memfile(mf, zs->next_in, zs->avail_in)) == -1)
       status = -1;
     else
@@ -240,21 +241,29 @@ static int process_frame(struct memfile_st *mf, z_stream *zs, int *zstatus){
     return(status);
   }
 
-  zs->next_out = outbuf;
-  zs->avail_out = outlen;    
-  *zstatus = inflate(zs, Z_SYNC_FLUSH);
-
-  if((*zstatus == Z_OK) || (*zstatus == Z_STREAM_END)){
-    write_out = outlen - zs->avail_out;
-    if(skip >= write_out)
-      log_errx(1, "Skip count too large.");
-    else
-      write_out -= skip;
-
-    if((n = write_memfile(mf, outbuf + skip, write_out)) == -1)
-      status = -1;
-  }else 
-    status = 1;
+  /*
+   * The frame may be larger than the output buffer, if it was compressed
+   * by another program (e.g., nbspz).
+   */
+  do {
+    zs->next_out = outbuf;
+    zs->avail_out = outlen;    
+    *zstatus = inflate(zs, Z_SYNC_FLUSH);
+
+    if((*zstatus == Z_OK) || (*zstatus == Z_STREAM_END)){
+      write_out = outlen - zs->avail_out;
+      if((skip > 0) && (skip >= write_out))
+	log_errx(1, "Skip count too large.");
+      else
+	write_out -= skip;
+
+      if((n = write_memfile(mf, outbuf + skip, write_out)) == -1)
+	status = -1;
+
+      skip = 0;
+    }else 
+      status = 1;
+  } while((status == 0) && (*zstatus == Z_OK) && (zs->avail_out == 0));
 
   return(status);
 }
-- 
2.43.0


From 8d4a465c0d161a742a899c751e9f1e453042028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:53 +0000
Subject: [PATCH 47/59] fix: nbspcat ended at a file that cannot be opened, and
 crashed with an empty line

---
 filters/filterlib/c/io.c      | 9 +++------
 filters/filterlib/c/nbspcat.c | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/filters/filterlib/c/io.c b/filters/filterlib/c/io.c
index e496c3a..8f9c5aa 100644
--- a/filters/filterlib/c/io.c
+++ b/filters/filterlib/c/io.c
@@ -21,11 +21,10 @@ FILE *fopen_input(char *path){
   if(path == NULL)
     return(stdin);
 
+  /* The caller reports the error; nbspcat goes on with the next file. */
   f = fopen(path, "r");
-  if(f == NULL){
-    log_err_open(path);
+  if(f == NULL)
     return(NULL);
-  }
 
   s_input_filename = path;
 
@@ -60,10 +59,8 @@ FILE *fopen_output(char *path, char *mode){
     }
   }
 
-  if(fd == -1){
-    log_err_open(path);
+  if(fd == -1)
     return(NULL);
-  }
 
   f = fdopen(fd, mode);
   if(f == NULL){
diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index a494022..9be565c 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -187,7 +187,7 @@ static void process_cmd(int argc, char **argv){
   if(optind < argc - 1){
     status = 1;
     log_warnx("Too many arguments.");
-  }else if(optind == argc){
+  }else if(optind >= argc){
     status = 1;
     log_warnx(usage);
   }else
-- 
2.43.0


From f3a541c63a33838282d135c1a8c570a38d13fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:53 +0000
Subject: [PATCH 48/59] fix: do not write the gempak header when the file has
 no data

---
 filters/filterlib/c/nbspcat.c  | 8 ++++----
 filters/filterlib/c/nbspfile.c | 6 +++---
 filters/filterlib/c/nbsppipe.c | 8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index 9be565c..e91d050 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -245,16 +245,16 @@ static void process_file(void){
   if(g.opt_noccb == 1)
     ccb_size = 0;
 
-  if(g.opt_header == 1)
-    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
-  
   nread = read_page(g.input_fp, g.page, g.page_size);
   
   if(nread <= ccb_size){
     log_warnx("Corrupted data file.");
     return;
   }
-    
+
+  if(g.opt_header == 1)
+    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
+
   data_start = ccb_size;
 
   while(nread > 0){
diff --git a/filters/filterlib/c/nbspfile.c b/filters/filterlib/c/nbspfile.c
index 3ddd86d..71df966 100644
--- a/filters/filterlib/c/nbspfile.c
+++ b/filters/filterlib/c/nbspfile.c
@@ -286,6 +286,9 @@ static int write_header(FILE *fp, char *page, int page_size, int *offset){
 
   *offset = header_size + ccb_size;
 
+  if(g.opt_nogpkheader == 0)
+    fprintf(fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
+
   if(g.opt_nowmoheader == 0){
     if((n = write_page(fp, header, header_size)) == -1)
       status = -1;
@@ -348,9 +351,6 @@ static int process_file(void){
     if(g.output_fp == NULL)
       log_err_open(g.opt_output_fname);
 
-    if(g.opt_nogpkheader == 0)
-      fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
-
     nread = fread(g.page, 1, g.page_size, g.input_fp);
     if(nread > 0)
       status = write_header(g.output_fp, g.page, nread, &data_start);
diff --git a/filters/filterlib/c/nbsppipe.c b/filters/filterlib/c/nbsppipe.c
index fcccc73..3859b62 100644
--- a/filters/filterlib/c/nbsppipe.c
+++ b/filters/filterlib/c/nbsppipe.c
@@ -161,16 +161,16 @@ static int process_file(void){
   if(g.opt_noccb == 1)
     ccb_size = 0;
 
-  if(g.opt_header == 1)
-    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
-  
   nread = read_page(g.input_fp, g.page, g.page_size);
   
   if(nread <= ccb_size){
     status = 1;
     log_errx(1, "Corrupted data file.");
   }
-    
+
+  if(g.opt_header == 1)
+    fprintf(g.output_fp, GMPK_HEADER_FMT, (int)(g.opt_seqnum % 1000));
+
   data_start = ccb_size;
 
   while(nread > 0){
-- 
2.43.0


From af3bb67b515633d8d6f79fec6d7290e2439fa79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:54 +0000
Subject: [PATCH 49/59] fix: skip the empty command lines in nbspcat, which
 ended it

---
 filters/filterlib/c/nbspcat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index e91d050..b726513 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -112,6 +112,11 @@ static void process_input(void){
       break;
     }
     line[line_size - 1] = '\0';
+
+    /* strsplit_recreate() returns no arguments for an empty line */
+    if(line[strspn(line, " ")] == '\0')
+      continue;
+
     g.strp = strsplit_recreate(line, " ", STRSPLIT_FLAG_IGNEMPTY, g.strp);
     if(g.strp == NULL)
       log_err(1, "Error in strplit_create()");
-- 
2.43.0


From 08ee438950ef5ea82db114b8cd87dc253633a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:27 +0000
Subject: [PATCH 50/59] fix: nbspcat crashed when it ended without having read
 a command

---
 filters/filterlib/c/nbspcat.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index b726513..eaa9bf0 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -206,7 +206,11 @@ static void process_cmd(int argc, char **argv){
 static void cleanup(void){
 
   close_files();
-  strsplit_delete(g.strp);
+
+  if(g.strp != NULL){
+    strsplit_delete(g.strp);
+    g.strp = NULL;
+  }
 }
 
 static void close_files(void){
-- 
2.43.0


From fbdc36dac849dba9568fa7baa98690a920e922b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:27 +0000
Subject: [PATCH 51/59] fix: strsplit_recreate used the fields of the previous
 string again

---
 filters/ldmfilter/nbsp2ldm/src/strsplit.c | 18 +++++++++---------
 src/strsplit.c                            | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/filters/ldmfilter/nbsp2ldm/src/strsplit.c b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
index 6d56441..fdb82a1 100644
--- a/filters/ldmfilter/nbsp2ldm/src/strsplit.c
+++ b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
@@ -52,16 +52,16 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
-    new_strp = strp;
-  else{
-    if(strp != NULL)
-      strsplit_delete(strp);
-
-    new_strp = strsplit_init(n, s);
-  }
+  /*
+   * The old string and its fields cannot be reused; strsep() has cut the
+   * former.
+   */
+  if(strp != NULL)
+    strsplit_delete(strp);
 
-  strsplit(new_strp, delim, flags);
+  new_strp = strsplit_init(n, s);
+  if(new_strp != NULL)
+    strsplit(new_strp, delim, flags);
 
   return(new_strp);
 }
diff --git a/src/strsplit.c b/src/strsplit.c
index ec1017b..3092498 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -52,16 +52,16 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
-    new_strp = strp;
-  else{
-    if(strp != NULL)
-      strsplit_delete(strp);
-
-    new_strp = strsplit_init(n, s);
-  }
+  /*
+   * The old string and its fields cannot be reused; strsep() has cut the
+   * former.
+   */
+  if(strp != NULL)
+    strsplit_delete(strp);
 
-  strsplit(new_strp, delim, flags);
+  new_strp = strsplit_init(n, s);
+  if(new_strp != NULL)
+    strsplit(new_strp, delim, flags);
 
   return(new_strp);
 }
-- 
2.43.0


From 69f2e22d9dd082a57a455b4ab0f81ce51436f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:46 +0000
Subject: [PATCH 52/59] fix: nbspcat read the options of a command from the
 memory of a bad one

---
 filters/filterlib/c/nbspcat.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index eaa9bf0..cb45feb 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -143,9 +143,15 @@ static void process_cmd(int argc, char **argv){
   g.opt_header = 0;
   g.opt_ccbsize = CCB_SIZE;
 
-  optind = 1;
+  /*
+   * In glibc 0 forgets also the rest of an argument that was not finished,
+   * which is gone.
+   */
 #ifdef HAVE_OPTRESET
+  optind = 1;
   optreset = 1;
+#else
+  optind = 0;
 #endif
 
   while((status == 0) && ((c = getopt(argc, argv, optstr)) != -1)){
-- 
2.43.0


From 09c7ebf6db3d518631f23d1405a46a7062e67036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:46 +0000
Subject: [PATCH 53/59] fix: an illegal -c in one of its commands ended nbspcat

---
 filters/filterlib/c/nbspcat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index cb45feb..d7c56cd 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -162,7 +162,7 @@ static void process_cmd(int argc, char **argv){
     case 'c':
       status = strto_u16(optarg, &ccbsize);
       if(status != 0)
-	log_errx(1, "Illegal value for [-c].");
+	log_warnx("Illegal value for [-c].");
       else{
 	g.opt_ccbsize = ccbsize;
       }
-- 
2.43.0


From d6799f2a204ccbc416f5583e1261d41eaaf46f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:12 +0000
Subject: [PATCH 54/59] fix: nbspcat closed its standard output when the next
 input could not be opened

---
 filters/filterlib/c/nbspcat.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filters/filterlib/c/nbspcat.c b/filters/filterlib/c/nbspcat.c
index d7c56cd..4ac0ccd 100644
--- a/filters/filterlib/c/nbspcat.c
+++ b/filters/filterlib/c/nbspcat.c
@@ -226,10 +226,11 @@ static void close_files(void){
     g.input_fp = NULL;
   }
 
-  if((g.output_fp != NULL) && (g.opt_output_fname != NULL)){
+  if((g.output_fp != NULL) && (g.opt_output_fname != NULL))
     fclose(g.output_fp);
-    g.output_fp = NULL;
-  }
+
+  /* not to be closed by the next command if it is stdout */
+  g.output_fp = NULL;
 }
 
 static void process_file(void){
-- 
2.43.0


From b494f7f25768cabb23f46052c02368803bfaec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:54 +0000
Subject: [PATCH 55/59] fix: the bounding box of a radar product began with an
 uninitialised northern edge

---
 filters/filterlib/c/dcnids/dcnids_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_transform.c b/filters/filterlib/c/dcnids/dcnids_transform.c
index 834797d..faaab5e 100644
--- a/filters/filterlib/c/dcnids/dcnids_transform.c
+++ b/filters/filterlib/c/dcnids/dcnids_transform.c
@@ -77,7 +77,7 @@ void dcnids_polygonmap_bb(struct dcnids_polygon_map_st *pm){
   pm->lon_min = 180.0;
   pm->lon_max = -180.0;
   pm->lat_min = 180.0;
-  pm->lon_max = -180.0;
+  pm->lat_max = -180.0;
   
   for(j = 0; j < pm->numpolygons; ++j){
     for(i = 0; i < 4; ++i){
-- 
2.43.0


From daf946f3982b165c94a9b076fb669960797b1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:54 +0000
Subject: [PATCH 56/59] fix: radials were drawn up to a degree short of their
 azimuth

---
 filters/filterlib/c/dcnids/dcnids_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_transform.c b/filters/filterlib/c/dcnids/dcnids_transform.c
index faaab5e..de6e7d8 100644
--- a/filters/filterlib/c/dcnids/dcnids_transform.c
+++ b/filters/filterlib/c/dcnids/dcnids_transform.c
@@ -9,7 +9,7 @@
 #include "dcnids.h"
 
 #define KM_PER_DEG	111.111		/* R_E * pi/180 */
-#define RAD_PER_DEG	0.0174		/* pi/180 */
+#define RAD_PER_DEG	0.017453292519943295	/* pi/180 */
 
 void dcnids_sine_cosine(double theta_deg,
 			double *sin_theta, double *cos_theta){
-- 
2.43.0


From 556ff24c6dee1240a9492f1e293c66b1ef753576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 57/59] fix: the index of a radar shapefile gave every record 4
 words too many

---
 filters/filterlib/c/dcnids/dcnids_shp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_shp.c b/filters/filterlib/c/dcnids/dcnids_shp.c
index 31a07be..a064fe3 100644
--- a/filters/filterlib/c/dcnids/dcnids_shp.c
+++ b/filters/filterlib/c/dcnids/dcnids_shp.c
@@ -330,7 +330,8 @@ void dcnids_shx_insert_content(unsigned char *p,
   record_offset_words = SHAPEFILE_HEADER_SIZE_WORDS;
   for(i = 0; i < pm->numpolygons; ++i){
     dcnids_shp_insert_uint32_big(b, 0, record_offset_words);
-    dcnids_shp_insert_uint32_big(b, 4, record_size_words);
+    /* as in the record header, i.e., without the 8 bytes (4 words) of it */
+    dcnids_shp_insert_uint32_big(b, 4, record_size_words - 4);
     b += 8;
     record_offset_words += record_size_words;
   }
-- 
2.43.0


From 374babc735118efc15024fac29d643d68119f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 58/59] fix: the radar programs took a header that a pipe
 delivers in pieces for a short file

---
 filters/filterlib/c/dcnids/dcnids_header.c | 3 ++-
 filters/filterlib/c/misc.c                 | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_header.c b/filters/filterlib/c/dcnids/dcnids_header.c
index cdf7e51..ed17940 100644
--- a/filters/filterlib/c/dcnids/dcnids_header.c
+++ b/filters/filterlib/c/dcnids/dcnids_header.c
@@ -10,6 +10,7 @@
 #include <unistd.h>
 #include <string.h>
 #include "const.h"
+#include "io.h"
 #include "misc.h"
 #include "util.h"
 #include "dcnids_extract.h"
@@ -61,7 +62,7 @@ int dcnids_read_header(int fd, int skipcount,
     --b_size;
   }
 
-  n = read(fd, b, b_size);
+  n = readf(fd, b, b_size);
   if(n == -1)
     return(-1);
   else if(n < b_size)
diff --git a/filters/filterlib/c/misc.c b/filters/filterlib/c/misc.c
index 399ea81..4d30b61 100644
--- a/filters/filterlib/c/misc.c
+++ b/filters/filterlib/c/misc.c
@@ -24,7 +24,7 @@ int read_skip_count(int fd, size_t count, char *buffer, size_t buffer_size){
     nread = read(fd, buffer, ntry);
     if(nread == -1)
       return(-1);
-    else if((size_t)nread != ntry)
+    else if(nread == 0)
       return(1);
 
     nleft -= nread;
-- 
2.43.0


From 6ef84ae59c625d1b03e5b9d5044542c9ff5651fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:21 +0000
Subject: [PATCH 59/59] fix: nbspradgis read radials from beyond the end of a
 damaged product

---
 .../filterlib/c/dcnids/dcnids_decode_digital_radials_16.c  | 7 +++++++
 filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c    | 7 +++++++
 filters/filterlib/c/dcnids/nbspradgis.c                    | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
index c0285bd..8172d57 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
@@ -385,6 +385,7 @@ static void nids_decode_digital_radials_16_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_16(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *end = nd->data + nd->data_size;
   struct nids_digital_radial_packet_st radial_packet;
   int i, j;
   int run_code, run_bins, total_bins;
@@ -408,11 +409,17 @@ static void nids_count_polygons_radials_16(struct nids_data_st *nd){
   numpolygons = 0;
 
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(end - b < 6)
+      log_errx(1, "Corrupt file: radials beyond the end of the data.");
+
     radial_packet.num_bytes = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
     b += 6;
 
+    if(end - b < radial_packet.num_bytes)
+      log_errx(1, "Corrupt file: radials beyond the end of the data.");
+
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
 
diff --git a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
index 2f5336f..f99d57b 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
@@ -442,6 +442,7 @@ static void nids_decode_radials_af1f_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *end = nd->data + nd->data_size;
   struct nids_radial_packet_st radial_packet;
   int i, j;
   /* int run_code, run_bins, total_bins; */
@@ -467,11 +468,17 @@ static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   numpolygons = 0;
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(end - b < 6)
+      log_errx(1, "Corrupt file: radials beyond the end of the data.");
+
     radial_packet.num_rle_halfwords = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
     b += 6;
 
+    if(end - b < radial_packet.num_rle_halfwords * 2)
+      log_errx(1, "Corrupt file: radials beyond the end of the data.");
+
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
 
diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 24e18e9..075563b 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -369,6 +369,9 @@ static void nids_decode_data(struct nids_data_st *nd){
    * In the first case we continue, but if the divider is not -1
    * we assume it is a new product and try to send it to libbz2.
    */
+  if(nd->data_size < 2)
+    log_errx(1, "File is corrupt (short)");
+
   divider = (int)extract_int16(b, 1);
   if(divider != -1){
     status = dcnids_bunz(&nd->data, &nd->data_size, &bzerror);
@@ -381,6 +384,9 @@ static void nids_decode_data(struct nids_data_st *nd){
     b = nd->data;
   }
 
+  if(nd->data_size < NIDS_PACKET_RADIALS_START_RUNS)
+    log_errx(1, "File is corrupt (short)");
+
   divider = (int)extract_int16(b, 1);
   if(divider != -1)
     log_errx(1, "Corrupt file.");
-- 
2.43.0

