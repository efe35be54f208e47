/* Helpers of the demonstrations: SBN frames fed to the frame processor of the daemon. */
#define _GNU_SOURCE
#include <assert.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include "globals.h"
#include "init.h"
#include "nbspre.h"
#include "dbenv.h"
#include "nbsp.h"
#include "sbn.h"
#include "framep.h"
#include "load.h"
#include "stats.h"
#define CHECK(x) do{ if(!(x)){ printf("FAILED line %d: %s\n", __LINE__, #x); fflush(stdout); _exit(1); } }while(0)
static struct sbn_frame d_f[NPCAST_NUM_CHANNELS];
static unsigned d_sbnseq = 1;

static void d_init(char *dir){
  init_globals();
  g.spooldir = dir; g.dbhome = dir; g.dbcache_mb = 4;
  CHECK(init_nbsp_regex() == 0);
  CHECK(nbsp_open_dbenv() == 0);
  CHECK(init_pctl() == 0);
}
struct d_opt { int nf, flag; unsigned orig; const char *ctrl; int ctrlsize; int extra; int badck; };
static int d_frame(int ch, unsigned seq, int blk, int tt, const void *data, int size, struct d_opt *o){
  struct d_opt z; unsigned char *p = (unsigned char*)d_f[ch].rawdata; int i, n = 0, ck = 0;
  if(o == NULL){ memset(&z, 0, sizeof z); z.nf = 1; o = &z; }
  memset(p, 0, 68);
  p[0] = 255; p[1] = 3; p[2] = 20; p[4] = 3; p[5] = 5;
  p[8] = d_sbnseq >> 24; p[9] = d_sbnseq >> 16; p[10] = d_sbnseq >> 8; p[11] = d_sbnseq; ++d_sbnseq;
  p[13] = 1;
  for(i = 0; i < 14; ++i) ck += p[i];
  ck += o->badck;
  p[14] = ck >> 8; p[15] = ck;
  p[16] = 0x14; p[17] = tt; p[20] = blk >> 8; p[21] = blk;
  p[22] = o->ctrlsize >> 8; p[23] = o->ctrlsize;
  p[24] = (size + o->ctrlsize) >> 8; p[25] = size + o->ctrlsize;
  p[28] = seq >> 24; p[29] = seq >> 16; p[30] = seq >> 8; p[31] = seq;
  n = 32;
  if(blk == 0){
    unsigned char *q = p + 32;
    q[0] = 2; q[1] = 1; q[3] = 36; q[4] = 1; q[5] = o->flag; q[10] = 4; q[11] = 1; q[13] = 1;
    q[14] = o->nf >> 8; q[15] = o->nf;
    q[20] = o->orig >> 24; q[21] = o->orig >> 16; q[22] = o->orig >> 8; q[23] = o->orig;
    n = 68;
  }
  if(o->ctrlsize) memcpy(p + n, o->ctrl, o->ctrlsize);
  n += o->ctrlsize;
  memcpy(p + n, data, size);
  n += size;
  d_f[ch].rawdata_size = n + o->extra;
  d_f[ch].np_channel_index = ch;
  return sbnframeproc(&d_f[ch]);
}
/* takes an element from the processing queue, NULL if it is empty */
static struct pctl_element_st *d_take(void){
  int status = 0;
  if(g.pctl->pctldb->n == 0) return NULL;
  return eopen_pctl_outputpce(g.pctl, 0, &status);
}
#define S_ 1
#define P_ 2
#define E_ 4
#define HDR "SAUS70 KWBC 031200\r\r\nMETAR\r\r\n"

/* The whole way from the frames to the spool: the processor thread is started
   with a configuration (dir/spool, dir/db and the logs are set in it). */
#include <sys/stat.h>
#include <tcl.h>
#include "conf.h"
#include "nbspq.h"
#include "rtxdb.h"
#include "signal.h"
static char *d_dir;
static void d_proc(char *dir, const char *conf){
  char p[512]; FILE *f;
  d_dir = dir;
  snprintf(p, sizeof p, "%s/spool", dir); mkdir(p, 0755);
  snprintf(p, sizeof p, "%s/db", dir); mkdir(p, 0755);
  snprintf(p, sizeof p, "%s/conf", dir);
  f = fopen(p, "w"); CHECK(f != NULL);
  fprintf(f, "set spooldir %s/spool\nset dbhome %s/db\nset dbcachemb 8\nset missinglogfile %s/missing.log\nset rtxlogfile %s/rtx.log\nset spooldb_fname %s/spooldb\nset pctl_read_timeout_ms 20\nset feedmode 1\nset cspoolbdb_dir %s/cspool\n%s", dir, dir, dir, dir, dir, dir, conf);
  fclose(f);
  Tcl_FindExecutable("demo");
  init_globals();
  g.configfile = strdup(p);
  CHECK(configure() == 0);
  CHECK(init_nbsp_regex() == 0);
  CHECK(init_directories() == 0);
  CHECK(init_mspool() == 0);
  CHECK(init_queues() == 0);
  g.f_filter_thread_created = 1; g.f_server_thread_created = 1;
  g.queue_read_timeout_ms = 0;
  CHECK(spawn_nbsproc() == 0);
  usleep(100000);
}
static void d_wait(void){ int i; for(i = 0; i < 500 && g.pctl->pctldb->n > 0; ++i) usleep(10000); usleep(60000); }
static void d_stop(void){
  d_wait();
  set_quit_flag(); kill_processor_thread(); kill_pctl(); e_nbsp_rtxdb_close(); kill_nbspq(); nbsp_close_dbenv();
}
static int d_qlen(int type){ int n = 0; void *p = NULL; size_t k = 0; while(p = NULL, k = 0, e_nbspq_rcv1(type, &p, &k) == 0){ ++n; free(p); } return n; }
static int d_lines(const char *name){ char p[512]; FILE *f; int n = 0, c; snprintf(p, sizeof p, "%s/%s", d_dir, name); f = fopen(p, "r"); if(f == NULL) return 0; while((c = fgetc(f)) != EOF) n += c == '\n'; fclose(f); return n; }
static long d_size(const char *name){ char p[512]; struct stat st; snprintf(p, sizeof p, "%s/spool/%s", d_dir, name); return stat(p, &st) == 0 ? (long)st.st_size : -1; }
/* a product of one frame: station KWBC, name kwbc_saus70-metar.031200_SEQ */
static void d_prod(int ch, unsigned seq, unsigned orig, int complete){
  struct d_opt o; memset(&o, 0, sizeof o); o.nf = complete ? 1 : 2; o.orig = orig; if(orig) o.flag = 16;
  d_frame(ch, seq, 0, complete ? S_|P_|E_ : S_|P_, HDR, sizeof HDR - 1, &o);
  if(!complete) d_frame(ch, seq, 5, P_|E_, "x", 1, NULL);
}
/* each run of the daemon in its own process */
#include <sys/wait.h>
#define RUN(body) do{ int s_; fflush(stdout); pid_t p_ = fork(); if(p_ == 0){ body; fflush(stdout); _exit(0); } CHECK(waitpid(p_, &s_, 0) == p_ && WIFEXITED(s_) && WEXITSTATUS(s_) == 0); }while(0)
