/*
 * The processor: frames are given to the frame processor of the readers, the
 * real processor thread takes the products from the processing queue, and after
 * each one everything it has done is logged (files, spool, logs, queues,
 * statistics).
 *
 * usage: proc configfile
 * script:  F ch hex    one frame, and wait until what it completes is processed
 *          T           truncate the product memory, wait for it
 *          X n         the next n writes to the memory spool run out of space
 *          K f s       whether the filter and server queues are left to fill;
 *                      their contents are taken out when they are no longer
 *          B name      make a plain file of that name in the spool directory
 *          U name      remove it
 *          G path      read a product from the spool (path relative to spooldir)
 *          L           list the spool directory
 */
#include "hcommon.h"
#include <dirent.h>
#include <tcl.h>
#include <db.h>
#include "globals.h"
#include "conf.h"
#include "init.h"
#include "nbspre.h"
#include "dbenv.h"
#include "nbsp.h"
#include "sbn.h"
#include "framep.h"
#include "nbspq.h"
#include "rtxdb.h"
#include "signal.h"
#include "spooltype.h"
#include "nbspmspoolbdb.h"
#include "stats.h"
#include "packfp.h"
#include "libqdb/qdb.h"

static struct sbn_frame frames[NPCAST_NUM_CHANNELS];
static pthread_mutex_t hm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t hc = PTHREAD_COND_INITIALIZER;
static int nsent, ndone, ntrunc;
static char *pbuf; static size_t pbufn;
static FILE *pf;                       /* what the processor thread reports */
static int nprods;
static struct pctl_element_st *cur;
static char curpath[1024]; static time_t curts;
static long mlogpos, rlogpos;
static int rdyf[64], nrdyf, rdys[64], nrdys;
static int hold[2];                    /* queues that are not drained */
static int nofile;                     /* number of space failures to inject */
static int nwrites;

static void fbytes(FILE *f, const void *p, long n){
  const unsigned char *u = p; long i;
  fputc('[', f);
  for(i = 0; i < n; ++i) fprintf(f, i ? ",%d" : "%d", u[i]);
  fputc(']', f);
}

/* --- spool directory listing --- */
static char **known; static int nknown;
static void scan(FILE *f){
  char **now = NULL; int nnow = 0, i, j, first;
  DIR *d, *e; struct dirent *x, *y; char p[2048];
  d = opendir(g.spooldir);
  while(d != NULL && (x = readdir(d)) != NULL){
    if(x->d_name[0] == '.') continue;
    snprintf(p, sizeof(p), "%s/%s", g.spooldir, x->d_name);
    e = opendir(p);
    if(e == NULL) continue;
    while((y = readdir(e)) != NULL){
      if(y->d_name[0] == '.') continue;
      now = realloc(now, (nnow + 1) * sizeof(char*));
      snprintf(p, sizeof(p), "%s/%s", x->d_name, y->d_name);
      now[nnow++] = strdup(p);
    }
    closedir(e);
  }
  if(d != NULL) closedir(d);
  int cmp(const void *a, const void *b){ return strcmp(*(char**)a, *(char**)b); }
  if(nnow > 0) qsort(now, nnow, sizeof(char*), cmp);
  if(f != NULL){
    fprintf(f, ",\"nfiles\":%d,\"new\":[", nnow);
    for(i = 0, j = 0, first = 1; i < nnow; ++i){
      while(j < nknown && strcmp(known[j], now[i]) < 0) ++j;
      if(j < nknown && strcmp(known[j], now[i]) == 0) continue;
      if(!first) fputc(',', f); fbytes(f, now[i], strlen(now[i])); first = 0;
    }
    fprintf(f, "],\"gone\":[");
    for(i = 0, j = 0, first = 1; j < nknown; ++j){
      while(i < nnow && strcmp(now[i], known[j]) < 0) ++i;
      if(i < nnow && strcmp(now[i], known[j]) == 0) continue;
      if(!first) fputc(',', f); fbytes(f, known[j], strlen(known[j])); first = 0;
    }
    fprintf(f, "]");
  }
  for(i = 0; i < nknown; ++i) free(known[i]);
  free(known);
  known = now; nknown = nnow;
}

static void fword(FILE *f, unsigned int w){ fprintf(f, "[%u,%u]", w >> 16, w & 0xffff); }

/* what a reader of the spool gets: {"st":0,"d":[..]} or the error */
static void readspool(FILE *f, char *fpath){
  if(spooltype_mspool()){
    int sd = nbsp_mspoolbdb_open(fpath);
    if(sd < 0){ fprintf(f, "{\"st\":%d,\"d\":[]}", sd); return; }
    size_t n = nbsp_mspoolbdb_datasize(sd), m;
    char *b = malloc(n + 1);
    m = nbsp_mspoolbdb_read(sd, b, n + 1);
    nbsp_mspoolbdb_close(sd);
    fprintf(f, "{\"st\":%d,\"d\":", m == n ? 0 : 9); fbytes(f, b, m); fputc('}', f);
    free(b);
  }else{
    struct stat st; int fd = open(fpath, O_RDONLY);
    if(fd < 0 || fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)){ fprintf(f, "{\"st\":-2,\"d\":[]}"); if(fd >= 0) close(fd); return; }
    char *b = malloc(st.st_size + 1); ssize_t m = read(fd, b, st.st_size + 1);
    close(fd);
    fprintf(f, "{\"st\":0,\"d\":"); fbytes(f, b, m); fputc('}', f);
    free(b);
  }
}
static int readable(char *fpath){
  if(spooltype_mspool()){
    int sd = nbsp_mspoolbdb_open(fpath);
    if(sd < 0) return 0;
    nbsp_mspoolbdb_close(sd);
    return 1;
  }
  return access(fpath, R_OK) == 0;
}

static void logtail(FILE *f, char *fname, long *pos){
  FILE *l = fopen(fname, "r"); char b[512], *w, *save; int first = 1;
  fputc('[', f);
  if(l != NULL){
    fseek(l, *pos, SEEK_SET);
    while(fgets(b, sizeof(b), l) != NULL){
      int k = 0, nl = strlen(b) > 0 && b[strlen(b) - 1] == '\n';
      if(nl) b[strlen(b) - 1] = '\0';
      fprintf(f, "%s[", first ? "" : ","); first = 0;
      for(w = strtok_r(b, " ", &save); w != NULL; w = strtok_r(NULL, " ", &save), ++k){
	if(k) fputc(',', f);
	if(k == 0) w = (strtoll(w, NULL, 10) == (long long)curts) ? "ts" : "ts?";
	fbytes(f, w, strlen(w));
      }
      fprintf(f, "%s]", nl ? "" : ",[63]");
    }
    *pos = ftell(l);
    fclose(l);
  }
  fputc(']', f);
}

static void drain(FILE *f, int type){
  void *p = NULL; size_t n = 0; int first = 1;
  fputc('[', f);
  while(1){
    p = NULL; n = 0;
    if(e_nbspq_rcv1(type, &p, &n) != 0) break;
    if(!first) fputc(',', f);
    first = 0;
    fbytes(f, p, n);
    if(p != NULL) free(p);
  }
  fputc(']', f);
}

int __real_esend_pctl_activepce(struct pctl_st *pctl, int ch);
int __wrap_esend_pctl_activepce(struct pctl_st *pctl, int ch){
  int r = __real_esend_pctl_activepce(pctl, ch);
  if(r == 0){ pthread_mutex_lock(&hm); ++nsent; pthread_mutex_unlock(&hm); }
  return r;
}

struct pctl_element_st *__real_eopen_pctl_outputpce(struct pctl_st *pctl, int timeout_ms, int *status);
struct pctl_element_st *__wrap_eopen_pctl_outputpce(struct pctl_st *pctl, int timeout_ms, int *status){
  struct pctl_element_st *p = __real_eopen_pctl_outputpce(pctl, timeout_ms, status);
  if(*status == 0 && p != NULL){
    cur = p; nrdyf = nrdys = 0; nwrites = 0;
    snprintf(curpath, sizeof(curpath), "%s", p->fpath);
    curts = p->ts.tv_sec;
    if(nprods++) fputc(',', pf);
    fprintf(pf, "{\"seq\":"); fword(pf, p->seq_number);
  }
  return p;
}

void __real_update_stats_products(int status);
void __wrap_update_stats_products(int status){
  struct nbsp_stats_st *s = &g.nbspstats; int i;
  __real_update_stats_products(status);
  fprintf(pf, ",\"st\":%d,\"cnt\":[%u,%u,%u,%u,%u],\"spool\":", status, s->products_bad, s->products_retransmitted_c,
	  s->products_retransmitted_i, s->products_retransmitted_p, s->products_retransmitted_r);
  readspool(pf, curpath);
  scan(pf);
  fprintf(pf, ",\"missing\":"); logtail(pf, g.missinglogfile, &mlogpos);
  fprintf(pf, ",\"rtxlog\":"); logtail(pf, g.rtxlogfile, &rlogpos);
  fprintf(pf, ",\"fq\":"); if(hold[0]) fprintf(pf, "[]"); else drain(pf, FILTER_Q_INDEX);
  fprintf(pf, ",\"sq\":"); if(hold[1]) fprintf(pf, "[]"); else drain(pf, SERVER_Q_INDEX);
  fprintf(pf, ",\"early\":%d,\"writes\":%d}", nrdyf, nwrites);
  pthread_mutex_lock(&hm); ++ndone; pthread_cond_broadcast(&hc); pthread_mutex_unlock(&hm);
}

/* announcements that are made before the data can be read */
int __real_e_nbspq_snd_filter(void *p, size_t n);
int __wrap_e_nbspq_snd_filter(void *p, size_t n){ if(!readable(curpath)) ++nrdyf; return __real_e_nbspq_snd_filter(p, n); }
int __real_e_nbspq_snd_server(void *p, size_t n);
int __wrap_e_nbspq_snd_server(void *p, size_t n){ if(!readable(curpath)) ++nrdyf; return __real_e_nbspq_snd_server(p, n); }

int __real_e_nbsp_rtxdb_truncate(void);
int __wrap_e_nbsp_rtxdb_truncate(void){
  int r = __real_e_nbsp_rtxdb_truncate();
  pthread_mutex_lock(&hm); ++ntrunc; pthread_cond_broadcast(&hc); pthread_mutex_unlock(&hm);
  return r;
}

int __real_spoolbdb_write2(DB *dbp, char *fkey, void *buffer, uint32_t n);
int __wrap_spoolbdb_write2(DB *dbp, char *fkey, void *buffer, uint32_t n){
  ++nwrites;
  if(nofile > 0){ --nofile; return ENOMEM; }
  return __real_spoolbdb_write2(dbp, fkey, buffer, n);
}

static int waitfor(int *a, int *b, int target){
  struct timespec ts; int r = 0;
  clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20;
  pthread_mutex_lock(&hm);
  while(*a < (b ? *b : target) && r == 0) r = pthread_cond_timedwait(&hc, &hm, &ts);
  pthread_mutex_unlock(&hm);
  return r;
}

int main(int argc, char **argv){
  char *line, *a[8], p[2048]; int n, st;
  h_init();
  Tcl_FindExecutable(argv[0]);
  init_globals();
  g.configfile = argv[1];
  pf = open_memstream(&pbuf, &pbufn);
  st = configure();
  if(st == 0 && init_nbsp_regex() != 0) st = 11;
  if(st == 0 && init_directories() != 0) st = 12;
  if(st == 0 && init_mspool() != 0) st = 13;
  if(st == 0 && init_queues() != 0) st = 14;
  if(st != 0){ fprintf(hout, "{\"e\":\"start\",\"st\":%d}", st); h_flush(); return 0; }
  g.f_filter_thread_created = 1;
  g.f_server_thread_created = 1;
  g.queue_read_timeout_ms = 0;
  { struct stat s; if(stat(g.missinglogfile, &s) == 0) mlogpos = s.st_size; if(stat(g.rtxlogfile, &s) == 0) rlogpos = s.st_size; }
  scan(NULL);
  spawn_nbsproc();
  /* wait until the thread has started (or refused to) */
  usleep(20000);
  fprintf(hout, "{\"e\":\"start\",\"st\":%d,\"quit\":%d,\"nfiles\":%d}", st, get_quit_flag(), nknown); h_flush();
  while((line = h_line()) != NULL){
    n = h_split(line, a, 8);
    if(n == 0) continue;
    if(get_quit_flag()) break;
    if(a[0][0] == 'F'){
      int ch = atoi(a[1]); struct sbn_frame *f = &frames[ch];
      f->rawdata_size = h_unhex(a[2], (unsigned char*)f->rawdata, SBN_FRAME_SIZE);
      f->np_channel_index = ch;
      (void)sbnframeproc(f);
      st = waitfor(&ndone, &nsent, 0);
      fflush(pf);
      fprintf(hout, "{\"stuck\":%d,\"prods\":[%.*s]}", st, (int)pbufn, pbuf ? pbuf : "");
      fseek(pf, 0, SEEK_SET); fflush(pf); fclose(pf); free(pbuf); pbuf = NULL; pf = open_memstream(&pbuf, &pbufn);
      nprods = 0;
    }else if(a[0][0] == 'T'){
      int k = ntrunc;
      set_rtxdb_truncate_flag();
      st = waitfor(&ntrunc, NULL, k + 1);
      fprintf(hout, "{\"stuck\":%d}", st);
    }else if(a[0][0] == 'X'){
      nofile = atoi(a[1]);
      fprintf(hout, "{\"stuck\":0}");
    }else if(a[0][0] == 'K'){
      hold[0] = atoi(a[1]); hold[1] = atoi(a[2]);
      fprintf(hout, "{\"fq\":"); if(hold[0]) fprintf(hout, "[]"); else drain(hout, FILTER_Q_INDEX);
      fprintf(hout, ",\"sq\":"); if(hold[1]) fprintf(hout, "[]"); else drain(hout, SERVER_Q_INDEX);
      fputc('}', hout);
    }else if(a[0][0] == 'B' || a[0][0] == 'U'){
      snprintf(p, sizeof(p), "%s/%s", g.spooldir, a[1]);
      if(a[0][0] == 'B'){ int fd = open(p, O_CREAT | O_WRONLY, 0600); st = fd < 0; if(fd >= 0) close(fd); }
      else st = unlink(p);
      fprintf(hout, "{\"stuck\":%d}", st);
    }else if(a[0][0] == 'G'){
      snprintf(p, sizeof(p), "%s/%s", g.spooldir, a[1]);
      fprintf(hout, "{\"spool\":"); readspool(hout, p); fputc('}', hout);
    }else if(a[0][0] == 'L'){
      int i;
      scan(NULL);
      fprintf(hout, "{\"files\":[");
      for(i = 0; i < nknown; ++i) { if(i) fputc(',', hout); fbytes(hout, known[i], strlen(known[i])); }
      fprintf(hout, "]}");
    }
    h_flush();
  }
  set_quit_flag();
  kill_processor_thread();
  kill_pctl();
  e_nbsp_rtxdb_close();
  kill_nbspq();
  nbsp_close_dbenv();
  return 0;
}
