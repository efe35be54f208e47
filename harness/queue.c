/*
 * Drives the queues of nbsp and logs invocations and returns.
 *
 * usage: queue pctl|nbspq|cq workdir file|mem soft hard mbsoft mbhard
 * script:  S t q id size      send by "thread" t (in the main thread)
 *          R t q timeout_ms   receive
 *          K ms               shift the clock by ms (may be negative)
 *          U usec             set the sub-second part of the clock
 *          Z 0|1              freeze the clock
 *          W q timeout_ms id size delay_ms   send to a waiting receiver
 *          P writers items readers seed      concurrent phase
 * end of script: orderly close
 */
#include "hcommon.h"
#include "globals.h"
#include "init.h"
#include "dbenv.h"
#include "nbsp.h"
#include "nbspq.h"
#include "pctl.h"
#include "libqdb/qdb.h"
#include "libconnth/cq.h"
#include "packfp.h"

static int mode;		/* 0 pctl 1 nbspq 2 cq */
static connqueue_t *cqs[2];
static pthread_mutex_t lg = PTHREAD_MUTEX_INITIALIZER;
static int delays = 0;
static unsigned int reclen;

static unsigned rnd(unsigned *s){
  *s = *s * 1103515245u + 12345u;
  return (*s >> 8) & 0xffffff;
}

/* Delays inside the data base calls, to widen the windows between threads */
#define NDB 8
static struct { DB *d; int (*put)(DB*,DB_TXN*,DBT*,DBT*,u_int32_t); int (*get)(DB*,DB_TXN*,DBT*,DBT*,u_int32_t); } dbs[NDB];
static int ndb = 0;
static __thread unsigned dseed = 7;
static void pause_(void){
  if(delays && rnd(&dseed) % 3 == 0) usleep(rnd(&dseed) % 400);
}
static int xput(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){
  int i, r = EINVAL;
  for(i = 0; i < ndb; ++i) if(dbs[i].d == d){ pause_(); r = dbs[i].put(d, t, k, v, f); pause_(); break; }
  return r;
}
static int xget(DB *d, DB_TXN *t, DBT *k, DBT *v, u_int32_t f){
  int i, r = EINVAL;
  for(i = 0; i < ndb; ++i) if(dbs[i].d == d){ pause_(); r = dbs[i].get(d, t, k, v, f); pause_(); break; }
  return r;
}
static void hookdb(DB *d){
  if(d == NULL || ndb >= NDB) return;
  dbs[ndb].d = d; dbs[ndb].put = d->put; dbs[ndb].get = d->get; ++ndb;
  d->put = xput; d->get = xget;
}

static long long mono_ms(void){
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (long long)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

static unsigned long long fnv(unsigned long long h, const void *p, size_t n){
  const unsigned char *u = p;
  while(n--){ h ^= *u++; h *= 1099511628211ULL; }
  return h;
}
#define FNV0 1469598103934665603ULL

static void fill(char *b, int n, unsigned id){
  unsigned s = id * 2654435761u + 1;
  int i;
  for(i = 0; i < n; ++i) b[i] = (char)rnd(&s);
}

static void rstr(char *d, int max, unsigned *s){
  int n = rnd(s) % (max + 1), i;
  for(i = 0; i < n; ++i) d[i] = 'a' + rnd(s) % 26;
  d[n] = '\0';
}

/* the identity of a product: all its attributes and its content */
static void pce_value(struct pctl_element_st *p, char *v){
  unsigned long long h = FNV0;
#define H(x) h = fnv(h, &p->x, sizeof(p->x))
#define HS(x) h = fnv(h, p->x, strlen(p->x) + 1)
  H(f_complete); H(num_fragments); H(recv_fragments); H(orig_seq_number); H(sbn_datstream);
  H(psh_product_type); H(psh_product_category); H(psh_product_code); H(np_channel_index);
  H(ts.tv_sec); H(ts.tv_nsec); H(save_format); H(saveunz_flag); H(rtxdb_flag);
  H(ctrlhdr_size); h = fnv(h, p->ctrlhdr, p->ctrlhdr_size); H(f_has_ccb);
  HS(wmo_id); HS(wmo_station); HS(wmo_time); HS(wmo_awips); HS(wmo_notawips);
  HS(fname); HS(fbasename); HS(fpath);
  h = fnv(h, p->mf->p, p->mf->size);
  sprintf(v, "%u.%zu.%016llx", p->seq_number, p->mf->size, h);
}

static void mkpce(struct pctl_element_st *p, unsigned id, int size, int ch){
  unsigned s = id * 40503u + 17;
  char *b;
  p->f_complete = rnd(&s) % 2; p->num_fragments = rnd(&s) % 300; p->recv_fragments = rnd(&s) % 300;
  p->seq_number = id; p->orig_seq_number = (rnd(&s) % 2) ? rnd(&s) : 0;
  p->sbn_datstream = rnd(&s) % 20; p->psh_product_type = rnd(&s) % 256;
  p->psh_product_category = rnd(&s) % 256; p->psh_product_code = rnd(&s) % 256;
  p->np_channel_index = ch; p->ts.tv_sec = 1000000 + rnd(&s); p->ts.tv_nsec = rnd(&s);
  p->save_format = rnd(&s) % 3; p->saveunz_flag = rnd(&s) % 2; p->rtxdb_flag = rnd(&s) % 2;
  p->ctrlhdr_size = rnd(&s) % (MAX_CTRLHDR_SIZE + 1); fill(p->ctrlhdr, p->ctrlhdr_size, id);
  p->f_has_ccb = rnd(&s) % 2;
  rstr(p->wmo_id, WMO_ID_SIZE, &s); rstr(p->wmo_station, WMO_STATION_SIZE, &s);
  rstr(p->wmo_time, WMO_TIME_SIZE, &s); rstr(p->wmo_awips, WMO_AWIPS_SIZE, &s);
  rstr(p->wmo_notawips, WMO_NOTAWIPS_SIZE, &s); rstr(p->fname, FNAME_SIZE, &s);
  rstr(p->fbasename, FBASENAME_SIZE, &s); rstr(p->fpath, p->fpath_size - 1, &s);
  b = malloc(size + 1); fill(b, size, id);
  write_memfile(p->mf, b, size);
  free(b);
}

static void pk_value(const char *b, unsigned len, char *v){
  unsigned id, n;
  memcpy(&id, b, 4); memcpy(&n, b + 4, 4);
  if(n < 8 || n > len){ sprintf(v, "garbled"); return; }
  sprintf(v, "%u.%u.%016llx", id, n, fnv(FNV0, b, n));
}
static void mkpk(char *b, unsigned id, unsigned n){
  fill(b, n, id);
  memcpy(b, &id, 4); memcpy(b + 4, &n, 4);
}

static void occ(int q){
  if(mode == 0) fprintf(hout, ",\"on\":%u,\"ob\":%lld", g.pctl->pctldb->n, (long long)g.pctl->pctldb->mf_total_size);
  else if(mode == 1) fprintf(hout, ",\"on\":%u,\"ob\":-1", nbspqt_n(g.qtable, q));
  else fprintf(hout, ",\"on\":%u,\"ob\":-1", connqueue_n(cqs[q]));
}

static void do_send(int t, int q, unsigned id, int size, int seqn){
  char v[80], *b = NULL;
  struct pctl_element_st *p = NULL;
  int r = -5, e = 0;
  if(mode == 0){
    p = open_pctl_activepce(g.pctl, t);
    if(p == NULL){ fprintf(hout, "{\"e\":\"noactive\"}\n"); return; }
    mkpce(p, id, size, t);
    pce_value(p, v);
  }else{
    b = malloc(reclen); memset(b, 0x55, reclen);
    if(size < 8) size = 8;
    if(size > (int)reclen) size = reclen;
    mkpk(b, id, size);
    pk_value(b, reclen, v);
  }
  pthread_mutex_lock(&lg);
  fprintf(hout, "{\"e\":\"inv\",\"t\":%d,\"op\":\"snd\",\"q\":%d,\"v\":\"%s\",\"n\":%d}\n", t, q, v, size);
  pthread_mutex_unlock(&lg);
  if(mode == 0){
    if(seqn && id % 2){		/* through the reader's entry point */
      r = esend_pctl_activepce(g.pctl, t);
      if(r == 0) r = 9;		/* accepted, with or without a warning */
    }else
      r = pctldb_send_pce(g.pctl->pctldb, p, &e);
    close_pctl_activepce(g.pctl, t);
  }else if(mode == 1){
    if(id % 2){
      r = e_nbspq_snd1(q, b, size);
      r = (r == 0) ? 9 : (r == -1 ? 2 : -1);
    }else
      r = nbspqt_snd(g.qtable, q, b, size, &e);
  }else
    r = connqueue_snd(cqs[q], b, size, &e);
  pthread_mutex_lock(&lg);
  fprintf(hout, "{\"e\":\"ret\",\"t\":%d,\"r\":%d", t, r);
  if(seqn) occ(q);
  fprintf(hout, "}\n");
  pthread_mutex_unlock(&lg);
  free(b);
}

static volatile long long avail_ms = -1;	/* when the awaited element was sent */
static int do_rcv(int t, int q, int timeout, int seqn){
  int r = -5, e = 0; long long t0, t1; char v[80]; int n = -1; char *b = NULL; void *d = NULL; size_t sz = 0;
  uint32_t usz = 0; struct pctl_element_st *p;
  strcpy(v, "");
  if(mode == 1) g.queue_read_timeout_ms = timeout;
  pthread_mutex_lock(&lg);
  fprintf(hout, "{\"e\":\"inv\",\"t\":%d,\"op\":\"rcv\",\"q\":%d,\"to\":%d}\n", t, q, timeout);
  pthread_mutex_unlock(&lg);
  t0 = mono_ms();
  if(mode == 0){
    p = eopen_pctl_outputpce(g.pctl, timeout, &r);
    t1 = mono_ms();
    if(r == 0 && p != NULL){ n = p->mf->size; pce_value(p, v); close_pctl_outputpce(g.pctl); }
    else if(r == 0) r = -6;
  }else if(mode == 1){
    b = malloc(reclen); sz = usz = reclen; d = b;
    if(timeout % 2){ r = nbspqt_rcv(g.qtable, q, &d, &usz, timeout, &e); sz = usz; }
    else r = e_nbspq_rcv1(q, &d, &sz);
    t1 = mono_ms();
    if(r == 0){ pk_value(d, sz, v); memcpy(&n, (char*)d + 4, 4); }
    free(b);
  }else{
    r = connqueue_rcv(cqs[q], &d, &usz, timeout, &e);
    t1 = mono_ms();
    if(r == 0){ pk_value(d, usz, v); memcpy(&n, (char*)d + 4, 4); }
  }
  pthread_mutex_lock(&lg);
  fprintf(hout, "{\"e\":\"ret\",\"t\":%d,\"r\":%d,\"v\":\"%s\",\"n\":%d,\"el\":%lld,\"to\":%d", t, r, v, n, t1 - t0, timeout);
  if(avail_ms >= 0) fprintf(hout, ",\"late\":%lld", t1 - avail_ms > 0 ? t1 - avail_ms : 0);
  if(seqn) occ(q);
  fprintf(hout, "}\n");
  pthread_mutex_unlock(&lg);
  return r;
}

struct warg { int t, q, timeout; };
static void *waiter(void *a){
  struct warg *w = a;
  do_rcv(w->t, w->q, w->timeout, 0);
  return NULL;
}

static volatile int wdone = 0, accepted = 0, received = 0;
struct parg { int t, items, nq; unsigned seed; };
static void *pwriter(void *a){
  struct parg *w = a; int i; unsigned s = w->seed;
  dseed = w->seed * 77;
  for(i = 0; i < w->items; ++i){
    do_send(w->t, w->nq > 1 ? rnd(&s) % w->nq : 0, w->t * 100000 + i * 2, 10 + rnd(&s) % 200, 0);
    if(rnd(&s) % 3 == 0) usleep(rnd(&s) % 700);
  }
  __sync_fetch_and_add(&wdone, 1);
  return NULL;
}
struct rarg { int t, q, nw; unsigned seed; };
static void *preader(void *a){
  struct rarg *w = a; unsigned s = w->seed; int r, fin = 0;
  dseed = w->seed * 77;
  for(;;){
    fin = (wdone == w->nw);
    r = do_rcv(w->t, w->q, 21 + rnd(&s) % 20, 0);
    if(r != 0 && fin) break;
    if(r < 0) break;
    if(rnd(&s) % 4 == 0) usleep(rnd(&s) % 900);
  }
  return NULL;
}

int main(int argc, char **argv){
  char *line, *a[12]; int n, mem; int err = 0;
  h_init();
  if(argc < 8) return 3;
  mode = !strcmp(argv[1], "pctl") ? 0 : !strcmp(argv[1], "nbspq") ? 1 : 2;
  mem = !strcmp(argv[3], "mem");
  init_globals();
  g.spooldir = g.dbhome = argv[2];
  g.dbcache_mb = 16;
  if(mode == 0){
    if(mem){ g.pctl_dbfname = NULL; g.pctlmf_dbfname = NULL; }
    g.pctl_maxsize_soft = atoi(argv[4]); g.pctl_maxsize_hard = atoi(argv[5]);
    g.pctl_maxmem_soft = atoi(argv[6]); g.pctl_maxmem_hard = atoi(argv[7]);
  }else{
    if(mem) g.qdb_dbfname = "";
    g.queue_maxsize_soft = atoi(argv[4]); g.queue_maxsize_hard = atoi(argv[5]);
  }
  reclen = const_fpath_packet_maxsize();
  if(nbsp_open_dbenv() != 0) return 4;
  if(mode == 0){
    if(init_pctl() != 0) return 5;
    hookdb(g.pctl->pctldb->dbp); hookdb(g.pctl->pctldb->mfdbp);
  }else if(mode == 1){
    if(init_nbspq() != 0) return 5;
    hookdb(g.qtable->nbspq[0]->dbp); hookdb(g.qtable->nbspq[1]->dbp);
  }else{
    struct connqueue_param_st cp;
    cp.reclen = reclen; cp.cache_mb = 2; cp.softlimit = atoi(argv[4]); cp.hardlimit = atoi(argv[5]);
    cqs[0] = connqueue_open(&cp, &err); cqs[1] = connqueue_open(&cp, &err);
    if(cqs[0] == NULL || cqs[1] == NULL) return 5;
    hookdb(cqs[0]->qt->nbspq[0]->dbp); hookdb(cqs[1]->qt->nbspq[0]->dbp);
  }
  fprintf(hout, "{\"e\":\"open\""); occ(0); fprintf(hout, "}\n"); fflush(hout);
  while((line = h_line()) != NULL){
    n = h_split(line, a, 12);
    if(n == 0) continue;
    switch(a[0][0]){
    case 'S': do_send(atoi(a[1]), atoi(a[2]), atoi(a[3]), atoi(a[4]), 1); break;
    case 'R': do_rcv(atoi(a[1]), atoi(a[2]), atoi(a[3]), 1); break;
    case 'K': if(hclock_frozen) hclock_now_ns += atoll(a[1]) * 1000000LL; else hclock_off_ns += atoll(a[1]) * 1000000LL; break;
    case 'U': {
      struct timeval tv; gettimeofday(&tv, NULL);
      hclock_off_ns += (atoll(a[1]) - tv.tv_usec) * 1000LL;
      break; }
    case 'Z': {
      struct timeval tv; gettimeofday(&tv, NULL);
      hclock_now_ns = tv.tv_sec * 1000000000LL + tv.tv_usec * 1000LL;
      hclock_frozen = atoi(a[1]);
      break; }
    case 'W': {
      pthread_t th; struct warg w; w.t = 8; w.q = atoi(a[1]); w.timeout = atoi(a[2]);
      avail_ms = -1;
      pthread_create(&th, NULL, waiter, &w);
      usleep(atoi(a[5]) * 1000);
      avail_ms = mono_ms();
      do_send(0, w.q, atoi(a[3]), atoi(a[4]), 0);
      pthread_join(th, NULL);
      avail_ms = -1;
      break; }
    case 'P': {
      int nw = atoi(a[1]), items = atoi(a[2]), nr = atoi(a[3]), i; unsigned seed = atoi(a[4]);
      pthread_t th[16]; struct parg pa[8]; struct rarg ra[8];
      wdone = 0; delays = 1;
      for(i = 0; i < nw; ++i){ pa[i].t = i; pa[i].items = items; pa[i].nq = mode == 0 ? 1 : 2; pa[i].seed = seed * 31 + i; pthread_create(&th[i], NULL, pwriter, &pa[i]); }
      for(i = 0; i < nr; ++i){ ra[i].t = 8 + i; ra[i].q = mode == 0 ? 0 : i % 2; ra[i].nw = nw; ra[i].seed = seed * 37 + i; pthread_create(&th[nw + i], NULL, preader, &ra[i]); }
      for(i = 0; i < nw + nr; ++i) pthread_join(th[i], NULL);
      delays = 0;
      break; }
    }
    fflush(hout);
  }
  if(mode == 0) kill_pctl();
  else if(mode == 1) kill_nbspq();
  else { connqueue_close(cqs[0], &err); connqueue_close(cqs[1], &err); }
  nbsp_close_dbenv();
  fprintf(hout, "{\"e\":\"close\"}\n"); fflush(hout);
  _exit(0);
}
