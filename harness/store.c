/*
 * The memory of products and the memory spool, through the functions that the
 * daemon itself uses.
 *
 * usage: store configfile
 * script:  P seq 0|1        record the outcome of a product
 *          T                truncate
 *          L seq            look it up
 *          X k              the next k writes report lack of space
 *          I path id size   store a product
 *          O path           read a product
 *          Z path           its size
 *          H path           open it and read the first half
 *          h                read the rest of the oldest one opened, close
 *          Y t op...        append to the script of a thread: +path (open, read
 *                           half), - (read the rest of the oldest one, close), =path,id,size (store), .us (sleep)
 *          G                run the threads
 */
#include "hcommon.h"
#include <tcl.h>
#include <db.h>
#include <signal.h>
#include "globals.h"
#include "conf.h"
#include "init.h"
#include "dbenv.h"
#include "rtxdb.h"
#include "spooltype.h"
#include "nbspmspoolbdb.h"

static int nofile, nres, res[32];
static pthread_mutex_t lg = PTHREAD_MUTEX_INITIALIZER;
static int slow;
static unsigned rnd(unsigned *s){ *s = *s * 1103515245u + 12345u; return (*s >> 8) & 0xffffff; }
static __thread unsigned ds = 11;

int __real_spoolbdb_write2(DB *dbp, char *fkey, void *buffer, uint32_t n);
int __wrap_spoolbdb_write2(DB *dbp, char *fkey, void *buffer, uint32_t n){
  int r;
  if(nofile > 0){ --nofile; r = ENOMEM; }
  else r = __real_spoolbdb_write2(dbp, fkey, buffer, n);
  if(nres < 32) res[nres++] = r == ENOMEM ? 1 : r == 0 ? 0 : 2;
  return r;
}
struct spoolbuf_st;
int __real_spoolbdb_read(DB *dbp, char *fkey, struct spoolbuf_st *b);
int __wrap_spoolbdb_read(DB *dbp, char *fkey, struct spoolbuf_st *b){
  int r;
  if(slow && rnd(&ds) % 2) usleep(rnd(&ds) % 2000);
  r = __real_spoolbdb_read(dbp, fkey, b);
  if(slow && rnd(&ds) % 2) usleep(rnd(&ds) % 1000);
  return r;
}

static void value(char *v, const char *b, size_t n){
  unsigned long long h = 1469598103934665603ULL; size_t i;
  for(i = 0; i < n; ++i){ h ^= (unsigned char)b[i]; h *= 1099511628211ULL; }
  sprintf(v, "%zu.%016llx", n, h);
}
static char *content(unsigned id, size_t n){
  char *b = malloc(n + 1); size_t i; unsigned s = id * 2654435761u + 1;
  for(i = 0; i < n; ++i) b[i] = rnd(&s);
  return b;
}

#define MAXSD 64
struct held { char *b; size_t n, k; };
static struct held hd[MAXSD];
static int opened[MAXSD], nopened;
/* returns sd or the error */
static int openhalf(char *path){
  int sd = nbsp_mspoolbdb_open(path);
  if(sd < 0 || sd >= MAXSD) return sd;
  hd[sd].n = nbsp_mspoolbdb_datasize(sd);
  hd[sd].b = malloc(hd[sd].n + 64);
  hd[sd].k = nbsp_mspoolbdb_read(sd, hd[sd].b, hd[sd].n / 2);
  return sd;
}
/* reads the rest and sets the value of what was read */
static void resthalf(int sd, char *v){
  size_t m;
  while((m = nbsp_mspoolbdb_read(sd, hd[sd].b + hd[sd].k, hd[sd].n + 1 - hd[sd].k)) > 0 && hd[sd].k < hd[sd].n) hd[sd].k += m;
  if(m > 0 || hd[sd].k != hd[sd].n) sprintf(v, "bad %zu", hd[sd].k);
  else value(v, hd[sd].b, hd[sd].n);
  free(hd[sd].b); hd[sd].b = NULL;
}

static char *scripts[16][200]; static int nscr[16]; static int nthr;
static void *thread(void *arg){
  int t = (int)(long)arg, i, sd = -1, st, my[64], nmy = 0; char v[64]; unsigned s = t * 77 + 5;
  ds = t * 31 + 3;
  for(i = 0; i < nscr[t]; ++i){
    char *o = scripts[t][i];
    if(*o == '.'){ usleep(atoi(o + 1)); continue; }
    if(*o == '+'){
      pthread_mutex_lock(&lg); fprintf(hout, "{\"e\":\"inv\",\"t\":%d,\"op\":\"open\",\"key\":\"%s\"}\n", t, o + 1); pthread_mutex_unlock(&lg);
      sd = openhalf(o + 1);
      pthread_mutex_lock(&lg); fprintf(hout, "{\"e\":\"ret\",\"t\":%d,\"sd\":%d}\n", t, sd); pthread_mutex_unlock(&lg);
      if(sd >= 0 && nmy < 64) my[nmy++] = sd;
    }else if(*o == '-'){
      if(nmy == 0) continue;
      sd = my[0]; --nmy; memmove(my, my + 1, nmy * sizeof(int));
      resthalf(sd, v);
      pthread_mutex_lock(&lg); fprintf(hout, "{\"e\":\"inv\",\"t\":%d,\"op\":\"close\",\"key\":\"\",\"v\":\"%s\"}\n", t, v); pthread_mutex_unlock(&lg);
      st = nbsp_mspoolbdb_close(sd);
      pthread_mutex_lock(&lg); fprintf(hout, "{\"e\":\"ret\",\"t\":%d,\"sd\":%d}\n", t, st); pthread_mutex_unlock(&lg);
      continue;
    }else if(*o == '='){
      char k[128]; unsigned id, n; char *b;
      sscanf(o + 1, "%127[^,],%u,%u", k, &id, &n);
      b = content(id, n); value(v, b, n);
      pthread_mutex_lock(&lg); fprintf(hout, "{\"e\":\"inv\",\"t\":%d,\"op\":\"put\",\"key\":\"%s\",\"v\":\"%s\"}\n", t, k, v); pthread_mutex_unlock(&lg);
      st = nbsp_mspoolbdb_insert(k, b, n);
      pthread_mutex_lock(&lg); fprintf(hout, "{\"e\":\"ret\",\"t\":%d,\"sd\":%d}\n", t, st); pthread_mutex_unlock(&lg);
      free(b);
    }
    if(rnd(&s) % 4 == 0) usleep(rnd(&s) % 300);
  }
  return NULL;
}

static void stuck(int sig){
  fprintf(hout, "{\"e\":\"stuck\"}\n"); fflush(hout); _exit(0);
}

int main(int argc, char **argv){
  char *line, *a[64], v[64]; int n, i, st;
  h_init();
  Tcl_FindExecutable(argv[0]);
  init_globals();
  g.configfile = argv[1];
  st = configure();
  if(st == 0 && init_directories() != 0) st = 12;
  if(st == 0 && init_mspool() != 0) st = 13;
  if(st == 0 && nbsp_open_dbenv() != 0) st = 14;
  if(st == 0 && e_nbsp_rtxdb_open() != 0) st = 15;
  fprintf(hout, "{\"e\":\"start\",\"st\":%d}", st); h_flush();
  if(st != 0) return 0;
  signal(SIGALRM, stuck);
  while((line = h_line()) != NULL){
    n = h_split(line, a, 64);
    if(n == 0) continue;
    alarm(45);
    switch(a[0][0]){
    case 'P': { unsigned q = strtoul(a[1], NULL, 10); st = atoi(a[2]) ? e_nbsp_rtxdb_put_fail(q) : e_nbsp_rtxdb_put_ok(q); fprintf(hout, "{\"r\":%d}", st); break; }
    case 'T': fprintf(hout, "{\"r\":%d}", e_nbsp_rtxdb_truncate()); break;
    case 'L': fprintf(hout, "{\"r\":%d}", e_nbsp_rtxdb_get_fstatus(strtoul(a[1], NULL, 10))); break;
    case 'X': nofile = atoi(a[1]); fprintf(hout, "{}"); break;
    case 'I': {
      size_t k = strtoul(a[3], NULL, 10); char *b = content(strtoul(a[2], NULL, 10), k);
      value(v, b, k); nres = 0;
      st = nbsp_mspoolbdb_insert(a[1], b, k);
      free(b);
      fprintf(hout, "{\"r\":%d,\"v\":\"%s\",\"res\":[", st, v);
      for(i = 0; i < nres; ++i) fprintf(hout, i ? ",%d" : "%d", res[i]);
      fprintf(hout, "]}");
      break; }
    case 'O': st = openhalf(a[1]); strcpy(v, ""); if(st >= 0){ resthalf(st, v); st = nbsp_mspoolbdb_close(st); } fprintf(hout, "{\"r\":%d,\"v\":\"%s\"}", st, v); break;
    case 'Z': { size_t k = 0; st = nbsp_mspoolbdb_fpathsize(a[1], &k); fprintf(hout, "{\"r\":%d,\"n\":%zu}", st, k); break; }
    case 'H': st = openhalf(a[1]); fprintf(hout, "{\"sd\":%d}", st); if(st >= 0) opened[nopened++] = st; break;
    case 'h': {
      int sd;
      if(nopened == 0){ fprintf(hout, "{\"sd\":-1}"); break; }
      sd = opened[0]; --nopened; memmove(opened, opened + 1, nopened * sizeof(int));
      strcpy(v, ""); resthalf(sd, v); st = nbsp_mspoolbdb_close(sd); fprintf(hout, "{\"sd\":%d,\"r\":%d,\"v\":\"%s\"}", sd, st, v); break; }
    case 'Y': { int t = atoi(a[1]); for(i = 2; i < n; ++i) scripts[t][nscr[t]++] = strdup(a[i]); if(t >= nthr) nthr = t + 1; continue; }
    case 'G': {
      pthread_t th[16];
      slow = 1;
      for(i = 0; i < nthr; ++i) pthread_create(&th[i], NULL, thread, (void*)(long)i);
      for(i = 0; i < nthr; ++i) pthread_join(th[i], NULL);
      slow = 0;
      for(i = 0; i < nthr; ++i) nscr[i] = 0;
      fprintf(hout, "{\"e\":\"joined\"}");
      break; }
    }
    h_flush();
  }
  alarm(0);
  e_nbsp_rtxdb_close();
  nbsp_close_dbenv();
  return 0;
}
