/* The statistics of the daemon.
 *   c <kind> <n>      counts (n: the data size for "frame")
 *   report | badreport    nbspstats_update(), with the status file writable or not
 *   par <threads> <events> <reports> <seed>   threads count while reports are made
 */
#include "hcommon.h"
#include "globals.h"
#include "init.h"
#include "stats.h"

static char *sf;
static long pos;
static const char *K[] = {"frames_received","frames_processed","jumps","frames_bad","data_size","transmitted","completed",
  "missed","rtx","rtx_c","rtx_p","rtx_i","rtx_r","rejected","aborted","products_bad"};

static void count(int k, int n){
  switch(k){
  case 0: update_stats_frames_received(n); break;
  case 1: update_stats_frames(0); break;
  case 2: update_stats_frames_jumps(); break;
  case 3: update_stats_frames(n % 2 ? 1 : -1); break;
  case 5: update_stats_products_transmitted(); break;
  case 6: update_stats_products_completed(); break;
  case 7: update_stats_products_missed(); break;
  case 8: update_stats_products_retransmitted(); break;
  case 9: update_stats_products_retransmitted_c(); break;
  case 10: update_stats_products_retransmitted_pi(n % 2 ? 1 : -1); break;
  case 11: update_stats_products_retransmitted_pi(0); break;
  case 12: update_stats_products_recovered(); break;
  case 13: update_stats_products_rejected(); break;
  case 14: update_stats_products_aborted(); break;
  case 15: update_stats_products(n % 2 ? 1 : -1); break;
  }
}

static void report(const char *f, int expect){
  long long t, v;
  time_t t0, t1;
  int i, n;
  FILE *fp;
  g.statusfile = (char*)f;
  t0 = time(NULL);
  nbspstats_update();
  t1 = time(NULL);
  if(!expect){
    fprintf(hout, "{\"e\":\"report\",\"ok\":false,\"line\":[],\"rtxi\":%u}", nbspstats_get_rtx_index()); h_flush();
    return;
  }
  fp = fopen(sf, "r");
  n = 0;
  fprintf(hout, "{\"e\":\"report\",\"ok\":true,\"line\":[");
  t = -1;
  if(fp != NULL){
    char *line = NULL; size_t sz = 0;
    fseek(fp, pos, SEEK_SET);
    if(getline(&line, &sz, fp) > 0){
      char *p, *save = NULL;
      for(i = 0, p = strtok_r(line, " \n", &save); p != NULL; p = strtok_r(NULL, " \n", &save), ++i){
        v = strtoll(p, NULL, 10);
        if(i == 0) t = v - 1700000000; else fprintf(hout, "%s%lld", i > 1 ? "," : "", v);
      }
      n = getline(&line, &sz, fp) > 0;   /* one line per report */
    }
    pos = ftell(fp);
    fclose(fp);
  }
  fprintf(hout, "%s],\"t\":%lld,\"t0\":%lld,\"t1\":%lld,\"rtxi\":%u}", n ? ",-1" : "", t, (long long)t0 - 1700000000, (long long)t1 - 1700000000, nbspstats_get_rtx_index());
  h_flush();
}

struct job { unsigned int seed; int events; long sum[16]; pthread_t th; };
static volatile int running;
static void *worker(void *v){
  struct job *j = v;
  int i, k;
  for(i = 0; i < j->events; ++i){
    k = rand_r(&j->seed) % 16;
    if(k == 4) k = 0;
    count(k, 3);
    ++j->sum[k];
    if(k == 0) j->sum[4] += 3;
    if(i % 64 == 0) usleep(1);
  }
  __sync_fetch_and_sub(&running, 1);
  return NULL;
}

int main(int argc, char **argv){
  char *l, *a[8], d[600];
  int n, i, k;
  h_init();
  init_globals();
  sf = argv[1];
  snprintf(d, sizeof(d), "%s.d", sf);
  mkdir(d, 0755);
  nbspstats_init();
  while((l = h_line()) != NULL){
    n = h_split(l, a, 8);
    if(n == 0) continue;
    if(strcmp(a[0], "c") == 0){
      for(k = 0; k < 16; ++k) if(strcmp(K[k], a[1]) == 0) break;
      count(k, atoi(a[2]));
      if(k == 0) fprintf(hout, "{\"e\":\"frame\",\"n\":%s}", a[2]);
      else fprintf(hout, "{\"e\":\"c\",\"k\":\"%s\",\"n\":1}", a[1]);
      h_flush();
    }else if(strcmp(a[0], "report") == 0) report(sf, 1);
    else if(strcmp(a[0], "badreport") == 0) report(d, 0);
    else if(strcmp(a[0], "par") == 0){
      int T = atoi(a[1]);
      struct job *j = calloc(T, sizeof(struct job));
      long sum[16] = {0};
      char *buf; size_t sz; FILE *real = hout;
      unsigned int sd = atoi(a[4]);
      hout = open_memstream(&buf, &sz);
      running = T;
      for(i = 0; i < T; ++i){ j[i].seed = sd * 100 + i; j[i].events = atoi(a[2]); pthread_create(&j[i].th, NULL, worker, &j[i]); }
      for(i = 0; i < atoi(a[3]) && running > 0; ++i){ usleep(rand_r(&sd) % 2000); report(sf, 1); }
      for(i = 0; i < T; ++i){ pthread_join(j[i].th, NULL); for(k = 0; k < 16; ++k) sum[k] += j[i].sum[k]; }
      report(sf, 1);
      fclose(hout); hout = real;
      fprintf(hout, "{\"e\":\"par\",\"sum\":[");
      for(k = 0; k < 16; ++k) fprintf(hout, "%s%ld", k ? "," : "", sum[k]);
      fprintf(hout, "]}\n%s{\"e\":\"parend\"}", buf); h_flush();
      free(j); free(buf);
    }
  }
  return 0;
}
