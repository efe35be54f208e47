/*
 * The main loop's periodic work: the real periodic() and load checks, with the
 * time, the load average and what is called replaced.
 *   init NAME=V ...   options, then init_periodic()
 *   T now load rtx    one turn of the main loop
 *   H n               n hangup signals to this process
 */
#include "hcommon.h"
#include "globals.h"
#include "signal.h"
#include "per.h"
#include "init.h"
#include "filters.h"
#include "server.h"

static long long gnow;
static int gload; static unsigned int grtx;
#define N 9
static int fired[N]; static int order;
static const char *names[N] = {"pctl", "queue", "qstate", "stats", "server", "filter", "truncate", "dbstats", "sched"};
static int gnloads;
#define STUB(i, f) void __wrap_##f(void){ ++fired[i]; ++order; }
STUB(0, rept_pctl_quota) STUB(1, e_nbspq_report_quota) STUB(2, log_qstate) STUB(3, nbspstats_update)
STUB(4, set_server_state_flag) STUB(5, set_filterserver_state_flag) STUB(6, set_rtxdb_truncate_flag) STUB(7, nbsp_mspoolbdb_dbstats) STUB(8, exec_scheduler)
static int nrf, nrs;
void __wrap_set_reload_filters_flag(void){ ++nrf; }
void __wrap_set_reload_server_filters_flag(void){ ++nrs; }
time_t __wrap_time(time_t *p){ if(p != NULL) *p = (time_t)gnow; return (time_t)gnow; }
int __wrap_getloadavg(double *a, int n){ ++gnloads; if(gload < 0) return -1; for(int i = 0; i < n; ++i) a[i] = gload / 100.0 * (i == 0 ? 1 : 7); return n; }
unsigned int __wrap_nbspstats_get_rtx_index(void){ return grtx; }

int main(int argc, char **argv){
  char *l, *a[32];
  (void)argc; (void)argv;
  h_init();
  init_globals();
  if(init_signals_block() != 0 || init_signals_thread() != 0) return 3;
  while((l = h_line()) != NULL){
    int n = h_split(l, a, 32);
    if(n == 0) continue;
    if(strcmp(a[0], "init") == 0){
      long long v[11];
      gnow = atoll(a[1]);
      for(int i = 0; i < 11; ++i) v[i] = atoll(a[2 + i]);
      g.queue_quota_logperiod_secs = v[0]; g.qstate_logperiod_secs = v[1]; g.nbspstats_logperiod_secs = v[2]; g.serverstate_logperiod_secs = v[3];
      g.loadave_checkperiod_secs = v[4]; g.rtxdb_truncate_minutes = v[5]; g.mspoolbdb_dbstats_logperiod_secs = v[6];
      g.loadave_max_soft = v[7]; g.loadave_max_hard = v[8]; g.loadave_max_rtx_index = v[9];
      g.f_loadave_max = 0; g.f_loadave_max_rtx = 0;
      (void)get_hup_flag();
      init_periodic();
    }else if(strcmp(a[0], "H") == 0){
      for(int i = atoi(a[1]); i > 0; --i) kill(getpid(), SIGHUP);
      kill(getpid(), SIGALRM);                 /* dealt with after the others */
      for(int i = 0; i < 10000 && get_alarm_flag() == 0; ++i) usleep(200);
      fprintf(hout, "{\"e\":\"H\"}\n"); fflush(hout);
    }else if(strcmp(a[0], "T") == 0){
      memset(fired, 0, sizeof fired); nrf = nrs = gnloads = 0;
      gnow = atoll(a[1]); gload = atoi(a[2]); grtx = atoi(a[3]);
      periodic();
      fprintf(hout, "{\"e\":\"T\",\"n\":{");
      for(int i = 0; i < N; ++i) fprintf(hout, "\"%s\":%d,", names[i], fired[i]);
      fprintf(hout, "\"load\":%d},\"rf\":%d,\"rs\":%d,\"max\":%d,\"rtx\":%d}\n", gnloads, nrf, nrs, g.f_loadave_max, g.f_loadave_max_rtx); fflush(hout);
    }
  }
  _exit(0);
}
