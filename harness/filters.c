/*
 * Filter server harness: the real filter server thread, real fifos, and
 * stand-ins for the programs (popen gives one end of a pipe, the other end
 * belongs to the script).
 *   init <conf> <ms>                          starts the server
 *   mk <path> fifo|prog|plain|dir|link        rm <path>
 *   ro <path> <ino> <bytes>   rc <ino>   rd <ino> <n packets or 0: all>
 *   kill <path> (its last run)   pr (all)     nostart <path>  start <path>
 *   store <path> <n>                          puts a product in the memory spool
 *   prod <pid> <fname> <fpath> <seq> <type> <cat> <code> <ch>
 *   reload   report   quit
 */
#include "hcommon.h"
#include <poll.h>
#include <tcl.h>
#include "globals.h"
#include "init.h"
#include "conf.h"
#include "nbspre.h"
#include "load.h"
#include "nbspq.h"
#include "packfpu.h"
#include "packfp.h"
#include "filters.h"
#include "nbspmspoolbdb.h"
#include "signal.h"

static volatile int nrcv, nrcvok, filter_started;
static pthread_t filter_id;
static volatile long waited;
static volatile int started;
static struct { char *path; int k, rfd; FILE *w; } run_[512];
static int nrun;
static char *nostart[64]; static int nnostart;
static int rfd[512];
static int hung;
static long rms(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void ms(int n){ struct timespec t = {0, n * 200000L}; nanosleep(&t, NULL); }
#define WAIT(cond) do{ long t0_ = rms(); while(!(cond)){ if(rms() - t0_ > 10000){ hung = __LINE__; break; } ms(1); } }while(0)

int __real_e_nbspq_rcv_filter(void **p, size_t *n);
int __wrap_e_nbspq_rcv_filter(void **p, size_t *n){
  int r;
  filter_id = pthread_self(); filter_started = 1; ++nrcv;
  r = __real_e_nbspq_rcv_filter(p, n);
  if(r == 0) ++nrcvok;
  return r;
}
int __real_poll(struct pollfd *p, nfds_t n, int t);
int __wrap_poll(struct pollfd *p, nfds_t n, int t){
  int r;
  if(!filter_started || !pthread_equal(pthread_self(), filter_id)) return __real_poll(p, n, t);
  r = __real_poll(p, n, t);
  if(r == 0) waited += t < 0 ? 100000 : t;
  return r;
}
FILE *__wrap_popen(const char *cmd, const char *mode){
  int p[2], i, k = 0;
  if(mode[0] != 'w'){ errno = EINVAL; return NULL; }
  for(i = 0; i < nnostart; ++i) if(nostart[i] && strcmp(nostart[i], cmd) == 0){ errno = ENOMEM; return NULL; }
  if(nrun == 512 || pipe2(p, O_CLOEXEC) != 0) return NULL;
  for(i = 0; i < nrun; ++i) if(strcmp(run_[i].path, cmd) == 0) ++k;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  run_[nrun].path = strdup(cmd); run_[nrun].k = k + 1; run_[nrun].rfd = p[0]; run_[nrun].w = fdopen(p[1], "w");
  return run_[nrun++].w;
}
int __wrap_pclose(FILE *f){ return fclose(f); }
static int cycles(int n){ int r = nrcv; WAIT(nrcv >= r + n); return 0; }
static void bytes(int fd, int max, int *end){
  static unsigned char b[1 << 17]; int n = 0, r; *end = 0;
  while(n < max && (r = read(fd, b + n, max - n)) != 0){ if(r < 0) break; n += r; }
  if(n < max && r == 0) *end = 1;
  h_bytes(b, n);
}

int main(int argc, char **argv){
  char *l, *a[64]; int n, i, st, end; struct packet_info_st pi; struct pctl_element_st *pce = NULL; int nsent = 0; sigset_t ss;
  h_init();
  Tcl_FindExecutable(argv[0]);
  sigemptyset(&ss); sigaddset(&ss, SIGPIPE); pthread_sigmask(SIG_BLOCK, &ss, NULL);     /* as the daemon does */
  memset(&pi, 0, sizeof pi); for(i = 0; i < 512; ++i) rfd[i] = -1;
  while((l = h_line()) != NULL){
    n = h_split(l, a, 64);
    if(n == 0) continue;
    st = 0;
    fprintf(hout, "{\"e\":\"%s\"", a[0]);
    if(strcmp(a[0], "init") == 0){
      init_globals(); g.configfile = strdup(a[1]);
      st = configure();
      if(st == 0 && init_nbsp_regex() != 0) st = 11;
      if(st == 0 && init_directories() != 0) st = 12;
      if(st == 0 && init_mspool() != 0) st = 13;
      if(st == 0 && init_queues() != 0) st = 14;
      if(st == 0 && nbsfp_packetinfo_init(&pi) != 0) st = 16;
      pce = calloc(1, sizeof(struct pctl_element_st) + 8192);
      if(st == 0) fprintf(hout, ",\"size\":%d", (int)pi.packet_size);
    }else if(strcmp(a[0], "go") == 0){
      st = spawn_filter_server();
      WAIT(nrcv >= 1 || get_quit_flag() != 0);
      fprintf(hout, ",\"quits\":%d", get_quit_flag());
      if(get_quit_flag() != 0) st = 17;
    }else if(strcmp(a[0], "mk") == 0){
      if(strcmp(a[2], "fifo") == 0) st = mkfifo(a[1], 0644);
      else if(strcmp(a[2], "dir") == 0) st = mkdir(a[1], 0755);
      else if(strcmp(a[2], "link") == 0) st = symlink("/nonexistent/x", a[1]);
      else { int fd = open(a[1], O_CREAT | O_EXCL | O_WRONLY, strcmp(a[2], "prog") == 0 ? 0755 : 0644); st = fd < 0; if(fd >= 0){ if(write(fd, "#!/bin/sh\n", 10) != 10) st = 1; close(fd); } }
    }else if(strcmp(a[0], "rm") == 0){ st = unlink(a[1]) == 0 ? 0 : rmdir(a[1]); }
    else if(strcmp(a[0], "ro") == 0){
      i = atoi(a[2]); rfd[i] = open(a[1], O_RDONLY | O_NONBLOCK | O_CLOEXEC); st = rfd[i] < 0;
      if(st == 0 && fcntl(rfd[i], F_SETPIPE_SZ, atoi(a[3])) != atoi(a[3])) st = 5;
    }else if(strcmp(a[0], "rc") == 0){ i = atoi(a[1]); close(rfd[i]); rfd[i] = -1; }
    else if(strcmp(a[0], "rd") == 0){
      i = atoi(a[1]); fprintf(hout, ",\"ino\":%d,\"n\":%s,\"b\":", i, a[2]);
      bytes(rfd[i], atoi(a[2]) == 0 ? 1 << 17 : atoi(a[2]) * (int)pi.packet_size, &end); fprintf(hout, ",\"end\":%d", end);
    }else if(strcmp(a[0], "kill") == 0){              /* the last run of that program */
      for(i = nrun - 1; i >= 0; --i) if(strcmp(run_[i].path, a[1]) == 0) break;
      if(i >= 0){ if(run_[i].rfd != -1) close(run_[i].rfd); run_[i].rfd = -1; }
      fprintf(hout, ",\"p\":\"%s\",\"run\":%d", a[1], i >= 0 ? run_[i].k : 0);
    }else if(strcmp(a[0], "pr") == 0){               /* reads from every run, and says how many there are */
      for(i = 0; i < nrun; ++i) if(run_[i].rfd != -1){
	fprintf(hout, ",\"p\":\"%s\",\"run\":%d,\"b\":", run_[i].path, run_[i].k); bytes(run_[i].rfd, 1 << 17, &end);
	fprintf(hout, ",\"end\":%d,\"st\":0,\"hung\":0}\n{\"e\":\"pr\"", end);
      }
      fprintf(hout, ",\"p\":\"\",\"rows\":[");
      for(i = 0; i < nrun; ++i) fprintf(hout, "%s[\"%s\",%d]", i ? "," : "", run_[i].path, run_[i].k);
      fprintf(hout, "]");
    }else if(strcmp(a[0], "nostart") == 0) nostart[nnostart++] = strdup(a[1]);
    else if(strcmp(a[0], "start") == 0){ for(i = 0; i < nnostart; ++i) if(nostart[i] && strcmp(nostart[i], a[1]) == 0) nostart[i] = NULL; }
    else if(strcmp(a[0], "store") == 0){ char *b = calloc(1, atoi(a[2]) + 1); st = nbsp_mspoolbdb_insert(a[1], b, atoi(a[2])); free(b); }
    else if(strcmp(a[0], "prod") == 0){
      memset(pce, 0, sizeof *pce); pce->fpath_size = pi.packet_size - 12 - 27; memset(pce->fpath, 0, 4096);
      strcpy(pce->fname, a[2]); strcpy(pce->fpath, a[3]); pce->seq_number = strtoul(a[4], NULL, 10);
      pce->psh_product_type = atoi(a[5]); pce->psh_product_category = atoi(a[6]); pce->psh_product_code = atoi(a[7]); pce->np_channel_index = atoi(a[8]);
      st = nbsfp_pack_fpath(&pi, pce);
      waited = 0;
      if(st == 0) st = e_nbspq_snd_filter(pi.packet, pi.packet_size);
      ++nsent; WAIT(nrcvok >= nsent); if(!hung) cycles(1);
      fprintf(hout, ",\"pid\":%s,\"w\":%ld", a[1], waited);
    }else if(strcmp(a[0], "reload") == 0){ set_reload_filters_flag(); cycles(3); }
    else if(strcmp(a[0], "report") == 0){
      FILE *f; char b[2048], p[1024]; unsigned x, y; int first = 1, lines = 0;
      unlink(g.filterserver_statefile);
      set_filterserver_state_flag(); cycles(3);
      f = fopen(g.filterserver_statefile, "r");
      fprintf(hout, ",\"rows\":[");
      while(f != NULL && fgets(b, sizeof b, f) != NULL){
	if(lines++ == 0){ if(sscanf(b, "- %u", &x) != 1) st = 1; continue; }
	if(sscanf(b, " %1000s %u %u", p, &x, &y) != 3) { st = 2; continue; }
	fprintf(hout, "%s[\"%s\",%u,%u]", first ? "" : ",", p, x, y); first = 0;
      }
      if(f != NULL) fclose(f); else st = 3;
      fprintf(hout, "]");
    }else if(strcmp(a[0], "quit") == 0){ set_quit_flag(); kill_filter_thread(); }
    else st = 99;
    fprintf(hout, ",\"st\":%d,\"hung\":%d}\n", st, hung); fflush(hout);
    if(hung) break;
  }
  _exit(0);
}
