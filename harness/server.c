/*
 * The network server: the real server thread and client threads, with clients
 * from several loopback addresses. The clock stands still except for the
 * seconds the script lets pass, and writes to a client go up to a given number
 * of bytes, after which they wait, time out or fail as the script says.
 *   init <configfile>
 *   conn <cid> <host> [<hex>]     connects from 127.0.0.<host>, and sends that
 *   send <cid> <hex>
 *   close <cid>
 *   hold <cid> <bytes>            so many more bytes can be written to it, -1 all
 *   brk <cid> <how>               1: the blocked write times out, 2: fails
 *   rcn <cid> <how> <new cid> <close old>   as brk, and a new connection of the
 *                                 same host before the server has noticed
 *   prod <pid> <fname> <path> <seq> <type> <cat> <code> <ch>
 *   pass <secs>                   that time passes
 *   reload                        of the server's filters
 *   report                        of the connections
 *   quit
 * A '+' after conn, send and close means the server does not run yet.
 */
#include "hcommon.h"
#include <dirent.h>
#include <poll.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <tcl.h>
#include "globals.h"
#include "conf.h"
#include "init.h"
#include "nbspre.h"
#include "dbenv.h"
#include "nbspq.h"
#include "signal.h"
#include "server.h"
#include "pctl.h"
#include "packfp.h"
#include "appdata.h"
#include "libconnth/libconn.h"

#include <tcpd.h>


#define MAXC 512
static struct client { int used, fd, host, port, eof, written, budget, flag; long got, last; FILE *rx; } cl[MAXC];
static int ncl;
static struct thr { connqueue_t *cq; volatile int state; volatile long sent, rcvd, wake; struct client *c; int cfd; } th[256];
enum { BUSY, RCV, SLEEP, WBLOCK };
static __thread struct thr *me;
static pthread_t server_id; static int server_started, srvport = -1, deny[256], namel[256];
static volatile long npoll, nrcv, rcvatpoll, nrcvok, nsent; static volatile int lastready, holdpoll, held;
static char *rxdir;

static long vsec(void){ return hclock_now_ns / 1000000000LL; }
static int isserver(void){ return server_started && me == NULL && g.f_server_thread_created && pthread_equal(pthread_self(), server_id); }
static void ms(int n){ struct timespec t = { 0, n * 1000000L }; nanosleep(&t, NULL); }
static long rms(void){ struct timespec t; syscall(228, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }

static struct client *byport(int port){ int i; for(i = ncl - 1; i >= 0; --i) if(cl[i].used && cl[i].port == port) return &cl[i]; return NULL; }
static int peer(int fd){ struct sockaddr_in a; socklen_t n = sizeof a; if(getpeername(fd, (void*)&a, &n) != 0 || a.sin_family != AF_INET) return -1; return ntohs(a.sin_port) + ((ntohl(a.sin_addr.s_addr) & 255) << 16); }
static struct client *ofd(int fd){
  int p = peer(fd); struct client *c;
  if(p >= 0 && (c = byport(p)) != NULL){ me->c = c; me->cfd = fd; return c; }
  return fd == me->cfd ? me->c : NULL;
}

/* ---- what the server calls ---- */
int __real_poll(struct pollfd *p, nfds_t n, int t);
int __wrap_poll(struct pollfd *p, nfds_t n, int t){
  struct client *c; int r;
  if(me != NULL && n == 1 && (p->events & POLLOUT) && (c = ofd(p->fd)) != NULL){
    for(;;){
      if(c->budget == 0){
	me->state = WBLOCK;
	while(c->budget == 0 && c->flag == 0) ms(1);
	me->state = BUSY;
      }
      if(c->flag == 1){ p->revents = 0; return 0; }
      if(c->flag == 2){ p->revents = POLLOUT; return 1; }
      r = __real_poll(p, n, 20);
      if(r != 0) return r;
      pthread_testcancel();
    }
  }
  if(isserver() && (g.ct != NULL && p == g.ct->pfd)){
    if(holdpoll){ held = 1; while(holdpoll) ms(1); }
    r = __real_poll(p, n, t);
    lastready = r; rcvatpoll = nrcv; ++npoll;
    return r;
  }
  return __real_poll(p, n, t);
}
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n){
  struct client *c; ssize_t r; size_t k = n;
  if(me == NULL || (c = ofd(fd)) == NULL) return __real_write(fd, b, n);
  if(c->flag == 2){ errno = EPIPE; return -1; }
  if(c->budget == 0){ errno = EAGAIN; return -1; }
  if(c->budget > 0 && (size_t)c->budget < k) k = c->budget;
  r = __real_write(fd, b, k);
  if(r > 0){ c->written += r; if(c->budget > 0) c->budget -= r; }
  return r;
}
unsigned __real_sleep(unsigned s);
unsigned __wrap_sleep(unsigned s){
  if(me == NULL){ ms(5); return 0; }
  me->wake = vsec() + s; me->state = SLEEP;
  while(vsec() < me->wake) ms(1);
  me->state = BUSY;
  return 0;
}
int __real_bind(int fd, const struct sockaddr *a, socklen_t n);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n){
  struct sockaddr_in b; socklen_t m = sizeof b; int r;
  if(!isserver() || srvport != -1) return __real_bind(fd, a, n);
  memcpy(&b, a, sizeof b); b.sin_port = 0;
  r = __real_bind(fd, (void*)&b, sizeof b);
  if(r == 0 && getsockname(fd, (void*)&b, &m) == 0) srvport = ntohs(b.sin_port);
  return r;
}
struct hostent *__wrap_gethostbyaddr(const void *a, socklen_t n, int t){
  static struct hostent h; static char name[32]; int k = ((const unsigned char*)a)[3];
  if(!namel[k]) return NULL;
  snprintf(name, sizeof name, "host%d.test", k); memset(&h, 0, sizeof h); h.h_name = name;
  return &h;
}

int __wrap_hosts_access(struct request_info *q){
  struct sockaddr_in a; socklen_t n = sizeof a;
  if(getpeername(q->fd, (void*)&a, &n) != 0) return 0;
  return !deny[ntohl(a.sin_addr.s_addr) & 255];
}

connqueue_t *__real_connqueue_open(struct connqueue_param_st *p, int *e);
connqueue_t *__wrap_connqueue_open(struct connqueue_param_st *p, int *e){
  connqueue_t *q = __real_connqueue_open(p, e); int i;
  for(i = 0; q != NULL && i < 256; ++i) if(th[i].cq == NULL){ memset(&th[i], 0, sizeof th[i]); th[i].cfd = -1; th[i].cq = q; break; }
  return q;
}
int __real_connqueue_close(connqueue_t *q, int *e);
int __wrap_connqueue_close(connqueue_t *q, int *e){ int i; for(i = 0; i < 256; ++i) if(th[i].cq == q) th[i].cq = NULL; return __real_connqueue_close(q, e); }
static struct thr *tq(connqueue_t *q){ int i; for(i = 0; q != NULL && i < 256; ++i) if(th[i].cq == q) return &th[i]; return NULL; }
int __real_connqueue_snd(connqueue_t *q, void *d, uint32_t n, int *e);
int __wrap_connqueue_snd(connqueue_t *q, void *d, uint32_t n, int *e){
  struct thr *t = tq(q); int r;
  if(t != NULL) ++t->sent;
  r = __real_connqueue_snd(q, d, n, e);
  if(t != NULL && r != 0 && r != 1) --t->sent;
  return r;
}
int __real_connqueue_rcv(connqueue_t *q, void **d, uint32_t *n, int t, int *e);
int __wrap_connqueue_rcv(connqueue_t *q, void **d, uint32_t *n, int t, int *e){
  int r;
  if(me == NULL) me = tq(q);
  if(me == NULL) return __real_connqueue_rcv(q, d, n, t, e);
  me->state = RCV;
  r = __real_connqueue_rcv(q, d, n, t, e);
  if(r == 0){ me->state = BUSY; ++me->rcvd; }
  return r;
}
int __real_e_nbspq_rcv_server(void **p, size_t *n);
int __wrap_e_nbspq_rcv_server(void **p, size_t *n){
  int r; ++nrcv;
  r = __real_e_nbspq_rcv_server(p, n);
  if(r == 0) ++nrcvok;
  return r;
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *x);
static void *(*sf)(void*);
static void *smain(void *x){ server_id = pthread_self(); server_started = 1; g.f_server_thread_created = 1; return sf(x); }
static int nthreads;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *x){
  if(nthreads++ == 0){ sf = f; return __real_pthread_create(t, a, smain, x); }
  return __real_pthread_create(t, a, f, x);
}

/* ---- the script's side ---- */
static int hung;
static void drain(void){
  int i; static char b[1 << 16]; ssize_t r;
  for(i = 0; i < ncl; ++i){
    struct client *c = &cl[i];
    if(!c->used || c->fd == -1 || c->eof) continue;
    while((r = recv(c->fd, b, sizeof b, MSG_DONTWAIT)) > 0){ fwrite(b, 1, r, c->rx); c->got += r; }
    if(r == 0 || (r < 0 && errno != EAGAIN && errno != EINTR)) c->eof = 1;
  }
}
#define WAIT(cond, lim) do{ long t0_ = rms(); while(!(cond)){ if(rms() - t0_ > (lim)){ hung = __LINE__; break; } drain(); ms(1); } }while(0)
static int running(int i){ return conn_element_isclient(&g.ct->ce[i]) && g.ct->ce[i].threadinfo != NULL && conn_element_get_finished_flag(&g.ct->ce[i]) == 0; }
static int quiet(void){
  int i;
  for(i = 0; i < g.ct->n; ++i){
    struct thr *t;
    if(!running(i)) continue;
    t = tq(g.ct->ce[i].cq);
    if(t == NULL) return 0;
    if(t->state == RCV && t->sent == t->rcvd && t->state == RCV) continue;
    if(t->state == SLEEP && vsec() < t->wake) continue;
    if(t->state == WBLOCK && t->c != NULL && t->c->budget == 0 && t->c->flag == 0) continue;
    return 0;
  }
  return 1;
}
static struct client *ofelement(int i){ return g.ct->pfd[i].fd == -1 ? NULL : byport(peer(g.ct->pfd[i].fd)); }
static void sync_rx(void){
  int i, j;
  drain();
  for(i = 0; i < ncl; ++i) if(cl[i].used && cl[i].fd != -1) WAIT(cl[i].eof || cl[i].got >= cl[i].written, 5000);
  for(i = 0; i < ncl; ++i){
    struct client *c = &cl[i]; int in = 0;
    if(!c->used || c->fd == -1 || c->eof) continue;
    for(j = 0; j < g.ct->n; ++j) if(conn_element_isclient(&g.ct->ce[j]) && ofelement(j) == c) in = 1;
    if(!in){ int h = hung; WAIT(c->eof, 1500); hung = h; }
  }
}
static void tick(void){
  long p = npoll;
  hclock_now_ns += 1000000000LL;
  WAIT(npoll > p, 20000);
  WAIT(nrcv > rcvatpoll, 20000);
}
static void settle(void){
  int idle = 0, k, i, dirty;
  for(k = 0; k < 120 && idle < 2 && !hung; ++k){
    WAIT(quiet(), 20000);
    tick();
    dirty = 0;
    for(i = 0; i < g.ct->n; ++i){
      if(!conn_element_isclient(&g.ct->ce[i])) continue;
      if(conn_table_element_isnetclient_stoped(g.ct, i)) dirty = 1;
      if(g.ct->ce[i].threadinfo == NULL && get_client_protocol(g.ct, i) != PROTOCOL_UNKNOWN) dirty = 1;
      if(g.ct->pfd[i].fd != -1 && g.ct->ce[i].threadinfo != NULL && conn_element_get_connection_status(&g.ct->ce[i], NULL) != 0) dirty = 1;
    }
    if(lastready == 0 && !dirty) ++idle; else idle = 0;
  }
  WAIT(quiet(), 20000);
  sync_rx();
}
static int stname(int i){
  struct thr *t;
  if(g.ct->ce[i].threadinfo == NULL) return 0;
  if(!running(i)) return 9;
  t = tq(g.ct->ce[i].cq);
  return t == NULL ? 9 : t->state;
}
static void observe(void){
  int i, first = 1, socks = 0, files = 0; DIR *d; struct dirent *e; char p[300], t[1200]; ssize_t n;
  fprintf(hout, ",\"tab\":[");
  for(i = 0; i < g.ct->n; ++i){
    struct conn_element_st *ce = &g.ct->ce[i]; struct client *c;
    if(!conn_element_isclient(ce)) continue;
    c = ofelement(i);
    fprintf(hout, "%s{\"h\":%d,\"c\":%d,\"p\":%d,\"st\":%d,\"q\":%d}", first ? "" : ",", atoi(strrchr(ce->ip, '.') + 1), c ? (int)(c - cl) : g.ct->pfd[i].fd == -1 ? 0 : -1,
	    get_client_protocol(g.ct, i) == PROTOCOL_UNKNOWN ? 0 : get_client_protocol(g.ct, i), stname(i), ce->cq ? (int)connqueue_n(ce->cq) : 0);
    first = 0;
  }
  d = opendir("/proc/self/fd");
  while((e = readdir(d)) != NULL){
    struct sockaddr_in a; socklen_t m = sizeof a;
    if(e->d_name[0] == '.') continue;
    snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name);
    n = readlink(p, t, sizeof t - 1); if(n <= 0) continue; t[n] = 0;
    if(strncmp(t, "socket:", 7) == 0){ if(getsockname(atoi(e->d_name), (void*)&a, &m) == 0 && a.sin_family == AF_INET && a.sin_addr.s_addr == htonl(0x7f000001) && ntohs(a.sin_port) == srvport) ++socks; }
    else if(strncmp(t, g.spooldir, strlen(g.spooldir)) == 0) ++files;
  }
  closedir(d);
  fprintf(hout, "],\"ne\":%d,\"nc\":%d,\"socks\":%d,\"files\":%d,\"rx\":[", conn_table_get_numentries(g.ct), conn_table_get_netclients(g.ct), socks - 1, files);
  for(i = 0, first = 1; i < ncl; ++i){
    struct client *c = &cl[i];
    if(!c->used) continue;
    fprintf(hout, "%s{\"c\":%d,\"n\":%ld,\"eof\":%d,\"left\":%d}", first ? "" : ",", i, c->got, c->eof, c->budget); first = 0;
    if(c->eof || c->fd == -1){ if(c->fd != -1) close(c->fd); c->fd = -1; fflush(c->rx); c->used = 0; }
  }
  fprintf(hout, "],\"t\":%ld,\"hung\":%d", vsec() - 1700000000L, hung);
}
static void client_send(struct client *c, const char *hex){ static unsigned char b[8192]; int n = h_unhex(hex, b, sizeof b); if(c->fd != -1) send(c->fd, b, n, MSG_NOSIGNAL); }
static int client_conn(int cid, int host){
  struct client *c = &cl[cid]; struct sockaddr_in a; socklen_t n = sizeof a; char p[1200];
  memset(c, 0, sizeof *c); c->used = 1; c->host = host; c->budget = -1; if(cid >= ncl) ncl = cid + 1;
  snprintf(p, sizeof p, "%s/rx.%d", rxdir, cid); c->rx = fopen(p, "w"); setvbuf(c->rx, NULL, _IONBF, 0);
  c->fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000000 + host);
  if(__real_bind(c->fd, (void*)&a, sizeof a) != 0) return 1;
  a.sin_addr.s_addr = htonl(0x7f000001); a.sin_port = htons(srvport);
  if(connect(c->fd, (void*)&a, sizeof a) != 0) return 2;
  n = sizeof a; getsockname(c->fd, (void*)&a, &n); c->port = ntohs(a.sin_port) + (host << 16);
  return 0;
}
static struct thr *blocked(struct client *c){ int i; for(i = 0; i < g.ct->n; ++i) if(running(i)){ struct thr *t = tq(g.ct->ce[i].cq); if(t && t->state == WBLOCK && t->c == c) return t; } return NULL; }
static void broken(struct client *c, struct thr *t, int how){ connqueue_t *q = t->cq; c->flag = how; WAIT(t->state == SLEEP || t->cq != q || ({ int i, f = 0; for(i = 0; i < g.ct->n; ++i) if(g.ct->ce[i].cq == q && !running(i)) f = 1; f; }), 20000); }

int main(int argc, char **argv){
  char *l, *a[64]; int n, i, st, later; struct packet_info_st pi; struct pctl_element_st *pce = NULL;
  h_init();
  Tcl_FindExecutable(argv[0]);
  memset(&pi, 0, sizeof pi);
  while((l = h_line()) != NULL){
    n = h_split(l, a, 64);
    if(n == 0) continue;
    later = strcmp(a[n - 1], "+") == 0; if(later) --n;
    if(strcmp(a[0], "init") == 0){
      hclock_frozen = 1; hclock_now_ns = 1700000000LL * 1000000000LL;
      init_globals(); g.configfile = strdup(a[1]); rxdir = strdup(a[2]);
      for(i = 3; i < n; ++i) if(a[i][0] == 'd') deny[atoi(a[i] + 1)] = 1; else namel[atoi(a[i] + 1)] = 1;
      st = configure();
      if(st == 0 && init_nbsp_regex() != 0) st = 11;
      if(st == 0 && init_directories() != 0) st = 12;
      if(st == 0 && init_mspool() != 0) st = 13;
      if(st == 0 && init_queues() != 0) st = 14;
      if(st == 0 && nbsfp_packetinfo_init(&pi) != 0) st = 16;
      if(st == 0) st = spawn_server();
      if(st == 0) WAIT(npoll > 0 && nrcv > rcvatpoll, 20000);
      pce = calloc(1, sizeof(struct pctl_element_st) + 8192);
      fprintf(hout, "{\"e\":\"init\",\"st\":%d,\"hung\":%d}", st, hung);
    }else{
      int did = 1, rep = 0;
      fprintf(hout, "{\"e\":\"%s\"", a[0]);
      if(strcmp(a[0], "conn") == 0){ st = client_conn(atoi(a[1]), atoi(a[2])); if(n > 3) client_send(&cl[atoi(a[1])], a[3]); fprintf(hout, ",\"c\":%s,\"h\":%s,\"st\":%d", a[1], a[2], st); }
      else if(strcmp(a[0], "send") == 0){ client_send(&cl[atoi(a[1])], a[2]); fprintf(hout, ",\"c\":%s", a[1]); }
      else if(strcmp(a[0], "close") == 0){
	struct client *c = &cl[atoi(a[1])]; if(c->fd != -1){ sync_rx(); if(c->fd != -1) close(c->fd); } c->fd = -1; fprintf(hout, ",\"c\":%s", a[1]);
      }else if(strcmp(a[0], "hold") == 0){ cl[atoi(a[1])].budget = atoi(a[2]); fprintf(hout, ",\"c\":%s,\"n\":%s", a[1], a[2]); }
      else if(strcmp(a[0], "brk") == 0){
	struct client *c = &cl[atoi(a[1])]; struct thr *t = blocked(c); did = t != NULL;
	if(t != NULL) broken(c, t, atoi(a[2]));
	fprintf(hout, ",\"c\":%s,\"did\":%s", a[1], did ? "true" : "false");
      }else if(strcmp(a[0], "rcn") == 0){
	struct client *c = &cl[atoi(a[1])]; struct thr *t = blocked(c); int h = c->host; did = t != NULL;
	if(t != NULL){
	  held = 0; holdpoll = 1; hclock_now_ns += 1000000000LL;
	  WAIT(held, 20000);
	  if(atoi(a[4])){ drain(); close(c->fd); c->fd = -1; ms(5); }
	  broken(c, t, atoi(a[2]));
	  client_conn(atoi(a[3]), h);
	  { long p = npoll; holdpoll = 0; WAIT(npoll > p, 20000); WAIT(nrcv > rcvatpoll, 20000); }
	}
	fprintf(hout, ",\"c\":%s,\"nc2\":%s,\"h\":%d,\"gone\":%s,\"did\":%s", a[1], a[3], h, a[4], did ? "true" : "false");
      }else if(strcmp(a[0], "prod") == 0){
	memset(pce, 0, sizeof *pce); pce->fpath_size = pi.packet_size - 12 - 27; memset(pce->fpath, 0, 4096);
	strcpy(pce->fname, a[2]); snprintf(pce->fpath, pce->fpath_size, "%s%s", g.spooldir, a[3]); pce->seq_number = strtoul(a[4], NULL, 10);
	pce->psh_product_type = atoi(a[5]); pce->psh_product_category = atoi(a[6]); pce->psh_product_code = atoi(a[7]); pce->np_channel_index = atoi(a[8]);
	st = nbsfp_pack_fpath(&pi, pce);
	if(st == 0) st = e_nbspq_snd1(SERVER_Q_INDEX, pi.packet, pi.packet_size);
	++nsent; { long r; WAIT(nrcvok >= nsent, 20000); r = nrcv; WAIT(nrcv > r, 20000); }
	fprintf(hout, ",\"pid\":%s,\"st\":%d", a[1], st);
      }else if(strcmp(a[0], "pass") == 0){ WAIT(quiet(), 20000); { long p = npoll; hclock_now_ns += atol(a[1]) * 1000000000LL; WAIT(npoll > p, 20000); WAIT(nrcv > rcvatpoll, 20000); } fprintf(hout, ",\"secs\":%s", a[1]); }
      else if(strcmp(a[0], "reload") == 0) set_reload_server_filters_flag();
      else if(strcmp(a[0], "report") == 0) rep = 1;
      else if(strcmp(a[0], "quit") == 0){
	set_quit_flag(); kill_server_thread();
	for(i = 0; i < ncl; ++i) if(cl[i].used && cl[i].fd != -1){ int h = hung; WAIT(cl[i].eof, 1500); hung = h; }
	fprintf(hout, ",\"open\":[");
	{ int first = 1; for(i = 0; i < ncl; ++i) if(cl[i].used && cl[i].fd != -1 && !cl[i].eof){ fprintf(hout, first ? "%d" : ",%d", i); first = 0; } }
	fprintf(hout, "],\"hung\":%d}", hung); h_flush();
	break;
      }
      if(later) fprintf(hout, ",\"later\":true}");
      else{
	settle();
	if(rep){
	  FILE *f; char b[512], *w, *s; int first = 1;
	  set_server_state_flag();
	  { long r = nrcv; WAIT(nrcv > r + 2, 20000); }
	  f = fopen(g.serveractivefile, "r"); fprintf(hout, ",\"lines\":[");
	  while(f != NULL && fgets(b, sizeof b, f) != NULL){
	    int k = 0; fprintf(hout, first ? "[" : ",["); first = 0; b[strcspn(b, "\n")] = 0;
	    for(w = strtok_r(b, " ", &s); w != NULL; w = strtok_r(NULL, " ", &s)) fprintf(hout, k++ ? ",\"%s\"" : "\"%s\"", w);
	    fprintf(hout, "]");
	  }
	  if(f != NULL) fclose(f);
	  fprintf(hout, "]");
	}
	observe();
	fprintf(hout, "}");
      }
    }
    h_flush();
    if(hung) _exit(3);
  }
  return 0;
}
