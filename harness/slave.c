/*
 * The readers that are not of the satellite feed: slaves of other servers and
 * the input fifo. What is written to them goes through the real readers, and
 * what they add to the processing, filter and server queues is taken out.
 *   init <configfile> <masterdir>
 *   prod <pid> <name hex> <seq> <type> <cat> <code> <ch> <size>   the master's packets
 *   conn <slave>                         a new connection of that slave
 *   eof <slave>                          the master closes
 *   pkt <slave> <pid> <blk> <cut> [<offset> <byte hex>]*   cut: bytes sent, -1 all
 *   dup <name>                           the file is already in the spool
 *   n2 <slave> <hex>                     bytes from an NBS2 master
 *   fifo                                 a new input fifo
 *   rec <hex>                            bytes into it (all of one record), and read
 *   tab <feedmode> <infifo hex> <masterservers hex>
 *   run <ms>                             the real threads, until the time or a line
 */
#include "hcommon.h"
#include <poll.h>
#include <sys/socket.h>
#include <tcl.h>
#include "globals.h"
#include "conf.h"
#include "init.h"
#include "nbspre.h"
#include "dbenv.h"
#include "nbsp.h"
#include "nbspq.h"
#include "signal.h"
#include "slave.h"
#include "slavet.h"
#include "slavenbs/slavenbs.h"
#include "slavefp/slavefp.h"
#include "slavein/slavein.h"
#include "nbs1.h"
#include "packfp.h"
#include "packfpu.h"
#include "stats.h"

/* The buffers of the size of a packet are followed by an area that must stay as it is. */
#define PAD 300000
static struct { char *p; size_t n; } guard[16];
void *__real_malloc(size_t n); void __real_free(void *p);
void *__wrap_malloc(size_t n){
  int i; char *p;
  if(n < 60000 || n > 80000) return __real_malloc(n);
  p = __real_malloc(n + PAD);
  if(p != NULL) memset(p + n, 0xa7, PAD);
  for(i = 0; p != NULL && i < 16; ++i) if(guard[i].p == NULL){ guard[i].p = p; guard[i].n = n; break; }
  return p;
}
void __wrap_free(void *p){ int i; for(i = 0; p != NULL && i < 16; ++i) if(guard[i].p == p) guard[i].p = NULL; __real_free(p); }
static int overrun(void){
  int i; long k;
  for(i = 0; i < 16; ++i) if(guard[i].p != NULL) for(k = 0; k < PAD; ++k) if((unsigned char)guard[i].p[guard[i].n + k] != 0xa7) return 1;
  return 0;
}
#define MAXP 64
static struct prod { int nb; struct blk { unsigned char *b; int n; } k[8]; } prods[MAXP];
static int sv[8][2];
static char *mdir;

static int part(unsigned char *d, long n, int whole, int first){
  int i, j, bi = -1, bj = -1;
  for(i = 0; i < MAXP; ++i) for(j = 0; j < prods[i].nb; ++j){
    long k = prods[i].k[j].n - 66;
    if(k > 0 && k <= n && (!whole || k == n) && memcmp(prods[i].k[j].b + 66, d, k) == 0 && (bi < 0 || k > prods[bi].k[bj].n - 66)){ bi = i; bj = j; }
  }
  if(!first) fputc(',', hout);
  if(bi < 0){ fprintf(hout, "[-1,%ld]", n); return n ? n : 1; }
  fprintf(hout, "[%d,%d]", bi, bj + 1);
  return prods[bi].k[bj].n - 66;
}
static void pce_parts(struct pctl_element_st *p){
  int i, z, n, zs[64]; char *d = NULL;
  fputc('[', hout);
  if(p->saveunz_flag == 0){
    long k = p->mf->size, o = 0;
    while(o < k) o += part((unsigned char*)p->mf->p + o, k - o, 0, o == 0);
    fprintf(hout, "],\"zs\":[");
  }else{
    for(i = 0; i < p->recv_fragments && i < 64; ++i){
      z = 2; n = get_memframe(p->mf, &d, &z); zs[i] = z;
      if(n < 0 || z == 2){ fprintf(hout, i ? ",[-2,0]" : "[-2,0]"); break; }
      part((unsigned char*)d, n, 1, i == 0);
    }
    fprintf(hout, "],\"zs\":[");
    for(z = 0; z < i; ++z) fprintf(hout, z ? ",%d" : "%d", zs[z]);
  }
  fputc(']', hout);
}
static void out_pctl(void){
  int first = 1, st;
  fprintf(hout, ",\"out\":[");
  while(g.pctl != NULL && g.pctl->pctldb->n > 0){
    struct pctl_element_st *p = eopen_pctl_outputpce(g.pctl, 0, &st);
    if(p == NULL) break;
    fprintf(hout, "%s{\"fc\":%d,\"seq\":", first ? "" : ",", p->f_complete); first = 0; h_word(p->seq_number);
    fprintf(hout, ",\"codes\":[%d,%d,%d,%d],\"name\":", p->psh_product_type, p->psh_product_category, p->psh_product_code, p->np_channel_index); h_str(p->fbasename);
    fprintf(hout, ",\"fname\":"); h_str(p->fname);
    fprintf(hout, ",\"path\":"); h_str(strncmp(p->fpath, g.spooldir, strlen(g.spooldir)) == 0 ? p->fpath + strlen(g.spooldir) : p->fpath);
    fprintf(hout, ",\"parts\":"); pce_parts(p); fputc('}', hout);
    close_pctl_outputpce(g.pctl);
  }
  fputc(']', hout);
}
static void out_q(int type, const char *n){
  void *p = NULL; size_t k = 0; int first = 1;
  fprintf(hout, ",\"%s\":[", n);
  for(;;){
    struct packet_info_st pi;
    p = NULL; k = 0;
    if(e_nbspq_rcv1(type, &p, &k) != 0) break;
    memset(&pi, 0, sizeof pi); pi.packet = p; pi.packet_size = k;
    if(!first) fputc(',', hout); first = 0;
    if(nbsfp_unpack_fpath(&pi) != 0) fprintf(hout, "{\"bad\":true}");
    else{
      fprintf(hout, "{\"seq\":"); h_word(pi.seq_number); fprintf(hout, ",\"codes\":[%d,%d,%d,%d],\"fname\":", pi.psh_product_type, pi.psh_product_category, pi.psh_product_code, pi.np_channel_index);
      h_str(pi.fname); fprintf(hout, ",\"path\":"); h_str(pi.fpath); fputc('}', hout);
    }
    free(p);
  }
  fputc(']', hout);
}
static void out_stats(void){
  static struct nbsp_stats_st o; struct nbsp_stats_st *s = &g.nbspstats;
  fprintf(hout, ",\"tx\":%d,\"mi\":%d,\"co\":%d,\"re\":%d", (int)(s->products_transmitted - o.products_transmitted), (int)(s->products_missed - o.products_missed),
	  (int)(s->products_completed - o.products_completed), (int)(s->products_rejected - o.products_rejected));
  o = *s;
}
static void sendall(int fd, const unsigned char *b, long n){ long i = 0; while(i < n){ ssize_t r = send(fd, b + i, n - i, MSG_NOSIGNAL); if(r <= 0) break; i += r; } }
static struct slave_element_st *sl(char *a){ return &g.slavet->slave[atoi(a)]; }
static int loop(struct slave_element_st *s){ return s->slavetype == SLAVETYPE_NBS1 ? slavenet_loop_nbs1(s) : slavenet_loop_nbs2(s); }
static struct slave_element_st fifo;

int main(int argc, char **argv){
  char *l, *a[64], p[1200]; static unsigned char buf[1 << 18]; int n, i, st;
  h_init();
  Tcl_FindExecutable(argv[0]);
  while((l = h_line()) != NULL){
    n = h_split(l, a, 64);
    if(n == 0) continue;
    if(strcmp(a[0], "init") == 0){
      for(i = 0; i < 8; ++i) sv[i][0] = sv[i][1] = -1;
      init_globals(); g.configfile = strdup(a[1]); mdir = strdup(a[2]);
      st = configure();
      if(st == 0 && init_nbsp_regex() != 0) st = 11;
      if(st == 0 && init_directories() != 0) st = 12;
      if(st == 0 && feedmode_slave_enabled() && init_slavet() != 0) st = 15;
      if(st == 0 && init_mspool() != 0) st = 13;
      if(st == 0 && init_queues() != 0) st = 14;
      g.f_filter_thread_created = 1; g.f_server_thread_created = 1;
      g.queue_read_timeout_ms = 0;
      if(st == 0 && g.slavet != NULL) for(i = 0; i < g.slavet->numslaves; ++i) if(g.slavet->slave[i].slavetype == SLAVETYPE_NBS2) slavenet_init_nbs2(&g.slavet->slave[i]);
      fprintf(hout, "{\"e\":\"init\",\"st\":%d,\"maxpath\":%d}", st, const_fpath_maxsize());
    }else if(strcmp(a[0], "prod") == 0){
      struct nbs1_packet_st nb; struct prod *q = &prods[atoi(a[1])]; FILE *f; long size = atol(a[8]), o = 0; int same = 1; char name[200];
      unsigned char *d = malloc(size + 1); unsigned x = 2463534242u + atoi(a[1]) * 7919;
      for(o = 0; o < size; ++o){ x ^= x << 13; x ^= x >> 17; x ^= x << 5; d[o] = (o % 65536) == 0 ? atoi(a[1]) * 8 + o / 65536 : x >> 11; }
      i = h_unhex(a[2], (unsigned char*)name, 190); name[i] = 0;
      snprintf(p, sizeof p, "%s/%s", mdir, name); f = fopen(p, "w"); fwrite(d, 1, size, f); fclose(f);
      for(i = 0; i < q->nb; ++i) free(q->k[i].b);
      q->nb = 0; o = 0;
      memset(&nb, 0x77, sizeof nb);
      st = init_nbs_packet_st(&nb, p, strtoul(a[3], NULL, 10), atoi(a[4]), atoi(a[5]), atoi(a[6]), atoi(a[7]), name);
      for(i = 0; st == 0 && i < nb.num_blocks && i < 8; ++i){
	st = build_nbs_packet(&nb);
	if(st != 0) break;
	q->k[i].n = nb.packet_size; q->k[i].b = malloc(nb.packet_size); memcpy(q->k[i].b, nb.packet, nb.packet_size);
	if((long)nb.packet_size - 66 > size - o || memcmp(d + o, q->k[i].b + 66, nb.packet_size - 66) != 0) same = 0;
	o += nb.packet_size - 66; q->nb = i + 1;
      }
      if(o != size) same = 0;
      free_nbs_packet_st(&nb); free(d);
      fprintf(hout, "{\"e\":\"prod\",\"pid\":%s,\"st\":%d,\"seq\":", a[1], st); h_word(strtoul(a[3], NULL, 10)); fprintf(hout, ",\"codes\":[%s,%s,%s,%s],\"name\":", a[4], a[5], a[6], a[7]); h_str(name);
      fprintf(hout, ",\"size\":%ld,\"same\":%s,\"hdr\":[", size, same ? "true" : "false");
      for(i = 0; i < q->nb; ++i){ if(i) fputc(',', hout); h_bytes(q->k[i].b, 66); }
      fprintf(hout, "],\"len\":["); for(i = 0; i < q->nb; ++i) fprintf(hout, i ? ",%d" : "%d", q->k[i].n); fprintf(hout, "]}");
    }else if(strcmp(a[0], "conn") == 0){
      i = atoi(a[1]); if(sv[i][0] != -1) close(sv[i][0]); if(sv[i][1] != -1) close(sv[i][1]);
      socketpair(AF_UNIX, SOCK_STREAM, 0, sv[i]);
      { int z = 1 << 18; setsockopt(sv[i][0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z); }
      sl(a[1])->slave_fd = sv[i][1];
      fprintf(hout, "{\"e\":\"conn\",\"s\":%d}", i);
    }else if(strcmp(a[0], "eof") == 0){
      i = atoi(a[1]); shutdown(sv[i][0], SHUT_WR);
      fprintf(hout, "{\"e\":\"eof\",\"s\":%d,\"st\":%d", i, loop(sl(a[1]))); out_pctl(); out_stats(); fputc('}', hout);
    }else if(strcmp(a[0], "pkt") == 0){
      struct blk *k = &prods[atoi(a[2])].k[atoi(a[3]) - 1]; int cut = atoi(a[4]), c = cut < 0 ? k->n : cut;
      memcpy(buf, k->b, k->n);
      for(i = 5; i + 1 < n; i += 2) buf[atoi(a[i])] = strtol(a[i + 1], NULL, 16);
      sendall(sv[atoi(a[1])][0], buf, c);
      if(c < k->n) shutdown(sv[atoi(a[1])][0], SHUT_WR);
      st = loop(sl(a[1]));
      fprintf(hout, "{\"e\":\"pkt\",\"s\":%s,\"part\":[%s,%s],\"n\":%d,\"len\":%d,\"h\":", a[1], a[2], a[3], k->n, c); h_bytes(buf, 66); fprintf(hout, ",\"st\":%d", st);
      out_pctl(); out_stats(); fputc('}', hout);
    }else if(strcmp(a[0], "flood") == 0){
      /* flood <slave> <size hex>: an envelope with that size and as much data as fits */
      unsigned v = strtoul(a[2], NULL, 16); i = atoi(a[1]); memset(buf, 0x5a, sizeof buf); memset(buf, 0, 12); buf[3] = 1; buf[4] = v >> 24; buf[5] = v >> 16; buf[6] = v >> 8; buf[7] = v;
      send(sv[i][0], buf, 66, MSG_NOSIGNAL); while(send(sv[i][0], buf + 66, 60000, MSG_NOSIGNAL | MSG_DONTWAIT) > 0) ;
      shutdown(sv[i][0], SHUT_WR);
      fprintf(hout, "{\"e\":\"eof\",\"s\":%d,\"st\":%d", i, loop(sl(a[1])) + 90 * overrun()); out_pctl(); out_stats(); fputc('}', hout);
    }else if(strcmp(a[0], "dup") == 0){
      FILE *f; char *s;
      snprintf(p, sizeof p, "%s%s", g.spooldir, a[1]); s = strrchr(p, '/'); *s = 0; mkdir(p, 0755); *s = '/'; f = fopen(p, "w"); if(f) fclose(f);
      fprintf(hout, "{\"e\":\"dup\",\"path\":"); h_str(a[1]); fputc('}', hout);
    }else if(strcmp(a[0], "n2") == 0){
      i = h_unhex(a[2], buf, sizeof buf); sendall(sv[atoi(a[1])][0], buf, i);
      if(n > 3) shutdown(sv[atoi(a[1])][0], SHUT_WR);
      st = loop(sl(a[1]));
      fprintf(hout, "{\"e\":\"n2\",\"s\":%s,\"st\":%d,\"bytes\":", a[1], st); h_bytes(buf, i); out_q(FILTER_Q_INDEX, "fq"); out_q(SERVER_Q_INDEX, "sq"); fputc('}', hout);
    }else if(strcmp(a[0], "fifo") == 0){
      if(fifo.infifo == NULL){ fifo.slavetype = SLAVETYPE_INFIFO; fifo.infifo = "fifo"; fifo.options.slave_read_timeout_secs = 1; fifo.options.slave_stats_logperiod_secs = 100000; slave_stats_init(&fifo); slavein_init(&fifo); }
      if(sv[7][0] != -1) close(sv[7][0]); if(sv[7][1] != -1) close(sv[7][1]);
      socketpair(AF_UNIX, SOCK_STREAM, 0, sv[7]); fifo.slave_fd = sv[7][1]; fcntl(sv[7][1], F_SETFL, O_NONBLOCK);
      fprintf(hout, "{\"e\":\"fifo\"}");
    }else if(strcmp(a[0], "rec") == 0){
      i = h_unhex(a[1], buf, sizeof buf); sendall(sv[7][0], buf, i);
      if(n > 2) shutdown(sv[7][0], SHUT_WR);
      st = slavein_loop(&fifo);
      fprintf(hout, "{\"e\":\"rec\",\"st\":%d", st); out_q(FILTER_Q_INDEX, "fq"); out_q(SERVER_Q_INDEX, "sq"); fputc('}', hout);
    }else if(strcmp(a[0], "tab") == 0){
      static char inf[4096], ms[8192]; struct slave_table_st *old = g.slavet;
      g.feedmode = atoi(a[1]);
      i = h_unhex(a[2], (unsigned char*)inf, 4000); inf[i] = 0; i = h_unhex(a[3], (unsigned char*)ms, 8000); ms[i] = 0;
      g.infifo = inf; g.masterservers = ms; g.slavet = NULL;
      st = init_slavet();
      fprintf(hout, "{\"e\":\"tab\",\"ok\":%s,\"nr\":%d,\"t\":[", st == 0 ? "true" : "false", st == 0 ? g.slavet->num_slavenbs_readers : 0);
      for(i = 0; st == 0 && i < g.slavet->numslaves; ++i){
	struct slave_element_st *s = &g.slavet->slave[i];
	fprintf(hout, "%s{\"type\":%d,\"host\":", i ? "," : "", s->slavetype); h_str(s->mastername ? s->mastername : ""); fprintf(hout, ",\"port\":"); h_str(s->masterport ? s->masterport : "");
	fprintf(hout, ",\"fifo\":"); h_str(s->infifo ? s->infifo : "");
	fprintf(hout, ",\"opts\":[%d,%d,%d,%d,%d],\"idx\":%d}", s->options.slave_read_timeout_secs, s->options.slave_read_timeout_retry, s->options.slave_reopen_timeout_secs, s->options.slave_so_rcvbuf, s->options.slave_stats_logperiod_secs, s->slavenbs_reader_index);
      }
      fprintf(hout, "]}");
      cleanup_slavet(); g.slavet = old;
    }else if(strcmp(a[0], "run") == 0){
      struct pollfd pf; struct timespec t0, t1; long el = 0, lim = atol(a[1]);
      for(i = 0; i < g.slavet->numslaves; ++i) slavenet_cleanup_nbs2(&g.slavet->slave[i]);
      spawn_slave_threads();
      fprintf(hout, "{\"e\":\"run\"}"); h_flush();
      clock_gettime(CLOCK_MONOTONIC, &t0);
      pf.fd = 0; pf.events = POLLIN;
      while(el < lim && poll(&pf, 1, 20) == 0){
	long pos;
	if(g.pctl != NULL && g.pctl->pctldb->n > 0){ fprintf(hout, "{\"e\":\"dlv\""); out_pctl(); fputc('}', hout); h_flush(); }
	{ char *b = NULL; size_t bn = 0; FILE *o = hout; hout = open_memstream(&b, &bn); out_q(FILTER_Q_INDEX, "fq"); out_q(SERVER_Q_INDEX, "sq"); fclose(hout); hout = o;
	  if(strcmp(b, ",\"fq\":[],\"sq\":[]") != 0){ fprintf(hout, "{\"e\":\"ann\"%s}", b); h_flush(); } free(b); }
	clock_gettime(CLOCK_MONOTONIC, &t1); el = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000; (void)pos;
      }
      set_quit_flag(); kill_slave_threads();
      fprintf(hout, "{\"e\":\"end\",\"quit\":%d", el < lim); out_pctl(); out_stats(); fputc('}', hout); h_flush();
      break;
    }
    h_flush();
  }
  kill_pctl(); kill_nbspq(); nbsp_close_dbenv();
  return 0;
}
