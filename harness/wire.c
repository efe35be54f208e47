/* Announcement packets and EMWIN packets, packed, sent and received by the
 * real code. Buffers given to the code end at a page that cannot be accessed.
 *   init <spooldir>
 *   pk <seq> <type> <cat> <code> <ch> <fname hex> <fpath hex>
 *   un <hex>                 unpack exactly these bytes
 *   rc <chunk> <hex>         a stream, written <chunk> bytes at a time
 *   em <name hex> <hex>      send a file
 *   EM <name hex> <size>     a large one, summarised
 */
#include "hcommon.h"
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <tcl.h>
#include "globals.h"
#include "conf.h"
#include "init.h"
#include "const.h"
#include "pctl.h"
#include "packfp.h"
#include "packfpu.h"
#include "emwin.h"

static sigjmp_buf jb;
static void onsegv(int s){ siglongjmp(jb, s); }
#define MAXB (1 << 20)
static unsigned char *wall;     /* the inaccessible page */
static unsigned char in[MAXB], back[MAXB * 4];

static void fields(struct packet_info_st *p){
  fprintf(hout, "{\"ok\":true,\"seq\":"); h_word(p->seq_number);
  fprintf(hout, ",\"type\":%d,\"cat\":%d,\"code\":%d,\"ch\":%d,\"fname\":", p->psh_product_type, p->psh_product_category, p->psh_product_code, p->np_channel_index);
  h_str(p->fname); fprintf(hout, ",\"fpath\":"); h_str(p->fpath); fputc('}', hout);
}
static void unpack(unsigned char *b, long n){
  struct packet_info_st pi; int st, sg;
  memset(&pi, 0, sizeof pi);
  pi.packet = b; pi.packet_size = n;
  if((sg = sigsetjmp(jb, 1)) != 0){ fprintf(hout, "{\"ok\":\"signal %d\"}", sg); return; }
  st = nbsfp_unpack_fpath(&pi);
  if(st != 0) fprintf(hout, "{\"ok\":false}"); else fields(&pi);
}
struct wr { int fd; long n; int chunk; };
static void *writer(void *a){
  struct wr *w = a; long i = 0;
  while(i < w->n){ long k = w->n - i < w->chunk ? w->n - i : w->chunk; ssize_t r = send(w->fd, in + i, k, MSG_NOSIGNAL); if(r <= 0) break; i += r; if(w->chunk < 1000 && i % 7 == 0) sched_yield(); }
  shutdown(w->fd, SHUT_WR);
  return NULL;
}
struct rd { int fd; long n; };
static void *rdr(void *a){ struct rd *r = a; ssize_t k; r->n = 0; while(r->n < (long)sizeof back && (k = read(r->fd, back + r->n, sizeof back - r->n)) > 0) r->n += k; return NULL; }

int main(int argc, char **argv){
  char *l, *a[16], path[600];
  int n;
  struct sigaction sa;
  h_init();
  Tcl_FindExecutable(argv[0]);
  memset(&sa, 0, sizeof sa); sa.sa_handler = onsegv; sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
  unsigned char *m = mmap(NULL, MAXB + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  wall = m + MAXB; mprotect(wall, 4096, PROT_NONE);
  while((l = h_line()) != NULL){
    n = h_split(l, a, 16);
    if(n == 0) continue;
    if(strcmp(a[0], "init") == 0){
      init_globals(); g.spooldir = strdup(a[1]);
      fprintf(hout, "{\"e\":\"init\",\"max\":%d}", const_fpath_packet_maxsize()); h_flush();
    }else if(strcmp(a[0], "pk") == 0){
      struct pctl_element_st *pce = calloc(1, const_pce_size());
      struct packet_info_st *pi;
      pce->fpath_size = const_fpath_maxsize() + 1;
      nbsfp_packetinfo_create(&pi);
      memset(pi->packet, 0x55, pi->packet_size);
      pce->seq_number = strtoul(a[1], NULL, 10); pce->psh_product_type = atoi(a[2]); pce->psh_product_category = atoi(a[3]);
      pce->psh_product_code = atoi(a[4]); pce->np_channel_index = atoi(a[5]);
      n = h_unhex(a[6], in, FNAME_SIZE); in[n] = 0; strcpy(pce->fname, (char*)in);
      n = h_unhex(a[7], in, pce->fpath_size - 1); in[n] = 0; strcpy(pce->fpath, (char*)in);
      if(nbsfp_pack_fpath(pi, pce) != 0){ fprintf(hout, "{\"e\":\"refused\"}"); h_flush(); }
      else{
        unsigned char *b = wall - pi->packet_size;
        memcpy(b, pi->packet, pi->packet_size);
        fprintf(hout, "{\"e\":\"p\",\"bytes\":"); h_bytes(b, pi->packet_size); fprintf(hout, ",\"r\":"); unpack(b, pi->packet_size); fputc('}', hout); h_flush();
      }
      nbsfp_packetinfo_destroy(pi); free(pce);
    }else if(strcmp(a[0], "un") == 0){
      n = h_unhex(a[1], in, MAXB);
      memcpy(wall - n, in, n);
      fprintf(hout, "{\"e\":\"u\",\"r\":"); unpack(wall - n, n); fputc('}', hout); h_flush();
    }else if(strcmp(a[0], "rc") == 0){
      struct packet_info_st pi; int sv[2], st, k = 0, sg; struct wr w; pthread_t t;
      memset(&pi, 0, sizeof pi);
      pi.packet_size = const_fpath_packet_maxsize(); pi.packet = wall - pi.packet_size;
      memset(pi.packet, 0x33, pi.packet_size);
      w.n = h_unhex(a[2], in, MAXB); w.chunk = atoi(a[1]);
      socketpair(AF_UNIX, SOCK_STREAM, 0, sv); w.fd = sv[0];
      pthread_create(&t, NULL, writer, &w);
      fprintf(hout, "{\"e\":\"r\",\"got\":[");
      if((sg = sigsetjmp(jb, 1)) != 0){ fprintf(hout, "%s{\"ok\":\"signal %d\"}", k ? "," : "", sg); }
      else while((st = recv_fp_packet(sv[1], &pi, 5, 0)) == 0){ if(k++) fputc(',', hout); fields(&pi); }
      close(sv[1]); pthread_join(t, NULL); close(sv[0]);
      fprintf(hout, "]}"); h_flush();
    }else if(strcmp(a[0], "em") == 0 || strcmp(a[0], "EM") == 0){
      char name[300]; long size, i; struct emwin_packet_st ep; int sv[2], st, big = a[0][0] == 'E'; struct rd r; pthread_t t; FILE *f;
      n = h_unhex(a[1], (unsigned char*)name, 256); name[n] = 0;
      if(big){ size = atol(a[2]); for(i = 0; i < size; ++i) in[i] = (i * 7 + (i >> 9) * 13) & 255; }
      else size = h_unhex(a[2], in, MAXB);
      snprintf(path, sizeof path, "%s/file", g.spooldir); f = fopen(path, "w"); fwrite(in, 1, size, f); fclose(f);
      socketpair(AF_UNIX, SOCK_STREAM, 0, sv); r.fd = sv[1]; pthread_create(&t, NULL, rdr, &r);
      memset(&ep, 0x5a, sizeof ep);
      st = init_emwin_packet_st(&ep, path, name);
      for(i = 1; st == 0 && i <= ep.parts_total; ++i){ st = build_emwin_packet(&ep); if(st == 0) st = send_emwin_packet(sv[0], &ep, 5000, 0); }
      free_emwin_packet_st(&ep);
      close(sv[0]); pthread_join(t, NULL); close(sv[1]);
      if(!big){ fprintf(hout, "{\"e\":\"em\",\"st\":%d,\"s\":", st); h_bytes(back, r.n); fputc('}', hout); h_flush(); }
      else{
        long k, np = r.n / EMWIN_PACKET_SIZE;
        for(k = 0; k < np; ++k){
          unsigned char *p = back + k * EMWIN_PACKET_SIZE; long sum = 0; int j, rest = 1;
          for(j = 0; j < EMWIN_PACKET_SIZE; ++j) p[j] ^= 0xff;
          for(j = 0; j < 6; ++j) if(p[j] || p[EMWIN_PACKET_SIZE - 1 - j]) rest = 0;
          for(j = 0; j < 1024; ++j){ long o = k * 1024 + j; sum += p[86 + j]; if(p[86 + j] != (o < size ? in[o] : 0)) rest = 0; }
          fprintf(hout, "{\"e\":\"eb\",\"n\":%ld,\"size\":%ld,\"sum\":%ld,\"rest\":%s,\"h\":", k + 1, size, sum, rest ? "true" : "false"); h_bytes(p + 6, 80); fputc('}', hout); h_flush();
        }
        fprintf(hout, "{\"e\":\"ee\",\"size\":%ld,\"sent\":%ld}", size, r.n); h_flush();
      }
    }
  }
  return 0;
}
