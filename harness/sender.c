/*
 * Linked into nbspmcast in place of the network and of the clock: every frame
 * offered to the network is written to the file $SENDER_OUT, one JSON line for
 * each, and some of them fail as told by $SENDER_FAIL ("3e,7s": the third one
 * fails, the seventh is sent short).  With $SENDER_BIG the frames of each
 * product are only summarized.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>

static FILE *out;
static int nframe = 0;
static long bn = 0;		/* frames of the current product */
static int bok, bnf, bstarts;
static unsigned blast;

static FILE *o(void){
  if(out == NULL){ out = fopen(getenv("SENDER_OUT"), "a"); if(out == NULL) _exit(99); }
  return out;
}
static unsigned be(const unsigned char *p, int n){ unsigned v = 0; while(n-- > 0) v = (v << 8) | *p++; return v; }

static void big(const unsigned char *b, size_t len){
  unsigned blk = be(b + 20, 2), dbs = be(b + 24, 2), num = be(b + 8, 4);
  int last = (b[17] & 4) != 0;
  if(bn == 0){ bok = 1; bnf = be(b + 32 + 14, 2); bstarts = (b[17] & 1) != 0; }
  else if(num != blast + 1 || (b[17] & 1)) bok = 0;
  if(blk != bn || !(b[17] & 2) || len != dbs + (bn == 0 ? 68 : 32) || (dbs != 4000 && !last)) bok = 0;
  blast = num; ++bn;
  if(last || bn > 70000){
    fprintf(o(), "{\"e\":\"B\",\"n\":%ld,\"nf\":%d,\"consistent\":%d,\"lastlen\":%u,\"starts\":%d,\"ends\":%d,\"lastnum\":[%u,%u]}\n",
	    bn, bnf, bok, dbs, bstarts, last, num >> 16, num & 65535);
    fflush(out);
    bn = 0;
  }
}

ssize_t __wrap_sendto(int fd, const void *p, size_t len, int flags, const struct sockaddr *sa, socklen_t sl){
  const unsigned char *b = p;
  const char *f = getenv("SENDER_FAIL");
  struct sockaddr_in *in = (struct sockaddr_in*)sa;
  int kind = 0;
  size_t i;
  ++nframe;
  if(getenv("SENDER_BIG")){ big(b, len); return (ssize_t)len; }
  while(f != NULL && *f){
    char *e; long n = strtol(f, &e, 10);
    if(e == f) break;
    if(n == nframe) kind = *e;
    f = *e ? e + 1 : e; if(*f == ',') ++f;
  }
  fprintf(o(), "{\"e\":\"F\",\"lost\":%s,\"dst\":\"%s:%d\",\"b\":\"", kind ? "true" : "false",
	  sa && sl >= sizeof(*in) ? inet_ntoa(in->sin_addr) : "", sa && sl >= sizeof(*in) ? ntohs(in->sin_port) : 0);
  for(i = 0; i < len; ++i) fprintf(out, "%02x", b[i]);
  fprintf(out, "\"}\n"); fflush(out);
  if(kind == 'e'){ errno = ENOBUFS; return -1; }
  if(kind == 's') return (ssize_t)len - 1;
  return (ssize_t)len;
}

static void pause_us(long us){
  if(getenv("SENDER_BIG")) return;
  fprintf(o(), "{\"e\":\"P\",\"us\":%ld}\n", us); fflush(out);
}
int __wrap_usleep(useconds_t us){ pause_us((long)us); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *r){ (void)r; pause_us(a->tv_sec * 1000000L + a->tv_nsec / 1000); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *r){ (void)c; (void)f; return __wrap_nanosleep(a, r); }

static long now_s(void){ return atol(getenv("SENDER_NOW")); }
static long now_ms(void){ const char *p = getenv("SENDER_MS"); return p ? atol(p) : 0; }
time_t __wrap_time(time_t *t){ time_t n = now_s(); if(t) *t = n; return n; }
int __wrap_gettimeofday(struct timeval *tv, void *tz){ (void)tz; tv->tv_sec = now_s(); tv->tv_usec = now_ms() * 1000 + 321; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts){ (void)c; ts->tv_sec = now_s(); ts->tv_nsec = (now_ms() * 1000 + 321) * 1000; return 0; }
