#include "hcommon.h"

FILE *hout;
volatile long long hclock_off_ns = 0;
volatile int hclock_frozen = 0;
volatile long long hclock_now_ns = 0;

void h_init(void){
  int fd = dup(1);
  int nfd;
  hout = fdopen(fd, "w");
  nfd = open("/dev/null", O_WRONLY);
  dup2(nfd, 1);
  if(getenv("H_STDERR") == NULL) dup2(nfd, 2);
  signal(SIGPIPE, SIG_IGN);
}

static char *lbuf = NULL;
static size_t lsize = 0;

char *h_line(void){
  ssize_t n = getline(&lbuf, &lsize, stdin);
  if(n <= 0) return NULL;
  while(n > 0 && (lbuf[n-1] == '\n')) lbuf[--n] = '\0';
  return lbuf;
}

int h_split(char *line, char **argv, int max){
  int n = 0;
  char *save = NULL;
  char *p = strtok_r(line, " ", &save);
  while(p != NULL && n < max){ argv[n++] = p; p = strtok_r(NULL, " ", &save); }
  return n;
}

static int hexv(int c){
  if(c >= '0' && c <= '9') return c - '0';
  if(c >= 'a' && c <= 'f') return c - 'a' + 10;
  return -1;
}

int h_unhex(const char *s, unsigned char *buf, int max){
  int n = 0;
  if(s[0] == '-') return 0;
  while(s[0] != '\0' && s[1] != '\0' && n < max){
    buf[n++] = (hexv(s[0]) << 4) | hexv(s[1]);
    s += 2;
  }
  return n;
}

void h_bytes(const void *p, long n){
  const unsigned char *u = p;
  long i;
  fputc('[', hout);
  for(i = 0; i < n; ++i) fprintf(hout, i ? ",%d" : "%d", u[i]);
  fputc(']', hout);
}

void h_str(const char *s){ h_bytes(s, (long)strlen(s)); }

void h_word(unsigned int w){ fprintf(hout, "[%u,%u]", w >> 16, w & 0xffff); }

void h_flush(void){ fputc('\n', hout); fflush(hout); }
