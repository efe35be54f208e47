/*
 * The daemon itself, whose main loop does not sleep as long as it should.
 * NBSPD_SLEEP_MS: what a sleep of its main thread lasts.
 * NBSPD_LOG: where what would go to syslog is appended, a line each.
 */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/types.h>

int nbspd_main(int argc, char **argv);
static pthread_t main_thread;

unsigned int __wrap_sleep(unsigned int s){
  const char *p = getenv("NBSPD_SLEEP_MS");
  if(p != NULL) usleep(1000 * atoi(p));
  else usleep(20000);
  (void)s;
  return 0;
}

static void logline(const char *fmt, va_list ap){
  const char *p = getenv("NBSPD_LOG");
  FILE *f = p != NULL ? fopen(p, "a") : NULL;
  if(f == NULL) return;
  fprintf(f, "[%d] ", (int)getpid());
  vfprintf(f, fmt, ap);
  fprintf(f, "\n");
  fclose(f);
}

void __wrap_vsyslog(int pri, const char *fmt, va_list ap){ (void)pri; logline(fmt, ap); }
void __wrap_syslog(int pri, const char *fmt, ...){
  va_list ap;
  (void)pri;
  va_start(ap, fmt); logline(fmt, ap); va_end(ap);
}

int main(int argc, char **argv){
  main_thread = pthread_self();
  return nbspd_main(argc, argv);
}
