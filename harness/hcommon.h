/*
 * Shared helpers of the conformance harnesses. A harness is linked with the
 * real object files of nbsp (main() renamed to nbspd_main), reads a script of
 * commands on stdin and writes one JSON line per command on stdout (fd 3 is
 * used so that the daemon's own output on stdout cannot mix with it).
 */
#ifndef HCOMMON_H
#define HCOMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern FILE *hout;
void h_init(void);
char *h_line(void);                    /* next script line or NULL */
int h_split(char *line, char **argv, int max);
int h_unhex(const char *s, unsigned char *buf, int max);
void h_bytes(const void *p, long n);   /* prints [1,2,...] */
void h_str(const char *s);             /* prints bytes of a C string */
void h_word(unsigned int w);           /* prints [hi,lo] */
void h_flush(void);
/* virtual clock: an offset added to the wall clock, or a frozen value */
extern volatile long long hclock_off_ns;
extern volatile int hclock_frozen;
extern volatile long long hclock_now_ns;
#endif
