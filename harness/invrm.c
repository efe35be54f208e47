/*
 * Linked into nbspinvrm: every call that could change a file is let through
 * only when its target lies below $INV_TOP, and is otherwise recorded in
 * $INV_LOG and refused.  Some calls fail as told by $INV_FAIL
 * ("unlink:name:errno" or "chdir:path:errno", separated by newlines).
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

int __real_unlink(const char *p);
int __real_chdir(const char *p);

/* is the directory that holds path below the top */
static int inside(const char *path, int whole){
  char b[PATH_MAX + 8], r[PATH_MAX + 1], *s;
  const char *top = getenv("INV_TOP");
  size_t n = strlen(top);
  if(strlen(path) >= PATH_MAX) return 1;		/* cannot reach anything */
  strcpy(b, path);
  if(!whole){
    s = strrchr(b, '/');
    if(s == NULL) strcpy(b, "."); else if(s == b) strcpy(b, "/"); else *s = '\0';
  }
  if(realpath(b, r) == NULL) return errno == ENOENT || errno == EACCES || errno == ENOTDIR;
  return strncmp(r, top, n) == 0 && (r[n] == '/' || r[n] == '\0');
}
static int refuse(const char *call, const char *path){
  FILE *f = fopen(getenv("INV_LOG"), "a");
  if(f != NULL){ fprintf(f, "%s %.200s\n", call, path); fclose(f); }
  errno = EPERM;
  return -1;
}
static int fails(const char *call, const char *path){
  const char *f = getenv("INV_FAIL"), *b = strrchr(path, '/');
  char buf[4096], *l, *sv = NULL, *e;
  size_t n = strlen(call);
  if(f == NULL) return 0;
  snprintf(buf, sizeof buf, "%s", f);
  for(l = strtok_r(buf, "\n", &sv); l != NULL; l = strtok_r(NULL, "\n", &sv)){
    if(strncmp(l, call, n) != 0 || l[n] != ':') continue;
    e = strrchr(l, ':'); *e = '\0';
    if(strcmp(l + n + 1, path) == 0 || (b != NULL && strcmp(call, "unlink") == 0 && strcmp(l + n + 1, b + 1) == 0)){ errno = atoi(e + 1); return 1; }
  }
  return 0;
}
int __wrap_unlink(const char *p){
  if(!inside(p, 0)) return refuse("unlink", p);
  if(fails("unlink", p)) return -1;
  return __real_unlink(p);
}
int __wrap_unlinkat(int fd, const char *p, int fl){
  int c, r, e;
  if(fl & AT_REMOVEDIR) return refuse("rmdir", p);
  if(fd == AT_FDCWD || p[0] == '/') return __wrap_unlink(p);
  c = open(".", O_RDONLY); if(c == -1 || fchdir(fd) != 0) return refuse("unlinkat", p);
  r = __wrap_unlink(p); e = errno;
  if(fchdir(c) != 0) _exit(98);
  close(c); errno = e;
  return r;
}
int __wrap_remove(const char *p){
  struct stat sb;
  if(lstat(p, &sb) == 0 && S_ISDIR(sb.st_mode)) return refuse("rmdir", p);
  return __wrap_unlink(p);
}
int __wrap_rmdir(const char *p){ return refuse("rmdir", p); }
int __wrap_rename(const char *a, const char *b){ (void)b; return refuse("rename", a); }
int __wrap_truncate(const char *p, off_t n){ (void)n; return refuse("truncate", p); }
int __wrap_chdir(const char *p){
  if(!inside(p, 1)) return refuse("chdir", p);
  if(fails("chdir", p)) return -1;
  return __real_chdir(p);
}
