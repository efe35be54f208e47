/*
 * The real program up to the point where it would start: what it does there
 * is replaced. DEFCONF is the default configuration file.
 */
#include "hcommon.h"
#include "globals.h"
#include "conf.h"
#include "init.h"

int nbspd_main(int argc, char **argv);
void __real_init_globals(void);
void __wrap_init_globals(void){ __real_init_globals(); g.defconfigfile = getenv("DEFCONF"); }
int __wrap_drop_privs(void){ return 0; }
int __wrap_init_nbsp_regex(void){ return 0; }
int __wrap_init_directories(void){ return 0; }
int __wrap_verify_lock(void){ return 0; }
int __wrap_exec_stopscript(void){ return 0; }
int __wrap_exec_startscript(void){ fprintf(stderr, "@REACHED\n"); print_confoptions(); return 1; }
int main(int argc, char **argv){ return nbspd_main(argc, argv); }
