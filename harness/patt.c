/* The pattern options of the daemon, read from a configuration file.
 *   conf <file>          configure() + init_nbsp_regex()
 *   m <option> <hexname> the decision of option 1..8
 */
#include "hcommon.h"
#include <tcl.h>
#include "globals.h"
#include "conf.h"
#include "init.h"
#include "nbspre.h"

static int (*fn[])(char*) = {NULL, np_regex_match, filterq_regex_match, serverq_regex_match,
  nbs1_regex_match, nbs2_regex_match, emwin_regex_match, savez_regex_match, rtxdb_regex_match};

int main(int argc, char **argv){
  char *l, *a[8];
  int n;
  h_init();
  Tcl_FindExecutable(argv[0]);
  while((l = h_line()) != NULL){
    n = h_split(l, a, 8);
    if(n == 0) continue;
    if(strcmp(a[0], "conf") == 0){
      int st = 0; init_globals();
      g.configfile = a[1];
      if(st == 0) st = configure();
      if(st == 0) st = init_nbsp_regex();
      fprintf(hout, "{\"e\":\"conf\",\"ok\":%s}", st == 0 ? "true" : "false"); h_flush();
      if(st != 0) return 0;
    }else{
      char name[1024];
      int k = h_unhex(a[2], (unsigned char*)name, 1000);
      name[k] = '\0';
      fprintf(hout, "{\"e\":\"m\",\"o\":%s,\"r\":%d}", a[1], fn[atoi(a[1])](name)); h_flush();
    }
  }
  return 0;
}
