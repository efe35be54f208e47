/*
 * Drives sbnframeproc() (the frame processor of the readers) with raw frames
 * and logs, after each frame, the counters and what was put in the processing
 * queue.
 *
 * usage: ingest workdir accept-pattern|- savez-pattern|-
 * script:  F ch hexbytes   one frame on channel ch
 *          O 0|1           set/clear the high load retransmission condition
 *          L load100 rtxindex soft hard limit   evaluate the load condition
 */
#include "hcommon.h"
#include "globals.h"
#include "init.h"
#include "nbspre.h"
#include "dbenv.h"
#include "nbsp.h"
#include "sbn.h"
#include "framep.h"
#include "load.h"
#include "stats.h"

static double hload = 0.0;
int __wrap_getloadavg(double *l, int n){
  int i;
  for(i = 0; i < n; ++i) l[i] = (i == 0) ? hload : 0.0;
  return n;
}

static struct sbn_frame frames[NPCAST_NUM_CHANNELS];

static void print_pce(struct pctl_element_st *p){
  size_t sl = strlen(g.spooldir);
  fprintf(hout, "{\"seq\":"); h_word(p->seq_number);
  fprintf(hout, ",\"orig\":"); h_word(p->orig_seq_number);
  fprintf(hout, ",\"ch\":%d,\"ok\":%s,\"nf\":%d,\"rf\":%d,\"ds\":%d,\"type\":%d,"
	  "\"cat\":%d,\"code\":%d,\"ccb\":%s,\"unz\":%s",
	  p->np_channel_index, p->f_complete ? "true" : "false",
	  p->num_fragments, p->recv_fragments, p->sbn_datstream,
	  p->psh_product_type, p->psh_product_category, p->psh_product_code,
	  p->f_has_ccb ? "true" : "false", p->saveunz_flag ? "true" : "false");
  fprintf(hout, ",\"fname\":"); h_str(p->fname);
  fprintf(hout, ",\"base\":"); h_str(p->fbasename);
  fprintf(hout, ",\"path\":");
  if(strncmp(p->fpath, g.spooldir, sl) == 0) h_str(p->fpath + sl + 1);
  else h_str(p->fpath);
  fprintf(hout, ",\"body\":");
  if(p->saveunz_flag == 0){
    h_bytes(p->mf->p, (long)p->mf->size);
  }else{
    char *d = NULL; int z, n, i, first = 1;
    fputc('[', hout);
    for(i = 0; i < p->recv_fragments; ++i){
      z = 2;
      n = get_memframe(p->mf, &d, &z);
      if(n < 0 || z == 2){ fprintf(hout, "%s{\"z\":\"error\",\"d\":[]}", first ? "" : ","); break; }
      fprintf(hout, "%s{\"z\":%s,\"d\":", first ? "" : ",", z ? "true" : "false");
      h_bytes(d, n);
      fputc('}', hout);
      first = 0;
    }
    fputc(']', hout);
  }
  fputc('}', hout);
}

static void observe(void){
  struct nbsp_stats_st *s = &g.nbspstats;
  struct pctl_element_st *p;
  int status = 0, first = 1;
  fprintf(hout, "\"cnt\":{\"recv\":%u,\"good\":%u,\"jump\":%u,\"bad\":%u,\"tx\":%u,"
	  "\"rtx\":%u,\"done\":%u,\"missed\":%u,\"abort\":%u,\"rej\":%u},\"bytes\":%u,\"emit\":[",
	  s->frames_received, s->frames_processed, s->frames_jumps, s->frames_bad,
	  s->products_transmitted, s->products_retransmitted, s->products_completed,
	  s->products_missed, s->products_aborted, s->products_rejected,
	  s->frames_data_size);
  while(g.pctl->pctldb->n > 0){
    p = eopen_pctl_outputpce(g.pctl, 0, &status);
    if(p == NULL){ fprintf(hout, "%s{\"error\":%d}", first ? "" : ",", status); first = 0; break; }
    if(!first) fputc(',', hout);
    first = 0;
    print_pce(p);
    close_pctl_outputpce(g.pctl);
  }
  fprintf(hout, "]}");
}

int main(int argc, char **argv){
  char *line, *a[8];
  int n;
  h_init();
  if(argc < 4) return 3;
  init_globals();
  g.spooldir = argv[1];
  g.dbhome = argv[1];
  g.dbcache_mb = 4;
  g.patt_accept = strcmp(argv[2], "-") ? argv[2] : NULL;
  g.savez_patt_accept = strcmp(argv[3], "-") ? argv[3] : NULL;
  if(init_nbsp_regex() != 0) return 3;
  if(nbsp_open_dbenv() != 0) return 3;
  if(init_pctl() != 0) return 3;
  while((line = h_line()) != NULL){
    n = h_split(line, a, 8);
    if(n == 0) continue;
    if(a[0][0] == 'F'){
      int ch = atoi(a[1]);
      struct sbn_frame *f = &frames[ch];
      f->rawdata_size = h_unhex(a[2], (unsigned char*)f->rawdata, SBN_FRAME_SIZE);
      f->np_channel_index = ch;
      (void)sbnframeproc(f);
      fprintf(hout, "{");
      observe();
    }else if(a[0][0] == 'O'){
      g.f_loadave_max_rtx = atoi(a[1]);
      fprintf(hout, "{");
      observe();
    }else if(a[0][0] == 'L'){
      hload = atoi(a[1]) / 100.0;
      g.nbspstats.products_rtx_index = atoi(a[2]);
      g.loadave_max_soft = atoi(a[3]);
      g.loadave_max_hard = atoi(a[4]);
      g.loadave_max_rtx_index = atoi(a[5]);
      verify_load_ave_condition();
      fprintf(hout, "{\"f\":%d,\"r\":%d}", g.f_loadave_max, g.f_loadave_max_rtx);
    }
    h_flush();
  }
  _exit(0);
}
