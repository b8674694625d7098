/* C20: load_brski_config: every role's settings come from the file given, and go to that role */
#include "c20.h"
static struct brski_config g_c;
static int g_loaded[3], g_freed[3];
static bool g_open;
FILE *fopen(const char *name, const char *mode) {
  if (nd_bool()) { g_depfail = true; return NULL; }
  g_open = true;
  return (FILE *)&g_open;
}
int fclose(FILE *f) { PRE(f == (FILE *)&g_open && g_open, "fclose of the open file"); g_open = false; return 0; }
static int load(int i, const char *file, bool own) {
  PRE(file == g_file && own, "each role is loaded from the file into its own settings");
  g_loaded[i]++;
  if (nd_bool()) { g_depfail = true; g_freed[i]++; return -1; }
  return 0;
}
/* contracts proved in units c20_masa_*, c20_registrar_*, c20_pledge_* and c20_free_* */
int spec_load_masa(const char *f, struct masa_config *c) { return load(0, f, c == &g_c.mconf); }
int spec_load_registrar(const char *f, struct registrar_config *c) { return load(1, f, c == &g_c.rconf); }
int spec_load_pledge(const char *f, struct pledge_config *c) { return load(2, f, c == &g_c.pconf); }
void spec_free_masa(struct masa_config *c) { PRE(c == &g_c.mconf, "the settings released are the ones given"); g_freed[0]++; }
void spec_free_registrar(struct registrar_config *c) { PRE(c == &g_c.rconf, "the settings released are the ones given"); g_freed[1]++; }
void spec_free_pledge(struct pledge_config *c) { PRE(c == &g_c.pconf, "the settings released are the ones given"); g_freed[2]++; }
#ifdef VSMALL
int ini_gets(const char *section, const char *key, const char *def, char *buf, int size, const char *file) {
  PRE(file == g_file, "the file read is the one asked for");
  int i = strcmp(section, "masa") == 0 ? 0 : strcmp(section, "registrar") == 0 ? 1 : 2;
  buf[0] = (char)('0' + i); buf[1] = 0;
  return 1;
}
long ini_getl(const char *section, const char *key, long def, const char *file) { return strcmp(section, "masa") == 0 ? 100 : 101; }
int ini_browse(int (*cb)(const char *, const char *, const char *, void *), void *ctx, const char *file) { return 1; }
int ini_getkey(const char *section, int idx, char *buf, int size, const char *file) { buf[0] = 0; return 0; }
#endif
void harness(void) {
  g_k = nd_size();
  v_begin();
  int r = load_brski_config(g_file, &g_c);
  ENSURES(!g_open, "c20: no file is left open");
  if (r == 0) {
    REACH("c20 brski loaded");
    ENSURES(!g_depfail && !g_oom, "c20: any failure on the way is reported");
#ifndef VSMALL
    ENSURES(g_loaded[0] == 1 && g_loaded[1] == 1 && g_loaded[2] == 1, "c20: all three roles are loaded");
    ENSURES(g_freed[0] == 0 && g_freed[1] == 0 && g_freed[2] == 0, "c20: what is loaded is kept");
    free_config_content(&g_c);
    ENSURES(g_freed[0] == 1 && g_freed[1] == 1 && g_freed[2] == 1, "c20: releasing the configuration releases all three roles");
#else
    ENSURES(g_c.mconf.bind_address[0] == '0' && g_c.rconf.bind_address[0] == '1' && g_c.pconf.nonce[0] == '2' && g_c.mconf.port == 100 && g_c.rconf.port == 101, "c20: all three roles are loaded");
    free_config_content(&g_c);
#endif
  } else {
    REACH("c20 brski refused");
    ENSURES(r < 0 && (g_depfail || g_oom), "c20: a failure has a cause");
#ifndef VSMALL
    for (int i = 0; i < 3; i++) ENSURES(g_loaded[i] == 0 || g_freed[i] >= 1, "c20: a failure releases every role loaded");
#endif
  }
  v_end();
  NO_LEAK("c20: loading and releasing leaks nothing");
}
