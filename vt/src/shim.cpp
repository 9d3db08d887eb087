#include "vt.h"
#include "verif-hooks.h"
FILE *vt_out = stdout;
std::string vt_enc (const std::string &s) { return s; }
void ginga_verif_event (ginga::Event *, int, int) {}
void ginga_verif_player (ginga::Player *, const char *, const char *) {}
