#ifndef VT_H
#define VT_H
#include <cstdio>
#include <string>
#include <vector>
// Trace output shared by the driver and the stand-ins.
extern FILE *vt_out;
std::string vt_enc (const std::string &s);
std::string vt_dec (const std::string &s);
void vt_nclua_post (const std::string &path, const char *type,
                    const char *action, const char *name, const char *value);
void vt_nclua_reset ();
void vt_nclua_fail_open (bool);
int vt_nclua_live ();
extern int vt_http_port;
extern int vt_ssdp_fail, vt_listen_fail;
extern std::vector<int> vt_ports_asked;
extern std::string vt_ssdp_up, vt_ssdp_location;
#endif
