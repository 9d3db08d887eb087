// Stand-ins for the two libraries that are not installed here (gssdp, ncluaw).
// Neither reaches the network; both record what they are asked to do.
#include <libgssdp/gssdp.h>
#include <ncluaw.h>
#include <cairo.h>
#include <libsoup/soup.h>
#include <dlfcn.h>
#include <cstring>
#include <cstdlib>
#include <deque>
#include <map>
#include <set>
#include <unistd.h>
#include "vt.h"
using std::string;

// ---- gssdp ----
typedef struct { GObjectClass parent; } VtClientClass;
typedef struct { GObjectClass parent; } VtGroupClass;
static void vt_client_class_init (gpointer, gpointer) {}
static GType vt_simple_type (const char *name, gsize isz)
{
  GTypeInfo ti; memset (&ti, 0, sizeof ti);
  ti.class_size = sizeof (VtClientClass);
  ti.class_init = vt_client_class_init;
  ti.instance_size = (guint16) isz;
  return g_type_register_static (G_TYPE_OBJECT, name, &ti, (GTypeFlags) 0);
}
static GType client_type () { static GType t = vt_simple_type ("VtGssdpClient", sizeof (GSSDPClient)); return t; }
static GType group_type () { static GType t = vt_simple_type ("VtGssdpGroup", sizeof (GSSDPResourceGroup)); return t; }
extern "C" {
GSSDPClient *gssdp_client_new (const char *, GError **e)
{
  if (vt_ssdp_fail > 0)
    {
      vt_ssdp_fail--;
      g_set_error (e, G_IO_ERROR, G_IO_ERROR_FAILED, "no interface");
      return NULL;
    }
  return (GSSDPClient *) g_object_new (client_type (), NULL);
}
void gssdp_client_set_server_id (GSSDPClient *c, const char *) { g_assert (G_TYPE_CHECK_INSTANCE_TYPE (c, client_type ())); }
const char *gssdp_client_get_host_ip (GSSDPClient *c) { g_assert (G_TYPE_CHECK_INSTANCE_TYPE (c, client_type ())); return "127.0.0.1"; }
gboolean gssdp_client_get_active (GSSDPClient *c) { g_assert (G_TYPE_CHECK_INSTANCE_TYPE (c, client_type ())); return TRUE; }
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *) { return (GSSDPResourceGroup *) g_object_new (group_type (), NULL); }
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *g, const char *, const char *, const char *l) { vt_ssdp_location = l; return ++g->nres; }
void gssdp_resource_group_set_available (GSSDPResourceGroup *g, gboolean b)
{
  g_return_if_fail (G_TYPE_CHECK_INSTANCE_TYPE (g, group_type ())); // as the real one
  g->available = b;
  vt_ssdp_up = b ? vt_ssdp_location : "";
}
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *g) { return g->available; }

// The library asks for a fixed port; give it a free one instead, so that
// several instances can run side by side.
gboolean soup_server_listen_all (SoupServer *server, guint port, SoupServerListenOptions o, GError **e)
{
  typedef gboolean (*fn_t) (SoupServer *, guint, SoupServerListenOptions, GError **);
  fn_t fn = (fn_t) dlsym (RTLD_NEXT, "soup_server_listen_local");
  vt_ports_asked.push_back ((int) port);
  if (vt_listen_fail > 0)
    {
      vt_listen_fail--;
      g_set_error (e, G_IO_ERROR, G_IO_ERROR_ADDRESS_IN_USE, "Address already in use");
      return FALSE;
    }
  gboolean r = fn (server, 0, o, e);
  if (r)
    {
      GSList *l = soup_server_get_uris (server);
      vt_http_port = 0;
      for (GSList *p = l; p; p = p->next)
        if (strchr (((SoupURI *) p->data)->host, '.'))
          vt_http_port = (int) ((SoupURI *) p->data)->port;
      g_slist_free_full (l, (GDestroyNotify) soup_uri_free);
    }
  return r;
}
}
int vt_http_port = 0, vt_ssdp_fail = 0, vt_listen_fail = 0;
std::vector<int> vt_ports_asked;
std::string vt_ssdp_location, vt_ssdp_up;

// ---- ncluaw ----
struct VtEvent { ncluaw_event_t e; string a, b, c, d; };
struct _ncluaw_t
{
  string path;
  cairo_surface_t *sfc;
  std::deque<VtEvent *> pending;
  char canary[16];
};
static std::set<ncluaw_t *> live;
static std::map<string, std::deque<VtEvent *> > posted; // by basename
static bool fail_open = false;
void vt_nclua_fail_open (bool b) { fail_open = b; }
int vt_nclua_live () { return (int) live.size (); }
static string base (const string &p) { size_t i = p.rfind ('/'); return i == string::npos ? p : p.substr (i + 1); }
void vt_nclua_post (const string &path, const char *type, const char *action, const char *name, const char *value)
{
  VtEvent *v = new VtEvent;
  v->a = type; v->b = action; v->c = name; v->d = value;
  if (v->a == "key")
    {
      v->e.cls = NCLUAW_EVENT_KEY;
      v->e.u.key.type = v->b.c_str ();
      v->e.u.key.key = v->c.c_str ();
    }
  else
    {
      v->e.cls = NCLUAW_EVENT_NCL;
      v->e.u.ncl.type = v->a.c_str ();
      v->e.u.ncl.action = v->b.c_str ();
      v->e.u.ncl.name = v->c.c_str ();
      v->e.u.ncl.value = v->d.c_str ();
    }
  posted[path].push_back (v);
}
void vt_nclua_reset ()
{
  for (auto &p : posted) for (auto v : p.second) delete v;
  posted.clear ();
}
extern "C" {
ncluaw_t *ncluaw_open (const char *path, int w, int h, char **errmsg)
{
  char cwd[4096]; if (!getcwd (cwd, sizeof cwd)) cwd[0] = 0;
  fprintf (vt_out, "L open %s %d %d %s\n", vt_enc (base (path)).c_str (), w, h, vt_enc (base (cwd)).c_str ());
  if (fail_open || access (path, R_OK) != 0)
    { *errmsg = strdup ("cannot open"); return NULL; }
  ncluaw_t *nw = new _ncluaw_t;
  nw->path = base (path);
  nw->sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w > 0 ? w : 1, h > 0 ? h : 1);
  cairo_t *cr = cairo_create (nw->sfc);
  cairo_set_source_rgb (cr, 0x12 / 255., 0x34 / 255., 0x56 / 255.);
  cairo_paint (cr); cairo_destroy (cr);
  live.insert (nw);
  return nw;
}
#define CHK(nw) g_assert (live.count (nw))
void ncluaw_close (ncluaw_t *nw)
{
  CHK (nw);
  fprintf (vt_out, "L close %s\n", vt_enc (nw->path).c_str ());
  live.erase (nw);
  for (auto v : nw->pending) delete v;
  cairo_surface_destroy (nw->sfc);
  delete nw;
}
void ncluaw_cycle (ncluaw_t *nw)
{
  CHK (nw);
  char cwd[4096]; if (!getcwd (cwd, sizeof cwd)) cwd[0] = 0;
  fprintf (vt_out, "L cycle %s %s\n", vt_enc (nw->path).c_str (), vt_enc (base (cwd)).c_str ());
  auto it = posted.find (nw->path);
  if (it != posted.end ())
    {
      for (auto v : it->second) nw->pending.push_back (v);
      it->second.clear ();
    }
}
ncluaw_event_t *ncluaw_receive (ncluaw_t *nw)
{
  CHK (nw);
  if (nw->pending.empty ()) return NULL;
  VtEvent *v = nw->pending.front (); nw->pending.pop_front ();
  return &v->e;
}
void ncluaw_event_free (ncluaw_event_t *e) { delete (VtEvent *) e; }
void ncluaw_send (ncluaw_t *nw, const ncluaw_event_t *) { CHK (nw); }
void ncluaw_send_key_event (ncluaw_t *nw, const char *type, const char *key)
{
  CHK (nw);
  fprintf (vt_out, "L key %s %s %s\n", vt_enc (nw->path).c_str (), vt_enc (type).c_str (), vt_enc (key).c_str ());
}
void ncluaw_send_ncl_event (ncluaw_t *nw, const char *type, const char *action, const char *name, const char *value)
{
  CHK (nw);
  fprintf (vt_out, "L ncl %s %s %s %s %s\n", vt_enc (nw->path).c_str (), vt_enc (type).c_str (), vt_enc (action).c_str (),
           vt_enc (name ? name : "").c_str (), vt_enc (value ? value : "").c_str ());
}
void *ncluaw_debug_get_surface (ncluaw_t *nw) { CHK (nw); return nw->sfc; }
}
