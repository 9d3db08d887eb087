/* The command-line player (src/ginga.cpp) without a display: the few GTK
   functions it uses are replaced by stand-ins driven from standard input, and
   the Ginga handle by one that passes everything on and records it.

   Input, one command per line, answered by the records up to a line ".":
     key press|release KEYVAL | tick USEC COUNTER | size W H | draw | close
   Records (on standard output):
     create W H debug ws exp opengl %bg | start %path ok | main | quit | stop r
     key %name press r | tick total diff frame r | resize W H | redraw | bool %name v
     window shown|full|unfull|damage|title|size W H */
#include <gtk/gtk.h>
#include <cairo.h>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sanitizer/lsan_interface.h>
#include "ginga.h"
using namespace std;

static FILE *out;
static string E (const string &s)
{
  string r;
  for (unsigned char c : s)
    if (g_ascii_isalnum (c) || strchr ("_-./:", c))
      r += (char) c;
    else
      {
        char b[8];
        snprintf (b, sizeof b, "%%%02x", c);
        r += b;
      }
  return r.empty () ? "%e" : r;
}
#define LOG(...) (fprintf (out, __VA_ARGS__), fputc ('\n', out), fflush (out))

__attribute__ ((constructor)) static void begin ()
{
  // What the program itself writes goes to standard error.
  out = fdopen (dup (1), "w");
  if (!out || dup2 (2, 1) < 0)
    abort ();
}

// The recording handle.

struct Rec : public Ginga
{
  Ginga *g;
  Rec (const GingaOptions *o, Ginga *g) : Ginga (o), g (g) {}
  ~Rec () { LOG ("delete"); delete g; }
  GingaState getState () { return g->getState (); }
  bool start (const string &path, string *err)
  {
    bool r = g->start (path, err);
    LOG ("start %s %d", E (path).c_str (), r);
    return r;
  }
  bool stop () { bool r = g->stop (); LOG ("stop %d", r); return r; }
  void resize (int w, int h) { LOG ("resize %d %d", w, h); g->resize (w, h); }
  void redraw (cairo_t *cr) { LOG ("redraw %d", cr != nullptr); g->redraw (cr); }
  bool sendKey (const string &k, bool press)
  {
    bool r = g->sendKey (k, press);
    LOG ("key %s %d %d", E (k).c_str (), press, r);
    return r;
  }
  bool sendTick (uint64_t total, uint64_t diff, uint64_t frame)
  {
    bool r = g->sendTick (total, diff, frame);
    LOG ("tick %llu %llu %llu %d", (unsigned long long) total, (unsigned long long) diff, (unsigned long long) frame, r);
    return r;
  }
  const GingaOptions *getOptions () { return g->getOptions (); }
  bool getOptionBool (const string &n) { return g->getOptionBool (n); }
  void setOptionBool (const string &n, bool v) { LOG ("bool %s %d", E (n).c_str (), v); g->setOptionBool (n, v); }
  int getOptionInt (const string &n) { return g->getOptionInt (n); }
  void setOptionInt (const string &n, int v) { LOG ("int %s %d", E (n).c_str (), v); g->setOptionInt (n, v); }
  string getOptionString (const string &n) { return g->getOptionString (n); }
  void setOptionString (const string &n, string v) { LOG ("string %s %s", E (n).c_str (), E (v).c_str ()); g->setOptionString (n, v); }
};

extern "C" Ginga *__real__ZN5Ginga6createEPK12GingaOptions (const GingaOptions *);
extern "C" Ginga *__wrap__ZN5Ginga6createEPK12GingaOptions (const GingaOptions *o)
{
  LOG ("create %d %d %d %d %d %d %s", o->width, o->height, o->debug, o->webservices, o->experimental, o->opengl, E (o->background).c_str ());
  return new Rec (o, __real__ZN5Ginga6createEPK12GingaOptions (o));
}

// The window.

typedef struct { GObject o; } VtWin;
typedef struct { GObjectClass c; } VtWinClass;
G_DEFINE_TYPE (VtWin, vt_win, G_TYPE_OBJECT)
static void vt_win_init (VtWin *) {}
static void vt_win_class_init (VtWinClass *k)
{
  GType t = G_TYPE_FROM_CLASS (k);
  g_signal_new ("draw", t, G_SIGNAL_RUN_LAST, 0, g_signal_accumulator_true_handled, NULL, NULL, G_TYPE_BOOLEAN, 1, G_TYPE_POINTER);
  for (const char *s : { "configure-event", "key-press-event", "key-release-event", "delete-event" })
    g_signal_new (s, t, G_SIGNAL_RUN_LAST, 0, g_signal_accumulator_true_handled, NULL, NULL, G_TYPE_BOOLEAN, 1, G_TYPE_POINTER);
  g_signal_new ("destroy", t, G_SIGNAL_RUN_LAST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
}

static VtWin *win;
static bool shown;
static int level, quits;
struct Tick { guint id; GtkTickCallback f; gpointer data; GDestroyNotify d; };
static vector<Tick> ticks;
static gint64 now, counter;

extern "C" {
GType gtk_window_get_type (void) { return vt_win_get_type (); }
GType gtk_widget_get_type (void) { return vt_win_get_type (); }
GType gtk_container_get_type (void) { return vt_win_get_type (); }
void gtk_init (int *, char ***) {}
gboolean gtk_init_check (int *, char ***) { return TRUE; }
GtkWidget *gtk_window_new (GtkWindowType)
{
  win = (VtWin *) g_object_new (vt_win_get_type (), NULL);
  return (GtkWidget *) win;
}
void gtk_window_set_title (GtkWindow *, const gchar *t) { LOG ("window title %s", E (t).c_str ()); }
void gtk_window_set_default_size (GtkWindow *, gint w, gint h) { LOG ("window size %d %d", w, h); }
void gtk_window_resize (GtkWindow *, gint w, gint h) { LOG ("window size %d %d", w, h); }
void gtk_window_fullscreen (GtkWindow *) { LOG ("window full"); }
void gtk_window_unfullscreen (GtkWindow *) { LOG ("window unfull"); }
void gtk_window_present (GtkWindow *) { shown = true; LOG ("window shown"); }
void gtk_widget_show (GtkWidget *) { shown = true; LOG ("window shown"); }
void gtk_widget_show_all (GtkWidget *) { shown = true; LOG ("window shown"); }
void gtk_widget_set_app_paintable (GtkWidget *, gboolean) {}
void gtk_widget_queue_draw (GtkWidget *) { LOG ("window damage"); }
void gtk_widget_destroy (GtkWidget *w) { g_signal_emit_by_name (w, "destroy"); }
guint gtk_widget_add_tick_callback (GtkWidget *, GtkTickCallback f, gpointer data, GDestroyNotify d)
{
  static guint id;
  ticks.push_back ({ ++id, f, data, d });
  return id;
}
void gtk_widget_remove_tick_callback (GtkWidget *, guint id)
{
  for (size_t i = 0; i < ticks.size (); i++)
    if (ticks[i].id == id)
      {
        if (ticks[i].d)
          ticks[i].d (ticks[i].data);
        ticks.erase (ticks.begin () + i);
        return;
      }
}
gint64 gdk_frame_clock_get_frame_time (GdkFrameClock *) { return now; }
gint64 gdk_frame_clock_get_frame_counter (GdkFrameClock *) { return counter; }
GdkFrameClock *gtk_widget_get_frame_clock (GtkWidget *) { return NULL; }
guint gtk_main_level (void) { return (guint) level; }
void gtk_main_quit (void)
{
  if (level == 0)
    LOG ("bad gtk_main_quit");
  quits++;
  LOG ("quit");
}

void gtk_main (void)
{
  char b[512], w[64];
  level++;
  quits = 0;
  LOG ("main");
  LOG (".");
  while (quits == 0)
    {
      if (!fgets (b, sizeof b, stdin))
        {
          LOG ("eof");
          _exit (98);
        }
      unsigned long long n, m;
      int x, y;
      gboolean ret = FALSE;
      m = 0;
      if (sscanf (b, "key %63s %llu %llu", w, &n, &m) >= 2)
        {
          GdkEventKey e;
          memset (&e, 0, sizeof e);
          e.type = strcmp (w, "press") ? GDK_KEY_RELEASE : GDK_KEY_PRESS;
          e.keyval = (guint) n;
          e.state = (guint) m;
          e.time = (guint32) (now / 1000);
          g_signal_emit_by_name (win, strcmp (w, "press") ? "key-release-event" : "key-press-event", &e, &ret);
        }
      else if (sscanf (b, "tick %llu %llu", &n, &m) == 2)
        {
          now = (gint64) n;
          counter = (gint64) m;
          for (auto t : vector<Tick> (ticks))
            if (shown && t.f ((GtkWidget *) win, NULL, t.data) == G_SOURCE_REMOVE)
              gtk_widget_remove_tick_callback ((GtkWidget *) win, t.id);
        }
      else if (sscanf (b, "size %d %d", &x, &y) == 2)
        {
          GdkEventConfigure e;
          memset (&e, 0, sizeof e);
          e.type = GDK_CONFIGURE;
          e.width = x;
          e.height = y;
          g_signal_emit_by_name (win, "configure-event", &e, &ret);
          if (ret)
            LOG ("window swallowed");
        }
      else if (!strncmp (b, "draw", 4))
        {
          cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 64, 48);
          cairo_t *cr = cairo_create (s);
          g_signal_emit_by_name (win, "draw", cr, &ret);
          cairo_destroy (cr);
          cairo_surface_destroy (s);
        }
      else if (!strncmp (b, "leak", 4))
        LOG ("leak %d", __lsan_do_recoverable_leak_check ());
      else if (!strncmp (b, "close", 5))
        {
          g_signal_emit_by_name (win, "destroy");
        }
      while (g_main_context_iteration (NULL, FALSE))
        ;
      if (quits == 0)
        LOG (".");
    }
  level--;
}
}
