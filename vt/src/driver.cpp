// Executes the library under a line protocol: one command per line on stdin,
// trace lines and a terminating "." line per command on the output stream.
// The driver never judges; the monitors (Python) do, from what it prints.
#include "aux-ginga.h"
#include "Composition.h"
#include "Context.h"
#include "Document.h"
#include "Event.h"
#include "Formatter.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Object.h"
#include "Parser.h"
#include "ParserLua.h"
#include "Player.h"
#include "PlayerText.h"
#include "PlayerAnimator.h"
#include "Predicate.h"
#include "Switch.h"
#include "WebServices.h"
#include "verif-hooks.h"
#include "vt.h"
#include <libsoup/soup.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>
#include <sstream>
#include <fstream>
#include <climits>
#include <deque>
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#include <sanitizer/allocator_interface.h>
#define HAVE_LSAN 1
#endif

FILE *vt_out;
void vt_sound_init ();
void vt_sound_report (FILE *f);
static FILE *in;

std::string
vt_enc (const std::string &s)
{
  if (s.empty ())
    return "%e";
  std::string r;
  char b[8];
  for (unsigned char c : s)
    if (c > ' ' && c < 127 && c != '%')
      r += (char) c;
    else
      {
        snprintf (b, sizeof b, "%%%02X", c);
        r += b;
      }
  return r;
}
std::string
vt_dec (const std::string &s)
{
  if (s == "%e")
    return "";
  std::string r;
  for (size_t i = 0; i < s.size (); i++)
    if (s[i] == '%' && i + 2 < s.size () + 0 && i + 2 <= s.size () - 1)
      {
        r += (char) strtol (s.substr (i + 1, 2).c_str (), nullptr, 16);
        i += 2;
      }
    else
      r += s[i];
  return r;
}
#define E(s) vt_enc (s).c_str ()

// ---- hooks ----
static bool trace_on = true;
static const char *TY = "APSL";      // Event::Type
static const char *TR[] = { "abort", "pause", "resume", "start", "stop" };
static const char *ST = "opz";       // Event::State

static bool dump_first; // print the document before its first transition
static void dump_now (ginga::Event *);
static unsigned long nevents; // in the current command
void
ginga_verif_event (ginga::Event *evt, int tr, int from)
{
  if (dump_first)
    dump_now (evt);
  if ((nevents += 1) > 8000)
    {
      // the document loops for ever within one request
      fprintf (vt_out, "!diverges\n");
      fflush (vt_out);
      _exit (77);
    }
  if (!trace_on)
    return;
  fprintf (vt_out, "E %s %c %s %s %c %c\n", E (evt->getObject ()->getId ()),
           TY[evt->getType ()], E (evt->getId ()), TR[tr], ST[from],
           ST[evt->getState ()]);
}
static map<Player *, string> players;
void
ginga_verif_player (ginga::Player *p, const char *id, const char *what)
{
  string k = "";
  if (!strcmp (what, "new"))
    {
      players[p] = id;
      nevents += 10; // players are costly
    }
  else if (!strcmp (what, "delete"))
    players.erase (p);
  else
    {
      int st;
      char *n = abi::__cxa_demangle (typeid (*p).name (), 0, 0, &st);
      k = n ? n : "?";
      free (n);
    }
  if (trace_on)
    fprintf (vt_out, "P %s %s %s\n", E (id), what, E (k));
}

// ---- state ----
static Formatter *fmt;
static Document *pdoc; // from "parse"
static vector<Formatter *> others;

static Document *
doc ()
{
  if (pdoc)
    return pdoc;
  return fmt ? fmt->getDocument () : nullptr;
}
static string
tstr (Time t)
{
  if (t == GINGA_TIME_NONE)
    return "-1";
  return xstrbuild ("%" G_GUINT64_FORMAT, t);
}
static Json::Value
jpred (Predicate *p)
{
  Json::Value v;
  if (p == nullptr)
    return v;
  v["t"] = (int) p->getType ();
  if (p->getType () == Predicate::ATOM)
    {
      string l, r;
      Predicate::Test t;
      p->getTest (&l, &t, &r);
      v["l"] = vt_enc (l);
      v["op"] = (int) t;
      v["r"] = vt_enc (r);
    }
  else
    {
      v["c"] = Json::Value (Json::arrayValue);
      for (auto c : *p->getChildren ())
        v["c"].append (jpred (c));
    }
  return v;
}
static Json::Value
jevt (Event *e)
{
  Json::Value v (Json::arrayValue);
  v.append (vt_enc (e->getObject ()->getId ()));
  v.append (string (1, TY[e->getType ()]));
  v.append (vt_enc (e->getId ()));
  return v;
}
static Json::Value
jact (const Action &a, bool cond)
{
  Json::Value v;
  v["e"] = jevt (a.event);
  v["tr"] = TR[a.transition];
  v["p"] = jpred (a.predicate);
  if (!cond)
    {
      v["v"] = vt_enc (a.value);
      v["dur"] = vt_enc (a.duration);
      v["del"] = vt_enc (a.delay);
    }
  return v;
}
static Json::Value
jobj (Object *o, const vector<string> &props)
{
  Json::Value v;
  v["id"] = vt_enc (o->getId ());
  v["kind"] = o->getObjectTypeAsString ();
  v["parent"] = o->getParent () ? Json::Value (vt_enc (o->getParent ()->getId ())) : Json::Value ();
  v["time"] = tstr (o->getTime ());
  v["aliases"] = Json::Value (Json::arrayValue);
  for (auto &a : *o->getAliases ())
    {
      Json::Value p (Json::arrayValue);
      p.append (vt_enc (a.first));
      p.append (a.second ? Json::Value (vt_enc (a.second->getId ())) : Json::Value ());
      v["aliases"].append (p);
    }
  v["events"] = Json::Value (Json::arrayValue);
  for (auto e : *o->getEvents ())
    {
      Json::Value x;
      Time b, n;
      string s;
      x["t"] = string (1, TY[e->getType ()]);
      x["id"] = vt_enc (e->getId ());
      x["st"] = string (1, ST[e->getState ()]);
      e->getInterval (&b, &n);
      x["b"] = tstr (b);
      x["n"] = tstr (n);
      if (e->hasLabel ())
        x["lab"] = vt_enc (e->getLabel ());
      x["lam"] = e->isLambda ();
      if (e->getParameter ("key", &s))
        x["key"] = vt_enc (s);
      v["events"].append (x);
    }
  v["props"] = Json::Value (Json::objectValue);
  for (auto e : *o->getEvents ())
    if (e->getType () == Event::ATTRIBUTION)
      v["props"][vt_enc (e->getId ())] = vt_enc (o->getProperty (e->getId ()));
  for (auto &p : props)
    v["props"][vt_enc (p)] = vt_enc (o->getProperty (p));
  v["delayed"] = (int) o->getDelayedActions ()->size ();
  if (auto c = cast (Composition *, o))
    {
      v["children"] = Json::Value (Json::arrayValue);
      for (auto k : *c->getChildren ())
        v["children"].append (vt_enc (k->getId ()));
    }
  if (auto c = cast (Context *, o))
    {
      v["ports"] = Json::Value (Json::arrayValue);
      for (auto p : *c->getPorts ())
        v["ports"].append (jevt (p));
      v["links"] = Json::Value (Json::arrayValue);
      for (auto &l : *c->getLinks ())
        {
          Json::Value x (Json::arrayValue), a (Json::arrayValue), b (Json::arrayValue);
          for (auto &k : l.first)
            a.append (jact (k, true));
          for (auto &k : l.second)
            b.append (jact (k, false));
          x.append (a);
          x.append (b);
          v["links"].append (x);
        }
      v["linkstatus"] = c->getLinksStatus ();
    }
  if (auto s = cast (Switch *, o))
    {
      v["rules"] = Json::Value (Json::arrayValue);
      for (auto &r : *s->getRules ())
        {
          Json::Value x (Json::arrayValue);
          x.append (vt_enc (r.first->getId ()));
          x.append (jpred (r.second));
          v["rules"].append (x);
        }
      v["swports"] = Json::Value (Json::arrayValue);
      for (auto &r : *s->getSwitchPorts ())
        {
          Json::Value x (Json::arrayValue), l (Json::arrayValue);
          x.append (vt_enc (r.first));
          for (auto e : r.second)
            l.append (jevt (e));
          x.append (l);
          v["swports"].append (x);
        }
    }
  return v;
}
static void
jprint (const Json::Value &v)
{
  Json::StreamWriterBuilder b;
  b["indentation"] = "";
  fprintf (vt_out, "J %s\n", Json::writeString (b, v).c_str ());
}
static void
dump (Document *d, const vector<string> &props)
{
  Json::Value v;
  v["docid"] = vt_enc (d->getId ());
  v["root"] = vt_enc (d->getRoot ()->getId ());
  v["settings"] = vt_enc (d->getSettings ()->getId ());
  v["objects"] = Json::Value (Json::arrayValue);
  for (auto o : *d->getObjects ())
    v["objects"].append (jobj (o, props));
  v["medias"] = Json::Value (Json::arrayValue);
  for (auto o : *d->getMedias ())
    v["medias"].append (vt_enc (o->getId ()));
  v["remotes"] = Json::Value (Json::arrayValue);
  for (auto o : *d->getMediasRemote ())
    v["remotes"].append (vt_enc (o->getId ()));
  v["contexts"] = (int) d->getContexts ()->size ();
  v["switches"] = (int) d->getSwitches ()->size ();
  jprint (v);
}
static void
dump_now (Event *evt)
{
  dump_first = false;
  dump (evt->getObject ()->getDocument (), {"uri", "type"});
  fflush (vt_out);
}
static void
state (Document *d)
{
  for (auto o : *d->getObjects ())
    {
      string s;
      for (auto e : *o->getEvents ())
        if (!e->isLambda () && e->getState () != Event::SLEEPING)
          s += xstrbuild (" %c:%s:%c", TY[e->getType ()], E (e->getId ()), ST[e->getState ()]);
      fprintf (vt_out, "S %s %c %s %d%s\n", E (o->getId ()), ST[o->getLambda ()->getState ()],
               tstr (o->getTime ()).c_str (), (int) o->getDelayedActions ()->size (), s.c_str ());
    }
}
static Event *
find_evt (const string &obj, const string &ty, const string &id, bool alias = true)
{
  Document *d = doc ();
  if (!d)
    return nullptr;
  Object *o = d->getObjectByIdOrAlias (obj);
  if (!o)
    return nullptr;
  switch (ty[0])
    {
    case 'A': return o->getAttributionEvent (id);
    case 'P': return o->getPresentationEvent (id);
    case 'S': return o->getSelectionEvent (id);
    case 'L': return o->getLookAtEvent (id);
    }
  return nullptr;
}
static Event::Transition
tr_of (const string &s)
{
  for (int i = 0; i < 5; i++)
    if (s == TR[i])
      return (Event::Transition) i;
  abort ();
}

// ---- drawing ----
static cairo_surface_t *canvas;
static void
draw (int w, int h)
{
  if (canvas)
    cairo_surface_destroy (canvas);
  canvas = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (canvas);
  fmt->redraw (cr);
  cairo_status_t st = cairo_status (cr);
  fprintf (vt_out, "R %d\n", (int) st);
  cairo_destroy (cr);
  cairo_surface_flush (canvas);
}
static guint32
px (int x, int y)
{
  unsigned char *p = cairo_image_surface_get_data (canvas) + y * cairo_image_surface_get_stride (canvas) + 4 * x;
  return *(guint32 *) p;
}

// ---- http client (same thread; drives the main loop) ----
static void
pump (int n)
{
  for (int i = 0; i < n; i++)
    while (g_main_context_iteration (nullptr, FALSE))
      ;
}
static void
http (int port, const string &raw, bool halfclose)
{
  int fd = socket (AF_INET, SOCK_STREAM, 0);
  struct sockaddr_in a;
  memset (&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons ((uint16_t) port);
  a.sin_addr.s_addr = htonl (INADDR_LOOPBACK);
  if (connect (fd, (struct sockaddr *) &a, sizeof a) != 0)
    {
      fprintf (vt_out, "H connfail\n");
      close (fd);
      return;
    }
  fcntl (fd, F_SETFL, O_NONBLOCK);
  size_t off = 0;
  string resp;
  bool eof = false;
  gint64 t0 = g_get_monotonic_time ();
  bool shut = false;
  size_t need = string::npos;
  while (!eof && g_get_monotonic_time () - t0 < 10 * G_TIME_SPAN_SECOND)
    {
      pump (1);
      if (off < raw.size ())
        {
          ssize_t k = send (fd, raw.data () + off, raw.size () - off, MSG_NOSIGNAL);
          if (k > 0)
            off += (size_t) k;
          else if (k < 0 && errno != EAGAIN)
            off = raw.size ();
        }
      else if (halfclose && !shut)
        {
          shutdown (fd, SHUT_WR);
          shut = true;
        }
      char buf[65536];
      ssize_t k = recv (fd, buf, sizeof buf, 0);
      if (k > 0)
        resp.append (buf, (size_t) k);
      else if (k == 0)
        eof = true;
      else if (errno != EAGAIN)
        eof = true;
      else
        {
          struct pollfd p = { fd, POLLIN, 0 };
          poll (&p, 1, 1);
        }
      size_t h = resp.find ("\r\n\r\n");
      if (h != string::npos && need == string::npos)
        {
          string hd = resp.substr (0, h);
          for (auto &c : hd)
            c = (char) g_ascii_tolower (c);
          size_t c = hd.find ("content-length:");
          need = h + 4 + (c == string::npos ? 0 : (size_t) atol (hd.c_str () + c + 15));
        }
      if (need != string::npos && resp.size () >= need)
        break;
    }
  close (fd);
  pump (3);
  fprintf (vt_out, "H resp %s\n", E (resp));
}
static SoupServer *rserver;
static void
rserve_cb (SoupServer *, SoupMessage *msg, const char *path, GHashTable *, SoupClientContext *, gpointer)
{
  fprintf (vt_out, "Q %s %s %s\n", msg->method, E (path),
           E (string (msg->request_body->data ? msg->request_body->data : "", (size_t) msg->request_body->length)));
  soup_message_set_status (msg, SOUP_STATUS_OK);
}

// ---- standalone utility functions ----
static Json::Value jlist (const list<string> &l)
{
  Json::Value v (Json::arrayValue);
  for (auto &s : l)
    v.append (vt_enc (s));
  return v;
}
static string
dbl (double d)
{
  char b[64];
  snprintf (b, sizeof b, "%.17g", d);
  return b;
}
static string
util (const vector<string> &a)
{
  const string &f = a[1];
  auto S = [&] (size_t i) { return i < a.size () ? vt_dec (a[i]) : string (); };
  auto N = [&] (size_t i) { return atol (S (i).c_str ()); };
  if (f == "bool") { bool b; return ginga::try_parse_bool (S (2), &b) ? (b ? "1" : "0") : "fail"; }
  if (f == "color")
    {
      Color c = { -1, -1, -1, -1 };
      if (!ginga::try_parse_color (S (2), &c)) return "fail";
      return dbl (c.red) + " " + dbl (c.green) + " " + dbl (c.blue) + " " + dbl (c.alpha);
    }
  if (f == "list")
    {
      list<string> l;
      size_t mn = (size_t) N (4), mx = S (5) == "-1" ? (size_t) -1 : (size_t) N (5);
      if (!ginga::try_parse_list (S (2), S (3)[0], mn, mx, &l)) return "fail";
      string r = "ok"; for (auto &s : l) r += " " + vt_enc (s); return r;
    }
  if (f == "table")
    {
      map<string, string> m;
      if (!ginga::try_parse_table (S (2), &m)) return "fail";
      string r = "ok"; for (auto &s : m) r += " " + vt_enc (s.first) + " " + vt_enc (s.second); return r;
    }
  if (f == "time") { Time t; return ginga::try_parse_time (S (2), &t) ? tstr (t) : "fail"; }
  if (f == "percent") return xstrbuild ("%d", ginga::parse_percent (S (2), (int) N (3), (int) N (4), (int) N (5)));
  if (f == "pixel") return xstrbuild ("%d", (int) ginga::parse_pixel (S (2)));
  if (f == "strtod") { double d; return ginga::_xstrtod (S (2), &d) ? dbl (d) : "fail"; }
  if (f == "strtoll") { gint64 d; return ginga::_xstrtoll (S (2), &d, (guint) N (3)) ? xstrbuild ("%" G_GINT64_FORMAT, d) : "fail"; }
  if (f == "strtoull") { guint64 d; return ginga::_xstrtoull (S (2), &d, (guint) N (3)) ? xstrbuild ("%" G_GUINT64_FORMAT, d) : "fail"; }
  if (f == "toint") return xstrbuild ("%d", ginga::xstrtoint (S (2), (guint8) N (3)));
  if (f == "toint8") return xstrbuild ("%d", (int) ginga::xstrtoint8 (S (2), (guint8) N (3)));
  if (f == "touint8") return xstrbuild ("%d", (int) ginga::xstrtouint8 (S (2), (guint8) N (3)));
  if (f == "touint") return xstrbuild ("%u", ginga::xstrtouint (S (2), (guint8) N (3)));
  if (f == "toint64") return xstrbuild ("%" G_GINT64_FORMAT, ginga::xstrtoint64 (S (2), (guint8) N (3)));
  if (f == "touint64") return xstrbuild ("%" G_GUINT64_FORMAT, ginga::xstrtouint64 (S (2), (guint8) N (3)));
  if (f == "ispercent") return ginga::xstrispercent (S (2)) ? "1" : "0";
  if (f == "dorp") { bool p = false; double d = ginga::xstrtodorpercent (S (2), &p); return dbl (d) + (p ? " 1" : " 0"); }
  if (f == "casecmp") { int c = ginga::xstrcasecmp (S (2), S (3)); return c < 0 ? "-1" : c > 0 ? "1" : "0"; }
  if (f == "prefix") return ginga::xstrhasprefix (S (2), S (3)) ? "1" : "0";
  if (f == "suffix") return ginga::xstrhassuffix (S (2), S (3)) ? "1" : "0";
  if (f == "strip") return vt_enc (ginga::xstrstrip (S (2)));
  if (f == "split") { string r = "ok"; for (auto &s : ginga::xstrsplit (S (2), S (3)[0])) r += " " + vt_enc (s); return r; }
  if (f == "build") return vt_enc (ginga::xstrbuild ("%s|%d|%s", S (2).c_str (), (int) N (3), S (4).c_str ()));
  if (f == "assign") { string r = S (3); int n = ginga::xstrassign (r, "%s%s", S (2).c_str (), S (2).c_str ()); return xstrbuild ("%d ", n) + vt_enc (r); }
  if (f == "basename") return vt_enc (ginga::xpathbasename (S (2)));
  if (f == "dirname") return vt_enc (ginga::xpathdirname (S (2)));
  if (f == "isabs") return ginga::xpathisabs (S (2)) ? "1" : "0";
  if (f == "isuri") return ginga::xpathisuri (S (2)) ? "1" : "0";
  if (f == "makeabs") return vt_enc (ginga::xpathmakeabs (S (2)));
  if (f == "pbuild") return vt_enc (ginga::xpathbuild (S (2), S (3)));
  if (f == "pbuildabs") return vt_enc (ginga::xpathbuildabs (S (2), S (3)));
  if (f == "fromuri") return vt_enc (ginga::xpathfromuri (S (2)));
  if (f == "fromsrc") return vt_enc (ginga::xurifromsrc (S (2), S (3)));
  if (f == "geturi") { string d; bool b = ginga::xurigetcontents (S (2), d); return (b ? "1 " : "0 ") + vt_enc (b ? d : ""); }
  if (f == "floateq") return ginga::floateq (atof (S (2).c_str ()), atof (S (3).c_str ())) ? "1" : "0";
  if (f == "mime") { string m; return Player::getMimeForURI (S (2), &m) ? vt_enc (m) : "fail"; }
  if (f == "version") return vt_enc (Ginga::version ());
  return "?";
}

// user data
static vector<int> udata_freed;
static void udata_free (void *p) { udata_freed.push_back ((int) (gintptr) p); }
static void
udata_run (const vector<string> &a)
{
  // udata op op ...: s<key>=<n>[!]  (set, ! means with cleanup)  g<key>
  udata_freed.clear ();
  {
    UserData u;
    for (size_t i = 1; i < a.size (); i++)
      {
        string o = a[i];
        if (o[0] == 's')
          {
            size_t e = o.find ('=');
            string k = vt_dec (o.substr (1, e - 1));
            bool cl = o.back () == '!';
            int n = atoi (o.c_str () + e + 1);
            size_t before = udata_freed.size ();
            bool r = u.setData (k, n ? (void *) (gintptr) n : nullptr, cl ? udata_free : nullptr);
            fprintf (vt_out, "U s %d", (int) r);
            for (size_t j = before; j < udata_freed.size (); j++)
              fprintf (vt_out, " %d", udata_freed[j]);
            fprintf (vt_out, "\n");
          }
        else
          {
            void *p = (void *) 7;
            bool r = u.getData (vt_dec (o.substr (1)), &p);
            fprintf (vt_out, "U g %d %d\n", (int) r, r ? (int) (gintptr) p : -1);
          }
      }
    fprintf (vt_out, "U end\n");
    size_t before = udata_freed.size ();
    (void) before;
  }
  fprintf (vt_out, "U freed");
  for (int n : udata_freed)
    fprintf (vt_out, " %d", n);
  fprintf (vt_out, "\n");
}

static Predicate *
mkpred (const vector<string> &a, size_t &i)
{
  string k = a[i++];
  if (k == "F") return new Predicate (Predicate::FALSUM);
  if (k == "T") return new Predicate (Predicate::VERUM);
  if (k == "N" || k == "C" || k == "D")
    {
      Predicate *p = new Predicate (k == "N" ? Predicate::NEGATION : k == "C" ? Predicate::CONJUNCTION : Predicate::DISJUNCTION);
      int n = atoi (a[i++].c_str ());
      while (n--)
        p->addChild (mkpred (a, i));
      return p;
    }
  Predicate *p = new Predicate (Predicate::ATOM);
  string l = vt_dec (a[i++]);
  int t = atoi (a[i++].c_str ());
  string r = vt_dec (a[i++]);
  p->setTest (l, (Predicate::Test) t, r);
  return p;
}

static void
cmd (const vector<string> &a)
{
  const string &c = a[0];
  auto S = [&] (size_t i) { return i < a.size () ? vt_dec (a[i]) : string (); };
  auto N = [&] (size_t i) { return i < a.size () ? atoll (a[i].c_str ()) : 0; };
  if (c == "new") // new W H bg debug webservices
    {
      GingaOptions o;
      o.width = (int) N (1);
      o.height = (int) N (2);
      o.background = S (3);
      o.debug = N (4);
      o.webservices = N (5);
      o.experimental = N (6);
      o.opengl = false;
      delete fmt; // left by a case that was given up
      fmt = new Formatter (&o);
    }
  else if (c == "newdef") { delete fmt; fmt = new Formatter (nullptr); }
  else if (c == "push") { others.push_back (fmt); fmt = nullptr; }
  else if (c == "swap") { size_t i = (size_t) N (1); std::swap (fmt, others[i]); }
  else if (c == "slots") { others.clear (); others.resize ((size_t) N (1), nullptr); }
  else if (c == "del") { delete fmt; fmt = nullptr; }
  else if (c == "start")
    {
      string err = "";
      dump_first = N (2);
      bool r = fmt->start (S (1), &err);
      dump_first = false;
      fprintf (vt_out, "R %d %s\n", (int) r, E (err));
    }
  else if (c == "stop") fprintf (vt_out, "R %d\n", (int) fmt->stop ());
  else if (c == "status")
    fprintf (vt_out, "R %d %d %d\n", (int) (fmt->getState () == GINGA_STATE_PLAYING), (int) fmt->getEOS (), fmt->getDocument () != nullptr);
  else if (c == "tick") fprintf (vt_out, "R %d\n", (int) fmt->sendTick ((Time) N (1), (Time) N (2), (Time) N (3)));
  else if (c == "key") fprintf (vt_out, "R %d\n", (int) fmt->sendKey (S (1), N (2)));
  else if (c == "resize") fmt->resize ((int) N (1), (int) N (2));
  else if (c == "seti") fmt->setOptionInt (S (1), (int) N (2));
  else if (c == "setb") fmt->setOptionBool (S (1), N (2));
  else if (c == "sets") fmt->setOptionString (S (1), S (2));
  else if (c == "geti") fprintf (vt_out, "R %d\n", fmt->getOptionInt (S (1)));
  else if (c == "getb") fprintf (vt_out, "R %d\n", (int) fmt->getOptionBool (S (1)));
  else if (c == "gets") fprintf (vt_out, "R %s\n", E (fmt->getOptionString (S (1))));
  else if (c == "opts")
    {
      auto o = fmt->getOptions ();
      fprintf (vt_out, "R %d %d %d %d %d %d %s\n", o->width, o->height, o->debug, o->webservices, o->experimental, o->opengl, E (o->background));
    }
  else if (c == "draw") draw ((int) N (1), (int) N (2));
  else if (c == "px")
    {
      fprintf (vt_out, "X");
      for (size_t i = 1; i + 1 < a.size (); i += 2)
        fprintf (vt_out, " %08x", px (atoi (a[i].c_str ()), atoi (a[i + 1].c_str ())));
      fprintf (vt_out, "\n");
    }
  else if (c == "pixels") // every pixel of the canvas
    {
      int w = cairo_image_surface_get_width (canvas), h = cairo_image_surface_get_height (canvas);
      fprintf (vt_out, "X %d %d ", w, h);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
          fprintf (vt_out, "%08x", px (x, y));
      fprintf (vt_out, "\n");
    }
  else if (c == "colors") // bounding box and count per colour
    {
      struct B { int x0, y0, x1, y1, n; };
      map<guint32, B> m;
      int w = cairo_image_surface_get_width (canvas), h = cairo_image_surface_get_height (canvas);
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
          {
            auto it = m.find (px (x, y));
            if (it == m.end ())
              m[px (x, y)] = { x, y, x, y, 1 };
            else
              {
                B &b = it->second;
                b.x0 = MIN (b.x0, x); b.x1 = MAX (b.x1, x);
                b.y0 = MIN (b.y0, y); b.y1 = MAX (b.y1, y);
                b.n++;
              }
          }
      for (auto &p : m)
        fprintf (vt_out, "C %08x %d %d %d %d %d\n", p.first, p.second.x0, p.second.y0, p.second.x1, p.second.y1, p.second.n);
    }
  else if (c == "hash")
    {
      guint64 h = 1469598103934665603ULL;
      int w = cairo_image_surface_get_width (canvas), hh = cairo_image_surface_get_height (canvas);
      for (int y = 0; y < hh; y++)
        for (int x = 0; x < w; x++)
          h = (h ^ px (x, y)) * 1099511628211ULL;
      fprintf (vt_out, "R %016lx\n", (unsigned long) h);
    }
  else if (c == "png") cairo_surface_write_to_png (canvas, S (1).c_str ());
  else if (c == "act") // act obj T evid tr [value]
    {
      Event *e = find_evt (S (1), S (2), S (3));
      if (!e)
        fprintf (vt_out, "R noevent\n");
      else
        fprintf (vt_out, "R %d\n", doc ()->evalAction (e, tr_of (S (4)), S (5)));
    }
  else if (c == "trans")
    {
      Event *e = find_evt (S (1), S (2), S (3));
      if (!e)
        fprintf (vt_out, "R noevent\n");
      else
        {
          bool r = e->transition (tr_of (S (4)));
          fprintf (vt_out, "R %d\n", (int) r);
        }
    }
  else if ((c == "setprop" || c == "getprop" || c == "propref" || c == "focused" || c == "getz" || c == "pred" || c == "snap" || c == "tostring" || c == "dump" || c == "byid") && !doc ())
    fprintf (vt_out, "R nodoc\n");
  else if ((c == "setprop" || c == "getprop") && !doc ()->getObjectByIdOrAlias (S (1)))
    fprintf (vt_out, "R noobject\n");
  else if (c == "setprop")
    doc ()->getObjectByIdOrAlias (S (1))->setProperty (S (2), S (3), (Time) N (4));
  else if (c == "getprop")
    {
      fprintf (vt_out, "R");
      Object *o = doc ()->getObjectByIdOrAlias (S (1));
      for (size_t i = 2; i < a.size (); i++)
        fprintf (vt_out, " %s", E (o->getProperty (S (i))));
      fprintf (vt_out, "\n");
    }
  else if (c == "propref")
    {
      string r = "";
      bool b = doc ()->evalPropertyRef (S (1), &r);
      fprintf (vt_out, "R %d %s\n", (int) b, E (r));
    }
  else if (c == "focused")
    {
      fprintf (vt_out, "R");
      for (auto m : *doc ()->getMedias ())
        if (m->isFocused ())
          fprintf (vt_out, " %s", E (m->getId ()));
      fprintf (vt_out, "\n");
    }
  else if (c == "getz")
    {
      int z = 0, o = 0;
      Media *m = cast (Media *, doc ()->getObjectByIdOrAlias (S (1)));
      bool b = m && m->getZ (&z, &o);
      fprintf (vt_out, "R %d %d %d\n", (int) b, z, o);
    }
  else if (c == "snap") // states, property values, focus
    {
      Document *d = doc ();
      if (d)
        {
          state (d);
          for (auto o : *d->getObjects ())
            for (auto e : *o->getEvents ())
              if (e->getType () == Event::ATTRIBUTION && o->getProperty (e->getId ()) != "")
                fprintf (vt_out, "V %s %s %s\n", E (o->getId ()), E (e->getId ()), E (o->getProperty (e->getId ())));
          fprintf (vt_out, "F %s", E (d->getSettings ()->getProperty ("service.currentFocus")));
          for (auto m : *d->getMedias ())
            if (m->isFocused ())
              fprintf (vt_out, " %s", E (m->getId ()));
          fprintf (vt_out, "\n");
        }
    }
  else if (c == "state") { if (doc ()) state (doc ()); }
  else if (c == "tostring")
    for (auto o : *doc ()->getObjects ())
      {
        fprintf (vt_out, "R %s\n", E (o->toString ()));
        for (auto e : *o->getEvents ())
          fprintf (vt_out, "R %s\n", E (e->toString ()));
      }
  else if (c == "dump")
    {
      vector<string> p;
      for (size_t i = 1; i < a.size (); i++)
        p.push_back (S (i));
      if (doc ())
        dump (doc (), p);
    }
  else if (c == "byid")
    {
      Object *o = doc ()->getObjectById (S (1)), *p = doc ()->getObjectByIdOrAlias (S (1));
      fprintf (vt_out, "R %s %s\n", o ? E (o->getId ()) : "-", p ? E (p->getId ()) : "-");
    }
  else if (c == "parse" || c == "parsebuf" || c == "parselua" || c == "parseluabuf")
    {
      string err = "";
      delete pdoc;
      pdoc = nullptr;
      trace_on = false;
      if (c == "parse")
        pdoc = Parser::parseFile (S (1), (int) N (2), (int) N (3), &err);
      else if (c == "parselua")
        pdoc = ParserLua::parseFile (S (1), &err);
      else
        {
          string s;
          if (a.size () > 4 && S (4) == "file")
            {
              std::ifstream f (S (1), std::ios::binary);
              std::stringstream ss;
              ss << f.rdbuf ();
              s = ss.str ();
            }
          else
            s = S (1);
          // exact-size heap copy, so that reads past the end are seen
          char *b = (char *) malloc (s.size () ? s.size () : 1);
          memcpy (b, s.data (), s.size ());
          if (c == "parsebuf")
            pdoc = Parser::parseBuffer (b, s.size (), (int) N (2), (int) N (3), &err);
          else
            pdoc = ParserLua::parseBuffer (b, s.size (), &err);
          free (b);
        }
      trace_on = true;
      fprintf (vt_out, "R %d %s\n", pdoc != nullptr, E (err));
    }
  else if (c == "unparse") { trace_on = false; delete pdoc; pdoc = nullptr; trace_on = true; }
  else if (c == "newdoc") { delete pdoc; pdoc = new Document (); }
  else if (c == "pred")
    {
      size_t i = 1;
      Predicate *p = mkpred (a, i);
      Predicate *q = p->clone ();
      string s1 = p->toString (), s2 = q->toString ();
      bool r1 = doc ()->evalPredicate (p);
      delete p;
      bool r2 = doc ()->evalPredicate (q);
      delete q;
      fprintf (vt_out, "R %d %d %d\n", (int) r1, (int) r2, (int) (s1 == s2));
    }
  else if (c == "util") fprintf (vt_out, "R %s\n", util (a).c_str ());
  else if (c == "udata") udata_run (a);
  else if (c == "nclua") vt_nclua_post (S (1), S (2).c_str (), S (3).c_str (), S (4).c_str (), S (5).c_str ());
  else if (c == "ncluareset") vt_nclua_reset ();
  else if (c == "nclualive") fprintf (vt_out, "R %d\n", vt_nclua_live ());
  else if (c == "players") fprintf (vt_out, "R %d\n", (int) players.size ());
  else if (c == "wsport")
    {
      fprintf (vt_out, "R %d", vt_http_port);
      for (int p : vt_ports_asked)
        fprintf (vt_out, " %d", p);
      fprintf (vt_out, "\n");
      vt_ports_asked.clear ();
    }
  else if (c == "wsfail") vt_ssdp_fail = N (1), vt_listen_fail = N (2);
  else if (c == "wsstart") fprintf (vt_out, "R %d\n", (int) fmt->getWebServices ()->start ());
  else if (c == "wsstop") fprintf (vt_out, "R %d\n", (int) fmt->getWebServices ()->stop ());
  else if (c == "wsstate") fprintf (vt_out, "R %d %s\n", (int) fmt->getWebServices ()->getState (), E (vt_ssdp_up));
  else if (c == "http") http (vt_http_port, S (1), N (2));
  else if (c == "rserve")
    {
      if (!rserver)
        {
          rserver = soup_server_new (SOUP_SERVER_SERVER_HEADER, "vt", nullptr);
          soup_server_add_handler (rserver, nullptr, rserve_cb, nullptr, nullptr);
          soup_server_listen_local (rserver, 0, SOUP_SERVER_LISTEN_IPV4_ONLY, nullptr);
        }
      GSList *l = soup_server_get_uris (rserver);
      fprintf (vt_out, "R %d\n", (int) ((SoupURI *) l->data)->port);
      g_slist_free_full (l, (GDestroyNotify) soup_uri_free);
    }
  else if (c == "pump")
    {
      gint64 t0 = g_get_monotonic_time ();
      do { pump (1); g_usleep (500); } while (g_get_monotonic_time () - t0 < N (1) * 1000);
    }
  else if (c == "sound") { vt_sound_init (); fprintf (vt_out, "R 1\n"); }
  else if (c == "hear") vt_sound_report (vt_out);
  else if (c == "leak")
    {
#ifdef HAVE_LSAN
      fprintf (vt_out, "R %d\n", __lsan_do_recoverable_leak_check ());
#else
      fprintf (vt_out, "R -1\n");
#endif
    }
  else if (c == "mem")
    {
#ifdef HAVE_LSAN
      fprintf (vt_out, "R %lu\n", (unsigned long) __sanitizer_get_current_allocated_bytes ());
#else
      fprintf (vt_out, "R -1\n");
#endif
    }
  else if (c == "trace") trace_on = N (1);
  else if (c == "env") { const char *v = getenv (S (1).c_str ()); fprintf (vt_out, "R %s\n", v ? E (v) : "-"); }
  else if (c == "setenv") setenv (S (1).c_str (), S (2).c_str (), 1);
  else if (c == "chdir") { if (chdir (S (1).c_str ())) fprintf (vt_out, "!chdir\n"); }
  else if (c == "cwd") { char b[4096]; fprintf (vt_out, "R %s\n", E (getcwd (b, sizeof b) ? b : "")); }
  else if (c == "ping") fprintf (vt_out, "R pong\n");
  else fprintf (vt_out, "!unknown command %s\n", c.c_str ());
}

int
main (int argc, char **argv)
{
  int fd = dup (1);
  dup2 (2, 1);
  vt_out = fdopen (fd, "w");
  in = stdin;
  setvbuf (vt_out, nullptr, _IOFBF, 1 << 16);
  char *line = nullptr;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline (&line, &cap, in)) > 0)
    {
      while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r'))
        line[--n] = 0;
      vector<string> a;
      std::istringstream ss (string (line, (size_t) n));
      string w;
      while (ss >> w)
        a.push_back (w);
      if (a.empty ())
        continue;
      if (a[0] == "quit")
        break;
      if (a[0] == "case")
        {
          fprintf (vt_out, "case %s\n", a[1].c_str ());
          fflush (vt_out);
          fprintf (stderr, "@case %s\n", a[1].c_str ());
          continue;
        }
      fflush (vt_out);
      nevents = 0;
      cmd (a);
      fprintf (vt_out, ".\n");
      fflush (vt_out);
    }
  free (line);
  trace_on = false;
  delete fmt;
  for (auto f : others)
    delete f;
  delete pdoc;
  fprintf (vt_out, "bye\n");
  fflush (vt_out);
  _exit (0);
}
