// A sound card that remembers what it was told to play: elements "alsasink" (named as Ginga asks for it) that keep the last samples.
#include <gst/gst.h>
#include <gst/base/gstbasesink.h>
#include <math.h>
#include <mutex>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static const int RING = 4096;
static std::mutex mx;
static short ring[RING][2];
static int fill, pos;              // samples in the ring, next place
static long total;                 // sample frames played
static int live, peak;             // sinks that are open

typedef struct { GstBaseSink base; } VtSink;
typedef struct { GstBaseSinkClass base; } VtSinkClass;
G_DEFINE_TYPE (VtSink, vt_sink, GST_TYPE_BASE_SINK)

static GstStaticPadTemplate tmpl = GST_STATIC_PAD_TEMPLATE ("sink", GST_PAD_SINK, GST_PAD_ALWAYS,
  GST_STATIC_CAPS ("audio/x-raw,format=S16LE,layout=interleaved,rate=44100,channels=2"));

static void forget () { fill = pos = 0; }
static gboolean
on_start (GstBaseSink *)
{
  std::lock_guard<std::mutex> l (mx);
  live++; peak = MAX (peak, live);
  forget ();
  return TRUE;
}
static gboolean
on_stop (GstBaseSink *)
{
  std::lock_guard<std::mutex> l (mx);
  live--;
  forget ();
  return TRUE;
}
static gboolean
on_event (GstBaseSink *s, GstEvent *e)
{
  if (GST_EVENT_TYPE (e) == GST_EVENT_FLUSH_STOP)
    {
      std::lock_guard<std::mutex> l (mx);
      forget ();
    }
  return GST_BASE_SINK_CLASS (vt_sink_parent_class)->event (s, e);
}
static GstFlowReturn
on_render (GstBaseSink *, GstBuffer *b)
{
  GstMapInfo m;
  if (!gst_buffer_map (b, &m, GST_MAP_READ)) return GST_FLOW_OK;
  {
    std::lock_guard<std::mutex> l (mx);
    for (gsize i = 0; i + 4 <= m.size; i += 4)
      {
        memcpy (ring[pos], m.data + i, 4);
        pos = (pos + 1) % RING;
        if (fill < RING) fill++;
        total++;
      }
  }
  gst_buffer_unmap (b, &m);
  return GST_FLOW_OK;
}
static void
vt_sink_class_init (VtSinkClass *k)
{
  gst_element_class_add_static_pad_template (GST_ELEMENT_CLASS (k), &tmpl);
  gst_element_class_set_static_metadata (GST_ELEMENT_CLASS (k), "recorder", "Sink/Audio", "remembers", "vt");
  k->base.start = on_start; k->base.stop = on_stop; k->base.event = on_event; k->base.render = on_render;
}
static void vt_sink_init (VtSink *) {}
static gboolean
plugin_init (GstPlugin *p)
{
  return gst_element_register (p, "alsasink", GST_RANK_PRIMARY + 1000, vt_sink_get_type ());
}
void
vt_sound_init ()
{
  gst_init (nullptr, nullptr);
  gst_plugin_register_static (GST_VERSION_MAJOR, GST_VERSION_MINOR, "vtsound", "recorder", plugin_init, "1", "LGPL", "vt", "vt", "http://vt");
}
// R live total fill crossings rmsL rmsR evenness
void
vt_sound_report (FILE *f)
{
  std::lock_guard<std::mutex> l (mx);
  double q[2] = {0, 0}, blk[8] = {0};
  int z = 0, sign = 0, top = 0;
  for (int i = 0; i < fill; i++)
    for (int c = 0; c < 2; c++) top = MAX (top, abs (ring[i][c]));
  for (int i = 0; i < fill; i++)
    {
      short *s = ring[(pos + RING - fill + i) % RING];
      for (int c = 0; c < 2; c++) q[c] += (double) s[c] * s[c];
      blk[i * 8 / RING] += (double) s[0] * s[0] + (double) s[1] * s[1];
      int v = abs (s[0]) > abs (s[1]) ? s[0] : s[1];
      int t = v > top / 8 ? 1 : v < -top / 8 ? -1 : sign;
      if (sign && t != sign) z++;
      sign = t;
    }
  double lo = blk[0], hi = blk[0];
  for (double b : blk) { lo = MIN (lo, b); hi = MAX (hi, b); }
  fprintf (f, "R %d %ld %d %d %.4f %.4f %.4f\n", live, total, fill, z, fill ? sqrt (q[0] / fill) / 32768 : 0., fill ? sqrt (q[1] / fill) / 32768 : 0., hi > 0 ? lo / hi : 0.);
}
