#include <gdk/gdk.h>
#include <gst/app/gstappsink.h>
#include <gst/gst.h>
#include <gst/video/video.h>
#include <gtk/gtk.h>
#include <libsoup/soup.h>
#include <json/json.h>
#include <pango/pangocairo.h>
#include <librsvg/rsvg.h>
#include <libxml/parser.h>
#include <libxml/uri.h>
#include <algorithm>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <functional>
