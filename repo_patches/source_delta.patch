From aad979f8d3861386ccf45237f32f57edb947c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 01/85] Add observation hooks for run-time monitors (guarded by
 GINGA_VERIF)

---
 lib/Event.cpp     |  2 ++
 lib/Player.cpp    |  7 ++++++
 lib/verif-hooks.h | 55 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 64 insertions(+)
 create mode 100644 lib/verif-hooks.h

diff --git a/lib/Event.cpp b/lib/Event.cpp
index 514f2f6..d7237e6 100644
--- a/lib/Event.cpp
+++ b/lib/Event.cpp
@@ -17,6 +17,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 
 #include "aux-ginga.h"
 #include "Event.h"
+#include "verif-hooks.h"
 #include "Object.h"
 
 namespace ginga {
@@ -227,6 +228,7 @@ Event::transition (Event::Transition trans)
       return false;
     }
 
+  VERIF_EVENT (this, trans, curr);
   return true;
 }
 
diff --git a/lib/Player.cpp b/lib/Player.cpp
index 6280960..222e363 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -19,6 +19,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "aux-gl.h"
 
 #include "Player.h"
+#include "verif-hooks.h"
 #include "Media.h"
 
 #include "PlayerImage.h"
@@ -181,10 +182,12 @@ Player::Player (Formatter *formatter, Media *media)
   _opengl = _formatter->getOptionBool ("opengl");
   _gltexture = 0;
   this->resetProperties ();
+  VERIF_PLAYER (this, _id.c_str (), "new");
 }
 
 Player::~Player ()
 {
+  VERIF_PLAYER (this, _id.c_str (), "delete");
   delete _animator;
   if (_surface != nullptr)
     cairo_surface_destroy (_surface);
@@ -255,6 +258,7 @@ Player::start ()
   _state = OCCURRING;
   _time = 0;
   _eos = false;
+  VERIF_PLAYER (this, _id.c_str (), "start");
   this->reload ();
   _animator->scheduleTransition ("start", &_prop.rect, &_prop.bgColor,
                                  &_prop.alpha, &_crop);
@@ -265,6 +269,7 @@ Player::stop ()
 {
   g_assert (_state != SLEEPING);
   _state = SLEEPING;
+  VERIF_PLAYER (this, _id.c_str (), "stop");
   this->resetProperties ();
 }
 
@@ -273,6 +278,7 @@ Player::pause ()
 {
   g_assert (_state != PAUSED && _state != SLEEPING);
   _state = PAUSED;
+  VERIF_PLAYER (this, _id.c_str (), "pause");
 }
 
 void
@@ -280,6 +286,7 @@ Player::resume ()
 {
   g_assert (_state == PAUSED);
   _state = OCCURRING;
+  VERIF_PLAYER (this, _id.c_str (), "resume");
 }
 
 string
diff --git a/lib/verif-hooks.h b/lib/verif-hooks.h
new file mode 100644
index 0000000..c1f6271
--- /dev/null
+++ b/lib/verif-hooks.h
@@ -0,0 +1,55 @@
+/* Copyright (C) 2006-2018 PUC-Rio/Laboratorio TeleMidia
+
+This file is part of Ginga (Ginga-NCL).
+
+Ginga is free software: you can redistribute it and/or modify it
+under the terms of the GNU General Public License as published by
+the Free Software Foundation, either version 2 of the License, or
+(at your option) any later version.
+
+Ginga is distributed in the hope that it will be useful, but WITHOUT
+ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public
+License for more details.
+
+You should have received a copy of the GNU General Public License
+along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
+
+#ifndef VERIF_HOOKS_H
+#define VERIF_HOOKS_H
+
+/**
+ * @file verif-hooks.h
+ * @brief Observation points for run-time monitors.
+ *
+ * The hooks are active only if GINGA_VERIF is defined, in which case the
+ * functions below must be provided by the program that links the library.
+ */
+
+#if defined GINGA_VERIF && GINGA_VERIF
+
+namespace ginga {
+class Event;
+class Player;
+}
+
+/// Called after each successful event state transition.
+void ginga_verif_event (ginga::Event *evt, int transition, int from);
+
+/// Called when a player is created, destroyed, started, stopped, etc.
+void ginga_verif_player (ginga::Player *player, const char *id,
+                         const char *what);
+
+#define VERIF_EVENT(evt, tr, from)                                         \
+  ginga_verif_event ((evt), (int) (tr), (int) (from))
+#define VERIF_PLAYER(player, id, what)                                     \
+  ginga_verif_player ((player), (id), (what))
+
+#else
+
+#define VERIF_EVENT(evt, tr, from) ((void) 0)
+#define VERIF_PLAYER(player, id, what) ((void) 0)
+
+#endif // GINGA_VERIF
+
+#endif // VERIF_HOOKS_H
-- 
2.43.0


From a89451dbdc1fb2bd5d67e173458b749486083d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 02/85] fix: describing an object that has a look-at event
 aborted

---
 lib/Object.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 85d36e6..3b891c5 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -117,7 +117,7 @@ Object::toString ()
   list<string> pres;
   list<string> attr;
   list<string> sel;
-  list<string> prep;
+  list<string> look;
   for (auto evt : _events)
     switch (evt->getType ())
       {
@@ -136,6 +136,11 @@ Object::toString ()
                        + Event::getEventStateAsString (evt->getState ())
                        + ')');
         break;
+      case Event::LOOKAT:
+        look.push_back (evt->getId () + " ("
+                        + Event::getEventStateAsString (evt->getState ())
+                        + ')');
+        break;
       default:
         g_assert_not_reached ();
       }
@@ -144,7 +149,7 @@ Object::toString ()
     { "evts pres.", &pres },
     { "evts attr.", &attr },
     { "evts sel.", &sel },
-    { "evts prep.", &prep },
+    { "evts look.", &look },
   };
 
   for (auto it_evts : evts)
-- 
2.43.0


From be7fd9a3597b03ea9d3bff2763003da380526292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 03/85] fix: evaluating a negated predicate aborted

---
 lib/Document.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index e366275..8bcc1eb 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -501,7 +501,14 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
-      g_assert_not_reached ();
+      {
+        auto children = pred->getChildren ();
+        bool result = true;
+        if (!children->empty ())
+          result = !this->evalPredicate (children->front ());
+        TRACE ("not -> %s", strbool (result));
+        return result;
+      }
       break;
     case Predicate::CONJUNCTION:
       {
-- 
2.43.0


From 31af7ad94e13f960700400ee3f7db1859c2f2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 04/85] fix: a context once entered through a child never
 started its ports again

---
 lib/Context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index c79e503..f95b020 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -254,6 +254,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
 
           // Start all ports in the next tick if not started from port
           evt->getParameter ("fromport", &param_test);
+          evt->setParameter ("fromport", "");
           if (param_test != "")
             break;
           for (auto port : _ports)
@@ -261,7 +262,6 @@ Context::afterTransition (Event *evt, Event::Transition transition)
               if (port->getType () == Event::PRESENTATION)
                 this->addDelayedAction (port, Event::START, "", 0);
             }
-          evt->setParameter ("fromport", "");
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
-- 
2.43.0


From 19aabe4cf442053e5404d081865e05c0490818bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 05/85] fix: starting a paused media or context counted it
 twice and left its player paused

---
 lib/Context.cpp |  5 +++--
 lib/Media.cpp   | 45 +++++++++++++++++++++++++++++++++------------
 lib/Media.h     |  2 ++
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index f95b020..e0133b4 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -243,8 +243,9 @@ Context::afterTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          // Start context as a whole.
-          Object::doStart ();
+          // Start context as a whole (unless it was just paused).
+          if (!GINGA_TIME_IS_VALID (_time))
+            Object::doStart ();
 
           if (instanceof (Context *, _parent) && _parent->isSleeping ())
             {
diff --git a/lib/Media.cpp b/lib/Media.cpp
index fd444c2..3be17be 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -175,6 +175,9 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
         {
         case Event::START:
           {
+            if (evt->isLambda () && evt->getState () == Event::PAUSED)
+              return this->pauseOrResume (Event::RESUME);
+
             if (instanceof (Context *, _parent) && _parent->isSleeping ())
               {
                 _parent->getLambda ()->setParameter ("fromport", "true");
@@ -275,18 +278,7 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
             if (!evt->isLambda ())
               break; // nothing to do
 
-            // Pause/resume all the media anchors.
-            for (auto e : _events)
-              if (!e->isLambda () && e->getType () == Event::PRESENTATION)
-                _doc->evalAction (e, transition);
-
-            // Pause/resume the underlying player.
-            g_assert_nonnull (_player);
-            if (transition == Event::PAUSE)
-              _player->pause ();
-            else
-              _player->resume ();
-            break;
+            return this->pauseOrResume (transition);
           }
 
         case Event::STOP:
@@ -328,6 +320,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
             {
               // Start media as a whole.
               g_assert_nonnull (_player);
+              if (GINGA_TIME_IS_VALID (_time))
+                break; // was paused, already started
               Object::doStart ();
 
               // Schedule anchors.
@@ -511,6 +505,33 @@ Media::redraw (cairo_t *cr)
 
 // Protected.
 
+/**
+ * @brief Pauses or resumes the anchors and the underlying player.
+ * @return \c true if successful, or \c false if, while doing so, a link
+ * changed the state of the media itself.
+ */
+bool
+Media::pauseOrResume (Event::Transition transition)
+{
+  Event::State curr = _lambda->getState ();
+
+  // Pause/resume all the media anchors.
+  for (auto e : _events)
+    if (!e->isLambda () && e->getType () == Event::PRESENTATION)
+      _doc->evalAction (e, transition);
+
+  if (_lambda->getState () != curr)
+    return false;
+
+  // Pause/resume the underlying player.
+  g_assert_nonnull (_player);
+  if (transition == Event::PAUSE)
+    _player->pause ();
+  else
+    _player->resume ();
+  return true;
+}
+
 void
 Media::doStop ()
 {
diff --git a/lib/Media.h b/lib/Media.h
index 157cc82..be3b45f 100644
--- a/lib/Media.h
+++ b/lib/Media.h
@@ -46,6 +46,8 @@ public:
 protected:
   Player *_player; // underlying player
 
+  bool pauseOrResume (Event::Transition);
+
   void doStop () override;
 };
 
-- 
2.43.0


From 01a3000a3b0977bf4b8c16c8aafadef86ccb0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 06/85] fix: stopping an anchor of a paused media aborted

---
 lib/Media.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 3be17be..159bfec 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -377,7 +377,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           else // non-lambda area
             {
               Time end;
-              g_assert (this->isOccurring ());
+              g_assert (!this->isSleeping ());
               evt->getInterval (nullptr, &end);
               if (transition == Event::ABORT)
                 TRACE ("abort %s (end=%" GINGA_TIME_FORMAT
-- 
2.43.0


From cd2106e94eba2a7b385687d661e4b8b7a1a996c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 07/85] fix: pausing, resuming or aborting attribution,
 selection and look-at events aborted the process

---
 lib/Context.cpp | 10 +++++++---
 lib/Media.cpp   | 21 +++++++++++----------
 lib/Switch.cpp  |  4 ++++
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index e0133b4..bf53055 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -221,9 +221,12 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
       break;
 
     case Event::ATTRIBUTION:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
-    case Event::SELECTION:
+    case Event::SELECTION: // fall through
+    case Event::LOOKAT:
       return false; // fail
 
     default:
@@ -315,7 +318,8 @@ Context::afterTransition (Event *evt, Event::Transition transition)
                    value.c_str (), (s != "") ? s.c_str () : "0s");
             break;
           }
-        case Event::STOP:
+        case Event::STOP: // fall through
+        case Event::ABORT:
           {
             TRACE ("stop %s:=...", evt->getFullId ().c_str ());
             break;
diff --git a/lib/Media.cpp b/lib/Media.cpp
index 159bfec..8484a89 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -292,14 +292,12 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
         }
       break;
 
-    case Event::ATTRIBUTION:
-      break; // nothing to do
-
-    case Event::SELECTION:
-      break; // nothing to do
-
+    case Event::ATTRIBUTION: // fall through
+    case Event::SELECTION:   // fall through
     case Event::LOOKAT:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
     default:
       g_assert_not_reached ();
@@ -427,7 +425,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
               break;
             }
 
-          case Event::STOP:
+          case Event::STOP: // fall through
+          case Event::ABORT:
             TRACE ("stop %s:='%s'", evt->getFullId ().c_str (),
                    value.c_str ());
             break;
@@ -446,7 +445,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           case Event::START:
             TRACE ("start %s", evt->getFullId ().c_str ());
             break;
-          case Event::STOP:
+          case Event::STOP: // fall through
+          case Event::ABORT:
             TRACE ("stop %s", evt->getFullId ().c_str ());
             break;
           default:
@@ -460,7 +460,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
         case Event::START:
           TRACE ("start %s", evt->getFullId ().c_str ());
           break;
-        case Event::STOP:
+        case Event::STOP: // fall through
+        case Event::ABORT:
           TRACE ("stop %s", evt->getFullId ().c_str ());
           break;
         default:
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1533299..e76b150 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -68,6 +68,10 @@ bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
   set<Event *> switchPort_evts; // The possible selected events.
+
+  if (evt->getType () != Event::PRESENTATION)
+    return false; // fail
+
   if (evt->isLambda ())
     {
       // If we are acting on the switch's @lambda all the @lambda children
-- 
2.43.0


From ceb6fbc703f2d7de527ff5a93a4e75b4dae39446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 08/85] fix: pending actions of an object leaked into its next
 presentation or were lost when it paused

---
 lib/Object.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 3b891c5..e741b2e 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -360,8 +360,12 @@ Object::addDelayedAction (Event *event, Event::Transition transition,
 {
   Action act;
 
+  if (!GINGA_TIME_IS_VALID (delay))
+    return; // never due
+
   act.event = event;
   act.transition = transition;
+  act.predicate = nullptr;
   act.value = value;
   _delayed.push_back (std::make_pair (act, _time + delay));
 }
@@ -380,29 +384,27 @@ Object::sendTick (unused (Time total), Time diff, unused (Time frame))
   g_assert (GINGA_TIME_IS_VALID (_time));
   _time += diff;
 
-  list<Action> trigger;
+  // Mark the actions that are due.  Actions that are added from now on
+  // (e.g., by links) wait for the next tick.
   for (auto &it : _delayed)
     {
       if (_time >= it.second)
-        {
-          it.second = GINGA_TIME_NONE;
-          trigger.push_back (it.first);
-        }
-    }
-
-  for (auto action : trigger)
-    {
-      _doc->evalAction (action);
-      if (!this->isOccurring ())
-        return;
+        it.second = GINGA_TIME_NONE;
     }
 
-  for (auto it = _delayed.begin (); it != _delayed.end ();)
+  // Trigger them one by one.  If the object is stopped, the remaining are
+  // discarded with the list; if it is paused, they are kept.
+  while (this->isOccurring ())
     {
-      if (it->second == GINGA_TIME_NONE)
-        it = _delayed.erase (it);
-      else
+      auto it = _delayed.begin ();
+      while (it != _delayed.end () && it->second != GINGA_TIME_NONE)
         ++it;
+      if (it == _delayed.end ())
+        break;
+
+      Action action = it->first;
+      _delayed.erase (it);
+      _doc->evalAction (action);
     }
 }
 
-- 
2.43.0


From 3ee212a140c790b543e15d5c68187d3ff8082a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 09/85] fix: end of body aborted when the settings object was
 stopped, and paused contexts ended

---
 lib/Context.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index bf53055..1b9215b 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -149,22 +149,15 @@ Context::sendTick (Time total, Time diff, Time frame)
   // Update object time.
   Object::sendTick (total, diff, frame);
 
-  // Check for EOS.
-  if (_parent == nullptr && _awakeChildren == 1)
-    {
-      if (_doc->getSettings ()->isOccurring ())
-        {
-          _doc->evalAction (_lambda, Event::STOP);
-        }
-      else
-        {
-          g_assert_not_reached ();
-        }
-    }
-  else if (_awakeChildren == 0)
-    {
-      _doc->evalAction (_lambda, Event::STOP);
-    }
+  if (unlikely (!this->isOccurring ()))
+    return; // nothing to do
+
+  // Check for EOS.  The settings object does not keep the body awake.
+  int n = _awakeChildren;
+  if (_parent == nullptr && !_doc->getSettings ()->isSleeping ())
+    n--;
+  if (n == 0)
+    _doc->evalAction (_lambda, Event::STOP);
 }
 
 bool
-- 
2.43.0


From 7af14871bf77c3a10531bd0c3242caae2bc9c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 10/85] fix: a media paused by its own pending action kept
 advancing its player

---
 lib/Media.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 8484a89..2d8a273 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -144,7 +144,7 @@ Media::sendTick (Time total, Time diff, Time frame)
   // Update object time.
   Object::sendTick (total, diff, frame);
 
-  if (_player == nullptr)
+  if (_player == nullptr || !this->isOccurring ())
     return; // nothing to do.
 
   // Update player time.
-- 
2.43.0


From b4087714b1c65104bb776884295eae44525aff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 11/85] fix: a delayed set action lost its duration

---
 lib/Document.cpp | 3 ++-
 lib/Object.cpp   | 4 +++-
 lib/Object.h     | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 8bcc1eb..5375640 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -293,7 +293,8 @@ Document::evalActionInContext (Action act, Context *ctx)
                   g_assert_nonnull (next_obj);
 
                   ctx->addDelayedAction (next_evt, next_act.transition,
-                                         next_act.value, delay);
+                                         next_act.value, delay,
+                                         next_act.duration);
                 }
             }
         }
diff --git a/lib/Object.cpp b/lib/Object.cpp
index e741b2e..a895482 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -356,7 +356,8 @@ Object::getDelayedActions ()
 
 void
 Object::addDelayedAction (Event *event, Event::Transition transition,
-                          const string &value, Time delay)
+                          const string &value, Time delay,
+                          const string &duration)
 {
   Action act;
 
@@ -367,6 +368,7 @@ Object::addDelayedAction (Event *event, Event::Transition transition,
   act.transition = transition;
   act.predicate = nullptr;
   act.value = value;
+  act.duration = duration;
   _delayed.push_back (std::make_pair (act, _time + delay));
 }
 
diff --git a/lib/Object.h b/lib/Object.h
index fba94f9..3c58569 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -70,7 +70,8 @@ public:
 
   const list<pair<Action, Time> > *getDelayedActions ();
   void addDelayedAction (Event *, Event::Transition,
-                         const string &value = "", Time delay = 0);
+                         const string &value = "", Time delay = 0,
+                         const string &duration = "");
 
   virtual void sendKey (const string &, bool);
   virtual void sendTick (Time, Time, Time);
-- 
2.43.0


From 044731dc44f4c3474ce00844e32a82deae7bc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 12/85] fix: an assignment to a sleeping object never ended, so
 that later ones were refused

---
 lib/Document.cpp | 10 ++++++++++
 lib/Object.cpp   |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 5375640..2afdb01 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -344,6 +344,16 @@ Document::evalAction (Action init)
       g_assert_nonnull (obj);
       comp = obj->getParent ();
 
+      // A sleeping object has no clock: the attribution ends right after the
+      // links triggered by its start.
+      if (evt->getType () == Event::ATTRIBUTION
+          && act.transition == Event::START && obj->isSleeping ())
+        {
+          Action end = act;
+          end.transition = Event::STOP;
+          stack.push_back (end);
+        }
+
       // If parent composition is a context
       if (comp != nullptr &&
           instanceof (Context *, comp) && comp->isOccurring ())
diff --git a/lib/Object.cpp b/lib/Object.cpp
index a895482..b6a74df 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -361,7 +361,7 @@ Object::addDelayedAction (Event *event, Event::Transition transition,
 {
   Action act;
 
-  if (!GINGA_TIME_IS_VALID (delay))
+  if (!GINGA_TIME_IS_VALID (delay) || !GINGA_TIME_IS_VALID (_time))
     return; // never due
 
   act.event = event;
-- 
2.43.0


From 19dae0a9eba405971c0cb1d8e055b9cb47a7fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 13/85] fix: a focus change requested while another one took
 effect was lost

---
 lib/MediaSettings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index c820fd9..8f11f60 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -58,8 +58,9 @@ MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
   if (_hasNextFocus) // effectuate pending focus index update
     {
-      this->updateCurrentFocus (_nextFocus);
+      string next = _nextFocus;
       _hasNextFocus = false;
+      this->updateCurrentFocus (next);
     }
   Media::sendTick (total, diff, frame);
 }
-- 
2.43.0


From 7aeee9c53c838ef8448961f644d39c7ba664c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 14/85] fix: links fired twice through aliases or several
 ports, in sleeping contexts, and not through port chains

---
 lib/Document.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 2afdb01..78bb9d8 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -320,7 +320,8 @@ Document::evalAction (Action init)
       Event *evt;
       Object *obj;
       Composition *comp;
-      Context *ctx_parent, *ctx_grandparent;
+      Context *ctx_parent;
+      set<Context *> done; // contexts whose links were already triggered
 
       act = stack.back ();
       stack.pop_back ();
@@ -365,22 +366,25 @@ Document::evalAction (Action init)
           list<Action> ret = evalActionInContext (act, ctx_parent);
           stack.insert (stack.end (), ret.begin (), ret.end ());
 
+          done.insert (ctx_parent);
+
           // If the event object is pointed by a port in the parent context,
-          // trigger links in the its grantparent context ( and ancestors)
+          // trigger links in the its grantparent context (and ancestors)
           comp = ctx_parent->getParent ();
-          if (comp != nullptr &&
-              instanceof (Context *, comp) && comp->isOccurring ())
+          while (comp != nullptr &&
+                 instanceof (Context *, comp) && comp->isOccurring ())
             {
-              ctx_grandparent = cast (Context *, comp);
+              bool mapped = false;
               for (auto port : *ctx_parent->getPorts ())
-                {
-                  if (port->getObject () == evt->getObject ())
-                    {
-                      list<Action> ret
-                          = evalActionInContext (act, ctx_grandparent);
-                      stack.insert (stack.end (), ret.begin (), ret.end ());
-                    }
-                }
+                mapped = mapped || port->getObject () == obj;
+              if (!mapped)
+                break;
+
+              ctx_parent = cast (Context *, comp);
+              ret = evalActionInContext (act, ctx_parent);
+              stack.insert (stack.end (), ret.begin (), ret.end ());
+              done.insert (ctx_parent);
+              comp = ctx_parent->getParent ();
             }
         }
       // If parent composition is a switch
@@ -423,7 +427,8 @@ Document::evalAction (Action init)
           for (const auto &alias : *obj->getAliases ())
             {
               ctx_parent = cast (Context *, alias.second);
-              if (ctx_parent)
+              if (ctx_parent && ctx_parent->isOccurring ()
+                  && done.insert (ctx_parent).second)
                 {
                   list<Action> ret = evalActionInContext (act, ctx_parent);
                   stack.insert (stack.end (), ret.begin (), ret.end ());
-- 
2.43.0


From 5fc68bd851f33694266d87fdb9fef06e407902f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 15/85] fix: switch lost its selection on pause, did not occur
 when started through a port, outlived its component and leaked its children

---
 lib/Document.cpp |  8 +++++-
 lib/Switch.cpp   | 63 +++++++++++++++++++++++++++++++++++++++---------
 lib/Switch.h     |  1 +
 3 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 78bb9d8..323150f 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -397,7 +397,7 @@ Document::evalAction (Action init)
             {
               for (const auto &mapped_evt : swtchPort.second)
                 {
-                  if (mapped_evt->getObject () == evt->getObject ()
+                  if (mapped_evt == evt && swtch->getSelected () == obj
                       && swtch->getParent () != nullptr)
                     {
                       Event *label_evt = swtch->getEvent (
@@ -411,6 +411,12 @@ Document::evalAction (Action init)
                     }
                 }
             }
+
+          // The switch ends with the selected object.
+          if (evt->isLambda () && swtch->getSelected () == obj
+              && (act.transition == Event::STOP
+                  || act.transition == Event::ABORT))
+            evalAction (swtch->getLambda (), act.transition);
         }
 
       // If event object is a context, trigger the context itself
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index e76b150..7256710 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -18,6 +18,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "aux-ginga.h"
 #include "Switch.h"
 
+#include "Context.h"
 #include "Document.h"
 
 namespace ginga {
@@ -31,6 +32,11 @@ Switch::Switch (const string &id) : Composition (id)
 
 Switch::~Switch ()
 {
+  // Stop and delete children.
+  _lambda->transition (Event::STOP);
+  for (auto child : _children)
+    delete child;
+
   for (auto item : _rules)
     delete item.second;
 }
@@ -98,7 +104,20 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          g_assert_null (_selected);
+          if (_selected != nullptr)
+            {
+              // Already presenting: only the selected object can be started.
+              for (Event *e : switchPort_evts)
+                {
+                  if (e->getObject () == _selected)
+                    {
+                      e->transition (transition);
+                      return true;
+                    }
+                }
+              return false;
+            }
+
           for (auto item : _rules)
             {
               Object *obj;
@@ -144,13 +163,15 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
         case Event::RESUME:
         case Event::ABORT:
         case Event::STOP:
-          if (_selected != nullptr)
+          // Act on the (mapped events of the) selected object.
+          for (Event *e : switchPort_evts)
             {
-              Event *lambda = _selected->getLambda ();
-              g_assert_nonnull (lambda);
-              lambda->transition (transition);
-              _selected = nullptr;
+              if (evt->isLambda () || e->getObject () == _selected)
+                e->transition (transition);
             }
+          if (evt->isLambda ()
+              && (transition == Event::STOP || transition == Event::ABORT))
+            _selected = nullptr;
           break;
 
         default:
@@ -177,11 +198,19 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          Object::doStart ();
+          if (!GINGA_TIME_IS_VALID (_time))
+            Object::doStart ();
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          if (_selected == nullptr)
-            _doc->evalAction (evt, Event::STOP);
+          if (instanceof (Context *, _parent) && _parent->isSleeping ())
+            {
+              _parent->getLambda ()->setParameter ("fromport", "true");
+              _parent->getLambda ()->transition (Event::START);
+            }
+
+          // The switch as a whole occurs while any of its ports does.
+          if (_lambda->getState () == Event::SLEEPING)
+            _doc->evalAction (_lambda, Event::START);
           break;
         case Event::PAUSE:
           TRACE ("pause %s at %" GINGA_TIME_FORMAT,
@@ -194,12 +223,18 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
         case Event::STOP:
           TRACE ("stop %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          if (evt->isLambda ())
+            Object::doStop ();
+          else if (_selected != nullptr && _selected->isSleeping ())
+            _doc->evalAction (_lambda, transition);
           break;
         case Event::ABORT:
           TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          if (evt->isLambda ())
+            Object::doStop ();
+          else if (_selected != nullptr && _selected->isSleeping ())
+            _doc->evalAction (_lambda, transition);
           break;
 
         default:
@@ -217,6 +252,12 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
 
 // Public.
 
+Object *
+Switch::getSelected ()
+{
+  return _selected;
+}
+
 const list<pair<Object *, Predicate *> > *
 Switch::getRules ()
 {
diff --git a/lib/Switch.h b/lib/Switch.h
index 8d2574a..c13a354 100644
--- a/lib/Switch.h
+++ b/lib/Switch.h
@@ -36,6 +36,7 @@ public:
   bool afterTransition (Event *, Event::Transition) override;
 
   // Switch:
+  Object *getSelected ();
   const list<pair<Object *, Predicate *> > *getRules ();
   void addRule (Object *, Predicate *);
   const map<string, list<Event *> > *getSwitchPorts ();
-- 
2.43.0


From 26d99ff541988b1bbb225740ca95ed6b0d94f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 16/85] fix: the current focus leaked from one presentation
 into the next and into others

---
 lib/Player.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 222e363..da9aaf0 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -21,6 +21,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "Player.h"
 #include "verif-hooks.h"
 #include "Media.h"
+#include "MediaSettings.h"
 
 #include "PlayerImage.h"
 #include "PlayerText.h"
@@ -212,7 +213,11 @@ Player::getZ (int *zindex, int *zorder)
 bool
 Player::isFocused ()
 {
-  return _prop.focusIndex != "" && _prop.focusIndex == _currentFocus;
+  // The focus is that of the presentation to which the media belongs.
+  return _prop.focusIndex != ""
+         && _prop.focusIndex
+                == _media->getDocument ()->getSettings ()->getProperty (
+                       "service.currentFocus");
 }
 
 Time
-- 
2.43.0


From 13457d192f320b5208b5e6256bf6eb1c80e6ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 17/85] fix: web services leaked, could not be restarted, and
 stopping them before start crashed

---
 lib/Formatter.cpp   |  1 +
 lib/WebServices.cpp | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 8153da2..995a8c5 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -472,6 +472,7 @@ Formatter::Formatter (const GingaOptions *opts) : Ginga (opts)
 Formatter::~Formatter ()
 {
   this->stop ();
+  delete _webservices;
 }
 
 /**
diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 4a86740..0c21975 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -44,19 +44,22 @@ WebServices::WebServices (Formatter *fmt)
 WebServices::~WebServices ()
 {
   this->stop ();
-  g_object_unref (_resource_group);
-  g_object_unref (_client);
-  g_object_unref (_server);
 }
 
 bool
 WebServices::stop ()
 {
+  if (_state == WS_STATE_STOPPED)
+    return false;
+
   _state = WS_STATE_STOPPED;
   // stop ssdp
   gssdp_resource_group_set_available (_resource_group, false);
+  g_clear_object (&_resource_group);
+  g_clear_object (&_client);
   // stop http
   soup_server_disconnect (_server);
+  g_clear_object (&_server);
   return true;
 }
 
@@ -219,6 +222,9 @@ WebServices::start ()
   int ret = 0;
   char *location;
 
+  if (_state == WS_STATE_STARTED)
+    return true; // already running
+
   // create ssdpclient
   _client = gssdp_client_new (nullptr, &error);
   if (error)
-- 
2.43.0


From 66fb8399cf0ba51ce4743f8bfcdd3eb15ec200d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 18/85] fix: option "webservices" was reported as unknown

---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 995a8c5..f93246d 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -64,6 +64,7 @@ static map<string, GingaOptionData> opts_table = {
   OPTS_ENTRY (experimental, G_TYPE_BOOLEAN, Experimental),
   OPTS_ENTRY (height, G_TYPE_INT, Size),
   OPTS_ENTRY (opengl, G_TYPE_BOOLEAN, OpenGL),
+  OPTS_ENTRY (webservices, G_TYPE_BOOLEAN, WebServices),
   OPTS_ENTRY (width, G_TYPE_INT, Size),
 };
 
-- 
2.43.0


From 7500265240e692507a84138a297e05f71cea72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 19/85] fix: malformed web-service requests crashed or leaked

---
 lib/WebServices.cpp | 202 ++++++++++++++++++++++++--------------------
 1 file changed, 111 insertions(+), 91 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 0c21975..7cb2832 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -97,122 +97,142 @@ cb_locaction (SoupServer *server, SoupMessage *msg, const char *path,
       msg->response_headers, "GingaCC-Server-PairingMethods", "qcode,kex");
 }
 
+// Parses request body; returns true if it is a JSON object.
+static bool
+parse_body (SoupMessage *msg, Json::Value *root)
+{
+  Json::CharReaderBuilder builder;
+  std::unique_ptr<Json::CharReader> reader (builder.newCharReader ());
+  const char *data = msg->request_body->data;
+  string errors;
+
+  TRACE_SOUP_REQ_MSG (msg);
+  if (data == nullptr)
+    return false;
+
+  try
+    {
+      if (!reader->parse (data, data + msg->request_body->length, root,
+                          &errors)
+          || !root->isObject ())
+        {
+          WARNING ("Error parsing request body");
+          return false;
+        }
+    }
+  catch (const std::exception &e)
+    {
+      WARNING ("Error parsing request body: %s", e.what ());
+      return false;
+    }
+  return true;
+}
+
+// Gets an optional string member; returns false if it has another type.
+static bool
+get_string (const Json::Value &root, const char *name, string *result)
+{
+  const Json::Value &member = root[name];
+  if (!member.isNull () && !member.isString ())
+    return false;
+  *result = member.isNull () ? "" : member.asString ();
+  return true;
+}
+
+// Gets an optional list of strings; returns false if it has another type.
+static bool
+get_list (const Json::Value &root, const char *name, list<string> *result)
+{
+  const Json::Value &member = root[name];
+  if (!member.isNull () && !member.isArray ())
+    return false;
+  for (const auto &item : member)
+    {
+      if (!item.isString ())
+        return false;
+      result->push_back (item.asString ());
+    }
+  return true;
+}
+
 static void
 cb_remoteplayer (SoupServer *server, SoupMessage *msg, const char *path,
                  GHashTable *query, SoupClientContext *client,
                  gpointer user_data)
 {
   Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
   WebServices *ws = (WebServices *) user_data;
   bool status = false;
-
-  TRACE_SOUP_REQ_MSG (msg);
-
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
-    WARNING ("Error parsing request body");
-
   PlayerRemoteData pdata;
-  pdata.location = root["location"].asString ();
-  pdata.deviceType = root["deviceType"].asString ();
-  for (const auto &item : root["supportedFormats"])
-    pdata.supportedFormats.push_back (item.asString ());
-  for (const auto &item : root["recognizableEvents"])
-    pdata.recognizedableEvents.push_back (item.asString ());
-  if (pdata.isValid ())
+
+  if (parse_body (msg, &root)
+      && get_string (root, "location", &pdata.location)
+      && get_string (root, "deviceType", &pdata.deviceType)
+      && get_list (root, "supportedFormats", &pdata.supportedFormats)
+      && get_list (root, "recognizableEvents",
+                   &pdata.recognizedableEvents)
+      && pdata.isValid ())
     status = ws->machMediaThenSetPlayerRemote (pdata);
   soup_message_set_status (msg,
                            status ? SOUP_STATUS_OK : SOUP_STATUS_NOT_FOUND);
 }
 
-static void
-cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
-         GHashTable *query, SoupClientContext *client, gpointer user_data)
+// Performs the action requested over the given node.
+static bool
+do_action (Document *doc, const string &nodeId, const Json::Value &root)
 {
-  Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
-  WebServices *ws = (WebServices *) user_data;
-  bool status = false;
   string action, interface, value;
   Object *node;
-  Event *evt = nullptr;
-  Document *doc;
-  const char *target = path + strlen (WS_ROUTE_APPS);
-  gchar **params = g_strsplit (target, "/", 3);
-
-  doc = ws->getFormatter ()->getDocument ();
-  g_assert_nonnull (doc);
-  const char *appId = params[0]; // ignored
-  const char *docId = params[1]; // ignored
-  const char *nodeId = params[2];
-  if (!strlen (appId) || !strlen (docId) || !strlen (nodeId))
-    goto fail;
-
-  TRACE ("request %s: app=%s, docId=%s nodeId=%s", WS_ROUTE_APPS, appId,
-         docId, nodeId);
-  TRACE_SOUP_REQ_MSG (msg);
+  Event *evt;
 
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
-    {
-      WARNING ("Error parsing request body");
-      goto fail;
-    }
-  action = root["action"].asString ();
-  interface = root["interface"].asString ();
-  value = root["value"].asString ();
+  if (!get_string (root, "action", &action)
+      || !get_string (root, "interface", &interface)
+      || !get_string (root, "value", &value))
+    return false;
 
   node = doc->getObjectById (nodeId);
-  g_strfreev (params);
-
-  if (!node)
-    goto fail;
+  if (node == nullptr)
+    return false;
 
   if (action == "select")
-    {
-      evt = node->getSelectionEvent (value);
-      doc->evalAction (evt, Event::START);
-      doc->evalAction (evt, Event::STOP);
-    }
-  else if (action == "lookAt")
-    {
-      if (!interface.empty ())
-        evt = node->getLookAtEvent (interface);
-      else
-        evt = node->getLookAtEvent ("@lambda");
-
-      if (evt != nullptr)
-        doc->evalAction (evt, Event::START);
-      else
-        goto fail;
-    }
-  else if (action == "lookAway")
-    {
-      if (!interface.empty ())
-        evt = node->getLookAtEvent (interface);
-      else
-        evt = node->getLookAtEvent ("@lambda");
-
-      if (evt != nullptr)
-        doc->evalAction (evt, Event::STOP);
-      else
-        goto fail;
-    }
+    evt = node->getSelectionEvent (value);
+  else if (action == "lookAt" || action == "lookAway")
+    evt = node->getLookAtEvent (interface.empty () ? "@lambda" : interface);
   else
-    goto fail;
+    return false;
 
-  soup_message_set_status (msg, SOUP_STATUS_OK);
-  return;
+  if (evt == nullptr)
+    return false;
 
-fail:
-  soup_message_set_status (msg, SOUP_STATUS_NOT_FOUND);
+  if (action != "lookAway")
+    doc->evalAction (evt, Event::START);
+  if (action != "lookAt")
+    doc->evalAction (evt, Event::STOP);
+  return true;
+}
+
+static void
+cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
+         GHashTable *query, SoupClientContext *client, gpointer user_data)
+{
+  Json::Value root;
+  WebServices *ws = (WebServices *) user_data;
+  Document *doc = ws->getFormatter ()->getDocument ();
+  bool status = false;
+  gchar **params = nullptr;
+
+  // The target is <appId>/<docId>/<nodeId>; the first two are ignored.
+  if (xstrhasprefix (path, WS_ROUTE_APPS))
+    params = g_strsplit (path + strlen (WS_ROUTE_APPS), "/", 3);
+
+  if (doc != nullptr && params != nullptr && g_strv_length (params) == 3
+      && *params[0] != '\0' && *params[1] != '\0' && *params[2] != '\0'
+      && parse_body (msg, &root))
+    status = do_action (doc, params[2], root);
+
+  g_strfreev (params);
+  soup_message_set_status (msg,
+                           status ? SOUP_STATUS_OK : SOUP_STATUS_NOT_FOUND);
 }
 
 bool
-- 
2.43.0


From 79e854cce5b65b3ee47280ddd658063f5acb41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 20/85] fix: entering a media through an anchor truncated times
 to seconds, scheduled the anchor twice and left ended anchors occurring

---
 lib/Media.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 2d8a273..589bb2d 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -220,20 +220,21 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (begin == GINGA_TIME_NONE)
                       begin = 0;
 
-                    string time_seek = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                  begin / GINGA_SECOND);
+                    string time_seek = xstrbuild (
+                        "%" G_GUINT64_FORMAT ".%09" G_GUINT64_FORMAT,
+                        begin / GINGA_SECOND, begin % GINGA_SECOND);
                     TRACE ("time_seek %ss", time_seek.c_str ());
                     _player->setProperty ("time", time_seek);
 
                     // End
                     if (end != GINGA_TIME_NONE)
                       {
-                        dur = end - begin;
-                        string time_end = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                     dur / GINGA_SECOND);
+                        dur = (end > begin) ? end - begin : 0;
+                        string time_end = xstrbuild (
+                            "%" G_GUINT64_FORMAT ".%09" G_GUINT64_FORMAT,
+                            dur / GINGA_SECOND, dur % GINGA_SECOND);
                         TRACE ("time_end in %ss", time_end.c_str ());
                         _player->setProperty ("duration", time_end);
-                        this->addDelayedAction (evt, Event::STOP, "", end);
                       }
 
                     TRACE ("start %s (begin=%" GINGA_TIME_FORMAT
@@ -254,11 +255,15 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                           {
                             Action act = it->first;
                             Event *evt = act.event;
-                            if (act.transition == Event::START
-                                && it->second < begin)
+                            if (it->second < begin)
                               evt->transition (act.transition);
                             it = _delayed.erase (it);
                           }
+                        else if (it->first.event == evt
+                                 && it->first.transition == Event::START)
+                          {
+                            it = _delayed.erase (it); // starting now
+                          }
                         else if (it->second >= begin)
                           {
                             it->second = it->second - begin;
-- 
2.43.0


From a8e17e5a9eae6f843bdeda3255d405dd6abf2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 21/85] fix: resizing kept the old width and height of media
 without explicit ones

---
 lib/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index f93246d..53678a6 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -215,8 +215,9 @@ Formatter::resize (int width, int height)
 
       UPDATE_IF_HAVE ("top");
       UPDATE_IF_HAVE ("left");
-      UPDATE_IF_HAVE ("width");
-      UPDATE_IF_HAVE ("height");
+      // The default width and height are relative to the screen.
+      media->setProperty ("width", media->getProperty ("width"));
+      media->setProperty ("height", media->getProperty ("height"));
       UPDATE_IF_HAVE ("bottom");
       UPDATE_IF_HAVE ("right");
     }
-- 
2.43.0


From 15e957e7695f8458b0ea675e6f07155e4f67075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 22/85] fix: a reference to a property of an object whose id
 contains a dot was not resolved

---
 lib/Document.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 323150f..04bd964 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -574,17 +574,22 @@ Document::evalPropertyRef (const string &ref, string *result)
   string name;
   Object *object;
 
-  if (ref[0] != '$' || (i = ref.find ('.')) == string::npos)
+  if (ref[0] != '$')
     return false;
 
-  id = ref.substr (1, i - 1);
-  name = ref.substr (i + 1);
-  object = this->getObjectByIdOrAlias (id);
-  if (object == nullptr)
-    return false;
+  // Both ids and property names may contain dots.
+  for (i = ref.find ('.'); i != string::npos; i = ref.find ('.', i + 1))
+    {
+      id = ref.substr (1, i - 1);
+      name = ref.substr (i + 1);
+      object = this->getObjectByIdOrAlias (id);
+      if (object == nullptr)
+        continue;
 
-  tryset (result, object->getProperty (name));
-  return true;
+      tryset (result, object->getProperty (name));
+      return true;
+    }
+  return false;
 }
 
 bool
-- 
2.43.0


From 41218308500c4389ab15740ef01ea6ac637636c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 23/85] fix: animated assignments read past lists, leaked,
 jumped, ended off target and could not be superseded

---
 lib/Media.cpp          |   3 +-
 lib/Player.cpp         |  41 ++++-
 lib/Player.h           |   3 +-
 lib/PlayerAnimator.cpp | 331 +++++++++++++++++++----------------------
 lib/PlayerAnimator.h   |  22 ++-
 5 files changed, 204 insertions(+), 196 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 589bb2d..118f592 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -62,7 +62,6 @@ Media::toString ()
 void
 Media::setProperty (const string &name, const string &value, Time dur)
 {
-  string from = this->getProperty (name);
   Object::setProperty (name, value, dur);
 
   if (_player == nullptr)
@@ -70,7 +69,7 @@ Media::setProperty (const string &name, const string &value, Time dur)
 
   g_assert (GINGA_TIME_IS_VALID (dur));
   if (dur > 0)
-    _player->schedulePropertyAnimation (name, from, value, dur);
+    _player->schedulePropertyAnimation (name, value, dur);
   else
     _player->setProperty (name, value);
 }
diff --git a/lib/Player.cpp b/lib/Player.cpp
index da9aaf0..df48d39 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -308,6 +308,9 @@ Player::setProperty (const string &name, const string &value)
   string defval;
   string _value;
 
+  // An immediate assignment supersedes a running animation.
+  _animator->cancel (name);
+
   if (name == "transIn" || name == "transOut")
     _animator->setTransitionProperties (name, value);
 
@@ -358,10 +361,36 @@ Player::resetProperties (set<string> *props)
 }
 
 void
-Player::schedulePropertyAnimation (const string &name, const string &from,
-                                   const string &to, Time dur)
+Player::schedulePropertyAnimation (const string &name, const string &to,
+                                   Time dur)
 {
-  _animator->schedule (name, from, to, dur);
+  static map<string, list<string> > compound = {
+    { "bounds", { "left", "top", "width", "height" } },
+    { "location", { "left", "top" } },
+    { "size", { "width", "height" } },
+  };
+
+  auto it = compound.find (name);
+  if (it != compound.end ())
+    {
+      list<string> values;
+      size_t n = it->second.size ();
+
+      if (unlikely (!ginga::try_parse_list (to, ',', n, n, &values)))
+        ERROR ("property '%s': bad value '%s'", name.c_str (), to.c_str ());
+
+      auto value = values.begin ();
+      for (auto &part : it->second)
+        _media->setProperty (part, *value++, dur);
+      _properties[name] = to;
+      return;
+    }
+
+  if (_animator->schedule (name, to, dur, _prop.rect, _prop.bgColor,
+                           _prop.alpha))
+    _properties[name] = to;
+  else
+    this->setProperty (name, to); // cannot be animated
 }
 
 void
@@ -374,7 +403,11 @@ void
 Player::redraw (cairo_t *cr)
 {
   g_assert (_state != SLEEPING);
-  _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+  map<string, string> done;
+  _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop,
+                     &done);
+  for (auto &it : done)
+    this->setProperty (it.first, it.second);
 
   if (!_prop.visible || !(_prop.rect.width > 0 && _prop.rect.height > 0))
     {
diff --git a/lib/Player.h b/lib/Player.h
index 461fb06..9d14125 100644
--- a/lib/Player.h
+++ b/lib/Player.h
@@ -109,8 +109,7 @@ public:
   virtual void setProperty (const string &, const string &);
   void resetProperties ();
   void resetProperties (set<string> *);
-  void schedulePropertyAnimation (const string &, const string &,
-                                  const string &, Time);
+  void schedulePropertyAnimation (const string &, const string &, Time);
   virtual void reload ();
   virtual void redraw (cairo_t *);
 
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index e091e0d..3de6f93 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -41,89 +41,89 @@ PlayerAnimator::~PlayerAnimator ()
 void
 PlayerAnimator::clear ()
 {
+  for (AnimInfo *info : _scheduled)
+    delete info;
   _scheduled.clear ();
 }
 
 void
-PlayerAnimator::schedule (const string &name, const string &from,
-                          const string &to, Time dur)
+PlayerAnimator::cancel (const string &name)
 {
+  for (auto it = _scheduled.begin (); it != _scheduled.end ();)
+    {
+      if ((*it)->getProperty () == name
+          || (name == "transparency" && (*it)->getName () == "alpha"))
+        {
+          delete *it;
+          it = _scheduled.erase (it);
+        }
+      else
+        {
+          ++it;
+        }
+    }
+}
 
-  TRACE ("%s from '%s' to '%s' in %" GINGA_TIME_FORMAT, name.c_str (),
-         from.c_str (), to.c_str (), GINGA_TIME_ARGS (dur));
+bool
+PlayerAnimator::schedule (const string &name, const string &to, Time dur,
+                          const Rect &rect, const Color &bgColor,
+                          guint8 alpha)
+{
+  int width = _formatter->getOptionInt ("width");
+  int height = _formatter->getOptionInt ("height");
 
-  list<string> list_pre = { "", "", "", "" };
-  list<string> list_pos;
+  TRACE ("%s to '%s' in %" GINGA_TIME_FORMAT, name.c_str (), to.c_str (),
+         GINGA_TIME_ARGS (dur));
 
-  if (name == "bounds")
-    {
-      if (from != "")
-        list_pre = ginga::parse_list (from, ',', 4, 4);
-      list_pos = ginga::parse_list (to, ',', 4, 4);
-      auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
-      this->doSchedule ("left", *pre++, *pos++, dur);
-      this->doSchedule ("top", *pre++, *pos++, dur);
-      this->doSchedule ("width", *pre++, *pos++, dur);
-      this->doSchedule ("height", *pre++, *pos++, dur);
-    }
-  else if (name == "location")
+  if (name == "left" || name == "top" || name == "width"
+      || name == "height")
     {
-      if (from != "")
-        list_pre = ginga::parse_list (from, ',', 2, 2);
-      list_pos = ginga::parse_list (to, ',', 2, 2);
-      auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
-      this->doSchedule ("left", *pre++, *pos++, dur);
-      this->doSchedule ("top", *pre++, *pos++, dur);
+      double current = (name == "left")
+                           ? rect.x
+                           : (name == "top") ? rect.y
+                                             : (name == "width")
+                                                   ? rect.width
+                                                   : rect.height;
+      int base = (name == "left" || name == "width") ? width : height;
+
+      this->cancel (name);
+      this->doSchedule (name, name, to, current,
+                        ginga::parse_percent (to, base, 0, G_MAXINT), dur);
+      return true;
     }
-  else if (name == "size")
+
+  if (name == "transparency")
     {
-      if (from != "")
-        list_pre = ginga::parse_list (from, ',', 2, 2);
-      list_pos = ginga::parse_list (to, ',', 2, 2);
-      auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
-      this->doSchedule ("width", *pre++, *pos++, dur);
-      this->doSchedule ("height", *pre++, *pos++, dur);
+      this->cancel (name);
+      this->doSchedule ("alpha", name, to, alpha,
+                        255 - ginga::parse_pixel (to), dur);
+      return true;
     }
-  else if (name == "background")
-    {
-      Color pre = { 0, 0, 0, 255 };
-      Color pos;
 
-      string pre_r, pre_g, pre_b;
-      string pos_r, pos_g, pos_b;
-
-      pre = ginga::parse_color (from);
-      pre_r = xstrbuild ("%d", (int) CLAMP (pre.red * 255, 0, 255));
-      pre_g = xstrbuild ("%d", (int) CLAMP (pre.green * 255, 0, 255));
-      pre_b = xstrbuild ("%d", (int) CLAMP (pre.blue * 255, 0, 255));
-
-      pos = ginga::parse_color (to);
-      pos_r = xstrbuild ("%d", (int) CLAMP (pos.red * 255, 0, 255));
-      pos_g = xstrbuild ("%d", (int) CLAMP (pos.green * 255, 0, 255));
-      pos_b = xstrbuild ("%d", (int) CLAMP (pos.blue * 255, 0, 255));
-
-      this->doSchedule ("background:r", pre_r, pos_r, dur);
-      this->doSchedule ("background:g", pre_g, pos_g, dur);
-      this->doSchedule ("background:b", pre_b, pos_b, dur);
-    }
-  else
+  if (name == "background")
     {
-      this->doSchedule (name, from, to, dur);
+      Color target;
+
+      if (to == "" || !(bgColor.alpha > 0))
+        return false; // there is nothing to interpolate
+
+      target = ginga::parse_color (to);
+      this->cancel (name);
+      this->doSchedule ("background:r", name, to, bgColor.red, target.red,
+                        dur);
+      this->doSchedule ("background:g", name, to, bgColor.green,
+                        target.green, dur);
+      this->doSchedule ("background:b", name, to, bgColor.blue, target.blue,
+                        dur);
+      return true;
     }
-}
 
-static bool
-isDone (AnimInfo *info)
-{
-  return info->isDone ();
+  return false;
 }
 
 void
 PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
-                        list<int> *cropPolygon)
+                        list<int> *cropPolygon, map<string, string> *done)
 {
 
 #define UPDATE(info, Type, var, rnd, min, max)                             \
@@ -148,6 +148,16 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
       g_assert (!info->isDone ());
 
       name = info->getName ();
+
+      // The polygon is cleared when the first of its animations ends.
+      if ((xstrhasprefix (name, "barwipe:")
+           || xstrhasprefix (name, "diagonalwipe:"))
+          && cropPolygon->empty ())
+        {
+          info->setDone ();
+          continue;
+        }
+
       if (name == "top")
         {
           UPDATE (info, int, rect->y, lround, G_MININT, G_MAXINT);
@@ -199,9 +209,8 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
               && (*it >= (rect->x + rect->width)))
             {
               info->setStateNode (1);
-              this->updateSchedule (
-                  info, "diagonalwipe:topLeft:x", to_string (rect->y),
-                  to_string (rect->y + rect->height), info->getDuration ());
+              info->update ("diagonalwipe:topLeft:x", rect->y,
+                            rect->y + rect->height, info->getDuration ());
             }
 
           if (info->isDone ())
@@ -219,9 +228,8 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
               && (*it >= (rect->y + rect->height)))
             {
               info->setStateNode (1);
-              this->updateSchedule (
-                  info, "diagonalwipe:topLeft:y", to_string (rect->x),
-                  to_string (rect->x + rect->width), info->getDuration ());
+              info->update ("diagonalwipe:topLeft:y", rect->x,
+                            rect->x + rect->width, info->getDuration ());
             }
 
           if (info->isDone ())
@@ -229,17 +237,17 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else if (name == "background:r")
         {
-          UPDATE (info, double, bgColor->red, round, 0., 1.);
+          UPDATE (info, double, bgColor->red, , 0., 1.);
         }
       else if (name == "background:g")
         {
-          UPDATE (info, double, bgColor->green, round, 0., 1.);
+          UPDATE (info, double, bgColor->green, , 0., 1.);
         }
       else if (name == "background:b")
         {
-          UPDATE (info, double, bgColor->blue, round, 0., 1.);
+          UPDATE (info, double, bgColor->blue, , 0., 1.);
         }
-      else if (name == "transparency")
+      else if (name == "alpha")
         {
           UPDATE (info, guint8, *alpha, lround, 0, 255);
         }
@@ -250,7 +258,29 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
     }
 
-  _scheduled.remove_if (isDone);
+  for (auto it = _scheduled.begin (); it != _scheduled.end ();)
+    {
+      AnimInfo *info = *it;
+      if (!info->isDone ())
+        {
+          ++it;
+          continue;
+        }
+      if (info->getProperty () != "")
+        (*done)[info->getProperty ()] = info->getValue ();
+      it = _scheduled.erase (it);
+      delete info;
+    }
+}
+
+static double
+transitionNumber (map<string, string> &tab, const string &key)
+{
+  double d = 0.;
+  string s = tab[key];
+  if (s != "" && unlikely (!_xstrtod (s, &d)))
+    ERROR ("transition: bad %s '%s'", key.c_str (), s.c_str ());
+  return d;
 }
 
 void
@@ -263,23 +293,28 @@ PlayerAnimator::setTransitionProperties (const string &name,
   string type = tab["type"];
   string subtype = tab["subtype"];
   Time dur = ginga::parse_time (tab["dur"]);
-  gdouble startProgress = stod (tab["startProgress"]);
-  gdouble endProgress = stod (tab["endProgress"]);
+  gdouble startProgress = transitionNumber (tab, "startProgress");
+  gdouble endProgress = transitionNumber (tab, "endProgress");
   string direction = tab["direction"];
   Color fadeColor = ginga::parse_color (tab["fadeColor"]);
-  guint horzRepeat = xstrtouint (tab["horzRepeat"], 10);
-  guint vertRepeat = xstrtouint (tab["vertRepeat"], 10);
-  guint borderWidth = xstrtouint (tab["borderWidth"], 10);
+  guint horzRepeat
+      = (guint) CLAMP (transitionNumber (tab, "horzRepeat"), 0, G_MAXINT);
+  guint vertRepeat
+      = (guint) CLAMP (transitionNumber (tab, "vertRepeat"), 0, G_MAXINT);
+  guint borderWidth
+      = (guint) CLAMP (transitionNumber (tab, "borderWidth"), 0, G_MAXINT);
   Color borderColor = ginga::parse_color (tab["borderColor"]);
 
   if (name == "transIn")
     {
+      delete _transIn;
       _transIn = new TransitionInfo (
           type, subtype, dur, startProgress, endProgress, direction,
           fadeColor, horzRepeat, vertRepeat, borderWidth, borderColor);
     }
   else if (name == "transOut")
     {
+      delete _transOut;
       _transOut = new TransitionInfo (
           type, subtype, dur, startProgress, endProgress, direction,
           fadeColor, horzRepeat, vertRepeat, borderWidth, borderColor);
@@ -339,32 +374,27 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
 
           if (_transIn->subtype == "topToBottom")
             {
-              this->schedule ("barwipe:topToBottom", to_string (rect->y),
-                              to_string (rect->y + rect->height),
-                              _transIn->dur);
+              this->doSchedule ("barwipe:topToBottom", "", "", rect->y,
+                                rect->y + rect->height, _transIn->dur);
             }
           else
             {
-              this->schedule ("barwipe:leftToRight", to_string (rect->x),
-                              to_string (rect->x + rect->width),
-                              _transIn->dur);
+              this->doSchedule ("barwipe:leftToRight", "", "", rect->x,
+                                rect->x + rect->width, _transIn->dur);
             }
         }
       else if (_transIn->type == "diagonalWipe")
         {
           createPolygon (_transIn->type, rect, cropPoly);
 
-          this->schedule ("diagonalwipe:topLeft:x", to_string (rect->x),
-                          to_string (rect->x + rect->width),
-                          _transIn->dur / 2);
-          this->schedule ("diagonalwipe:topLeft:y", to_string (rect->y),
-                          to_string (rect->y + rect->height),
-                          _transIn->dur / 2);
+          this->doSchedule ("diagonalwipe:topLeft:x", "", "", rect->x,
+                            rect->x + rect->width, _transIn->dur / 2);
+          this->doSchedule ("diagonalwipe:topLeft:y", "", "", rect->y,
+                            rect->y + rect->height, _transIn->dur / 2);
         }
       else
         {
-          this->schedule ("transparency", "0", to_string (*alpha),
-                          _transIn->dur);
+          this->doSchedule ("alpha", "", "", 0, *alpha, _transIn->dur);
         }
     }
   else
@@ -377,102 +407,23 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
 // PlayerAnimator: Private.
 
 void
-PlayerAnimator::updateSchedule (AnimInfo *info, const string &name,
-                                const string &from, const string &to,
-                                Time dur)
+PlayerAnimator::doSchedule (const string &name, const string &property,
+                            const string &value, double from, double to,
+                            Time dur)
 {
-  double current;
-  double target;
-  int width;
-  int height;
-
-  current = 0;
-  width = _formatter->getOptionInt ("width");
-  height = _formatter->getOptionInt ("height");
-
-  if (name == "top" || name == "height")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, height, 0, G_MAXINT);
-      target = ginga::parse_percent (to, height, 0, G_MAXINT);
-    }
-  else if (name == "left" || name == "width")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, width, 0, G_MAXINT);
-      target = ginga::parse_percent (to, width, 0, G_MAXINT);
-    }
-  else if (name == "transparency" || name == "background")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, 255, 0, 255);
-      target = ginga::parse_percent (to, 255, 0, 255);
-    }
-  else
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, 100, 0, G_MAXINT);
-      target = ginga::parse_percent (to, 100, 0, G_MAXINT);
-    }
-
-  info->update (name, current, target, dur);
-}
-
-void
-PlayerAnimator::doSchedule (const string &name, const string &from,
-                            const string &to, Time dur)
-{
-
-  AnimInfo *info;
-  double current;
-  double target;
-  int width;
-  int height;
-
-  current = 0;
-  width = _formatter->getOptionInt ("width");
-  height = _formatter->getOptionInt ("height");
-
-  TRACE ("---> from %s", from.c_str ());
-  TRACE ("---> to %s", to.c_str ());
-
-  if (name == "top" || name == "height")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, height, 0, G_MAXINT);
-      target = ginga::parse_percent (to, height, 0, G_MAXINT);
-    }
-  else if (name == "left" || name == "width")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, width, 0, G_MAXINT);
-      target = ginga::parse_percent (to, width, 0, G_MAXINT);
-    }
-  else if (name == "transparency" || name == "background")
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, 255, 0, 255);
-      target = ginga::parse_percent (to, 255, 0, 255);
-    }
-  else
-    {
-      if (from != "")
-        current = ginga::parse_percent (from, 100, 0, G_MAXINT);
-      target = ginga::parse_percent (to, 100, 0, G_MAXINT);
-    }
-
-  info = new AnimInfo (name, current, target, dur);
-  if (from != "")
-    info->init (current, *_time);
-
+  AnimInfo *info = new AnimInfo (name, property, value, from, to, dur);
+  info->init (from, *_time);
   _scheduled.push_back (info);
 }
 
 // AnimInfo.
 
-AnimInfo::AnimInfo (const string &name, double from, double to, Time dur)
+AnimInfo::AnimInfo (const string &name, const string &property,
+                    const string &value, double from, double to, Time dur)
 {
   _name = name;
+  _property = property;
+  _value = value;
   _current = from;
   _target = to;
   _duration = dur;
@@ -503,6 +454,18 @@ AnimInfo::getName ()
   return _name;
 }
 
+string
+AnimInfo::getProperty ()
+{
+  return _property;
+}
+
+string
+AnimInfo::getValue ()
+{
+  return _value;
+}
+
 double
 AnimInfo::getCurrent ()
 {
@@ -527,6 +490,12 @@ AnimInfo::isDone ()
   return _done;
 }
 
+void
+AnimInfo::setDone ()
+{
+  _done = true;
+}
+
 bool
 AnimInfo::isInit ()
 {
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index b71cf74..4854c39 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -28,10 +28,13 @@ namespace ginga {
 class AnimInfo
 {
 public:
-  AnimInfo (const string &, double, double, Time);
+  AnimInfo (const string &, const string &, const string &, double, double,
+            Time);
   ~AnimInfo ();
 
   string getName ();
+  string getProperty ();
+  string getValue ();
   double getCurrent ();
   double getTarget ();
   Time getDuration ();
@@ -40,13 +43,16 @@ public:
   void setStateNode (int);
   void update (const string &, double, double, Time);
   bool isDone ();
+  void setDone ();
   bool isInit ();
 
   void init (double current, Time time);
   void update (Time time);
 
 private:
-  string _name;      // property name
+  string _name;      // name of the animated quantity
+  string _property;  // property being animated ("" if none)
+  string _value;     // value of that property in the end
   double _current;   // current value
   double _target;    // target value
   Time _duration;    // animation duration
@@ -87,8 +93,11 @@ public:
   PlayerAnimator (Formatter *, Time *);
   ~PlayerAnimator ();
   void clear ();
-  void schedule (const string &, const string &, const string &, Time);
-  void update (Rect *, Color *, guint8 *, list<int> *);
+  void cancel (const string &);
+  bool schedule (const string &, const string &, Time, const Rect &,
+                 const Color &, guint8);
+  void update (Rect *, Color *, guint8 *, list<int> *,
+               map<string, string> *);
   void setTransitionProperties (const string &, const string &);
   void scheduleTransition (const string &, Rect *, Color *, guint8 *,
                            list<int> *);
@@ -100,9 +109,8 @@ private:
   TransitionInfo *_transOut;
   Time *_time;
 
-  void doSchedule (const string &, const string &, const string &, Time);
-  void updateSchedule (AnimInfo *, const string &, const string &,
-                       const string &, Time);
+  void doSchedule (const string &, const string &, const string &, double,
+                   double, Time);
 };
 
 }
-- 
2.43.0


From 4b221d8e90e10ff8d6dc17be954f1c596ab5b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 24/85] fix: relative seeks of a video computed the wrong time

---
 lib/PlayerVideo.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 82e7bf8..bd3bb26 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -554,18 +554,22 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             TRACE ("time: %" GST_TIME_FORMAT " / %" GST_TIME_FORMAT,
                    GST_TIME_ARGS (cur), GST_TIME_ARGS (dur));
 
-            try_parse_time (value, &t);
+            // The value may be relative to the current time.
+            bool inc = xstrhasprefix (value, "+");
+            bool dec = xstrhasprefix (value, "-");
+            if (!try_parse_time (inc || dec ? value.substr (1) : value, &t))
+              return false;
             next = (gint64) (t);
-            if (xstrhasprefix (value, "+"))
+            if (inc)
               {
                 if (next + cur >= dur)
                   setEOS (true);
 
                 next += cur;
               }
-            else if (xstrhasprefix (value, "-"))
+            else if (dec)
               {
-                next = (next - cur < 0) ? 0 : next - cur;
+                next = (cur - next < 0) ? 0 : cur - next;
               }
             seek (next);
           }
-- 
2.43.0


From 230f3b5802ec53ac4930873a8d78fb8e9b3cc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 25/85] fix: out-of-range times, percentages and short tables
 were undefined behaviour or wrapped

---
 lib/aux-ginga.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 263db7e..1fc80f1 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -155,7 +155,7 @@ try_parse_table (const string &s, map<string, string> *result)
   map<string, string> tab;
 
   str = xstrstrip (s);
-  if (str.front () != '{' || str.back () != '}')
+  if (str.length () < 2 || str.front () != '{' || str.back () != '}')
     return false;
 
   str.assign (str.substr (1, str.length () - 2));
@@ -172,6 +172,8 @@ try_parse_table (const string &s, map<string, string> *result)
       key = xstrstrip (*pr_it++);
       val = xstrstrip (*pr_it++);
       g_assert (pr_it == pr.end ());
+      if (unlikely (val.length () < 2))
+        return false;
       if (unlikely (!((val.front () == '\'' && val.back () == '\'')
                       || (val.front () == '"' && val.back () == '"'))))
         {
@@ -196,29 +198,35 @@ try_parse_time (const string &s, Time *result)
   gchar *dup;
   gchar *end;
   double secs;
+  double mins;
 
   dup = g_strdup (s.c_str ());
   g_assert_nonnull (dup);
   g_strchomp (dup);
 
-  secs = g_strtod (dup, &end);
+  secs = g_ascii_strtod (dup, &end);
   if (*end == '\0' || g_str_equal (end, "s"))
     goto success;
 
-  if (*end != ':')
+  if (*end != ':' || !(secs >= 0))
     goto failure;
 
   end++;
-  secs = 3600 * secs + 60 * g_strtod (end, &end);
-  if (*end != ':')
+  mins = g_ascii_strtod (end, &end);
+  if (*end != ':' || !(mins >= 0))
     goto failure;
+  mins += 60 * secs;
 
   end++;
-  secs += g_strtod (end, &end);
-  if (*end != '\0')
+  secs = g_ascii_strtod (end, &end);
+  if (*end != '\0' || !(secs >= 0))
     goto failure;
+  secs += 60 * mins;
 
 success:
+  // The time must be representable (and not a negative time or a NaN).
+  if (!(secs >= 0 && secs * GINGA_SECOND < (double) G_MAXINT64))
+    goto failure;
   g_free (dup);
   tryset (result, (Time) (secs * GINGA_SECOND));
   return true;
@@ -273,18 +281,13 @@ parse_percent (const string &s, int base, int min, int max)
 {
   bool percent;
   double d;
-  int result;
 
   d = xstrtodorpercent (s, &percent);
   if (percent)
-    {
-      result = (int) lround (d * base);
-    }
-  else
-    {
-      result = (int) lround (d);
-    }
-  return (int) CLAMP (result, min, max);
+    d *= base;
+  if (!(d > min)) // also if not a number
+    return min;
+  return (d < max) ? (int) lround (d) : max;
 }
 
 /**
-- 
2.43.0


From da0c35c9a3fdd7ef5c2fd560483df2e350b450cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 26/85] fix: a non-numeric zIndex, zOrder, speed or border
 width aborted without naming the property

---
 lib/Player.cpp      | 6 ++++++
 lib/PlayerVideo.cpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index df48d39..7594d7c 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -706,6 +706,8 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_FOCUS_BORDER_WIDTH:
       {
+        if (unlikely (!_xstrtoll (value, nullptr, 10)))
+          return false;
         _prop.focusBorderWidth = xstrtoint (value, 10);
         break;
       }
@@ -798,11 +800,15 @@ Player::doSetProperty (Property code, unused (const string &name),
       }
     case PROP_Z_INDEX:
       {
+        if (unlikely (!_xstrtoll (value, nullptr, 10)))
+          return false;
         _prop.zindex = xstrtoint (value, 10);
         break;
       }
     case PROP_Z_ORDER:
       {
+        if (unlikely (!_xstrtoll (value, nullptr, 10)))
+          return false;
         _prop.zorder = xstrtoint (value, 10);
         break;
       }
diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index bd3bb26..dc4a2e0 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -525,6 +525,8 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
 
         if (_state != SLEEPING)
           {
+            if (unlikely (!_xstrtod (value, nullptr)))
+              return false;
             _prop.speed = xstrtod (value);
             speed (_prop.speed);
           }
-- 
2.43.0


From 3700af60a784938a80f3737072073ebe14af5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 27/85] fix: a percent value of bottom was relative to the
 height of the media, not of the screen

---
 lib/Player.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 7594d7c..304cc6e 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -753,8 +753,9 @@ Player::doSetProperty (Property code, unused (const string &name),
     case PROP_RIGHT:
       {
         int width = _formatter->getOptionInt ("width");
-        _prop.rect.x = width - _prop.rect.width
-                       - ginga::parse_percent (value, width, 0, G_MAXINT);
+        gint64 x = (gint64) width - _prop.rect.width
+                   - ginga::parse_percent (value, width, 0, G_MAXINT);
+        _prop.rect.x = (int) MAX (x, G_MININT);
         _dirty = true;
         break;
       }
@@ -768,9 +769,9 @@ Player::doSetProperty (Property code, unused (const string &name),
     case PROP_BOTTOM:
       {
         int height = _formatter->getOptionInt ("height");
-        _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, _prop.rect.height, 0,
-                                               G_MAXINT);
+        gint64 y = (gint64) height - _prop.rect.height
+                   - ginga::parse_percent (value, height, 0, G_MAXINT);
+        _prop.rect.y = (int) MAX (y, G_MININT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From 890e50d6881e1852cd7940f0a654f156abb13749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 28/85] fix: interfaces declared by later references or
 descriptors were not found, references to settings leaked, nested
 right/bottom regions were misplaced

---
 lib/Parser.cpp | 292 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 205 insertions(+), 87 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab8d927..ed0b73f 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -263,9 +263,15 @@ private:
   ///< Rectangle stack for solving region hierarchy.
   list<Rect> _rectStack;
 
+  ///< Compositions (and their elements) in the order in which they ended.
+  list<pair<Composition *, ParserElt *> > _compositions;
+
   ///< Reference map for solving the refer attribute in \<media\>.
   map<string, Media *> _referMap;
 
+  ///< Media that were referred to but not found (yet).
+  set<Media *> _referPending;
+
   string genId ();
   string getURI ();
   bool isInUniqueSet (const string &);
@@ -321,6 +327,8 @@ private:
   // Reference solving.
   bool resolveComponent (Composition *, ParserElt *, Object **);
   bool resolveInterface (Composition *, ParserElt *, Event **);
+  bool resolvePorts (Context *, ParserElt *);
+  bool resolveSwitch (Switch *, ParserElt *);
   string resolveParameter (const string &, const map<string, string> *,
                            const map<string, string> *,
                            const map<string, string> *);
@@ -1091,8 +1099,12 @@ ParserElt::setData (const string &key, void *value, UserDataCleanFunc fn)
 string
 ParserState::genId ()
 {
-  string id = xstrbuild ("__unamed-%d__", _genid++);
-  g_assert_false (isInUniqueSet (id));
+  string id;
+  do
+    {
+      id = xstrbuild ("__unamed-%d__", _genid++);
+    }
+  while (isInUniqueSet (id));
   return id;
 }
 
@@ -1179,7 +1191,7 @@ ParserState::errElt (xmlNode *node, ParserState::Error error,
     {
       string path = toCPPString (node->doc->URL);
       xmlChar *s = xmlBuildURI (toXmlChar (path), node->doc->URL);
-      string uri = toCPPString (s);
+      string uri = (s != nullptr) ? toCPPString (s) : path;
       xmlFree (s);
       _errorMsg = uri + ": ";
     }
@@ -1805,6 +1817,95 @@ fail:
                                    "no such interface");
 }
 
+/**
+ * @brief Resolves the ports of \<body\> or \<context\> element.
+ * @param ctx The associated context.
+ * @param elt Element wrapper.
+ * @return \c true if successful, or \c false otherwise.
+ */
+bool
+ParserState::resolvePorts (Context *ctx, ParserElt *elt)
+{
+  list<string> *ports;
+
+  // Resolve port references.
+  UDATA_GET (elt, "ports", &ports);
+  for (auto port_id : *ports)
+    {
+      ParserElt *port_elt;
+      Event *evt;
+
+      g_assert (this->eltCacheIndexById (port_id, &port_elt, { "port" }));
+      if (unlikely (!this->resolveInterface (ctx, port_elt, &evt)))
+        return false;
+
+      ctx->addPort (evt);
+    }
+
+  return true;
+}
+
+/**
+ * @brief Resolves the bind-rules and switch-ports of \<switch\> element.
+ * @param swtch The associated switch.
+ * @param elt Element wrapper.
+ * @return \c true if successful, or \c false otherwise.
+ */
+bool
+ParserState::resolveSwitch (Switch *swtch, ParserElt *elt)
+{
+  list<pair<ParserElt *, Object *> > *rules;
+  list<string> *switchPorts;
+
+  // Resolve bind-rule and default-component  references.
+  UDATA_GET (elt, "rules", &rules);
+  for (auto &it : *rules)
+    {
+      ParserElt *bind_elt;
+      Object *obj;
+
+      bind_elt = it.first;
+      g_assert_nonnull (bind_elt);
+
+      if (unlikely (!this->resolveComponent (swtch, bind_elt, &obj)))
+        return false;
+
+      g_assert_nonnull (obj);
+      it.second = obj;
+    }
+
+  // Resolve switchPort references (each switchPort is added as a new
+  // PresentationEvent, which will be handled internally by the switch).
+  UDATA_GET (elt, "switchPorts", &switchPorts);
+  for (auto switchPort_id : *switchPorts)
+    {
+      ParserElt *switchPort_elt;
+      list<ParserElt *> *mappings;
+
+      g_assert (this->eltCacheIndexById (switchPort_id, &switchPort_elt,
+                                       { "switchPort" }));
+      UDATA_GET (switchPort_elt, "mappings", &mappings);
+
+      list<Event *> mapping_evts;
+      for (auto &mapping_elt : *mappings)
+        {
+          Event *evt;
+          string comp, interf;
+          mapping_elt->getAttribute ("component", &comp);
+          mapping_elt->getAttribute ("interface", &interf);
+
+          if (unlikely (!this->resolveInterface (swtch, mapping_elt, &evt)))
+            return false;
+
+          mapping_evts.push_back (evt);
+        }
+
+      swtch->addSwitchPort (switchPort_id, mapping_evts);
+    }
+
+  return true;
+}
+
 /**
  * @brief Resolve reference to (bind, link, or ghost) parameter.
  *
@@ -2233,6 +2334,7 @@ ParserState::ParserState (int width, int height)
   g_assert_cmpint (width, >, 0);
   g_assert_cmpint (height, >, 0);
   _genid = 0;
+  _unique = { "__root__", "__settings__" }; // reserved
   _error = ParserState::ERROR_NONE;
   _errorMsg = "no error";
   this->rectStackPush ({ 0, 0, width, height });
@@ -2245,6 +2347,8 @@ ParserState::~ParserState ()
 {
   for (auto it : _eltCache)
     delete it.second;
+  for (auto media : _referPending)
+    delete media;
 }
 
 /**
@@ -2304,15 +2408,15 @@ bool
 ParserState::pushNcl (ParserState *st, ParserElt *elt)
 {
   Context *root;
-  string *id = new string ();
+  string id;
 
   root = st->_doc->getRoot ();
   g_assert_nonnull (root);
 
-  if (elt->getAttribute ("id", id))
+  if (elt->getAttribute ("id", &id))
     {
-      root->addAlias (*id);
-      st->_doc->setData ("id", id, xstrdelete);
+      root->addAlias (id);
+      st->_doc->setData ("id", new string (id), xstrdelete);
     }
 
   st->objStackPush (root);
@@ -2362,8 +2466,14 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "no such region");
                 }
               for (auto it : *region_elt->getAttributes ())
-                if (it.first != "id")
+                {
+                  if (it.first == "id")
+                    continue;
+                  if ((it.first == "right" || it.first == "bottom")
+                      && it.second[0] == '-')
+                    continue; // off-screen, left or top are enough
                   desc_elt->setAttribute (it.first, it.second);
+                }
             }
 
           for (gsize i = 0; i < G_N_ELEMENTS (trans_attr); i++)
@@ -2492,6 +2602,21 @@ borderColor='%s'}",
         }
     }
 
+  // Resolve ports, bind rules, and switch ports of compositions.
+  for (auto &it : st->_compositions)
+    {
+      if (instanceof (Context *, it.first))
+        {
+          if (!st->resolvePorts (cast (Context *, it.first), it.second))
+            return false;
+        }
+      else
+        {
+          if (!st->resolveSwitch (cast (Switch *, it.first), it.second))
+            return false;
+        }
+    }
+
   // Resolve bind rules and default components in switches.
   // (I.e., finish parsing <bindRule> and <defaultComponent>.)
   if (st->eltCacheIndexByTag ({ "switch" }, &switch_list) > 0)
@@ -2866,13 +2991,15 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
 
   screen = st->_rectStack.front ();
   rect = parent = st->rectStackPeek ();
+  gint64 x = rect.x;
+  gint64 y = rect.y;
   if (elt->getAttribute ("left", &str))
     {
-      rect.x += ginga::parse_percent (str, parent.width, 0, G_MAXINT);
+      x += ginga::parse_percent (str, parent.width, 0, G_MAXINT);
     }
   if (elt->getAttribute ("top", &str))
     {
-      rect.y += ginga::parse_percent (str, parent.height, 0, G_MAXINT);
+      y += ginga::parse_percent (str, parent.height, 0, G_MAXINT);
     }
   if (elt->getAttribute ("width", &str))
     {
@@ -2884,14 +3011,16 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
     }
   if (elt->getAttribute ("right", &str))
     {
-      rect.x += parent.width - rect.width
-                - ginga::parse_percent (str, parent.width, 0, G_MAXINT);
+      x += (gint64) parent.width - rect.width
+           - ginga::parse_percent (str, parent.width, 0, G_MAXINT);
     }
   if (elt->getAttribute ("bottom", &str))
     {
-      rect.y += parent.height - rect.height
-                - ginga::parse_percent (str, parent.height, 0, G_MAXINT);
+      y += (gint64) parent.height - rect.height
+           - ginga::parse_percent (str, parent.height, 0, G_MAXINT);
     }
+  rect.x = (int) CLAMP (x, G_MININT, G_MAXINT);
+  rect.y = (int) CLAMP (y, G_MININT, G_MAXINT);
 
   // Update region position to absolute values.
   st->rectStackPush (rect);
@@ -2905,6 +3034,18 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
   elt->setAttribute ("top", xstrbuild ("%g%%", top));
   elt->setAttribute ("width", xstrbuild ("%g%%", width));
   elt->setAttribute ("height", xstrbuild ("%g%%", height));
+  if (elt->getAttribute ("right", nullptr))
+    {
+      double right = (double) screen.width - rect.x - rect.width;
+      elt->setAttribute ("right",
+                         xstrbuild ("%g%%", right / screen.width * 100.));
+    }
+  if (elt->getAttribute ("bottom", nullptr))
+    {
+      double bottom = (double) screen.height - rect.y - rect.height;
+      elt->setAttribute ("bottom",
+                         xstrbuild ("%g%%", bottom / screen.height * 100.));
+    }
 
   return true;
 }
@@ -3605,24 +3746,12 @@ bool
 ParserState::popContext (ParserState *st, ParserElt *elt)
 {
   Context *ctx;
-  list<string> *ports;
 
   ctx = cast (Context *, st->objStackPeek ());
   g_assert_nonnull (ctx);
 
-  // Resolve port references.
-  UDATA_GET (elt, "ports", &ports);
-  for (auto port_id : *ports)
-    {
-      ParserElt *port_elt;
-      Event *evt;
-
-      g_assert (st->eltCacheIndexById (port_id, &port_elt, { "port" }));
-      if (unlikely (!st->resolveInterface (ctx, port_elt, &evt)))
-        return false;
-
-      ctx->addPort (evt);
-    }
+  // The ports are resolved when the whole document is known.
+  st->_compositions.push_back (std::make_pair (ctx, elt));
 
   st->objStackPop ();
   return true;
@@ -3771,60 +3900,16 @@ ParserState::pushMapping (ParserState *st, ParserElt *elt)
  * @return \c true if successful, or \c false otherwise.
  */
 bool
-ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
+ParserState::popSwitch (ParserState *st, ParserElt *elt)
 {
   Switch *swtch;
-  list<pair<ParserElt *, Object *> > *rules;
-  list<string> *switchPorts;
 
   swtch = cast (Switch *, st->objStackPeek ());
   g_assert_nonnull (swtch);
 
-  // Resolve bind-rule and default-component  references.
-  UDATA_GET (elt, "rules", &rules);
-  for (auto &it : *rules)
-    {
-      ParserElt *bind_elt;
-      Object *obj;
-
-      bind_elt = it.first;
-      g_assert_nonnull (bind_elt);
-
-      if (unlikely (!st->resolveComponent (swtch, bind_elt, &obj)))
-        return false;
-
-      g_assert_nonnull (obj);
-      it.second = obj;
-    }
-
-  // Resolve switchPort references (each switchPort is added as a new
-  // PresentationEvent, which will be handled internally by the switch).
-  UDATA_GET (elt, "switchPorts", &switchPorts);
-  for (auto switchPort_id : *switchPorts)
-    {
-      ParserElt *switchPort_elt;
-      list<ParserElt *> *mappings;
-
-      g_assert (st->eltCacheIndexById (switchPort_id, &switchPort_elt,
-                                       { "switchPort" }));
-      UDATA_GET (switchPort_elt, "mappings", &mappings);
-
-      list<Event *> mapping_evts;
-      for (auto &mapping_elt : *mappings)
-        {
-          Event *evt;
-          string comp, interf;
-          mapping_elt->getAttribute ("component", &comp);
-          mapping_elt->getAttribute ("interface", &interf);
-
-          if (unlikely (!st->resolveInterface (swtch, mapping_elt, &evt)))
-            return false;
-
-          mapping_evts.push_back (evt);
-        }
-
-      swtch->addSwitchPort (switchPort_id, mapping_evts);
-    }
+  // The bind-rules and switch-ports are resolved when the whole document is
+  // known.
+  st->_compositions.push_back (std::make_pair (swtch, elt));
 
   st->objStackPop ();
 
@@ -3915,6 +4000,7 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
               // (a) if an Media, the Parser will set uri, type and parent
               // (b) if an MediaSettings, the Parser will replace
               media = new Media (refer);
+              st->_referPending.insert (media);
             }
 
           st->referMapAdd (refer, media);
@@ -3939,18 +4025,47 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
 
           // if there are refers to this MediaSettings, those refers
           // are using a tmp Media, which should be this MediaSettings
-          st->referMapIndex (id, &tmpMedia);
-          if (tmpMedia)
+          if (st->referMapIndex (id, &tmpMedia)
+              && st->_referPending.erase (tmpMedia) > 0)
             {
-              auto it = st->_referMap.begin ();
-              while ((*it).second == tmpMedia)
+              for (auto &it : st->_referMap)
                 {
-                  st->_referMap[(*it).first] = media;
-                  media->addAlias ((*it).first);
-                  it++;
+                  if (it.second == tmpMedia)
+                    it.second = media;
+                }
+              for (auto &it : *tmpMedia->getAliases ())
+                media->addAlias (it.first, it.second);
+
+              // Move what the references have declared.
+              for (auto evt : *tmpMedia->getEvents ())
+                {
+                  string str;
+                  Time begin, end;
+
+                  if (evt->getType () == Event::ATTRIBUTION)
+                    {
+                      media->addAttributionEvent (evt->getId ());
+                      str = tmpMedia->getProperty (evt->getId ());
+                      if (str != "")
+                        media->setProperty (evt->getId (), str);
+                    }
+                  else if (evt->isLambda ())
+                    {
+                      continue;
+                    }
+                  else if (evt->hasLabel ())
+                    {
+                      media->addPresentationEvent (evt->getId (),
+                                                   evt->getLabel ());
+                    }
+                  else
+                    {
+                      evt->getInterval (&begin, &end);
+                      media->addPresentationEvent (evt->getId (), begin,
+                                                   end);
+                    }
                 }
-              if (it != st->_referMap.begin ())
-                delete tmpMedia;
+              delete tmpMedia;
             }
 
           gchar *scheme = g_uri_parse_scheme (src.c_str ());
@@ -3977,7 +4092,8 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
               // Makes uri based in the main document uri
               xmlChar *s = xmlBuildURI (toXmlChar (src),
                                         toXmlChar (st->getURI ()));
-              src = toCPPString (s);
+              if (likely (s != nullptr))
+                src = toCPPString (s);
               if (!xpathisuri (src))
                 {
                   src = xurifromsrc (src, "");
@@ -3989,6 +4105,7 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
             {
               media = new Media (id);
             }
+          st->_referPending.erase (media);
           // create new Media src filled or empty (timer)
           media->setProperty ("uri", src);
           media->setProperty ("type", type);
@@ -4219,7 +4336,8 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   if (st->getURI () != "")
     {
       xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
-      src = toCPPString (s);
+      if (likely (s != nullptr))
+        src = toCPPString (s);
       xmlFree (s);
       src = xpathfromuri (src.c_str ());
     }
-- 
2.43.0


From 566b795a041838cf4e59ff6d5ee604018f53109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 29/85] fix: a missing or unreadable image aborted on an
 assertion and leaked its file

---
 lib/PlayerImage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerImage.cpp b/lib/PlayerImage.cpp
index 5f5b88e..f9f3fdd 100644
--- a/lib/PlayerImage.cpp
+++ b/lib/PlayerImage.cpp
@@ -39,7 +39,7 @@ cairox_surface_create_from_uri (const char *path, cairo_surface_t **dup)
   g_assert_nonnull (file);
 
   GFileInputStream *input = g_file_read (file, NULL, &error);
-  g_assert_nonnull (input);
+  g_object_unref (file);
   if (input)
     {
       pixbuf = gdk_pixbuf_new_from_stream (G_INPUT_STREAM (input), NULL,
@@ -48,7 +48,7 @@ cairox_surface_create_from_uri (const char *path, cairo_surface_t **dup)
     }
   else
     {
-      ERROR ("%s.", error->message);
+      ERROR ("cannot load image file %s: %s", path, error->message);
       g_error_free (error);
     }
 
-- 
2.43.0


From 2114c77598bc57d8ac119a278f510783f9c85b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 30/85] fix: remote or invalid URIs of imported bases,
 documents and fonts aborted or were taken as local paths

---
 lib/Parser.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ed0b73f..a927ba1 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3611,7 +3611,8 @@ ParserState::pushImportBase (ParserState *st, ParserElt *elt)
     main_uri = st->getURI ();
 
   // if imported_uri is relative path build a new path based in main_uri
-  if (!xpathisabs (imported_uri) && main_uri != "")
+  if (!xpathisuri (imported_uri) && !xpathisabs (imported_uri)
+      && main_uri != "")
     {
       imported_uri = xpathbuild (xpathdirname (xpathfromuri (main_uri)),
                                  imported_uri);
@@ -4339,7 +4340,15 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       if (likely (s != nullptr))
         src = toCPPString (s);
       xmlFree (s);
-      src = xpathfromuri (src.c_str ());
+
+      gchar *path = g_filename_from_uri (src.c_str (), nullptr, nullptr);
+      if (unlikely (path == nullptr))
+        {
+          return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                         "not a local file");
+        }
+      src = string (path);
+      g_free (path);
     }
   else
     src = xpathmakeabs (src);
@@ -4380,8 +4389,13 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
 
       //      FcPatternPrint (new_font);
     }
+  else
+    {
+      return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                     "cannot load font");
+    }
 
-  return (fontAddStatus == FcTrue);
+  return true;
 }
 
 // External API.
@@ -4450,7 +4464,7 @@ Parser::parseFile (const string &path, int width, int height,
   string uri = path;
 
   // Makes the path absolute based in the current dir
-  if (!xpathisabs (path))
+  if (!xpathisuri (path) && !xpathisabs (path))
     uri = xpathmakeabs (path);
 
   uri = xurifromsrc (uri, "");
-- 
2.43.0


From 0b47299aa12fe7eea8e723bfb2011c36b4507328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 31/85] fix: pausing or resuming a Lua media, or a script
 posting an unknown label, property or action, aborted

---
 lib/PlayerLua.cpp | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index 86d4a19..5ea8ee0 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -62,7 +62,7 @@ PlayerLua::start ()
 
   g_assert (_state != OCCURRING);
   g_assert_null (_nw);
-  GError *err;
+  GError *err = nullptr;
   char *filename = g_filename_from_uri (_prop.uri.c_str (), NULL, &err);
   if (filename == NULL)
     {
@@ -106,18 +106,22 @@ PlayerLua::stop ()
   Player::stop ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::pause ()
 {
   g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert_nonnull (_nw);
+  evt_ncl_send_presentation (_nw, "pause", "");
+  Player::pause ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::resume ()
 {
-  g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert (_state == PAUSED);
+  g_assert_nonnull (_nw);
+  evt_ncl_send_presentation (_nw, "resume", "");
+  Player::resume ();
 }
 
 void
@@ -181,6 +185,13 @@ PlayerLua::redraw (cairo_t *cr)
           continue; // nothing to do
         }
 
+      if (unlikely (nclua_act_to_ncl.count (evt->u.ncl.action) == 0))
+        {
+          WARNING ("script posted unknown action '%s'", evt->u.ncl.action);
+          ncluaw_event_free (evt);
+          continue;
+        }
+
       if (g_str_equal (evt->u.ncl.type, "presentation"))
         {
           Event *nclEvt;
@@ -191,20 +202,23 @@ PlayerLua::redraw (cairo_t *cr)
           else
             nclEvt = _media->getPresentationEventByLabel (label);
 
-          g_assert_nonnull (nclEvt);
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action) != 0);
-          _media->addDelayedAction (
-              nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action));
+          if (likely (nclEvt != nullptr))
+            _media->addDelayedAction (
+                nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action));
+          else
+            WARNING ("script posted event for unknown label '%s'",
+                     label.c_str ());
         }
       else if (g_str_equal (evt->u.ncl.type, "attribution"))
         {
           Event *nclEvt = _media->getAttributionEvent (evt->u.ncl.name);
-          g_assert_nonnull (nclEvt);
-
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action));
-          _media->addDelayedAction (nclEvt,
-                                    nclua_act_to_ncl.at (evt->u.ncl.action),
-                                    evt->u.ncl.value);
+          if (likely (nclEvt != nullptr))
+            _media->addDelayedAction (
+                nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action),
+                evt->u.ncl.value);
+          else
+            WARNING ("script posted event for unknown property '%s'",
+                     evt->u.ncl.name);
         }
       ncluaw_event_free (evt);
     }
-- 
2.43.0


From b3f0d54ccb483d44d9c2167630e3d72238806c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 32/85] fix: uninitialised GError, leaked error and text
 truncated at a NUL byte

---
 lib/aux-ginga.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 1fc80f1..bb3f279 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -665,7 +665,7 @@ string
 xpathfromuri (const string &uri)
 {
   string path;
-  GError *err;
+  GError *err = nullptr;
 
   gchar *g_path = g_filename_from_uri (uri.c_str (), nullptr, &err);
   if (g_path == nullptr)
@@ -701,7 +701,7 @@ xurifromsrc (const string &src, const string &basesrc = "")
       else
         abs = xpathbuildabs (basesrc, src);
 
-      GError *err;
+      GError *err = nullptr;
       gchar *g_uri = g_filename_to_uri (abs.c_str (), NULL, &err);
       if (g_uri == nullptr)
         {
@@ -742,7 +742,7 @@ xurigetcontents (const string &uri, string &data)
   if (ret)
     {
       g_assert_null (err);
-      data = string (gdata);
+      data = string (gdata, len);
       g_free (gdata);
     }
   else
@@ -754,6 +754,7 @@ xurigetcontents (const string &uri, string &data)
 
       WARNING ("cannot load content from uri '%s': %s", uri.c_str (),
                msg.c_str ());
+      g_error_free (err);
     }
 
   g_object_unref (file);
-- 
2.43.0


From 7724a548767d0e538628766cee09f358754f2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 33/85] fix: starting a switch port evaluated links in the
 middle of its transition

---
 lib/Document.cpp | 23 ++++++++++++++++++++++-
 lib/Switch.cpp   |  6 +++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 04bd964..6ff790b 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -309,15 +309,20 @@ int
 Document::evalAction (Action init)
 {
   list<Action> stack;
+  Event *done_evt; // event whose transition was already performed
   int n;
 
   stack.push_back (init);
+  done_evt = nullptr;
   n = 0;
 
   while (!stack.empty ())
     {
       Action act;
       Event *evt;
+      Event *lambda;
+      bool asleep;
+      bool whole;
       Object *obj;
       Composition *comp;
       Context *ctx_parent;
@@ -337,9 +342,17 @@ Document::evalAction (Action init)
       if (evt->getType () == Event::ATTRIBUTION)
         evt->setParameter ("value", act.value);
 
-      if (!evt->transition (act.transition))
+      lambda = evt->getObject ()->getLambda ();
+      g_assert_nonnull (lambda);
+      asleep = lambda->getState () == Event::SLEEPING;
+
+      if (evt != done_evt && !evt->transition (act.transition))
         continue;
 
+      // Whether an action on a switch port started or ended the whole switch.
+      whole = instanceof (Switch *, evt->getObject ()) && evt != lambda
+              && asleep != (lambda->getState () == Event::SLEEPING);
+      done_evt = nullptr;
       n++;
       obj = evt->getObject ();
       g_assert_nonnull (obj);
@@ -441,6 +454,14 @@ Document::evalAction (Action init)
                 }
             }
         }
+
+      // If the whole switch was started or ended, trigger the switch itself.
+      if (whole)
+        {
+          act.event = lambda;
+          stack.push_back (act);
+          done_evt = lambda;
+        }
     }
   return n;
 }
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 7256710..08a205b 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -210,7 +210,7 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
 
           // The switch as a whole occurs while any of its ports does.
           if (_lambda->getState () == Event::SLEEPING)
-            _doc->evalAction (_lambda, Event::START);
+            _lambda->transition (Event::START);
           break;
         case Event::PAUSE:
           TRACE ("pause %s at %" GINGA_TIME_FORMAT,
@@ -226,7 +226,7 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
           if (evt->isLambda ())
             Object::doStop ();
           else if (_selected != nullptr && _selected->isSleeping ())
-            _doc->evalAction (_lambda, transition);
+            _lambda->transition (transition);
           break;
         case Event::ABORT:
           TRACE ("abort %s at %" GINGA_TIME_FORMAT,
@@ -234,7 +234,7 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
           if (evt->isLambda ())
             Object::doStop ();
           else if (_selected != nullptr && _selected->isSleeping ())
-            _doc->evalAction (_lambda, transition);
+            _lambda->transition (transition);
           break;
 
         default:
-- 
2.43.0


From 76d52d21c9473efebef427466afb7bb9b803ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 34/85] fix: a document that starts its settings object aborted

---
 lib/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 53678a6..ca7ea25 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -166,7 +166,7 @@ Formatter::start (const string &file, string *errmsg)
   // Start settings.
   evt = _doc->getSettings ()->getLambda ();
   g_assert_nonnull (evt);
-  g_assert (evt->transition (Event::START));
+  evt->transition (Event::START); // a link may have started it already
 
   // Sets formatter state.
   _state = GINGA_STATE_PLAYING;
-- 
2.43.0


From 0916b19b376951cc4df71a54522939fc10082a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 35/85] fix: a text media of empty or huge size aborted or
 blanked the frame

---
 lib/Player.cpp     | 8 +++++++-
 lib/PlayerText.cpp | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 304cc6e..0027093 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -453,7 +453,8 @@ Player::redraw (cairo_t *cr)
     }
   else
     {
-      if (_surface != nullptr)
+      if (_surface != nullptr
+          && cairo_surface_status (_surface) == CAIRO_STATUS_SUCCESS)
         {
           double sx, sy;
           sx = (double) _prop.rect.width
@@ -886,6 +887,11 @@ Player::redrawDebuggingInfo (cairo_t *cr)
       str, "monospace", "", "", "7", { 1., 0, 0, 1. }, { 0, 0, 0, .75 },
       _prop.rect, "center", "middle", true, nullptr);
   g_assert_nonnull (debug);
+  if (unlikely (cairo_surface_status (debug) != CAIRO_STATUS_SUCCESS))
+    {
+      cairo_surface_destroy (debug); // too large
+      return;
+    }
 
   sx = (double) _prop.rect.width / cairo_image_surface_get_width (debug);
   sy = (double) _prop.rect.height / cairo_image_surface_get_height (debug);
diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index b1b170f..e7451b5 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -169,6 +169,9 @@ PlayerText::reload ()
 {
   string text;
 
+  if (Player::_prop.rect.width <= 0 || Player::_prop.rect.height <= 0)
+    return; // nothing to render until it gets some area
+
   if (unlikely (!xurigetcontents (Player::_prop.uri, text)))
     {
       ERROR ("cannot load text file %s", Player::_prop.uri.c_str ());
-- 
2.43.0


From 7744c55b62a8b886919ea1695d40721c2efe5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 36/85] fix: a switch port that maps a component twice started
 one of its interfaces at random

---
 lib/Switch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 08a205b..806ecbb 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -73,7 +73,7 @@ Switch::toString ()
 bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
-  set<Event *> switchPort_evts; // The possible selected events.
+  list<Event *> switchPort_evts; // The possible selected events.
 
   if (evt->getType () != Event::PRESENTATION)
     return false; // fail
@@ -83,7 +83,7 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       // If we are acting on the switch's @lambda all the @lambda children
       // events can be selected.
       for (Object *obj : *(getChildren ()))
-        switchPort_evts.insert (obj->getLambda ());
+        switchPort_evts.push_back (obj->getLambda ());
     }
   else
     {
@@ -92,7 +92,7 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       auto it = _switchPorts.find (evt->getId ());
       g_assert (it != _switchPorts.end ());
       for (Event *e : it->second)
-        switchPort_evts.insert (e);
+        switchPort_evts.push_back (e);
     }
 
   switch (evt->getType ())
@@ -135,7 +135,7 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               selected_evt = nullptr;
               for (Event *e : switchPort_evts)
                 {
-                  if (obj == e->getObject ())
+                  if (selected_evt == nullptr && obj == e->getObject ())
                     selected_evt = e;
                 }
               if (selected_evt == nullptr)
-- 
2.43.0


From fca929e2210566bb0f542d24c212899cedd59165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 37/85] fix: tables that are not valid documents aborted the
 Lua parser

---
 lib/ParserLua.cpp | 394 ++++++++++++++++++++++++++--------------------
 1 file changed, 223 insertions(+), 171 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 3032dc1..9425f44 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -47,44 +47,135 @@ static int l_parse_media (lua_State *L);
 static int l_parse_link (lua_State *L);
 static int l_parse_predicate (lua_State *L);
 
-// Helper function
+// Helper functions
+
+/// Gets the event denoted by string, or null if there is no such event.
 static Event *
-getEventStringAsEvent (string str, Context *parent)
+getEventStringAsEvent (const string &str, Context *parent)
 {
   Object *obj;
+  Event *event;
+  Document *doc;
   string id, evt;
+  size_t at;
 
-  size_t at = str.find ('@');
+  at = str.find_first_of ("@.<");
+  if (at == str.npos)
+    return nullptr;
+
+  id = str.substr (0, at);
+  evt = str.substr (at + 1, str.npos);
 
-  if (at != str.npos) // presentation
+  obj = parent->getChildById (id);
+  if (obj == nullptr)
   {
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
+    doc = parent->getDocument ();
+    g_assert_nonnull (doc);
+    for (auto &it : *doc->getSettings ()->getAliases ())
+      if (it.first == id && it.second == parent)
+        obj = doc->getSettings ();
+  }
+  if (obj == nullptr)
+    return nullptr;
 
+  switch (str[at])
+  {
+  case '@': // presentation
     // only lambda should have '@' as prefix? this seems strange
     if (xstrcasecmp ("lambda", evt) == 0)
       evt = "@lambda";
-
     return obj->getEvent (Event::PRESENTATION, evt);
-  }
-  else if (str.find ('.') != str.npos) // attribution
-  {
-    at = str.find ('.');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
+  case '.': // attribution
     return obj->getEvent (Event::ATTRIBUTION, evt);
+  default: // selection
+    if (evt.empty () || evt.back () != '>')
+      return nullptr;
+    evt.pop_back ();
+    obj->addSelectionEvent (evt);
+    event = obj->getSelectionEvent (evt);
+    g_assert_nonnull (event);
+    event->setParameter ("key", evt);
+    return event;
   }
-  else // selection
+}
+
+/// Gets the action (transition and event) at the top two stack positions.
+static void
+getAction (lua_State *L, int index, Context *parent, Action *act)
+{
+  const char *tr;
+  const char *str;
+
+  luaL_checktype (L, index, LUA_TTABLE);
+
+  lua_rawgeti (L, index, 1); // transition
+  tr = luaL_checkstring (L, -1);
+  if (xstrcasecmp (tr, "start") == 0 || xstrcasecmp (tr, "set") == 0)
+    act->transition = Event::START;
+  else if (xstrcasecmp (tr, "stop") == 0)
+    act->transition = Event::STOP;
+  else if (xstrcasecmp (tr, "pause") == 0)
+    act->transition = Event::PAUSE;
+  else if (xstrcasecmp (tr, "resume") == 0)
+    act->transition = Event::RESUME;
+  else if (xstrcasecmp (tr, "abort") == 0)
+    act->transition = Event::ABORT;
+  else
+    luaL_error (L, "bad transition: %s", tr);
+
+  lua_rawgeti (L, index, 2); // event
+  str = luaL_checkstring (L, -1);
+  act->event = getEventStringAsEvent (str, parent);
+  if (unlikely (act->event == nullptr))
+    luaL_error (L, "no such event: %s", str);
+  if (act->event->getType () == Event::SELECTION)
+    act->value = act->event->getId ();
+}
+
+/// Gets the predicate at the top of stack.
+static Predicate *
+getPredicate (lua_State *L)
+{
+  Predicate *wrapper;
+  Predicate *pred;
+
+  luaL_checktype (L, -1, LUA_TTABLE);
+  wrapper = new Predicate (Predicate::CONJUNCTION);
+  lua_pushcfunction (L, l_parse_predicate);
+  lua_pushlightuserdata (L, wrapper);
+  lua_pushvalue (L, -3);
+  if (unlikely (lua_pcall (L, 2, 0, 0) != LUA_OK))
   {
-    at = str.find ('<');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    evt.pop_back ();
-    obj = parent->getChildById (id);
-    return obj->getEvent (Event::SELECTION, evt);
+    delete wrapper;
+    lua_error (L);
   }
+
+  pred = wrapper->getChildren ()->front ()->clone ();
+  delete wrapper;
+  return pred;
+}
+
+/// Gets the value of a string field, or a default value if there is none.
+static string
+getStringField (lua_State *L, int index, const char *name,
+                const char *dflt)
+{
+  const char *str;
+  string result;
+
+  lua_getfield (L, index, name);
+  str = lua_isnil (L, -1) ? dflt : luaL_checkstring (L, -1);
+  result = string (str);
+  lua_pop (L, 1);
+  return result;
+}
+
+/// Checks whether the id of a new object is already in use.
+static void
+checkId (lua_State *L, Document *doc, const char *id)
+{
+  if (unlikely (doc->getObjectByIdOrAlias (id) != nullptr))
+    luaL_error (L, "duplicated id: %s", id);
 }
 
 /* Parsing functions. */
@@ -126,18 +217,38 @@ l_parse_context (lua_State *L)
   }
   else // non-root
   {
+    checkId (L, doc, id);
     ctx = new Context (id);
     parent->addChild (ctx);
   }
 
+  lua_rawgeti (L, 3, 3);
+  if (lua_isnil (L, -1) == 0) // properties
+  {
+    luaL_checktype (L, -1, LUA_TTABLE);
+    lua_pushnil (L);
+    while (lua_next (L, -2) != 0)
+    {
+      if (unlikely (lua_type (L, -2) != LUA_TSTRING))
+        return luaL_error (L, "bad property name in context: %s", id);
+      const char *name = lua_tostring (L, -2);
+      const char *value = luaL_checkstring (L, -1);
+      ctx->addAttributionEvent (name);
+      ctx->setProperty (name, value);
+      lua_pop (L, 1);
+    }
+  }
+
   lua_rawgeti (L, 3, 5);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
-      string child = luaL_checkstring (L, -1);
+      const char *child = luaL_checkstring (L, -1);
 
       if (xstrcasecmp (child, "context") == 0)
       {
@@ -171,7 +282,7 @@ l_parse_context (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        return luaL_error (L, "unexpected tag: %s", child);
       }
     }
   }
@@ -179,6 +290,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // ports
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -194,6 +306,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 6);
   if (lua_isnil (L, -1) == 0) // links
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -244,17 +357,20 @@ l_parse_switch (lua_State *L)
     lua_error (L);
   }
 
+  checkId (L, doc, id);
   swtch = new Switch (id);
   parent->addChild (swtch);
 
   lua_rawgeti (L, 3, 3);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
-      string child = luaL_checkstring (L, -1);
+      const char *child = luaL_checkstring (L, -1);
 
       if (xstrcasecmp (child, "context") == 0)
       {
@@ -288,7 +404,7 @@ l_parse_switch (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        return luaL_error (L, "unexpected tag: %s", child);
       }
     }
   }
@@ -296,24 +412,19 @@ l_parse_switch (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // rules
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, 10, LUA_TTABLE);
       lua_rawgeti (L, 10, 1);
-      const string id_media = string (luaL_checkstring (L, -1));
-      Object *obj = swtch->getChildById (id_media);
+      const char *comp = luaL_checkstring (L, -1);
+      Object *obj = swtch->getChildById (comp);
+      if (unlikely (obj == nullptr))
+        return luaL_error (L, "no such component: %s", comp);
 
       lua_rawgeti (L, 10, 2);
-      luaL_checktype (L, -1, LUA_TTABLE);
-
-      Predicate *predicate = new Predicate (Predicate::CONJUNCTION);
-      lua_pushcfunction (L, l_parse_predicate);
-      lua_pushlightuserdata (L, predicate);
-      lua_pushvalue (L, -3);
-      lua_call (L, 2, 0);
-
-      Predicate *pred = predicate->getChildren ()->front ();
-      swtch->addRule (obj, pred);
+      swtch->addRule (obj, getPredicate (L));
 
       lua_pop (L, 3);
     }
@@ -329,16 +440,17 @@ l_parse_port (lua_State *L)
   Event *event;
   Document *doc;
   Context *parent;
-  string str;
+  const char *str;
 
   doc = (Document *) lua_touserdata (L, 1);
   g_assert_nonnull (doc);
   parent = (Context *) lua_touserdata (L, 2);
   g_assert_nonnull (parent);
-  str = string (luaL_checkstring (L, -1));
+  str = luaL_checkstring (L, -1);
 
   event = getEventStringAsEvent (str, parent);
-  g_assert_nonnull (event);
+  if (unlikely (event == nullptr || event->getType () == Event::SELECTION))
+    return luaL_error (L, "no such event: %s", str);
   parent->addPort (event);
 
   return 0;
@@ -348,7 +460,7 @@ l_parse_port (lua_State *L)
 static int
 l_parse_media (lua_State *L)
 {
-  Media *media;
+  Media *media = nullptr;
   Document *doc;
   Composition *parent;
   const char *tag;
@@ -375,7 +487,6 @@ l_parse_media (lua_State *L)
 
   lua_rawgeti (L, 3, 2);
   id = luaL_checkstring (L, -1);
-  media = new Media (id);
 
   if (parent == NULL) // error
   {
@@ -383,14 +494,46 @@ l_parse_media (lua_State *L)
     lua_error (L);
   }
 
+  checkId (L, doc, id);
+
   lua_rawgeti (L, 3, 3);
+  if (lua_istable (L, 7))
+  {
+    lua_getfield (L, 7, "type");
+    value = lua_tostring (L, -1);
+    if (value != nullptr
+        && (g_str_equal (value, "application/x-ginga-settings")
+            || g_str_equal (value, "application/x-ncl-settings")))
+    {
+      media = doc->getSettings (); // there is only one
+    }
+    lua_pop (L, 1);
+  }
+  if (media != nullptr)
+  {
+    media->addAlias (id, parent);
+  }
+  else
+  {
+    media = new Media (id);
+    parent->addChild (media);
+  }
+
   if (lua_isnil (L, -1) == 0) // have property list
   {
+    luaL_checktype (L, 7, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, 7) != 0)
     {
-      name = lua_tolstring (L, -2, 0);
-      value = lua_tolstring (L, -1, 0);
+      if (unlikely (lua_type (L, 8) != LUA_TSTRING))
+        return luaL_error (L, "bad property name in media: %s", id);
+      name = lua_tostring (L, 8);
+      if (lua_istable (L, 9)
+          && (xstrcasecmp ("transIn", name) == 0
+              || xstrcasecmp ("transOut", name) == 0))
+        value = nullptr;
+      else
+        value = luaL_checkstring (L, 9);
 
       if (xstrcasecmp ("src", name) == 0)
       {
@@ -406,95 +549,24 @@ l_parse_media (lua_State *L)
           value = src.c_str ();
         }
       }
-      else if ((xstrcasecmp ("transIn", name) == 0)
-               || (xstrcasecmp ("transOut", name) == 0))
+      else if (value == nullptr) // transition
       {
-        string aux;
-
         lua_getfield (L, 9, "type");
-        if (lua_isnil (L, -1) == 0)
-        {
-          aux = lua_tolstring (L, -1, 0);
-          str = "{type='" + aux + "',";
-        }
-        else
-        {
-          g_assert_not_reached ();
-        }
-
-        lua_getfield (L, 9, "subtype");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "subtype='" + aux + "',";
-
-        lua_getfield (L, 9, "dur");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "dur='" + aux + "',";
-
-        lua_getfield (L, 9, "startProgress");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "startProgress='" + aux + "',";
-
-        lua_getfield (L, 9, "endProgress");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "endProgress='" + aux + "',";
-
-        lua_getfield (L, 9, "direction");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "forward";
-        str += "direction='" + aux + "',";
-
-        lua_getfield (L, 9, "fadeColor");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "fadeColor='" + aux + "',";
-
-        lua_getfield (L, 9, "horzRepeat");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "horzRepeat='" + aux + "',";
-
-        lua_getfield (L, 9, "vertRepeat");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "vertRepeat='" + aux + "',";
-
-        lua_getfield (L, 9, "borderWidth");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "borderWidth='" + aux + "',";
-
-        lua_getfield (L, 9, "borderColor");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "borderColor='" + aux + "',";
-
+        luaL_checkstring (L, -1);
+        lua_pop (L, 1);
+        str = "{type='" + getStringField (L, 9, "type", "") + "',";
+        str += "subtype='" + getStringField (L, 9, "subtype", "") + "',";
+        str += "dur='" + getStringField (L, 9, "dur", "0") + "',";
+        str += "startProgress='" + getStringField (L, 9, "startProgress", "0") + "',";
+        str += "endProgress='" + getStringField (L, 9, "endProgress", "0") + "',";
+        str += "direction='" + getStringField (L, 9, "direction", "forward") + "',";
+        str += "fadeColor='" + getStringField (L, 9, "fadeColor", "") + "',";
+        str += "horzRepeat='" + getStringField (L, 9, "horzRepeat", "0") + "',";
+        str += "vertRepeat='" + getStringField (L, 9, "vertRepeat", "0") + "',";
+        str += "borderWidth='" + getStringField (L, 9, "borderWidth", "0") + "',";
+        str += "borderColor='" + getStringField (L, 9, "borderColor", "") + "',";
         str += "}";
         value = str.c_str ();
-        lua_pop (L, 11);
       }
 
       media->addAttributionEvent (name);
@@ -508,11 +580,13 @@ l_parse_media (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // have area list
   {
+    luaL_checktype (L, 5, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, 5) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
-      name = lua_tolstring (L, -1, nullptr);
+      name = luaL_checkstring (L, -1);
 
       lua_pop (L, 1);
       lua_rawgeti (L, -1, 2);
@@ -543,7 +617,6 @@ l_parse_media (lua_State *L)
     }
   }
 
-  parent->addChild (media);
   return 0;
 }
 
@@ -569,33 +642,12 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
-    lua_rawgeti (L, 6, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
-
-    lua_rawgeti (L, 6, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    getAction (L, 6, parent, &act);
 
     lua_rawgeti (L, 6, 3); // predicate
     act.predicate = nullptr;
     if (!lua_isnil (L, -1))
-    {
-      luaL_checktype (L, -1, LUA_TTABLE);
-
-      Predicate *predicate = new Predicate (Predicate::CONJUNCTION);
-      lua_pushcfunction (L, l_parse_predicate);
-      lua_pushlightuserdata (L, predicate);
-      lua_pushvalue (L, -3);
-      lua_call (L, 2, 0);
-
-      Predicate *pred = predicate->getChildren ()->front ();
-      act.predicate = pred;
-    }
+      act.predicate = getPredicate (L);
 
     conditions.push_back (act);
     lua_pop (L, 4);
@@ -608,17 +660,7 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
-    lua_rawgeti (L, 7, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
-
-    lua_rawgeti (L, 7, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    getAction (L, 7, parent, &act);
 
     lua_rawgeti (L, 7, 3); // value
     if (!lua_isnil (L, -1))
@@ -691,6 +733,7 @@ l_parse_predicate (lua_State *L)
   }
 
   it = new Predicate (type);
+  parent->addChild (it);
 
   switch (type)
   {
@@ -717,7 +760,7 @@ l_parse_predicate (lua_State *L)
       else if (xstrcasecmp (str, ">=") == 0)
         test = Predicate::GE;
       else
-        g_assert_not_reached ();
+        return luaL_error (L, "bad test: %s", str.c_str ());
 
       it->setTest (left, test, right);
       break;
@@ -741,12 +784,21 @@ l_parse_predicate (lua_State *L)
     g_assert_not_reached ();
   }
 
-  parent->addChild (it);
   return 0;
 }
 
 // External API.
 
+/// Sets error message to that at the top of the stack.
+static void
+seterr (lua_State *L, string *errmsg)
+{
+  const char *str;
+
+  str = lua_tostring (L, -1);
+  tryset (errmsg, string (str ? str : "unknown error"));
+}
+
 /// Helper function used by Parser::parseBuffer() and Parser::parseFile().
 static Document *
 process (lua_State *L, const string &path, string *errmsg)
@@ -762,7 +814,7 @@ process (lua_State *L, const string &path, string *errmsg)
   if (unlikely (lua_pcall (L, 4, 0, 0) != LUA_OK))
   {
     delete doc;
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    seterr (L, errmsg);
     return nullptr;
   }
 
@@ -797,7 +849,7 @@ ParserLua::parseBuffer (const void *buf, size_t size, string *errmsg)
   err = luaL_dostring (L, str);
   if (unlikely (err != LUA_OK))
   {
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    seterr (L, errmsg);
     goto done;
   }
 
@@ -830,7 +882,7 @@ ParserLua::parseFile (const string &path, string *errmsg)
   err = luaL_dofile (L, path.c_str ());
   if (unlikely (err != LUA_OK))
   {
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    seterr (L, errmsg);
     goto done;
   }
 
-- 
2.43.0


From 831aec27e5f027f491bbc245d6525937976d57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 38/85] fix: predicates of conditions were lost when a later
 bind of the link was rejected

---
 lib/Parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index a927ba1..2499668 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2818,7 +2818,14 @@ borderColor='%s'}",
             }
 
           // Resolve event roles.
-          list<Action> conditions;
+          struct ActionList : list<Action>
+          {
+            ~ActionList ()
+            {
+              for (auto &it : *this)
+                delete it.predicate;
+            }
+          } conditions; // owns the predicates until the link is added
           list<Action> actions;
           for (auto it : bound)
             {
@@ -2957,6 +2964,7 @@ borderColor='%s'}",
                 actions.push_back (act);
             }
           ctx->addLink (conditions, actions);
+          conditions.clear ();
         }
     }
 
-- 
2.43.0


From 4d5de86617b4c38b2807e4f067ec12ce75bd65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 39/85] fix: every parameter of a transition got the value of
 one of them

---
 lib/Parser.cpp | 57 ++++++++++++++------------------------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 2499668..9334c39 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2492,48 +2492,23 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "no such transition");
                 }
 
+              static const pair<string, string> trans_param[] = {
+                { "subtype", "" },        { "dur", "0" },
+                { "startProgress", "0" }, { "endProgress", "0" },
+                { "direction", "forward" }, { "fadeColor", "" },
+                { "horzRepeat", "0" },    { "vertRepeat", "0" },
+                { "borderWidth", "0" },   { "borderColor", "" },
+              };
+
               g_assert (trans_elt->getAttribute ("type", &str));
-              val = "{type='" + str + "',";
-              val += xstrbuild (
-                  "\
-subtype='%s',\
-dur='%s',\
-startProgress='%s',\
-endProgress='%s',\
-direction='%s',\
-fadeColor='%s',\
-horzRepeat='%s',\
-vertRepeat='%s',\
-borderWidth='%s',\
-borderColor='%s'}",
-                  (trans_elt->getAttribute ("subtype", &str)) ? str.c_str ()
-                                                              : "",
-                  +(trans_elt->getAttribute ("dur", &str)) ? str.c_str ()
-                                                           : "0",
-                  +(trans_elt->getAttribute ("startProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("endProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("direction", &str))
-                      ? str.c_str ()
-                      : "forward",
-                  +(trans_elt->getAttribute ("fadeColor", &str))
-                      ? str.c_str ()
-                      : "",
-                  +(trans_elt->getAttribute ("horzRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("vertRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderWidth", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderColor", &str))
-                      ? str.c_str ()
-                      : "");
+              val = "{type='" + str + "'";
+              for (auto &it : trans_param)
+                {
+                  if (!trans_elt->getAttribute (it.first, &str))
+                    str = it.second;
+                  val += "," + it.first + "='" + str + "'";
+                }
+              val += "}";
               desc_elt->setAttribute (trans_attr[i], val);
             }
         }
-- 
2.43.0


From 64d67935821acea699129eb4ee21432d37b79c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 40/85] fix: imported descriptors could not use the transitions
 imported with them

---
 lib/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 9334c39..7e96587 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -516,8 +516,8 @@ static map<string, ParserSyntaxElt> parser_syntax_table = {
             { "focusSrc", 0 },
             { "focusSelSrc", 0 },
             { "selBorderColor", 0 },
-            { "transIn", 0 },
-            { "transOut", 0 },
+            { "transIn", ATTR_OPT_IDREF },
+            { "transOut", ATTR_OPT_IDREF },
             // extra attributes
             { "left", 0 },
             { "right", 0 },
-- 
2.43.0


From eafb7d996e45b4f207a071b3997cedf9d9b714fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 41/85] fix: circular imports spelled with ./ or ../ were
 followed until the path was too long

---
 lib/Parser.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 7e96587..1f1ec5c 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1529,6 +1529,20 @@ ParserState::aliasStackPop (string *alias, string *path)
   return true;
 }
 
+/// Gets the canonical form of the URI of a local file (the same for every
+/// spelling of its path).
+static string
+uriCanonicalize (const string &uri)
+{
+  char *path = g_filename_from_uri (uri.c_str (), nullptr, nullptr);
+  char *real = (path != nullptr) ? realpath (path, nullptr) : nullptr;
+  string result = (real != nullptr) ? string (real) : uri;
+
+  free (real);
+  g_free (path);
+  return result;
+}
+
 /**
  * @brief Pushes alias and path onto alias stack.
  * @param alias The alias to push.
@@ -1539,8 +1553,10 @@ ParserState::aliasStackPop (string *alias, string *path)
 bool
 ParserState::aliasStackPush (const string &alias, const string &path)
 {
+  string canonical = uriCanonicalize (path);
+
   for (auto &it : _aliasStack)
-    if (it.second == path)
+    if (it.second == path || uriCanonicalize (it.second) == canonical)
       return false;
   _aliasStack.push_back (std::make_pair (alias, path));
   return true;
-- 
2.43.0


From 104ea996b9679a4848073fea6f99656dcdacf9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 42/85] fix: times without a number ("s", "::") were taken as
 zero

---
 lib/aux-ginga.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index bb3f279..04f8673 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -197,6 +197,7 @@ try_parse_time (const string &s, Time *result)
 {
   gchar *dup;
   gchar *end;
+  gchar *str;
   double secs;
   double mins;
 
@@ -205,21 +206,25 @@ try_parse_time (const string &s, Time *result)
   g_strchomp (dup);
 
   secs = g_ascii_strtod (dup, &end);
-  if (*end == '\0' || g_str_equal (end, "s"))
+  if (*end == '\0')
+    goto success; // number or empty string
+  if (end == dup)
+    goto failure; // no number
+  if (g_str_equal (end, "s"))
     goto success;
 
   if (*end != ':' || !(secs >= 0))
     goto failure;
 
-  end++;
-  mins = g_ascii_strtod (end, &end);
-  if (*end != ':' || !(mins >= 0))
+  str = end + 1;
+  mins = g_ascii_strtod (str, &end);
+  if (end == str || *end != ':' || !(mins >= 0))
     goto failure;
   mins += 60 * secs;
 
-  end++;
-  secs = g_ascii_strtod (end, &end);
-  if (*end != '\0' || !(secs >= 0))
+  str = end + 1;
+  secs = g_ascii_strtod (str, &end);
+  if (end == str || *end != '\0' || !(secs >= 0))
     goto failure;
   secs += 60 * mins;
 
-- 
2.43.0


From 8b07fcf1ffd97d11e4ca2e9f005c26bd3fb774b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 43/85] fix: a media with a descriptor and a dangling reference
 aborted the parser

---
 lib/Parser.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 1f1ec5c..661952b 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2542,6 +2542,26 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
           string desc_id;
           string refer;
 
+          // Check refer.
+          if (media_elt->getAttribute ("refer", &refer))
+            {
+              ParserElt *refer_elt;
+
+              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
+                                                    { "media" })))
+                {
+                  return st->errEltBadAttribute (media_elt->getNode (),
+                                                 "refer", refer,
+                                                 "no such media object");
+                }
+              if (refer_elt->getAttribute ("refer", nullptr))
+                {
+                  return st->errEltBadAttribute (
+                      media_elt->getNode (), "refer", refer,
+                      "cannot refer to a reference");
+                }
+            }
+
           // Move descriptor attributes.
           if (media_elt->getAttribute ("descriptor", &desc_id))
             {
@@ -2570,26 +2590,6 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                   media->setProperty (it.first, it.second);
                 }
             }
-
-          // Check refer.
-          if (media_elt->getAttribute ("refer", &refer))
-            {
-              ParserElt *refer_elt;
-
-              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
-                                                    { "media" })))
-                {
-                  return st->errEltBadAttribute (media_elt->getNode (),
-                                                 "refer", refer,
-                                                 "no such media object");
-                }
-              if (refer_elt->getAttribute ("refer", nullptr))
-                {
-                  return st->errEltBadAttribute (
-                      media_elt->getNode (), "refer", refer,
-                      "cannot refer to a reference");
-                }
-            }
         }
     }
 
-- 
2.43.0


From bad70d87ebab5cf845b6cc59df5571a25b4b960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 44/85] fix: table notation: a link without conditions or
 actions aborted the process

---
 lib/ParserLua.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 9425f44..07ac26c 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -693,6 +693,11 @@ l_parse_link (lua_State *L)
     lua_pop (L, 5);
   }
 
+  if (unlikely (conditions.empty ()))
+    return luaL_error (L, "link without conditions");
+  if (unlikely (actions.empty ()))
+    return luaL_error (L, "link without actions");
+
   parent->addLink (conditions, actions);
   return 0;
 }
-- 
2.43.0


From 33f733808a987521c6efc70a4b5897dbb198453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 45/85] fix: scaled contents were painted outside the rectangle
 of their media

---
 lib/Player.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 0027093..988a043 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -462,9 +462,15 @@ Player::redraw (cairo_t *cr)
           sy = (double) _prop.rect.height
                / cairo_image_surface_get_height (_surface);
           cairo_save (cr);
+          // Keep the filtered edges of scaled surfaces in the rectangle.
+          cairo_rectangle (cr, _prop.rect.x, _prop.rect.y,
+                           _prop.rect.width, _prop.rect.height);
+          cairo_clip (cr);
           cairo_translate (cr, _prop.rect.x, _prop.rect.y);
           cairo_scale (cr, sx, sy);
           cairo_set_source_surface (cr, _surface, 0., 0.);
+          cairo_pattern_set_extend (cairo_get_source (cr),
+                                    CAIRO_EXTEND_PAD);
           cairo_paint_with_alpha (cr, _prop.alpha / 255.);
           cairo_restore (cr);
         }
-- 
2.43.0


From 551eb4141b741af6e9cea6ddaa6fa149678406e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 46/85] fix: an animated background jumped to its target when
 one of its channels did not change

---
 lib/PlayerAnimator.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 3de6f93..c8a1b50 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -266,10 +266,17 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
           ++it;
           continue;
         }
-      if (info->getProperty () != "")
-        (*done)[info->getProperty ()] = info->getValue ();
+      string property = info->getProperty ();
+      string value = info->getValue ();
       it = _scheduled.erase (it);
       delete info;
+
+      // The property is done when the last of its animations is.
+      bool last = true;
+      for (AnimInfo *other : _scheduled)
+        last = last && other->getProperty () != property;
+      if (property != "" && last)
+        (*done)[property] = value;
     }
 }
 
-- 
2.43.0


From b368b95fcf15b98d41fbd9f7e378490dccfd1878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:14 +0000
Subject: [PATCH 47/85] fix: table notation: memory was lost when a link or
 media was refused

---
 lib/ParserLua.cpp | 155 +++++++++++++++++++++++++++++-----------------
 1 file changed, 97 insertions(+), 58 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 07ac26c..0654872 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -155,19 +155,51 @@ getPredicate (lua_State *L)
   return pred;
 }
 
-/// Gets the value of a string field, or a default value if there is none.
-static string
-getStringField (lua_State *L, int index, const char *name,
-                const char *dflt)
+// Strings that must survive an error are left to Lua, which frees them.
+
+/// Pushes the URI of the given source; sources are relative to path.
+static const char *
+pushSource (lua_State *L, const char *src, const char *path)
 {
+  if (src[0] == '\0' || xpathisuri (src) || xpathisabs (src))
+    return lua_pushstring (L, src);
+  return lua_pushstring (
+      L, xurifromsrc (src, xpathdirname (path)).c_str ());
+}
+
+/// Pushes the value of the transition property given by the table at index.
+static const char *
+pushTransition (lua_State *L, int index)
+{
+  static const struct
+  {
+    const char *name;
+    const char *dflt;
+  } fields[] = {
+    { "type", nullptr },        { "subtype", "" },
+    { "dur", "0" },             { "startProgress", "0" },
+    { "endProgress", "0" },     { "direction", "forward" },
+    { "fadeColor", "" },        { "horzRepeat", "0" },
+    { "vertRepeat", "0" },      { "borderWidth", "0" },
+    { "borderColor", "" },
+  };
   const char *str;
-  string result;
 
-  lua_getfield (L, index, name);
-  str = lua_isnil (L, -1) ? dflt : luaL_checkstring (L, -1);
-  result = string (str);
-  lua_pop (L, 1);
-  return result;
+  lua_pushliteral (L, "{");
+  for (auto &field : fields)
+  {
+    lua_getfield (L, index, field.name);
+    if (lua_isnil (L, -1) && field.dflt != nullptr)
+      str = field.dflt;
+    else
+      str = luaL_checkstring (L, -1);
+    lua_pushfstring (L, "%s='%s',", field.name, str);
+    lua_remove (L, -2);
+    lua_concat (L, 2);
+  }
+  lua_pushliteral (L, "}");
+  lua_concat (L, 2);
+  return lua_tostring (L, -1);
 }
 
 /// Checks whether the id of a new object is already in use.
@@ -468,7 +500,6 @@ l_parse_media (lua_State *L)
   const char *name;
   const char *value;
   const char *path;
-  string src, str;
   Time begin, end;
 
   doc = (Document *) lua_touserdata (L, 1);
@@ -538,40 +569,19 @@ l_parse_media (lua_State *L)
       if (xstrcasecmp ("src", name) == 0)
       {
         name = "uri";
-        src = string (value);
 
         // resolve relative dir
-        if (src != "" && !xpathisuri (src) && !xpathisabs (src))
-        {
-          path = luaL_checkstring (L, 4);
-          string dir = xpathdirname (path);
-          src = xurifromsrc (src, dir);
-          value = src.c_str ();
-        }
+        path = luaL_checkstring (L, 4);
+        value = pushSource (L, value, path);
       }
       else if (value == nullptr) // transition
       {
-        lua_getfield (L, 9, "type");
-        luaL_checkstring (L, -1);
-        lua_pop (L, 1);
-        str = "{type='" + getStringField (L, 9, "type", "") + "',";
-        str += "subtype='" + getStringField (L, 9, "subtype", "") + "',";
-        str += "dur='" + getStringField (L, 9, "dur", "0") + "',";
-        str += "startProgress='" + getStringField (L, 9, "startProgress", "0") + "',";
-        str += "endProgress='" + getStringField (L, 9, "endProgress", "0") + "',";
-        str += "direction='" + getStringField (L, 9, "direction", "forward") + "',";
-        str += "fadeColor='" + getStringField (L, 9, "fadeColor", "") + "',";
-        str += "horzRepeat='" + getStringField (L, 9, "horzRepeat", "0") + "',";
-        str += "vertRepeat='" + getStringField (L, 9, "vertRepeat", "0") + "',";
-        str += "borderWidth='" + getStringField (L, 9, "borderWidth", "0") + "',";
-        str += "borderColor='" + getStringField (L, 9, "borderColor", "") + "',";
-        str += "}";
-        value = str.c_str ();
+        value = pushTransition (L, 9);
       }
 
       media->addAttributionEvent (name);
       media->setProperty (name, value);
-      lua_pop (L, 1);
+      lua_settop (L, 8);
     }
   }
 
@@ -620,14 +630,17 @@ l_parse_media (lua_State *L)
   return 0;
 }
 
-// parse_link (doc, parent, tab)
+// Fills in the lists (upvalues) of conditions and actions of a link.
 static int
-l_parse_link (lua_State *L)
+l_parse_link_lists (lua_State *L)
 {
   Document *doc;
   Context *parent;
-  list<Action> conditions;
-  list<Action> actions;
+  list<Action> *conditions;
+  list<Action> *actions;
+
+  conditions = (list<Action> *) lua_touserdata (L, lua_upvalueindex (1));
+  actions = (list<Action> *) lua_touserdata (L, lua_upvalueindex (2));
 
   doc = (Document *) lua_touserdata (L, 1);
   g_assert_nonnull (doc);
@@ -640,16 +653,16 @@ l_parse_link (lua_State *L)
   lua_pushnil (L);
   while (lua_next (L, 4) != 0)
   {
-    Action act;
+    conditions->push_back (Action ());
+    Action &act = conditions->back ();
 
+    act.predicate = nullptr;
     getAction (L, 6, parent, &act);
 
     lua_rawgeti (L, 6, 3); // predicate
-    act.predicate = nullptr;
     if (!lua_isnil (L, -1))
       act.predicate = getPredicate (L);
 
-    conditions.push_back (act);
     lua_pop (L, 4);
   }
 
@@ -658,8 +671,10 @@ l_parse_link (lua_State *L)
   lua_pushnil (L);
   while (lua_next (L, 5) != 0)
   {
-    Action act;
+    actions->push_back (Action ());
+    Action &act = actions->back ();
 
+    act.predicate = nullptr;
     getAction (L, 7, parent, &act);
 
     lua_rawgeti (L, 7, 3); // value
@@ -672,33 +687,57 @@ l_parse_link (lua_State *L)
       luaL_checktype (L, 11, LUA_TTABLE);
       lua_getfield (L, 11, "delay");
       if (!lua_isnil (L, -1))
-      {
-        string str = luaL_checkstring (L, -1);
-        act.delay = str;
-      }
+        act.delay = luaL_checkstring (L, -1);
 
       lua_getfield (L, 11, "duration");
       if (!lua_isnil (L, -1))
-      {
-        string str = luaL_checkstring (L, -1);
-        act.duration = str;
-      }
+        act.duration = luaL_checkstring (L, -1);
 
       lua_pop (L, 2);
     }
 
-    act.predicate = nullptr;
-
-    actions.push_back (act);
     lua_pop (L, 5);
   }
 
-  if (unlikely (conditions.empty ()))
+  if (unlikely (conditions->empty ()))
     return luaL_error (L, "link without conditions");
-  if (unlikely (actions.empty ()))
+  if (unlikely (actions->empty ()))
     return luaL_error (L, "link without actions");
 
-  parent->addLink (conditions, actions);
+  return 0;
+}
+
+// parse_link (doc, parent, tab)
+static int
+l_parse_link (lua_State *L)
+{
+  Context *parent;
+  int status;
+
+  parent = (Context *) lua_touserdata (L, 2);
+  {
+    list<Action> conditions;
+    list<Action> actions;
+
+    // An error jumps over destructors, so catch it here.
+    lua_pushlightuserdata (L, &conditions);
+    lua_pushlightuserdata (L, &actions);
+    lua_pushcclosure (L, l_parse_link_lists, 2);
+    lua_insert (L, 1);
+    status = lua_pcall (L, 3, 0, 0);
+    if (likely (status == LUA_OK))
+    {
+      parent->addLink (conditions, actions);
+    }
+    else
+    {
+      for (auto &cond : conditions)
+        delete cond.predicate;
+    }
+  }
+  if (unlikely (status != LUA_OK))
+    return lua_error (L);
+
   return 0;
 }
 
-- 
2.43.0


From 4465d0b20fc7242e4dcbdc76d4dec664c75e48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 48/85] fix: removing user data that was never set erased past
 the end of the map

---
 lib/aux-ginga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 04f8673..596800b 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -798,7 +798,8 @@ UserData::setData (const string &key, void *value, UserDataCleanFunc fn)
     it->second.second (it->second.first);
   if (value == nullptr)
     {
-      _udata.erase (it);
+      if (it != _udata.end ())
+        _udata.erase (it);
       return false;
     }
   else
-- 
2.43.0


From 9c377569e897f7134d5126e49fdd6c250e1be6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 49/85] fix: xpathisuri lost memory on paths that begin with a
 drive letter

---
 lib/aux-ginga.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 596800b..ae4584f 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -619,7 +619,9 @@ xpathisuri (const string &path)
 {
   gchar *dup = g_uri_parse_scheme (path.c_str ());
   // strlen (dup) = 1 means schemes for windows paths, e.g. C: and D:
-  return (dup == NULL || strlen (dup) == 1) ? false : (g_free (dup), true);
+  bool result = (dup != NULL && strlen (dup) != 1);
+  g_free (dup);
+  return result;
 }
 
 /**
-- 
2.43.0


From 954fc0b4d03982493c5d8e605438c295631d2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 50/85] fix: negative numbers wrapped around in conversions to
 unsigned integers

---
 lib/aux-ginga.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index ae4584f..b24377a 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -371,6 +371,10 @@ _xstrtoull (const string &s, guint64 *ip, guint base)
   u = g_ascii_strtoull (c_str, &endptr, base);
   if (endptr == c_str)
     return false;
+  while (g_ascii_isspace (*c_str))
+    c_str++;
+  if (*c_str == '-' && u != 0)
+    return false; // a negative number would wrap around
 
   tryset (ip, u);
   return true;
-- 
2.43.0


From 9277ff414b264f0852cc593ac9b835051eb6b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 51/85] fix: sources with blanks or non-ASCII names were
 resolved against the current directory

---
 lib/Parser.cpp | 60 ++++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 661952b..3910c60 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3950,6 +3950,31 @@ ParserState::pushBindRule (ParserState *st, ParserElt *elt)
   return true;
 }
 
+/// Resolves the source given by \p node against the URI of its document.
+/// Sources that are not valid URI references are taken as file names.
+static string
+resolveSrc (xmlNode *node, string src)
+{
+  string base;
+  string dir = "";
+
+  if (node->doc->URL != nullptr)
+    base = toCPPString (node->doc->URL);
+
+  xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (base));
+  if (likely (s != nullptr))
+    src = toCPPString (s);
+  xmlFree (s);
+  if (xpathisuri (src))
+    return src;
+
+  gchar *path = g_filename_from_uri (base.c_str (), nullptr, nullptr);
+  if (path != nullptr)
+    dir = xpathdirname (path);
+  g_free (path);
+  return xurifromsrc (src, dir);
+}
+
 /**
  * @brief Starts the processing of \<media\> element.
  *
@@ -4089,16 +4114,8 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
           // case src filled
           if (src != "")
             {
-              // Makes uri based in the main document uri
-              xmlChar *s = xmlBuildURI (toXmlChar (src),
-                                        toXmlChar (st->getURI ()));
-              if (likely (s != nullptr))
-                src = toCPPString (s);
-              if (!xpathisuri (src))
-                {
-                  src = xurifromsrc (src, "");
-                }
-              xmlFree (s);
+              // Makes uri based in the document uri
+              src = resolveSrc (elt->getNode (), src);
             }
           // create Media if not found refer that created the referred Media
           if (!st->referMapIndex (id, &media))
@@ -4333,24 +4350,15 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   elt->getAttribute ("fontWeight", &weight);
 
   // fixme:  We should also handle remote URIs; g_file_move could help us.
-  if (st->getURI () != "")
+  src = resolveSrc (elt->getNode (), src);
+  gchar *path = g_filename_from_uri (src.c_str (), nullptr, nullptr);
+  if (unlikely (path == nullptr))
     {
-      xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
-      if (likely (s != nullptr))
-        src = toCPPString (s);
-      xmlFree (s);
-
-      gchar *path = g_filename_from_uri (src.c_str (), nullptr, nullptr);
-      if (unlikely (path == nullptr))
-        {
-          return st->errEltBadAttribute (elt->getNode (), "src", src,
-                                         "not a local file");
-        }
-      src = string (path);
-      g_free (path);
+      return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                     "not a local file");
     }
-  else
-    src = xpathmakeabs (src);
+  src = string (path);
+  g_free (path);
 
   const FcChar8 *fcfilename = (const FcChar8 *) src.c_str ();
   FcBool fontAddStatus = FcConfigAppFontAddFile (NULL, fcfilename);
-- 
2.43.0


From 33f0d8ca88d3c3b2e5b14cd7db8b09e137706a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 52/85] fix: absolute paths in the sources of table documents
 could not be loaded

---
 lib/ParserLua.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 0654872..28eb97d 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -161,7 +161,7 @@ getPredicate (lua_State *L)
 static const char *
 pushSource (lua_State *L, const char *src, const char *path)
 {
-  if (src[0] == '\0' || xpathisuri (src) || xpathisabs (src))
+  if (src[0] == '\0')
     return lua_pushstring (L, src);
   return lua_pushstring (
       L, xurifromsrc (src, xpathdirname (path)).c_str ());
-- 
2.43.0


From 35424e08b51f0db097b86fffd361535d3abeb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 53/85] fix: web services aborted when their ports were in use

---
 lib/WebServices.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 7cb2832..fb0f17f 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -273,11 +273,12 @@ WebServices::start ()
     {
       TRACE ("WebServices fail serve at default port %d: %s\n",
              WS_PORT_DEFAULT, error->message);
-      g_error_free (error);
+      g_clear_error (&error);
       // if fail use WS_PORT_DEFAULT + 1
       ret = soup_server_listen_all (_server, WS_PORT_DEFAULT + 1,
                                     SoupServerListenOptions (0), &error);
-      g_assert (ret);
+      if (!ret)
+        goto fail;
       this->host_port = WS_PORT_DEFAULT + 1;
     }
 
@@ -301,7 +302,11 @@ WebServices::start ()
   g_free (location);
   return true;
 fail:
+  WARNING ("Error creating the HTTP server: %s", error->message);
   g_error_free (error);
+  g_clear_object (&_resource_group);
+  g_clear_object (&_client);
+  g_clear_object (&_server);
   return false;
 }
 
-- 
2.43.0


From fc8042a22ede61a5e3d4aec4635c52084ea9f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 54/85] fix: remote players were matched only by type, and told
 of media of other players

---
 lib/WebServices.cpp | 76 ++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index fb0f17f..5235f5b 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -313,49 +313,49 @@ fail:
 bool
 WebServices::machMediaThenSetPlayerRemote (PlayerRemoteData &data)
 {
-  if (!_formatter->getDocument ())
-    return false;
+  Document *doc = _formatter->getDocument ();
+  bool found = false;
 
-  auto mrts = _formatter->getDocument ()->getMediasRemote ();
-  if (mrts->empty ())
+  if (doc == nullptr)
     return false;
 
-  for (auto m : *mrts)
+  for (auto m : *doc->getMedias ())
     {
-      // match media deviceType then set remotePlayerBaseURL
-      if (m->getProperty ("device") == data.deviceType)
-        m->setProperty ("remotePlayerBaseURL", data.location);
-
-      // match supportedFormats then set remotePlayerBaseURL
-      for (auto mime : data.supportedFormats)
-        if (m->getProperty ("type") == mime)
-          m->setProperty ("remotePlayerBaseURL", data.location);
-
-      if (m->getProperty ("remotePlayerBaseURL") != "")
-        {
-          SoupSession *session;
-          SoupMessage *msg;
-          char *body;
-
-          session = soup_session_new ();
-          msg = soup_message_new ("POST", data.location.c_str ());
-          body
-              = g_strdup_printf (REMOTE_PLAYER_JSON_MEDIA, // json format
-                                 WS_DEFAULT_APPID,         // appId
-                                 WS_DEFAULT_DOCID,         // documentID
-                                 m->getId ().c_str (),     // sceneNode
-                                 m->getProperty ("uri").c_str (), // type
-                                 WS_DEFAULT_JSON_NOTIFY_EVTS // notifyEvents
-              );
-          soup_message_set_request (msg, "application/json",
-                                    SOUP_MEMORY_COPY, body, strlen (body));
-          soup_session_queue_message (session, msg, nullptr, this);
-
-          g_free (body);
-          g_object_unref (session);
-        }
+      SoupSession *session;
+      SoupMessage *msg;
+      char *body;
+
+      if (!PlayerRemote::usesPlayerRemote (m))
+        continue;
+      found = true;
+
+      // match media deviceType or supportedFormats then set
+      // remotePlayerBaseURL
+      const auto &mimes = data.supportedFormats;
+      if (m->getProperty ("device") != data.deviceType
+          && std::find (mimes.begin (), mimes.end (),
+                        m->getProperty ("type"))
+                 == mimes.end ())
+        continue;
+      m->setProperty ("remotePlayerBaseURL", data.location);
+
+      session = soup_session_new ();
+      msg = soup_message_new ("POST", data.location.c_str ());
+      body = g_strdup_printf (REMOTE_PLAYER_JSON_MEDIA, // json format
+                              WS_DEFAULT_APPID,         // appId
+                              WS_DEFAULT_DOCID,         // documentID
+                              m->getId ().c_str (),     // sceneNode
+                              m->getProperty ("uri").c_str (), // type
+                              WS_DEFAULT_JSON_NOTIFY_EVTS // notifyEvents
+      );
+      soup_message_set_request (msg, "application/json",
+                                SOUP_MEMORY_COPY, body, strlen (body));
+      soup_session_queue_message (session, msg, nullptr, this);
+
+      g_free (body);
+      g_object_unref (session);
     }
-  return true;
+  return found;
 }
 
 WebServicesState
-- 
2.43.0


From 8c10c8be52f2c5f76b238d4f8d13aa41ddb10c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 55/85] fix: remote players without a valid URL were sent
 requests

---
 lib/PlayerRemote.cpp | 14 +++++++++++---
 lib/WebServices.cpp  |  9 +++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/PlayerRemote.cpp b/lib/PlayerRemote.cpp
index e439962..51597db 100644
--- a/lib/PlayerRemote.cpp
+++ b/lib/PlayerRemote.cpp
@@ -57,7 +57,7 @@ PlayerRemote::usesPlayerRemote (Media *media)
 
 PlayerRemote::~PlayerRemote ()
 {
-  g_object_unref (_session);
+  g_clear_object (&_session);
 }
 
 static void
@@ -76,8 +76,9 @@ PlayerRemote::sendAction (const string &body, const string &label = "")
   guint status;
   SoupMessage *msg;
 
-  if (!_session)
-    _session = soup_session_new ();
+  // there is no player yet
+  if (getProperty ("remotePlayerBaseURL") == "")
+    return;
 
   string url = xstrbuild ("%s" REMOTE_PLAYER_ROUTE_NODES "%s",
                           getProperty ("remotePlayerBaseURL").c_str (),
@@ -85,6 +86,13 @@ PlayerRemote::sendAction (const string &body, const string &label = "")
                                         : label.c_str ());
 
   msg = soup_message_new (SOUP_METHOD_POST, url.c_str ());
+  if (unlikely (msg == nullptr))
+    {
+      WARNING ("Invalid remote player URL %s", url.c_str ());
+      return;
+    }
+  if (!_session)
+    _session = soup_session_new ();
   soup_message_set_request (msg, "application/json", SOUP_MEMORY_COPY,
                             body.c_str (), strlen (body.c_str ()));
   soup_session_queue_message (_session, msg, cb_action, this);
diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 5235f5b..3cb0636 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -24,8 +24,13 @@
 bool
 PlayerRemoteData::isValid ()
 {
-  return (!location.empty () && !deviceType.empty ()
-          && !supportedFormats.empty () && !recognizedableEvents.empty ());
+  SoupURI *uri = soup_uri_new (location.c_str ());
+  bool valid = SOUP_URI_VALID_FOR_HTTP (uri);
+
+  if (uri != nullptr)
+    soup_uri_free (uri);
+  return (valid && !deviceType.empty () && !supportedFormats.empty ()
+          && !recognizedableEvents.empty ());
 }
 
 /**
-- 
2.43.0


From 474b6930425e67e2162abdaeeb4b3dbcf7f8413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 56/85] fix: remote players were sent invalid JSON for names
 with quotes

---
 lib/PlayerRemote.cpp | 11 +++++++----
 lib/PlayerRemote.h   |  8 ++++----
 lib/WebServices.cpp  | 15 +++++++++------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/lib/PlayerRemote.cpp b/lib/PlayerRemote.cpp
index 51597db..cdfc902 100644
--- a/lib/PlayerRemote.cpp
+++ b/lib/PlayerRemote.cpp
@@ -21,6 +21,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "WebServices.h"
 #include "Media.h"
 #include "Formatter.h"
+#include <json/json.h>
 #include <libsoup/soup.h>
 
 namespace ginga {
@@ -101,12 +102,14 @@ PlayerRemote::sendAction (const string &body, const string &label = "")
 void
 PlayerRemote::start ()
 {
-  string zOrder = getProperty ("zOrder");
+  auto quoted = [this] (const char *name) {
+    return Json::valueToQuotedString (getProperty (name).c_str ());
+  };
   string body_props = xstrbuild (
       REMOTE_PLAYER_JSON_ACT_WITH_PROPS, "start", 0,
-      getProperty ("top").c_str (), getProperty ("left").c_str (),
-      getProperty ("width").c_str (), getProperty ("height").c_str (),
-      getProperty ("zOrder").c_str (), "0%");
+      quoted ("top").c_str (), quoted ("left").c_str (),
+      quoted ("width").c_str (), quoted ("height").c_str (),
+      quoted ("zOrder").c_str (), "0%");
   sendAction (body_props);
   Player::start ();
 }
diff --git a/lib/PlayerRemote.h b/lib/PlayerRemote.h
index 6ea97cc..a2977f2 100644
--- a/lib/PlayerRemote.h
+++ b/lib/PlayerRemote.h
@@ -37,8 +37,8 @@ class WebServices;
      \"delay\": \"%d\",\
      \"properties\": \
      {\
-        \"bounds\": {\"top\": \"%s\",\"left\": \"%s\",\"width\": \"%s\",\"height\": \"%s\"},\
-        \"zIndex\" : \"%s\",\
+        \"bounds\": {\"top\": %s,\"left\": %s,\"width\": %s,\"height\": %s},\
+        \"zIndex\" : %s,\
         \"transparency\" : \"%s\"\
       }\
    }"
@@ -47,8 +47,8 @@ class WebServices;
   "{\
      \"appId\": \"%s\",\
      \"documentId\": \"%s\",\
-     \"sceneNode\": \"%s\",\
-     \"sceneURL\": \"%s\",\
+     \"sceneNode\": %s,\
+     \"sceneURL\": %s,\
      \"notifyEvents\": %s\
    }"
 
diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 3cb0636..9cf3140 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -346,12 +346,15 @@ WebServices::machMediaThenSetPlayerRemote (PlayerRemoteData &data)
 
       session = soup_session_new ();
       msg = soup_message_new ("POST", data.location.c_str ());
-      body = g_strdup_printf (REMOTE_PLAYER_JSON_MEDIA, // json format
-                              WS_DEFAULT_APPID,         // appId
-                              WS_DEFAULT_DOCID,         // documentID
-                              m->getId ().c_str (),     // sceneNode
-                              m->getProperty ("uri").c_str (), // type
-                              WS_DEFAULT_JSON_NOTIFY_EVTS // notifyEvents
+      body = g_strdup_printf (
+          REMOTE_PLAYER_JSON_MEDIA, // json format
+          WS_DEFAULT_APPID,         // appId
+          WS_DEFAULT_DOCID,         // documentID
+          Json::valueToQuotedString (m->getId ().c_str ())
+              .c_str (), // sceneNode
+          Json::valueToQuotedString (m->getProperty ("uri").c_str ())
+              .c_str (),              // sceneURL
+          WS_DEFAULT_JSON_NOTIFY_EVTS // notifyEvents
       );
       soup_message_set_request (msg, "application/json",
                                 SOUP_MEMORY_COPY, body, strlen (body));
-- 
2.43.0


From 5470f12d9b14d8010087e0e4c29951f007355a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 57/85] fix: names were not escaped in the URLs of remote
 players

---
 lib/PlayerRemote.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerRemote.cpp b/lib/PlayerRemote.cpp
index cdfc902..6980de9 100644
--- a/lib/PlayerRemote.cpp
+++ b/lib/PlayerRemote.cpp
@@ -81,10 +81,13 @@ PlayerRemote::sendAction (const string &body, const string &label = "")
   if (getProperty ("remotePlayerBaseURL") == "")
     return;
 
+  gchar *node = g_uri_escape_string (
+      (label == "") ? _media->getId ().c_str () : label.c_str (), nullptr,
+      false);
   string url = xstrbuild ("%s" REMOTE_PLAYER_ROUTE_NODES "%s",
                           getProperty ("remotePlayerBaseURL").c_str (),
-                          (label == "") ? _media->getId ().c_str ()
-                                        : label.c_str ());
+                          node);
+  g_free (node);
 
   msg = soup_message_new (SOUP_METHOD_POST, url.c_str ());
   if (unlikely (msg == nullptr))
-- 
2.43.0


From 5eec84c6dfb4d6aaabe82374c8615907309d75f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 58/85] fix: an event changed by nested actions during its
 transition went on with the outdated one

---
 lib/Event.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Event.cpp b/lib/Event.cpp
index d7237e6..de1d8a8 100644
--- a/lib/Event.cpp
+++ b/lib/Event.cpp
@@ -218,6 +218,10 @@ Event::transition (Event::Transition trans)
   if (unlikely (!_object->beforeTransition (this, trans)))
     return false;
 
+  // Actions run meanwhile may have changed the event.
+  if (unlikely (_state != curr))
+    return false;
+
   // Update event state.
   _state = next;
 
-- 
2.43.0


From 4f0ca34fab4403e7dfe917f9146ac3ad0d4331e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:17 +0000
Subject: [PATCH 59/85] fix: a bad predicate in a table leaked its strings

---
 lib/ParserLua.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 28eb97d..a9219c0 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -747,7 +747,8 @@ l_parse_predicate (lua_State *L)
 {
   Predicate::Type type;
   Predicate::Test test;
-  string str;
+  const char *str = nullptr; // kept by the stack: an error jumps over
+                             // destructors
   Predicate *it;
 
   Predicate *parent = (Predicate *) lua_touserdata (L, 1);
@@ -783,13 +784,14 @@ l_parse_predicate (lua_State *L)
   {
   case Predicate::ATOM:
     {
-      string left = str;
+      const char *left = str;
+      const char *right;
 
       lua_rawgeti (L, 2, 2);
       str = luaL_checkstring (L, -1);
 
       lua_rawgeti (L, 2, 3);
-      string right = luaL_checkstring (L, -1);
+      right = luaL_checkstring (L, -1);
 
       if (xstrcasecmp (str, "==") == 0)
         test = Predicate::EQ;
@@ -804,7 +806,7 @@ l_parse_predicate (lua_State *L)
       else if (xstrcasecmp (str, ">=") == 0)
         test = Predicate::GE;
       else
-        return luaL_error (L, "bad test: %s", str.c_str ());
+        return luaL_error (L, "bad test: %s", str);
 
       it->setTest (left, test, right);
       break;
-- 
2.43.0


From 08c9f1496f6a5afad1d5a19827a549e6e2eaf05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 60/85] fix: an edge given by a descriptor survived in media of
 regions that lie off-screen

---
 lib/Parser.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 3910c60..02c1a77 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -132,6 +132,7 @@ public:
   const map<string, string> *getAttributes ();
   bool getAttribute (const string &, string *);
   bool setAttribute (const string &, const string &);
+  bool removeAttribute (const string &);
 
   bool getData (const string &, void **);
   bool setData (const string &, void *, UserDataCleanFunc fn = nullptr);
@@ -1064,6 +1065,18 @@ ParserElt::setAttribute (const string &name, const string &value)
   return result;
 }
 
+/**
+ * @brief Removes element attribute.
+ * @param name Attribute name.
+ * @return \c true if the attribute was removed, or \c false if it was
+ * not set.
+ */
+bool
+ParserElt::removeAttribute (const string &name)
+{
+  return _attrs.erase (name) > 0;
+}
+
 /**
  * @brief Gets user data attached to element.
  * @param key User data key.
@@ -2487,7 +2500,11 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                     continue;
                   if ((it.first == "right" || it.first == "bottom")
                       && it.second[0] == '-')
-                    continue; // off-screen, left or top are enough
+                    {
+                      // Off-screen: left or top are enough.
+                      desc_elt->removeAttribute (it.first);
+                      continue;
+                    }
                   desc_elt->setAttribute (it.first, it.second);
                 }
             }
-- 
2.43.0


From 2f7fecd0b998e95c6feec6bc8ef8ae8a634f41e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 61/85] fix: a GStreamer warning released an element of the
 video pipeline that it does not own

GST_MESSAGE_SRC returns a borrowed pointer.
---
 lib/PlayerVideo.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index dc4a2e0..a6233c1 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -462,7 +462,6 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
             _WARNING ("%s", error->message);
           }
         g_error_free (error);
-        gst_object_unref (obj);
         break;
       }
     default:
-- 
2.43.0


From c3361a3f5865b490150ab21ddce72bb21c99398f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 62/85] fix: changing the speed of a video released its seek
 event twice

gst_element_send_event takes ownership of the event.
---
 lib/PlayerVideo.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index a6233c1..9c7a4cb 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -251,7 +251,6 @@ PlayerVideo::speed (double value)
     }
   if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
     TRACE ("speed failed");
-  gst_event_unref (seek_event);
 }
 
 void
-- 
2.43.0


From db271e55fdb5f84e213b9964f42bd06b090258fa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 63/85] fix: the sound properties of a video were set on
 uninitialised pointers

The audio filters were declared but never created.  The volume and mute
properties are those of the playbin, balance, bass and treble those of an
audio filter.  The initial values of the properties, of which the speed is
used by seeks, were not set either.
---
 lib/PlayerVideo.cpp | 70 +++++++++++++++++++++++++++++++++++++++++----
 lib/PlayerVideo.h   |  2 --
 2 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 9c7a4cb..50455e3 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -153,6 +153,57 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
   gst_object_unref (pad);
 
   g_object_set (G_OBJECT (_playbin), "video-sink", _video.bin, nullptr);
+
+  // Setup the audio processing bin.
+  _audio.bin = nullptr;
+  _audio.convert = gst_element_factory_make ("audioconvert", "audio.convert");
+  _audio.pan = gst_element_factory_make ("audiopanorama", "audio.pan");
+  _audio.equalizer
+      = gst_element_factory_make ("equalizer-3bands", "audio.equalizer");
+  if (_audio.convert != nullptr && _audio.pan != nullptr
+      && _audio.equalizer != nullptr)
+    {
+      _audio.bin = gst_bin_new ("audio.bin");
+      g_assert_nonnull (_audio.bin);
+
+      g_assert (gst_bin_add (GST_BIN (_audio.bin), _audio.convert));
+      g_assert (gst_bin_add (GST_BIN (_audio.bin), _audio.pan));
+      g_assert (gst_bin_add (GST_BIN (_audio.bin), _audio.equalizer));
+      g_assert (gst_element_link_many (_audio.convert, _audio.pan,
+                                       _audio.equalizer, nullptr));
+
+      pad = gst_element_get_static_pad (_audio.convert, "sink");
+      g_assert_nonnull (pad);
+      ghost = gst_ghost_pad_new ("sink", pad);
+      g_assert_nonnull (ghost);
+      g_assert (gst_element_add_pad (_audio.bin, ghost));
+      gst_object_unref (pad);
+
+      pad = gst_element_get_static_pad (_audio.equalizer, "src");
+      g_assert_nonnull (pad);
+      ghost = gst_ghost_pad_new ("src", pad);
+      g_assert_nonnull (ghost);
+      g_assert (gst_element_add_pad (_audio.bin, ghost));
+      gst_object_unref (pad);
+
+      g_object_set (G_OBJECT (_playbin), "audio-filter", _audio.bin, nullptr);
+    }
+  else
+    {
+      _WARNING ("no balance, bass and treble: elements are missing");
+      g_clear_pointer (&_audio.convert, gst_object_unref);
+      g_clear_pointer (&_audio.pan, gst_object_unref);
+      g_clear_pointer (&_audio.equalizer, gst_object_unref);
+    }
+
+  // Initialize properties.
+  _prop.mute = false;
+  _prop.balance = 0.;
+  _prop.volume = 1.;
+  _prop.treble = 0.;
+  _prop.bass = 0.;
+  _prop.freeze = false;
+  _prop.speed = 1.;
 }
 
 PlayerVideo::~PlayerVideo ()
@@ -492,13 +543,17 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_BALANCE:
       {
         _prop.balance = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.pan, "panorama", _prop.balance, nullptr);
+        if (_audio.pan != nullptr)
+          g_object_set (_audio.pan, "panorama",
+                        CLAMP (_prop.balance, -1., 1.), nullptr);
         break;
       }
     case PROP_BASS:
       {
         _prop.bass = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.equalizer, "band0", _prop.bass, nullptr);
+        if (_audio.equalizer != nullptr)
+          g_object_set (_audio.equalizer, "band0",
+                        CLAMP (_prop.bass, -24., 12.), nullptr);
         break;
       }
     case PROP_FREEZE:
@@ -509,7 +564,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_MUTE:
       {
         _prop.mute = ginga::parse_bool (value);
-        g_object_set (_audio.volume, "mute", _prop.mute, nullptr);
+        g_object_set (_playbin, "mute", _prop.mute, nullptr);
         break;
       }
     case PROP_SPEED:
@@ -578,8 +633,10 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_TREBLE:
       {
         _prop.treble = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.equalizer, "band1", _prop.treble, "band2",
-                      _prop.treble, nullptr);
+        if (_audio.equalizer != nullptr)
+          g_object_set (_audio.equalizer, "band1",
+                        CLAMP (_prop.treble, -24., 12.), "band2",
+                        CLAMP (_prop.treble, -24., 12.), nullptr);
         break;
       }
     case PROP_URI:
@@ -592,7 +649,8 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_VOLUME:
       {
         _prop.volume = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.volume, "volume", _prop.volume, nullptr);
+        g_object_set (_playbin, "volume",
+                      CLAMP (_prop.volume, 0., 10.), nullptr);
         break;
       }
     default:
diff --git a/lib/PlayerVideo.h b/lib/PlayerVideo.h
index 7e1a6a6..be491fd 100644
--- a/lib/PlayerVideo.h
+++ b/lib/PlayerVideo.h
@@ -51,11 +51,9 @@ private:
   struct
   {                        // audio pipeline
     GstElement *bin;       // audio bin
-    GstElement *volume;    // volume filter
     GstElement *pan;       // balance filter
     GstElement *equalizer; // equalizer filter
     GstElement *convert;   // convert audio format
-    GstElement *sink;      // audio sink
   } _audio;
   struct
   {                   // video pipeline
-- 
2.43.0


From ab81469789ca89664c310c52055fa7953dfe4eb7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 64/85] fix: each video left its bus watch, the bus and two
 file descriptors behind

---
 lib/PlayerVideo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 50455e3..736a817 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -210,6 +210,12 @@ PlayerVideo::~PlayerVideo ()
 {
   _TRACE ("");
   gstx_element_set_state_sync (_playbin, GST_STATE_NULL);
+
+  // The watch holds a reference to the bus.
+  GstBus *bus = gst_pipeline_get_bus (GST_PIPELINE (_playbin));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
   gst_object_unref (_playbin);
 }
 
-- 
2.43.0


From a0d68bfaf3d436035e88106c1cf9ac9a48e53c4f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 65/85] fix: a video whose content ended never ended its
 presentation

---
 lib/PlayerVideo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 736a817..40202c7 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -455,7 +455,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
     case GST_MESSAGE_EOS:
       {
         _TRACE_MESSAGE (msg, "");
-        // player->stop (); // set eos or use player state to signal eos
+        if (!player->getFreeze ())
+          player->setEOS (true);
         break;
       }
     case GST_MESSAGE_NEW_CLOCK:
-- 
2.43.0


From 8b4e0a66700c6fffb50d5472577b7e313303bf94 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 66/85] fix: the time and speed given to a video that is not
 ready yet were lost

---
 lib/PlayerVideo.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 40202c7..4d89468 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -495,6 +495,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
                             gst_element_state_get_name (old_state),
                             gst_element_state_get_name (new_state));
           }
+        if (new_state == GST_STATE_PAUSED || new_state == GST_STATE_PLAYING)
+          player->doStackedActions ();
         break;
       }
     case GST_MESSAGE_ERROR:
@@ -683,11 +685,13 @@ PlayerVideo::stackAction (Property code, unused (const string &name),
 void
 PlayerVideo::doStackedActions ()
 {
-  while (!_stack_actions.empty ())
+  list<PlayerVideoAction> actions;
+  actions.swap (_stack_actions); // an action may be stacked again
+  while (!actions.empty ())
     {
       PlayerVideoAction act;
-      act = _stack_actions.front ();
-      _stack_actions.pop_front ();
+      act = actions.front ();
+      actions.pop_front ();
 
       this->doSetProperty (act.code, act.name, act.value);
     }
-- 
2.43.0


From 98ca0e2268252b72ec77b9f2fe9cfa889b4df768 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:39:24 +0000
Subject: [PATCH 67/85] fix: the signal generator called uninitialised appsink
 callbacks

---
 lib/PlayerSigGen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index bb1c3c3..1d21a4a 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -163,6 +163,7 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
   gst_object_unref (_audio.queueVideoPad);
 
   // Callbacks.
+  _callbacks = GstAppSinkCallbacks (); // the others are not handled
   _callbacks.eos = nullptr;
   _callbacks.new_preroll = nullptr;
   _callbacks.new_sample = cb_NewSample;
-- 
2.43.0


From 92be3d41509501114ac22bae0c652b711b671e5c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:39:24 +0000
Subject: [PATCH 68/85] fix: the signal generator leaked its bus, pads, unused
 caps and, if it never started, its pipeline

---
 lib/PlayerSigGen.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index 1d21a4a..18fdf31 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -161,6 +161,8 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
 
   gst_object_unref (_audio.queueAudioPad);
   gst_object_unref (_audio.queueVideoPad);
+  gst_object_unref (_audio.teeAudioPad);
+  gst_object_unref (_audio.teeVideoPad);
 
   // Callbacks.
   _callbacks = GstAppSinkCallbacks (); // the others are not handled
@@ -179,24 +181,26 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
 
 PlayerSigGen::~PlayerSigGen ()
 {
+  GstBus *bus;
+
+  gstx_element_set_state_sync (_pipeline, GST_STATE_NULL);
+
+  // The watch holds a reference to the bus.
+  bus = gst_pipeline_get_bus (GST_PIPELINE (_pipeline));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
+  gst_object_unref (_pipeline);
 }
 
 void
 PlayerSigGen::start ()
 {
-  GstCaps *caps;
-  GstStructure *st;
   GstStateChangeReturn ret;
 
   g_assert (_state != OCCURRING);
   TRACE ("starting");
 
-  st = gst_structure_new_empty ("audio/x-raw");
-  gst_structure_set (st, "format", G_TYPE_STRING, "BGRA", nullptr);
-
-  caps = gst_caps_new_full (st, nullptr);
-  g_assert_nonnull (caps);
-
   Player::setEOS (false);
   g_atomic_int_set (&_sample_flag, 0);
 
@@ -219,7 +223,6 @@ PlayerSigGen::stop ()
   TRACE ("stopping");
 
   gstx_element_set_state_sync (_pipeline, GST_STATE_NULL);
-  gst_object_unref (_pipeline);
   Player::stop ();
 }
 
-- 
2.43.0


From 7f35e1b00c06b2de63f5ecde3d2d2a8c7f8181f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:16 +0000
Subject: [PATCH 69/85] fix: a frequency or volume out of range was passed on
 to the signal generator

GObject refuses such values with a critical message.
---
 lib/PlayerSigGen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index 18fdf31..a9c8ec5 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -326,7 +326,7 @@ PlayerSigGen::doSetProperty (Property code, unused (const string &name),
   switch (code)
     {
     case PROP_FREQ:
-      _prop.freq = xstrtodorpercent (value, nullptr);
+      _prop.freq = MAX (xstrtodorpercent (value, nullptr), 0.);
       if (_state != SLEEPING)
         g_object_set (_audio.src, "freq", _prop.freq, nullptr);
       break;
@@ -367,7 +367,7 @@ PlayerSigGen::doSetProperty (Property code, unused (const string &name),
         }
       break;
     case PROP_VOLUME:
-      _prop.volume = xstrtodorpercent (value, nullptr);
+      _prop.volume = CLAMP (xstrtodorpercent (value, nullptr), 0., 1.);
       TRACE ("Vol: %f", _prop.volume);
       if (_state != SLEEPING)
         g_object_set (_audio.src, "volume", _prop.volume, nullptr);
-- 
2.43.0


From 4a2a47bd18ddfcde17bc6900f10f080e4ce49f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 70/85] fix: stacked seeks of a video could run in the middle
 of a change of state

---
 lib/PlayerVideo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 4d89468..8d4f50a 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -495,7 +495,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
                             gst_element_state_get_name (old_state),
                             gst_element_state_get_name (new_state));
           }
-        if (new_state == GST_STATE_PAUSED || new_state == GST_STATE_PLAYING)
+        if ((new_state == GST_STATE_PAUSED || new_state == GST_STATE_PLAYING)
+            && pending_state == GST_STATE_VOID_PENDING)
           player->doStackedActions ();
         break;
       }
-- 
2.43.0


From 6de6587f86d84432d6274cde504d0edb69e4e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 71/85] fix: the speed was changed at the video sink only: not
 for sounds, and a video could get stuck

---
 lib/PlayerVideo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 8d4f50a..ec30610 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -306,7 +306,7 @@ PlayerVideo::speed (double value)
           value, GST_FORMAT_TIME, GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, 0,
           GST_SEEK_TYPE_NONE, position);
     }
-  if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
+  if (unlikely (!gst_element_send_event (_playbin, seek_event)))
     TRACE ("speed failed");
 }
 
-- 
2.43.0


From 5bca38cafa6f6e353773a95ddb3e44405b719b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 72/85] fix: pausing a signal generator that is still starting
 could block forever

---
 lib/PlayerSigGen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index a9c8ec5..3ae949b 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -232,7 +232,7 @@ PlayerSigGen::pause ()
   g_assert (_state != PAUSED && _state != SLEEPING);
   TRACE ("pausing");
 
-  gstx_element_set_state_sync (_pipeline, GST_STATE_PAUSED);
+  gst_element_set_state (_pipeline, GST_STATE_PAUSED);
   Player::pause ();
 }
 
@@ -242,7 +242,7 @@ PlayerSigGen::resume ()
   g_assert (_state == PAUSED);
   TRACE ("resuming");
 
-  gstx_element_set_state_sync (_pipeline, GST_STATE_PLAYING);
+  gst_element_set_state (_pipeline, GST_STATE_PLAYING);
   Player::resume ();
 }
 
-- 
2.43.0


From 1fe90b69e39e8bff7e34e4a2f189bdc9d3f923e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:39 +0000
Subject: [PATCH 73/85] fix: too high a frequency crashed the signal generator

---
 lib/PlayerSigGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index 3ae949b..d6ae0fd 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -326,7 +326,7 @@ PlayerSigGen::doSetProperty (Property code, unused (const string &name),
   switch (code)
     {
     case PROP_FREQ:
-      _prop.freq = MAX (xstrtodorpercent (value, nullptr), 0.);
+      _prop.freq = CLAMP (xstrtodorpercent (value, nullptr), 0., 20000.);
       if (_state != SLEEPING)
         g_object_set (_audio.src, "freq", _prop.freq, nullptr);
       break;
-- 
2.43.0


From 50bb5bbbd6023932242383d3ef05bce029f09f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:45 +0000
Subject: [PATCH 74/85] fix: resuming a video that is still pausing could block
 forever

---
 lib/PlayerVideo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index ec30610..3f3547a 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -255,7 +255,7 @@ PlayerVideo::resume ()
   g_assert (_state == PAUSED);
   TRACE ("resuming %s", _id.c_str ());
 
-  gstx_element_set_state_sync (_playbin, GST_STATE_PLAYING);
+  gstx_element_set_state (_playbin, GST_STATE_PLAYING);
   Player::resume ();
 }
 
-- 
2.43.0


From fb26b2dcecd2c52556029314ead60d2ecee155a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:43 +0000
Subject: [PATCH 75/85] fix: a video whose speed was set to zero could not be
 sought any more

---
 lib/PlayerVideo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 3f3547a..cb1d47a 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -590,6 +590,8 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
           {
             if (unlikely (!_xstrtod (value, nullptr)))
               return false;
+            if (doubleeq (xstrtod (value), 0.))
+              break; // nothing to do: it is not a speed
             _prop.speed = xstrtod (value);
             speed (_prop.speed);
           }
-- 
2.43.0


From 933a5b284f39587f68e1c210a216209cccbdea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:05 +0000
Subject: [PATCH 76/85] fix: the picture of a video fell behind, and its frames
 piled up, when redraws were slower than frames

---
 lib/PlayerVideo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index cb1d47a..8fc8648 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -141,6 +141,10 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
   _video.sink = gst_element_factory_make ("appsink", "video.sink");
   g_assert_nonnull (_video.sink);
 
+  // Frames that were not drawn in time must not pile up: the picture would
+  // fall behind.
+  g_object_set (_video.sink, "max-buffers", 1, "drop", TRUE, nullptr);
+
   g_assert (gst_bin_add (GST_BIN (_video.bin), _video.caps));
   g_assert (gst_bin_add (GST_BIN (_video.bin), _video.sink));
   g_assert (gst_element_link (_video.caps, _video.sink));
-- 
2.43.0


From 194aaadb182555c2f0f41b3417677309808f3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:15 +0000
Subject: [PATCH 77/85] fix: a relative seek or change of speed right after
 another one started from the beginning

---
 lib/PlayerVideo.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 8fc8648..4e566cd 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -377,7 +377,11 @@ PlayerVideo::getPipelineTime ()
 gint64
 PlayerVideo::getStreamMediaTime ()
 {
-  gint64 cur;
+  gint64 cur = 0;
+
+  // The position is not known while a seek is still under way.
+  gst_element_get_state (_playbin, nullptr, nullptr, GST_SECOND);
+
   if (unlikely (
           !gst_element_query_position (_playbin, GST_FORMAT_TIME, &cur)))
     TRACE ("Get %s time failed", _id.c_str ());
@@ -387,7 +391,7 @@ PlayerVideo::getStreamMediaTime ()
 gint64
 PlayerVideo::getStreamMediaDuration ()
 {
-  gint64 dur;
+  gint64 dur = G_MAXINT64;
   if (unlikely (
           !gst_element_query_duration (_playbin, GST_FORMAT_TIME, &dur)))
     TRACE ("Get %s duration failed", _id.c_str ());
-- 
2.43.0


From 3aadbc3418782418ee00b20eb737643f236ae043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 78/85] fix: remote players whose URL names no host were
 registered

---
 lib/WebServices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 9cf3140..f836e94 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -25,7 +25,7 @@ bool
 PlayerRemoteData::isValid ()
 {
   SoupURI *uri = soup_uri_new (location.c_str ());
-  bool valid = SOUP_URI_VALID_FOR_HTTP (uri);
+  bool valid = SOUP_URI_VALID_FOR_HTTP (uri) && *uri->host != '\0';
 
   if (uri != nullptr)
     soup_uri_free (uri);
-- 
2.43.0


From 2e0e290d04af2035c32d2ef8cbcaabba9c0eb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:23 +0000
Subject: [PATCH 79/85] fix: an empty document aborted the parser or was blamed
 on an earlier one

---
 lib/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 02c1a77..457d0ba 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -49,7 +49,8 @@ xmlGetLastErrorAsString ()
   string errmsg;
 
   err = xmlGetLastError ();
-  g_assert_nonnull (err);
+  if (err == nullptr)
+    return "XML error: cannot read document"; // e.g., empty buffer
 
   errmsg = (err->file != nullptr) ? toCPPString (err->file) + ": " : "";
   errmsg += "XML error";
@@ -3642,6 +3643,7 @@ ParserState::pushImportBase (ParserState *st, ParserElt *elt)
     }
 
   // Read the imported document.
+  xmlResetLastError ();
   xml = xmlReadFile (imported_uri.c_str (), nullptr, PARSER_LIBXML_FLAGS);
   if (unlikely (xml == nullptr))
     {
@@ -4458,6 +4460,7 @@ Parser::parseBuffer (const void *buf, size_t size, int width, int height,
   xmlDoc *xml;
   Document *doc;
 
+  xmlResetLastError ();
   xml = xmlReadMemory ((const char *) buf, (int) size, nullptr, nullptr,
                        PARSER_LIBXML_FLAGS);
   if (unlikely (xml == nullptr))
@@ -4493,6 +4496,7 @@ Parser::parseFile (const string &path, int width, int height,
 
   uri = xurifromsrc (uri, "");
 
+  xmlResetLastError ();
   xml = xmlReadFile (uri.c_str (), nullptr, PARSER_LIBXML_FLAGS);
   if (unlikely (xml == nullptr))
     {
-- 
2.43.0


From 6bd30c20e71aaf5703d717492cfb1b2bdec24d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:27 +0000
Subject: [PATCH 80/85] fix: a wipe erased what is below the media and painted
 a frame around it

---
 lib/Player.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 988a043..d9c4381 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -419,6 +419,11 @@ Player::redraw (cairo_t *cr)
       this->reload ();
     }
 
+  // Keep what is below out of the reach of the wipe.
+  bool wipe = !_opengl && !_crop.empty ();
+  if (wipe)
+    cairo_push_group (cr);
+
   if (_prop.bgColor.alpha > 0)
     {
       if (_opengl)
@@ -521,12 +526,17 @@ Player::redraw (cairo_t *cr)
         }
 
       cairo_close_path (cr);
-      cairo_stroke_preserve (cr);
       cairo_fill (cr);
       cairo_set_operator (cr, CAIRO_OPERATOR_OVER);
       cairo_restore (cr);
     }
 
+  if (wipe)
+    {
+      cairo_pop_group_to_source (cr);
+      cairo_paint (cr);
+    }
+
   if (_prop.debug || _formatter->getOptionBool ("debug"))
     {
       this->redrawDebuggingInfo (cr);
-- 
2.43.0


From 59cb944a216dbecbf0dba08bbf88fa657d3887f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 81/85] fix: ginga took the press of a key for its release and
 conversely

---
 src/ginga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index 0c9bb5c..f079207 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -255,7 +255,7 @@ keyboard_callback (GtkWidget *widget, GdkEventKey *e, gpointer type)
     }
 
   bool status = GINGA->sendKey (
-      string (key), g_str_equal ((const char *) type, "press") == 0);
+      string (key), g_str_equal ((const char *) type, "press"));
 
   if (free_key)
     g_free (deconst (char *, key));
-- 
2.43.0


From 4cf27b3e205e50ee08e6eb0208bcf171e0a3c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 82/85] fix: ginga crashed when a key without a name was
 pressed

---
 src/ginga.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index f079207..7e35cf4 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -246,6 +246,8 @@ keyboard_callback (GtkWidget *widget, GdkEventKey *e, gpointer type)
       break;
     default:
       key = gdk_keyval_name (e->keyval);
+      if (key == NULL)
+        return FALSE; // not a valid key
       if (strlen (key) > 1)
         {
           key = g_utf8_strup (key, -1);
-- 
2.43.0


From c538d548f6bb08c81bc20163bc29aef6ec6c279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 83/85] fix: ginga aborted when given a negative size

---
 src/ginga.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index 7e35cf4..4b51def 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -67,7 +67,7 @@ opt_size_cb (unused (const gchar *opt), const gchar *arg,
   gchar *end;
 
   width = g_ascii_strtoll (arg, &end, 10);
-  if (width == 0)
+  if (width <= 0)
     goto syntax_error;
   opt_width = (gint) (CLAMP (width, 0, G_MAXINT));
 
@@ -75,7 +75,7 @@ opt_size_cb (unused (const gchar *opt), const gchar *arg,
     goto syntax_error;
 
   height = g_ascii_strtoll (++end, NULL, 10);
-  if (height == 0)
+  if (height <= 0)
     goto syntax_error;
   opt_height = (gint) (CLAMP (height, 0, G_MAXINT));
 
-- 
2.43.0


From 19420fd08cf1d0139a8b457891d1f983f1b2f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:46 +0000
Subject: [PATCH 84/85] fix: ginga presented only the first of its files, the
 others stood still

---
 src/ginga.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index 4b51def..b6c62c5 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -49,6 +49,9 @@ static string opt_background = "";        // background color
 static gint opt_width = 800;              // initial window width
 static gint opt_height = 600;             // initial window height
 
+// Whether the next tick is the first one of the current presentation.
+static gboolean first_tick = TRUE;
+
 static gboolean
 opt_background_cb (unused (const gchar *opt), const gchar *arg,
                    unused (gpointer data), unused (GError **err))
@@ -293,17 +296,18 @@ tick_callback (GtkWidget *widget)
   frame++;
 #endif
 
-  if (frame == 0)
+  if (first_tick)
     {
       first = time;
       last = time;
+      first_tick = FALSE;
     }
 
   if (!GINGA->sendTick (time - first, time - last, frame))
     {
       g_assert (GINGA->getState () == GINGA_STATE_STOPPED);
       gtk_main_quit (); // all done
-      return G_SOURCE_REMOVE;
+      return G_SOURCE_CONTINUE; // there may be other files
     }
 
   last = time;
@@ -434,6 +438,7 @@ main (int argc, char **argv)
           fail_count++;
           continue;
         }
+      first_tick = TRUE;
       gtk_widget_show_all (app);
       gtk_main ();
       GINGA->stop ();
-- 
2.43.0


From f7743261f1465b03c950ff990560a523e8bf4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:24 +0000
Subject: [PATCH 85/85] fix: ginga took the "--" before its files for a file

---
 src/ginga.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index b6c62c5..7d93b4b 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -349,6 +349,17 @@ main (int argc, char **argv)
       _exit (0);
     }
 
+  // The parser keeps the "--" before files whose names begin with a dash.
+  for (int i = 1; i < saved_argc; i++)
+    {
+      if (!g_str_equal (saved_argv[i], "--"))
+        continue;
+      g_free (saved_argv[i]);
+      for (saved_argc--; i < saved_argc; i++)
+        saved_argv[i] = saved_argv[i + 1];
+      saved_argv[i] = NULL;
+    }
+
   if (!opt_webservices && saved_argc < 2)
     {
       usage_error ("Missing file operand");
-- 
2.43.0

