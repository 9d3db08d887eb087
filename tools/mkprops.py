#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed='transition and player life-cycle observation (GINGA_VERIF)' if hook else None)))

p('C01', 'Event life cycle: only legal transitions, refused ones change nothing',
  'Every presentation, attribution and selection event is always in exactly one of sleeping, occurring or paused, and changes state only by start (from sleeping, or continuing a paused one), pause (from occurring), resume (from paused), stop or abort (from occurring or paused). A request that is not legal in the current state, or that the object cannot carry out, is reported as refused, leaves the state of every event as it was and triggers no link. After each request the event is in the state that the last accepted transition leads to.',
  ['histories', 'programs'], 'every sequence of start/pause/resume/stop/abort requests on any mix of events and objects of any document, interleaved with clock ticks and keys',
  'Unit tests ask for a few hand-written transitions on single events; the property ranges over every history of requests over composed objects.',
  ['lib/Event.cpp', 'lib/Object.cpp', 'lib/Context.cpp', 'lib/Media.cpp', 'lib/Switch.cpp'],
  [('event state', 'sleeping / occurring / paused', 'lib/Event.h')],
  [('transition function', 'lib/Event.cpp Event::transition'), ('before/after transition of each object kind', 'lib/{Media,Context,Switch}.cpp')],
  ['successful end of a transition (hook)', 'event state accessors after each command'], True)

p('C02', 'Causal links fire exactly when their condition happens, once, in order',
  'When a transition is requested and accepted (or an object ends by itself), exactly those links of the enclosing occurring contexts whose condition names that event and transition and whose assessment holds at that moment fire, each once; the silent clean-up of what was inside a composition that ends fires none. The actions of a link run in the order of its binds and with the values and delays given. Nothing but a fired link, a port, an anchor time, the natural end of content, a key or an explicit request changes the state of an event.',
  ['programs', 'histories'], 'every document of contexts, media, links (simple and compound conditions and actions, parameters, delays) and every history of requests, ticks and keys applied to it',
  'Tests cover one link at a time; chains, loops through several contexts and link plus port plus anchor combinations are unbounded.',
  ['lib/Document.cpp', 'lib/Context.cpp', 'lib/Object.cpp', 'lib/Event.cpp'],
  [('links of a context', 'conditions and actions', 'lib/Context.h'), ('delayed actions', 'pending actions of an object', 'lib/Object.h')],
  [('action evaluation', 'lib/Document.cpp evalAction / evalActionInContext')],
  ['sequence of accepted transitions (hook)', 'event states, object clocks and pending-action counts after each command'], True)

p('C03', 'Assessments and rules evaluate to their truth value over current properties',
  'A predicate built from comparisons (equal, different, less, less-or-equal, greater, greater-or-equal), conjunction, disjunction and negation evaluates to the value given by string comparison of its operands and the usual Boolean laws, for any nesting. An operand that refers to a property of an object stands for the value that property has at the moment of evaluation (the empty value when it has none). Evaluating or copying a predicate never changes it.',
  ['inputs', 'histories'], 'every predicate tree over literals and property references, every assignment history of the referenced properties',
  'Tests evaluate a handful of rules; nesting and values are unbounded.',
  ['lib/Predicate.cpp', 'lib/Document.cpp'], [('property values', 'current value of each property', 'lib/Object.h')],
  [('predicate evaluation', 'lib/Document.cpp evalPredicate, evalPropertyRef'), ('construction from documents', 'lib/Parser.cpp, lib/ParserLua.cpp')],
  ['result of evaluating generated predicates', 'which rule/link was taken'], False)

p('C04', 'Timed behaviour: anchors, durations and delays fire once, on time, in order',
  "A temporal anchor of an occurring media begins and ends, and a delayed action runs, exactly once and on the first clock tick at which the owning object's own clock has reached the due time, never earlier; a media with an explicit duration ends on the first tick at which its clock is past it. The clock of an object starts at zero when the object starts, advances by exactly the tick intervals while the object occurs, and does not advance while it is paused or sleeping; a media entered through an anchor follows the schedule from that anchor's begin on and lasts as long as the anchor. Stopping an object cancels everything it had scheduled.",
  ['schedules', 'programs', 'histories'], 'every tick pattern (fine, coarse, irregular), every set of anchors, durations and delays, every interleaving with start/pause/resume/stop',
  'Tests use a few fixed tick patterns.',
  ['lib/Object.cpp', 'lib/Media.cpp', 'lib/Player.cpp'], [('object clock', 'time since start', 'lib/Object.h'), ('pending actions', 'due times', 'lib/Object.h')],
  [('tick', 'lib/Object.cpp sendTick, lib/Media.cpp sendTick'), ('anchor scheduling', 'lib/Media.cpp')],
  ['transitions per tick (hook)', 'object clock after each tick'], True)

p('C05', 'Composition life cycle: ports start, children follow, the end propagates',
  'Starting a context starts the targets of its ports and nothing else; stopping, aborting, pausing or resuming it does the same to every child that can follow; a child started while its enclosing context sleeps makes that context occur without starting its ports. A context ends by itself at the first tick at which none of its children is awake, and the whole presentation ends exactly when the body has ended. A context that is stopped and started again behaves as it did the first time.',
  ['programs', 'histories'], 'every nesting of contexts and switches, every history of requests and ticks',
  'Tests check one or two nesting levels with fixed histories.',
  ['lib/Context.cpp', 'lib/Object.cpp', 'lib/Formatter.cpp', 'lib/Composition.cpp'], [('awake children', 'number of children not sleeping', 'lib/Context.h')],
  [('context transitions', 'lib/Context.cpp'), ('end detection', 'lib/Context.cpp sendTick, lib/Formatter.cpp')],
  ['transitions (hook)', 'states after each command', 'playing/end flags'], True)

p('C06', 'A switch presents exactly the first component whose rule holds',
  "Starting a switch starts the component bound to the first rule, in document order, that holds at that moment, or the default component when no rule holds, and starts no other component; when nothing can be selected the start is refused. Starting it through a switch port selects only among the components mapped by that port and starts the mapped interface (the first one given for that component). Pausing, resuming, stopping or aborting the switch applies to the selected component, the switch ends when that component (or the first mapped interface) ends, and links on a switch interface observe the selected component's event.",
  ['programs', 'inputs', 'histories'], 'every list of rules, defaults and switch ports, every assignment of the tested variables, every history of requests',
  'Tests use fixed rules and single transitions.',
  ['lib/Switch.cpp', 'lib/Document.cpp', 'lib/Parser.cpp'], [('selected component', 'component presented by the switch', 'lib/Switch.h')],
  [('selection', 'lib/Switch.cpp')], ['transitions (hook)', 'states after each command'], True)

p('C07', 'Property assignment: the assigned value is what is read, with begin and end',
  "After a set action the property reads as the assigned value, a value that refers to another property being replaced by that property's current value, and the assignment begins immediately and ends after its duration (at once when it has none or the object sleeps), firing the corresponding links once each. Other properties keep their values, except those that a compound property (bounds, location, size) stands for. A property declared in the document has its declared value when its media starts.",
  ['inputs', 'histories', 'programs'], 'every property name and value, every reference chain, every object kind (media, context, settings) and history',
  'Tests set a few values on sleeping objects.',
  ['lib/Object.cpp', 'lib/Media.cpp', 'lib/Context.cpp', 'lib/MediaSettings.cpp', 'lib/Player.cpp'], [('property table', 'name to value', 'lib/Object.h')],
  [('attribution', 'lib/Media.cpp, lib/Context.cpp'), ('references', 'lib/Document.cpp evalPropertyRef')],
  ['property read-back after each command', 'attribution transitions (hook)'], True)

p('C08', 'Keys reach the focused and listening objects; focus follows the rules',
  'At most one focus index is current; it is the one requested last, or at start the lowest focus index among the occurring media, and the cursor keys move it as the focused media\'s move properties say. A key press begins, and its release ends, exactly those key-selection conditions of occurring media that name that key (or, when they name none, Enter on the focused media). Keys given to a presentation that is not playing have no effect.',
  ['histories', 'programs'], 'every sequence of key presses and releases over every focus graph and selection links',
  'Tests send single keys.',
  ['lib/Media.cpp', 'lib/MediaSettings.cpp', 'lib/Player.cpp', 'lib/Formatter.cpp'], [('current focus', 'focus index', 'lib/Player.cpp, lib/MediaSettings.cpp')],
  [('key dispatch', 'lib/Formatter.cpp sendKey, lib/Media.cpp sendKey'), ('focus update', 'lib/MediaSettings.cpp')],
  ['selection transitions (hook)', 'current focus, focused media after each key and tick'], True)

p('C09', 'No request sequence crashes, corrupts or hangs the presentation engine',
  'Whatever document is loaded and whatever sequence of requests, keys, ticks, resizes and redraws is applied, the engine neither reads nor writes memory it does not own, executes no undefined operation, fails no internal assertion and emits no internal warning. Every request returns, unless the document itself asks for endless activity at one instant. Only an invalid value or unreadable content may end the process, by design, and then with a message that names it.',
  ['histories', 'programs', 'inputs'], 'every document in the accepted language, every interleaving of the public operations',
  'Tests exercise each operation in its intended state; crashes hide in combinations of object kinds, event kinds and transitions.',
  ['lib/Document.cpp', 'lib/Event.cpp', 'lib/Media.cpp', 'lib/Context.cpp', 'lib/Switch.cpp', 'lib/Object.cpp', 'lib/Formatter.cpp', 'lib/Player.cpp'], [],
  [('all public operations', 'lib/Formatter.cpp, lib/Document.cpp')], ['sanitizer reports, assertion failures, process exit'], False)

p('C10', 'The NCL parser is total: any bytes give a document or an error message',
  'For every byte sequence given as a document, parsing returns either a document or a failure with a non-empty message; it never crashes, reads outside the input, executes undefined behaviour, hangs or leaks memory. This includes truncated, malformed and adversarial XML, odd identifiers, numbers out of range and missing or circular references.',
  ['inputs'], 'all byte strings; in particular all mutations of valid documents',
  'Tests contain about a hundred hand-written documents.',
  ['lib/Parser.cpp', 'lib/aux-ginga.cpp'], [], [('parser', 'lib/Parser.cpp')], ['sanitizer reports', 'result and message of the parse'], False)

p('C11', 'Parsing is faithful: the loaded presentation is the one the document states',
  'The object tree, anchors with their times, properties (including those from descriptors, regions, transitions and their parameters), ports, switch rules and ports, and links (conditions, actions, parameters, assessments) obtained by parsing are exactly those the document declares, in document order. Nothing is dropped, duplicated, attached to the wrong object or given another value, whatever the order, depth and number of declarations.',
  ['inputs', 'programs'], 'every valid document',
  'Tests parse small fixed documents and look at single fields.',
  ['lib/Parser.cpp'], [('parser tables', 'elements by tag and id', 'lib/Parser.cpp')], [('element processing', 'lib/Parser.cpp process*')],
  ['dump of the document through public accessors'], False)

p('C12', 'Valid documents are accepted; each single violation is rejected with its message',
  'A document that follows the language\'s structure, required attributes, identifier and reference rules is accepted. A document with exactly one violation (unknown element or attribute, wrong parent, missing required attribute or child, duplicate or ill-formed identifier, dangling or ill-kinded reference, bad enumeration or number) is rejected, with an error message naming the element, attribute or value at fault.',
  ['inputs', 'fault_sequences'], 'every valid document and every single-fault mutation of it',
  'Tests list about 60 hand-picked faults.',
  ['lib/Parser.cpp'], [], [('syntax table and checks', 'lib/Parser.cpp')], ['result and message of the parse'], False)

p('C13', 'Import is transparent and circular import is rejected',
  'Importing a base (regions, descriptors, connectors, rules, transitions) and referring to its elements through the alias gives the same presentation as declaring those elements in place. This holds through chains of imports and with several aliases for one file. An import cycle, a missing file or an unknown alias is rejected with a message instead of looping.',
  ['inputs', 'configurations'], 'every partition of a document\'s head over imported files, every import graph',
  'Tests import one or two files.',
  ['lib/Parser.cpp'], [('import stack', 'alias and path of each import', 'lib/Parser.cpp')], [('import', 'lib/Parser.cpp')],
  ['dump comparison between split and inlined documents'], False)

p('C14', 'A media that refers to another shares or copies it as declared',
  'A media element with a reference to another presents the referred object: events, anchors and properties declared on either are those of the one shared object, in every context in which it appears. Links, ports and switches that name either identifier act on the same object. Requests through any identifier give the same behaviour.',
  ['programs', 'histories'], 'every pattern of references across contexts, with anchors and properties on either side',
  'Tests use three fixed documents.',
  ['lib/Parser.cpp', 'lib/Object.cpp', 'lib/Document.cpp'], [('aliases', 'identifiers of an object', 'lib/Object.h')], [('refer processing', 'lib/Parser.cpp')],
  ['dump', 'transitions (hook) compared between identifiers'], True)

p('C15', 'The table notation gives the same presentation as the XML notation, safely',
  'A presentation written in the Lua table notation loads to the same objects, anchors, properties, ports, rules and links as its XML counterpart and behaves the same. Any other chunk of text, valid Lua or not, gives a failure with a message and never a crash.',
  ['inputs', 'programs'], 'every presentation expressible in both notations; every malformed table',
  'Tests do not run it: the official build here leaves the loader out.',
  ['lib/ParserLua.cpp'], [], [('table loader', 'lib/ParserLua.cpp')], ['dump and trace comparison', 'sanitizer reports'], False)

p('C16', 'Geometry: each media occupies exactly the rectangle its properties give',
  'The rectangle a media occupies on the screen is the one given by its left, top, right, bottom, width, height, location, size and bounds properties, in pixels or percentages of the screen, and by its region nesting, for every screen size; a right or bottom edge places the rectangle from the opposite side of the screen. After the window is resized the rectangle is the one that the same property values give on the new size. Setting a property while the media is shown moves it to exactly the new rectangle.',
  ['inputs', 'configurations', 'histories'], 'every combination of geometry properties and region nesting, every sequence of resizes and assignments',
  'No test draws anything.',
  ['lib/Player.cpp', 'lib/Parser.cpp', 'lib/Formatter.cpp'], [('rectangle', 'position and size on screen', 'lib/Player.h')], [('property handling', 'lib/Player.cpp doSetProperty'), ('regions', 'lib/Parser.cpp')],
  ['pixels of the rendered frame'], False)

p('C17', 'Rendering: stacking order, visibility, transparency and background are exact',
  'Every frame shows the presentation background with the occurring, visible media painted on it in increasing z-index (regions declared later above earlier ones at equal z-index), each with its background colour and its transparency, within its rectangle. Media that sleep, are invisible or have an empty rectangle paint nothing. Drawing a frame changes no state. A frame depends on the current values of the properties only, not on how and when they were given; text lies where its alignment says.',
  ['programs', 'histories', 'configurations'], 'every set of overlapping media, z-indexes, colours, transparencies and start orders',
  'No test draws anything.',
  ['lib/Formatter.cpp', 'lib/Player.cpp', 'lib/Media.cpp', 'lib/PlayerText.cpp', 'lib/PlayerImage.cpp'], [('z-order', 'stacking position', 'lib/Player.h')], [('redraw', 'lib/Formatter.cpp redraw, lib/Player.cpp redraw')],
  ['pixels of the rendered frame'], False)

p('C18', 'Animated assignments move monotonically and end exactly on the target',
  'A numeric, percentage or colour property assigned with a duration moves from its displayed value at the time of assignment to the target, monotonically, never outside the interval between the two, and has exactly the target value once the duration has passed. An assignment without duration, or to a property that cannot be animated, takes effect at once. Several animations of different properties do not disturb each other. An entry transition (fade or wipe) reveals a media gradually over its duration, never takes back what it revealed, leaves what lies below and around the media untouched, and ends with all of the media shown.',
  ['schedules', 'inputs', 'histories'], 'every start and target value, duration and frame pattern, several animations at once',
  'No test runs an animation.',
  ['lib/PlayerAnimator.cpp', 'lib/Player.cpp'], [('running animations', 'from, to, remaining time', 'lib/PlayerAnimator.h')], [('animation step', 'lib/PlayerAnimator.cpp update')],
  ['property and pixel read-back after each frame'], False)

p('C19', 'Sessions: start/stop/restart are clean and options read back',
  'A presenter can load, stop and load documents any number of times, in any order, with failing loads in between; each run behaves as if it were the first in a fresh process, and two presenters in one process do not influence each other. The playing state tells the truth after every call, calls that make no sense in the current state are refused without effect, and every option reads back as set.',
  ['histories', 'configurations'], 'every sequence of start, stop, tick, key, resize and option calls with good and bad documents',
  'Tests start one document per process.',
  ['lib/Formatter.cpp', 'lib/Ginga.cpp', 'lib/Player.cpp'], [('presenter state', 'playing/stopped, options', 'lib/Formatter.h')], [('start/stop', 'lib/Formatter.cpp')],
  ['trace comparison between first and later runs', 'return values and flags'], True)

p('C20', 'Resources: one live player per presented media, everything freed at the end',
  'Between the start and the end of a media\'s presentation exactly one content player exists for it, started once and stopped once, paused and resumed with it; none exists while it sleeps. When a document is discarded all players are gone and all memory obtained for the document, its objects, events, links, predicates and animations has been released exactly once. User data attached to objects is handed to its clean-up function exactly once, when replaced or at the end.',
  ['histories', 'programs'], 'every document and history, including failing starts and repeated loads',
  'Tests do not run with a leak detector and do not watch players.',
  ['lib/Media.cpp', 'lib/Player.cpp', 'lib/Document.cpp', 'lib/Object.cpp', 'lib/Formatter.cpp', 'lib/PlayerAnimator.cpp', 'lib/aux-ginga.cpp'], [('players', 'live players', 'lib/Media.h')], [('creation and deletion', 'lib/Media.cpp, lib/Player.cpp')],
  ['player life-cycle hook', 'leak detector', 'clean-up callback log'], True)

p('C21', 'Text values are parsed exactly, and bad ones are refused',
  'Conversions of text to numbers, percentages, times, booleans, colours, lists and tables, and the string helpers (split, strip, prefix, suffix, case-insensitive comparison, formatting), give the mathematically defined result for every input. Text outside the format is refused (or gives the documented default) and never a wrapped, truncated or uninitialised value, and no input makes them read outside it or misbehave.',
  ['inputs'], 'all strings',
  'Tests check tables of examples.',
  ['lib/aux-ginga.cpp'], [], [('conversions', 'lib/aux-ginga.cpp')], ['results of generated calls against independent re-implementations'], False)

p('C22', 'Paths and URIs: joining, splitting and converting are consistent',
  'Splitting a path gives parts that join back to an equivalent path; an absolute path or URI is recognised as such and left alone; a relative source is resolved against the directory of the document that names it, and converting a file path to a URI and back gives the same path, for every name including spaces, percent signs, non-ASCII and dots. Reading a URI gives exactly the bytes of the file or a failure.',
  ['inputs', 'configurations'], 'all path strings, all base documents',
  'Tests check tables of examples.',
  ['lib/aux-ginga.cpp', 'lib/Parser.cpp', 'lib/Player.cpp'], [], [('path helpers', 'lib/aux-ginga.cpp')], ['results of generated calls against a reference; which file is opened'], False)

p('C23', 'The control web service answers every request and acts only on valid ones',
  'Whatever bytes a client sends to the control port, with or without a running presentation, the process survives, leaks nothing and answers each complete request with a status: malformed, unknown or ill-typed requests get an error status and change nothing. A valid action request has exactly the effect of that request on the named object and event of the running document, and a valid player registration makes that player known: from then on it is told of each start, pause, resume and end of the media it plays and of the beginning and end of their labelled anchors. The service can be started and stopped repeatedly.',
  ['inputs', 'fault_sequences', 'histories'], 'all byte streams and JSON bodies, at every point of the life of a presentation',
  'No test touches the service.',
  ['lib/WebServices.cpp'], [('registered players', 'device to URL', 'lib/WebServices.h')], [('request handlers', 'lib/WebServices.cpp')],
  ['responses', 'transitions (hook)', 'sanitizer reports'], True)

p('C24', 'Content players follow their media: scripts see exactly the right events',
  'A script content is opened once when its media starts, receives exactly the presentation, attribution and key events that concern it, in the order in which they happen, is driven once per frame in the directory of its source, and is closed once when the media ends. Events posted by the script act on the anchors and properties of its own media only. The kind of player follows the declared content type, else the file name.',
  ['histories', 'programs'], 'every history of requests, keys and posted events on script media and every content type and extension',
  'No test runs a script player or checks the choice of player.',
  ['lib/PlayerLua.cpp', 'lib/Player.cpp', 'lib/Media.cpp'], [('script handle', 'open script', 'lib/PlayerLua.h')], [('script protocol', 'lib/PlayerLua.cpp'), ('player choice', 'lib/Player.cpp createPlayer')],
  ['log of a recording script engine'], True)

p('C25', 'Continuous media: frames follow play, pause, seek, speed, end, release',
  'A video shows, and a sound lets hear, at each moment its own content, only while it is occurring (and visible); its content advances with time at its speed, stands still while paused, and goes back only when told to; `time` and `speed` move it, also when given before the content is ready. Content that ends ends the presentation (unless frozen), with the effects of its links, and volume, mute, balance, frequency and wave form are those last set. No value of a sound, time or speed property and no moment of a request harms the presentation or blocks it, and whatever ends a medium releases its pipeline, memory and files.',
  ['histories', 'schedules'], 'every history and timing of start, stop, pause, resume, seek and property changes on any number of videos, sounds and signal generators, against any schedule of the media threads',
  'No test runs a video or a signal generator; their behaviour depends on the timing of several threads of the media pipeline.',
  ['lib/PlayerVideo.cpp', 'lib/PlayerSigGen.cpp', 'lib/Player.cpp', 'lib/Media.cpp'], [('pipeline', 'GStreamer pipeline and its pending state', 'lib/PlayerVideo.h'), ('stacked actions', 'seeks and speeds asked before the pipeline is ready', 'lib/PlayerVideo.h')], [('bus watch and stacked actions', 'lib/PlayerVideo.cpp cb_Bus, doStackedActions'), ('frames', 'lib/PlayerVideo.cpp redraw, lib/PlayerSigGen.cpp redraw'), ('pipeline state', 'lib/PlayerVideo.cpp start/stop/pause/resume')],
  ['rendered frames', 'transitions (hook)', 'open files', 'sanitizer reports'], True)

p('C26', 'The ginga program: files in order, real time, the user\'s keys, exit status',
  'The ginga program presents the files it is given one after another, with the size, background and other options of its command line; a file that cannot be presented is reported by name and the others follow, and the exit status counts them. Every press and every release of a key reaches the presentation as such under its NCL name, each frame moves it on by exactly the time since the one before (the first of each presentation by none), and resizes and redraws reach it. A presentation goes on until it ends by itself, Esc is pressed or the window is closed; a wrong command line is refused with a message and without presenting anything.',
  ['inputs', 'histories', 'configurations'], 'every command line, number and kind of files, and sequence of keys, frames, resizes and ends',
  'No test runs the program.',
  ['src/ginga.cpp'], [('clock', 'times of the first and last frame', 'src/ginga.cpp tick_callback'), ('window', 'main loop entered or left', 'src/ginga.cpp main')], [('events of the window system', 'src/ginga.cpp keyboard_callback, tick_callback, resize_callback, draw_callback'), ('command line', 'src/ginga.cpp main')],
  ['calls that reach the presentation engine', 'calls to the window system', 'messages and exit status'], True)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
import re, re
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        n = len(re.findall(r'[.](?=\s|$)', x['statement']))
        if n > 3: print(x['id'], 'has', n, 'sentences')
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
