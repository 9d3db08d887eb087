#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = 'runtime monitoring: random documents and request histories on the real engine under ASan+UBSan, each transition compared in lockstep with an independent reference interpreter'
T = {
 'C01': LOCK + '; plus a model-free life-cycle monitor on the transition trace',
 'C02': LOCK, 'C04': LOCK, 'C05': LOCK, 'C06': LOCK, 'C07': LOCK, 'C08': LOCK, 'C14': LOCK + '; loaded structure compared with the declaration',
 'C03': 'runtime monitoring: generated predicate trees and property values evaluated by the real code under sanitizers against an independent evaluator, and lockstep on documents with rules and assessments',
 'C09': 'sanitizers (ASan, UBSan), internal assertions and GLib warnings as oracle over random and hostile documents and operation histories',
 'C10': 'sanitizers and leak detection as oracle over mutated and generated documents; totality monitor on the result',
 'C11': 'runtime monitoring: the structure loaded by the real parser, dumped through public accessors, compared with an independent resolution of the generated declaration',
 'C12': 'runtime monitoring: generated valid documents and single-fault mutations of them given to the real parser; acceptance/rejection/message oracle',
 'C13': 'runtime monitoring: metamorphic comparison of split/imported and inlined documents on the real parser and engine',
 'C15': 'runtime monitoring: differential comparison (structure and trace) of XML and table forms of generated presentations, sanitizers on malformed tables',
 'C16': 'runtime monitoring: rectangles measured in rendered frames compared with an independent geometry calculation',
 'C17': 'runtime monitoring: rendered frames compared pixel by pixel with an independent painter',
 'C18': 'runtime monitoring: online monitor of animated values at every frame (monotone, bounded, exact end)',
 'C19': 'runtime monitoring: metamorphic trace comparison of repeated sessions with first sessions, plus a state-flag and option monitor',
 'C20': 'runtime monitoring: online life-cycle checker of content players, leak detection after each history, exactly-once checker of user-data clean-up',
 'C21': 'runtime monitoring: generated strings through the real conversions under sanitizers against independent re-implementations',
 'C22': 'runtime monitoring: generated paths and URIs through the real helpers under sanitizers against independent re-implementations, and file read-back',
 'C23': 'runtime monitoring: hostile and valid HTTP byte streams against the real service under sanitizers; response and effect monitor',
 'C25': 'runtime monitoring: real videos, sounds and signal generators under ASan+UBSan with random timing; online monitor of the numbered frames shown, of the ends, of liveness and of released resources',
 'C26': 'runtime monitoring: the real program under ASan+UBSan on a stand-in window system driven with random events; online monitor of every call that reaches the presentation engine, of messages and of the exit status',
 'C24': 'runtime monitoring: event log of a recording script engine compared with the log implied by the observed transitions',
}
NOTE = {
 'default': 'Holds on every generated case; the generator, the reference interpreter (written from the language description, independent of the engine code) and the observation hooks are trusted. Exploration, not proof.',
}
IDS = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
have = [i for i in IDS if os.path.exists(os.path.join(R, 'vt/py/checks', i.lower() + '.py'))]
m = dict(version=1, setup_cmd='python3 vt/build.py driver cli',
         hooks=dict(guard='GINGA_VERIF', enable='vt/build.py compiles /repo/lib with -DGINGA_VERIF (and WITH_LUA, web services and all players) into /verif/build',
                    source_commits=[os.popen('git -C /repo rev-parse aad979f').read().strip()]),
         checks=[dict(property=i, quick_cmd='python3 vt/check.py %s --tier quick' % i, thorough_cmd='python3 vt/check.py %s --tier thorough' % i,
                      technique=T[i], level='exploration', level_note=NOTE.get(i, NOTE['default'])) for i in have],
         not_applicable=[dict(property=i, reason='no check built yet') for i in IDS if i not in have],
         notes='All checks share one driver built from /repo\'s working tree (vt/build.py); VERIF_SEED selects the cases. Seeded bugs are in seeded/, the findings (all repaired) in known-findings.txt, the reasoning in DESIGN.md.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(have), 'checks')
