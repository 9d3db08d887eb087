ID='S53'; PROPERTY='C25'
NEEDS='a property of a running signal generator is changed'
BREAKS='the frequency of a signal generator changes only at its next start'
EDITS=[('lib/PlayerSigGen.cpp', '      if (_state != SLEEPING)\n        g_object_set (_audio.src, "freq", _prop.freq, nullptr);', '      if (_state == SLEEPING)\n        g_object_set (_audio.src, "freq", _prop.freq, nullptr);')]
DEMO='\nimport av, time\ns = session(); s.cmd(\'sound\')\nclass P: pass\ndef begin(body, medias=\'\'):\n    s.cmd(\'new\', 200, 60)\n    r = s.r(\'start\', write(\'d.ncl\', \'<ncl id="n"><body id="b"><port id="pz" component="z"/><media id="z"/>%s</body></ncl>\' % body)); check(r[0] == \'1\', r)\n    P.t0 = time.monotonic(); P.t = 0; P.f = 0\ndef step(ms=20, j=0):\n    s.cmd(\'pump\', ms); n = int((time.monotonic() - P.t0) * 1e9); s.cmd(\'tick\', n, n - P.t, P.f); P.t = n; P.f += 1\n    s.cmd(\'draw\', 200, 60)\n    return av.index(int(s.cmd(\'px\', 25 + 60 * j, 25)[-1][1], 16), j)\ndef wait(cond, what, lim=30):\n    t = time.monotonic()\n    while True:\n        x = step()\n        if cond(x): return x\n        if time.monotonic() - t > lim: check(False, what + \', last \' + str(x))\ndef video(name, secs, fps=20, w=16, h=16, j=0): av.avi(os.path.join(T, name), w, h, fps, [av.color(i, j) for i in range(int(secs * fps))])\ndef hear():\n    r = s.r(\'hear\'); return dict(live=int(r[0]), total=int(r[1]), full=int(r[2]) == 4096, f=int(r[3]) * 22050. / max(1, int(r[2])), l=float(r[4]), r=float(r[5]))\nBOX = \'<property name="left" value="0"/><property name="top" value="0"/><property name="width" value="50"/><property name="height" value="50"/>\'\nbegin(\'<port id="p" component="g"/><media id="g" type="application/x-ginga-siggen"><property name="freq" value="300"/></media>\')\nwait(lambda x: hear()[\'full\'] and abs(hear()[\'f\'] - 300) < 10, \'no 300 Hz\')\ns.cmd(\'setprop\', \'g\', \'freq\', \'1200\', 0)\nwait(lambda x: hear()[\'full\'] and abs(hear()[\'f\'] - 1200) < 20, \'no 1200 Hz\')\n'
