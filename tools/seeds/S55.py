ID='S55'; PROPERTY='C25'
NEEDS='a pause before the video is ready'
BREAKS='pausing a video that is not playing yet is lost: the content goes on'
EDITS=[('lib/PlayerVideo.cpp', '  _TRACE ("");\n  gstx_element_set_state (_playbin, GST_STATE_PAUSED);\n', '  _TRACE ("");\n  if (this->getPipelineState () == "PLAYING")\n    gstx_element_set_state (_playbin, GST_STATE_PAUSED);\n')]
DEMO='\nimport av, time\ns = session(); s.cmd(\'sound\')\nclass P: pass\ndef begin(body, medias=\'\'):\n    s.cmd(\'new\', 200, 60)\n    r = s.r(\'start\', write(\'d.ncl\', \'<ncl id="n"><body id="b"><port id="pz" component="z"/><media id="z"/>%s</body></ncl>\' % body)); check(r[0] == \'1\', r)\n    P.t0 = time.monotonic(); P.t = 0; P.f = 0\ndef step(ms=20, j=0):\n    s.cmd(\'pump\', ms); n = int((time.monotonic() - P.t0) * 1e9); s.cmd(\'tick\', n, n - P.t, P.f); P.t = n; P.f += 1\n    s.cmd(\'draw\', 200, 60)\n    return av.index(int(s.cmd(\'px\', 25 + 60 * j, 25)[-1][1], 16), j)\ndef wait(cond, what, lim=30):\n    t = time.monotonic()\n    while True:\n        x = step()\n        if cond(x): return x\n        if time.monotonic() - t > lim: check(False, what + \', last \' + str(x))\ndef video(name, secs, fps=20, w=16, h=16, j=0): av.avi(os.path.join(T, name), w, h, fps, [av.color(i, j) for i in range(int(secs * fps))])\ndef hear():\n    r = s.r(\'hear\'); return dict(live=int(r[0]), total=int(r[1]), full=int(r[2]) == 4096, f=int(r[3]) * 22050. / max(1, int(r[2])), l=float(r[4]), r=float(r[5]))\nBOX = \'<property name="left" value="0"/><property name="top" value="0"/><property name="width" value="50"/><property name="height" value="50"/>\'\nvideo(\'v.avi\', 40)\nbegin(\'<media id="v" src="v.avi">%s</media>\' % BOX)\nstep()\ns.cmd(\'act\', \'v\', \'P\', \'@lambda\', \'start\')\ns.cmd(\'act\', \'v\', \'P\', \'@lambda\', \'pause\')\nfor _ in range(60): i = step()\ncheck(i is None or i < 5, \'frame %s\' % i)\n'
