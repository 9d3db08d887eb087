"""Mutations of XML texts and trees."""
import random, re
from spec import N
import xml.etree.ElementTree as ET

TAGS = '''ncl head body regionBase region descriptorBase descriptor descriptorParam connectorBase causalConnector connectorParam compoundCondition
simpleCondition compoundAction simpleAction compoundStatement assessmentStatement attributeAssessment valueAssessment ruleBase compositeRule rule transitionBase
transition importBase importNCL importedDocumentBase fontBase font context port switch switchPort mapping bindRule defaultComponent media area property link
linkParam bindParam bind meta metadata'''.split()
ATTRS = '''id xmlns title left right top bottom width height zIndex region explicitDur freeze moveLeft moveRight moveUp moveDown focusIndex name value eventType transition
key actionType delay duration operator isNegated comparator role offset attributeType var type subtype dur startProgress direction fadeColor horRepeat vertRepeat
borderWidth borderColor alias documentURI fontFamily src component interface constituent rule refer instance descriptor begin end label coords text position beginText endText
beginPosition endPosition first last clip xconnector min max repeat by repeatDelay qualifier'''.split()
HOST = ['', ' ', '-1', '0', '99999999999999999999', '1e400', 'nan', 'inf', '-inf', '0x10', '100%', '-50%', '%', '1,2,3,4', '$', '$m1.x', '$x', 'true', 'and', 'or', 'not', 'eq', 'xx', 'par',
        'é', '\u0001', 'a b', '1a', 'a#b', '#', '##', 'b#', '1:2:3', '::', '1s', '-5s', 's', '18446744073709551616s', '0.0000000001s', 'start', 'starts', 'presentation', 'selection',
        'attribution', 'lookat', 'onBegin', 'onEnd', 'stop', 'set', 'application/x-ginga-settings', 'application/x-ncl-settings', 'x' * 5000, '%s%n%d', '&lt;', '\n', 'fade', 'barWipe',
        'd.ncl', 't.txt', 'nonexistent.ncl', 'file:///nonexistent', 'http://127.0.0.1:1/x', '/', '.', '..', '__root__', '__settings__', '@lambda', '..x', 'a.b', '50%%', '1.5e3', '4294967296']

def from_et(e):
    tag = re.sub(r'^\{.*?\}', '', e.tag) if isinstance(e.tag, str) else None
    if tag is None: return None
    return N(tag, [(re.sub(r'^\{.*?\}', '', k), v) for k, v in e.attrib.items()], [c for c in (from_et(x) for x in e) if c is not None])

def parse(txt):
    return from_et(ET.fromstring(re.sub(r'^\s*<\?xml.*?\?>', '', txt, flags=re.S)))

def clean(v):
    return ''.join(c if c in '\t\n' or ord(c) >= 32 else '?' for c in v)

def tree_mut(t, rng):
    """one random structural mutation in place; -> its name"""
    al = [(n, None) for n in [t]]
    def go(n):
        for c in n.ch: al.append((c, n)); go(c)
    go(t)
    n, p = rng.choice(al)
    k = rng.randrange(15)
    vals = [v for m, _ in al for _, v in m.at]
    if k == 0 and p: p.ch.remove(n); return 'delete element'
    if k == 1 and p: p.ch.insert(rng.randint(0, len(p.ch)), n.copy()); return 'duplicate element'
    if k == 2 and p:
        q = rng.choice(al)[0]
        q.ch.insert(rng.randint(0, len(q.ch)), n.copy()); return 'copy element elsewhere'
    if k == 3 and p:
        q = rng.choice([m for m, _ in al if m is not n and m not in list(n.walk())] or [p])
        p.ch.remove(n); q.ch.insert(rng.randint(0, len(q.ch)), n); return 'move element'
    if k == 4: n.tag = rng.choice(TAGS + ['bogus']); return 'rename element'
    if k == 5 and n.at:
        n.at.pop(rng.randrange(len(n.at))); return 'delete attribute'
    if k == 6 and not n.get(a := rng.choice(ATTRS + ['bogus'])):
        n.at.append((a, clean(rng.choice(HOST + vals)))); return 'add attribute'
    if k in (7, 8) and n.at:
        i = rng.randrange(len(n.at)); n.at[i] = (n.at[i][0], clean(rng.choice(HOST))); return 'hostile value'
    if k in (9, 10, 14) and n.at:
        i = rng.randrange(len(n.at)); n.at[i] = (n.at[i][0], rng.choice(vals)); return 'value from elsewhere'
    if k == 11 and n.ch: rng.shuffle(n.ch); return 'shuffle children'
    if k == 12 and p:
        # wrap
        i = p.ch.index(n); p.ch[i] = N(rng.choice(TAGS), [('id', 'w%d' % rng.randrange(9999))] if rng.random() < .7 else [], [n]); return 'wrap element'
    if k == 13 and p:
        i = p.ch.index(n); p.ch[i:i + 1] = n.ch; return 'unwrap element'
    return tree_mut(t, rng)

def byte_mut(b, rng, other=b''):
    b = bytearray(b)
    names = []
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        k = rng.randrange(11)
        n = len(b)
        i = rng.randrange(n + 1) if n else 0
        if k == 0: del b[i:]; names.append('truncate')
        elif k == 1 and n: b[min(i, n - 1)] = rng.randrange(256); names.append('random byte')
        elif k == 2: b[i:i] = bytes([rng.choice(b'<>"\'&=/ ;#\x00\x80\xff!-[]?%$.@')]); names.append('insert byte')
        elif k == 3: del b[i:i + rng.randint(1, 12)]; names.append('delete bytes')
        elif k == 4:
            j = rng.randrange(n + 1) if n else 0
            a, z = min(i, j), max(i, j)
            b[i:i] = b[a:min(z, a + 400)]; names.append('copy block')
        elif k == 5 and other:
            j = rng.randrange(len(other)); b[i:i] = other[j:j + rng.randint(1, 200)]; names.append('splice')
        elif k == 6: b[i:i] = rng.choice([b'&#0;', b'&#x110000;', b'&amp;', b'&undefined;', b'<![CDATA[x]]>', b'<!-- c -->', b'<?pi x?>', b'text', b'\xef\xbb\xbf', b'\xc3', b'&lt;', b']]>', b'<!--', b'<![CDATA[', b'\r\n']); names.append('insert markup')
        elif k == 7 and n: b[min(i, n - 1)] ^= 1 << rng.randrange(8); names.append('flip bit')
        elif k == 8: b[0:0] = rng.choice([b'\xff\xfe', b'\xfe\xff', b'\xef\xbb\xbf', b'<!DOCTYPE ncl [<!ENTITY a "aaaa"><!ENTITY b "&a;&a;&a;">]>', b'<!DOCTYPE ncl SYSTEM "file:///nonexistent.dtd">',
                                        b'<?xml version="1.0" encoding="UTF-16"?>', b'<?xml version="1.0" encoding="bogus"?>', b'   ', b'\0']); names.append('prefix')
        elif k == 9:
            for q in (b'"', b"'"):
                pass
            m = list(re.finditer(rb'="([^"]*)"', bytes(b)))
            if m:
                x = rng.choice(m); b[x.start(1):x.end(1)] = rng.choice(HOST).encode().replace(b'"', b'').replace(b'<', b''); names.append('hostile value')
        elif k == 10:
            m = list(re.finditer(rb'<[^>]*>', bytes(b)))
            if m: x = rng.choice(m); del b[x.start():x.end()]; names.append('delete tag')
    return bytes(b), names

def weird(rng):
    """texts that are not documents, or extreme ones"""
    k = rng.randrange(14)
    if k == 0: return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 30, 300])))
    if k == 1: return b''
    if k == 2: return b'<ncl>' * rng.choice([1, 10, 255, 256, 257, 5000])
    if k == 3:
        n = rng.choice([10, 200, 250])
        return b'<ncl id="a"><head/><body id="b">' + b''.join(b'<context id="c%d">' % i for i in range(n)) + b'</context>' * n + b'</body></ncl>'
    if k == 4:
        n = rng.choice([10, 200])
        return b'<ncl id="a"><head><ruleBase>' + b''.join(b'<compositeRule id="c%d" operator="and">' % i for i in range(n)) + b'</compositeRule>' * n + b'</ruleBase></head><body id="b"><switch id="s"><bindRule rule="c0" constituent="m"/><media id="m"/></switch></body></ncl>'
    if k == 5:
        n = rng.choice([10, 200])
        return (b'<ncl id="a"><head><connectorBase><causalConnector id="k">' + b'<compoundCondition operator="and">' * n + b'<simpleCondition role="onBegin"/>' + b'</compoundCondition>' * n +
                b'<compoundAction operator="par">' * n + b'<simpleAction role="start"/>' + b'</compoundAction>' * n + b'</causalConnector></connectorBase></head><body id="b"><media id="m"/>'
                b'<link xconnector="k"><bind role="onBegin" component="m"/><bind role="start" component="m"/></link></body></ncl>')
    if k == 6:
        e = b''.join(b'<!ENTITY e%d "%s">' % (i, b'&e%d;' % (i - 1) * 10 if i else b'x' * 10) for i in range(rng.choice([3, 6, 9])))
        return b'<!DOCTYPE ncl [' + e + b']><ncl id="a"><body id="&e2;"/></ncl>'
    if k == 7: return b'<ncl id="a"><body id="b">' + b''.join(b'<media id="m%d"/>' % i for i in range(rng.choice([100, 3000]))) + b'</body></ncl>'
    if k == 8:
        n = rng.choice([2, 3, 5])
        return b'<ncl id="a"><body id="b">' + b''.join(b'<media id="m%d" refer="m%d"/>' % (i, (i + 1) % n) for i in range(n)) + b'</body></ncl>'
    if k == 9: return b'<ncl id="a"><head/><body id="b"><media id="m"' + b' id="m"' * rng.choice([1, 3]) + b'/></body></ncl>'
    if k == 10: return ('<?xml version="1.0" encoding="%s"?><ncl id="a"><body id="b"><media id="\u00e9"/></body></ncl>' % (e := rng.choice(['ISO-8859-1', 'UTF-8', 'UTF-16LE', 'UTF-16']))).encode({'UTF-16': 'utf-16'}.get(e, e))
    if k == 11: return b'<ncl id="a" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile" xmlns:x="y"><x:head/><body id="b"><x:media id="m" x:src="z"/></body></ncl>'
    if k == 12: return b'<a' * rng.choice([1, 100]) + b'>'
    return b'<ncl id="a"><body id="b"><media id="m"><property name="x" value="' + b'y' * rng.choice([10, 100000]) + b'"/></media></body></ncl>'
