# -*- coding: utf-8 -*-
"""C19: parameters of header values."""
from env import *

ORACLE = ('The generator knows the main value, names and values of the header it writes: plain, as quoted string (with \\\\ and \\" as quoted pairs) or extended.  For arbitrary '
          'strings a character-by-character parser written for this check, and the parameters around the string, which it must not touch.')
BOUNDS = {'quick': 'all values of up to 4 of 12 characters as one quoted parameter, up to 2 as one of two or three, all spacings; every character as %XX in 6 charsets; '
                   'extended parameters beside others, decodable or not; all strings of up to 6 of 8 characters (5 of 11) for robustness; the same through multipart parts',
          'thorough': 'one character more everywhere'}
ASSUMPTIONS = ['a backslash before another character is itself (as browsers send it in file names)', 'names and the main value are ASCII',
               'of a parameter given twice, either value may be found']

CHARS = ['a', ';', '=', '"', '\\', ' ', "'", '%', '*', ',', u'\u00e9'.encode('utf-8'), '/']
WS = ['', ' ', '\t', '  ', ' \t ']


def quoted(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"') + '"'


def is_token(t):
    return bool(t) and not [c for c in t if c in '()<>@,;:\\"/[]?={} \t' or ord(c) > 126]


def ext(t, charset='utf-8', lang=''):
    """t: text"""
    return charset + "'" + lang + "'" + ''.join(c if c.isalnum() and ord(c) < 128 else '%%%02X' % ord(c) for c in t.encode(charset))


def check(x, line, main, params):
    o = attempt(parse_header, line)
    if o != ('ok', (main, params)) and (o[0] != 'ok' or o[1] != (main, params)):
        x.fail('parse_header(%r): %r, expected %r' % (line, o[1:], (main, params)))
    x.did()


def u_one(x, main, name, n, a):
    for rest in strings(CHARS, n):
        t = (CHARS[a] if a is not None else '') + rest
        check(x, '%s; %s=%s' % (main, name, quoted(t)), main.lower(), {name.lower(): t})
        if is_token(t):
            check(x, '%s;%s=%s' % (main, name, t), main.lower(), {name.lower(): t})
        x.watch.begin = 0
    x.outcome((main, name, n))


def u_spaces(x, i):
    """white space around everything"""
    w = WS[i]
    for w2 in WS:
        for w3 in WS:
            for w4 in WS:
                for v, t in (('tok', 'tok'), ('"q"', 'q'), ('" q "', ' q '), ('""', ''), ('";="', ';='), ('"\\""', '"'), ('"\\\\"', '\\')):
                    for tail in ('', ';', ' ; ', ';;'):
                        line = 'Main/Value' + w + ';' + w2 + 'Name' + w3 + '=' + w4 + v + w + tail
                        check(x, line, 'main/value', {'name': t})
                        check(x, line + ';' + w2 + 'b' + w4 + '=' + w3 + '"x;y"' + w, 'main/value', {'name': t, 'b': 'x;y'})
                        # a parameter without value is none
                        check(x, 'Main/Value;' + w + 'flag' + w2 + ';' + w3 + 'n=' + w4 + v, 'main/value', {'n': t})
        x.step()


def u_pair(x, a, n, order):
    """two and three parameters; what one contains is nothing to the others"""
    texts = list(strings(CHARS, n))
    for rest in texts:
        t = CHARS[a] + rest
        for u in strings(CHARS, 1):
            ps = [('name', t), ('filename', u), ('c', t)]
            for k in (2, 3):
                for p in permutations(ps[:k]) if order else [ps[:k]]:
                    line = 'form-data; ' + '; '.join('%s=%s' % (nm, quoted(v)) for nm, v in p)
                    check(x, line, 'form-data', dict(p))
                    line = 'form-data;' + ';'.join('%s=%s' % (nm.upper(), v if is_token(v) else quoted(v)) for nm, v in p)
                    check(x, line, 'form-data', dict(p))
        x.watch.begin = 0


EXT = [u'abc', u'\u00e9', u'a b;c="d"', u'100%', u"it's", u'', u'\u00e9\u00e8.txt', u'a\\b', u'"quoted"']
BAD = ["nonsense''%41bc", "''abc", "utf-8", "utf-8''a'b", "hex''abc", "utf-8'en", "no such charset'en'%41", "rot13''x", "base64''QQ"]


def u_extended(x, i, charset):
    t = EXT[i]
    try:
        e = ext(t, charset)
    except UnicodeError:
        return
    want = t
    for lang in ('', 'en', 'de-DE'):
        e = ext(t, charset, lang)
        for form in ('%s', ' %s '):
            for name in ('filename', 'FileName', 'x'):
                line = 'attachment; %s*=%s' % (name, form % e)
                if t[:1] == t[-1:] == '"':
                    continue
                check(x, line, 'attachment', {name.lower(): want})
                for other in strings(CHARS, 1):
                    for p in permutations([('%s*=%s' % (name, e)), 'o=' + quoted(other), "Z='" + 'z' + "'"]):
                        check(x, 'attachment; ' + '; '.join(p), 'attachment', {name.lower(): want, 'o': other, 'z': "'z'"})
    # lower case escapes, and nothing escaped that need not be
    check(x, "a; n*=" + e.replace('%C3', '%c3').replace('%A9', '%a9'), 'a', {'n': want if not (t[:1] == t[-1:] == '"') else 'quoted'})
    x.step()


def u_undecodable(x, i):
    """the others stay as they are, whatever an extended parameter is"""
    bad = BAD[i]
    for other in strings(CHARS, 2):
        for p in permutations(['x*=' + bad, 'name=' + quoted(other), 'b=tok']):
            o = attempt(parse_header, 'form-data; ' + '; '.join(p))
            if o[0] != 'ok' or o[1][0] != 'form-data':
                x.fail('parse_header(%r): %r' % (p, o))
                continue
            d = dict(o[1][1])
            v = d.pop('x', None)
            if d != {'name': other, 'b': 'tok'}:
                x.fail('parse_header(%r): %r' % (p, o[1]))
            if i in (0, 6) and v is not None:
                x.fail('parse_header(%r): the charset does not exist, but the value is %r' % (p, v))
            # a plain parameter of the same name stays, too
            if i in (0, 6):
                check(x, 'form-data; x=%s; x*=%s' % (quoted(other), bad), 'form-data', {'x': other})
                check(x, 'form-data; x*=%s; x=%s' % (bad, quoted(other)), 'form-data', {'x': other})
            x.did()
    x.step()


def u_escapes(x, charset, lo):
    """every byte in an extended value"""
    for b in range(lo, lo + 32):
        for esc in ('%%%02X' % b, '%%%02x' % b):
            line = "a; n*=%s''x%sy; m=1" % (charset, esc)
            check(x, line, 'a', {'n': ('x' + chr(b) + 'y').decode(charset, 'replace'), 'm': '1'})
    x.step()


def model(line):
    """main value and parameters, character by character"""
    pieces, cur, q, i = [], '', False, 0
    while i < len(line):
        c = line[i]
        if c == '\\' and line[i + 1:i + 2] in ('\\', '"') and i + 1 < len(line):
            cur += line[i:i + 2]
            i += 2
            continue
        if c == '"':
            q = not q
        if c == ';' and not q:
            pieces.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    pieces.append(cur)
    return pieces, q


ROBUST = [';', '=', '"', '\\', 'a', '*', "'", ' ']
WIDE = ROBUST + ['%', '/', 'b']


def u_robust(x, n, a, b, wide):
    """any string: it comes out in one piece or in pieces, but around it nothing changes"""
    toks = WIDE if wide else ROBUST
    for rest in strings(toks, n):
        s = toks[a] + toks[b] + rest
        pieces, unclosed = model(s)
        o = attempt(parse_header, s)
        if o[0] != 'ok':
            x.fail('parse_header(%r): %r' % (s, o))
            continue
        if not unclosed and o[1][0] != pieces[0].strip().lower():
            x.fail('parse_header(%r): main value %r' % (s, o[1][0]))
        names = set(p.split('=')[0].strip().lower() for p in pieces[1:] if '=' in p)
        got = set(k for k in o[1][1])
        if not unclosed:
            plain = set(k for k in names if not k.endswith('*'))
            if not plain <= got or not got <= plain | set(k[:-1] for k in names if k.endswith('*')):
                x.fail('parse_header(%r): names %r, expected %r' % (s, sorted(got), sorted(names)))
            else:
                # the plain values
                last = {}
                for p in pieces[1:]:
                    if '=' in p:
                        k, v = p.split('=', 1)
                        last.setdefault(k.strip().lower().rstrip('*') if not k.strip().endswith('**') else k.strip().lower()[:-1], []).append((k.strip().endswith('*'), v.strip()))
                for k, vs in last.items():
                    if len(vs) == 1 and not vs[0][0] and k in o[1][1]:
                        v = vs[0][1]
                        if len(v) >= 2 and v[0] == v[-1] == '"':
                            v = unescape(v[1:-1])
                        if o[1][1][k] != v:
                            x.fail('parse_header(%r): %s is %r, expected %r' % (s, k, o[1][1][k], v))
        # what precedes is untouched
        o = attempt(parse_header, 'M; p="1;2"; q=3; ' + s)
        if o[0] != 'ok' or o[1][0] != 'm' or o[1][1].get('p') != '1;2' or o[1][1].get('q') != '3':
            x.fail('parse_header(%r): %r' % ('M; p="1;2"; q=3; ' + s, o))
        # and what follows, if the quotes are closed
        if not unclosed and s[-1] != '\\':
            o = attempt(parse_header, 'M; ' + s + '; p="1;2"; q=3')
            if o[0] != 'ok' or o[1][1].get('p') != '1;2' or o[1][1].get('q') != '3':
                x.fail('parse_header(%r): %r' % ('M; ' + s + '; p="1;2"; q=3', o))
        x.did(3)
        x.watch.begin = 0


def unescape(v):
    out, i = '', 0
    while i < len(v):
        if v[i] == '\\' and v[i + 1:i + 2] in ('\\', '"') and i + 1 < len(v):
            out += v[i + 1]
            i += 2
        else:
            out += v[i]
            i += 1
    return out


def u_part(x, a, n):
    """in the parts of a multipart body"""
    for rest in strings(CHARS, n):
        t = CHARS[a] + rest
        u = t.decode('utf-8')
        if not t.strip():
            continue
        disp = 'form-data; name=%s; x=%s' % (quoted(t), quoted(t))
        raw = mhttp([part('v', disp=disp, ctype='Text/X; p=%s; charset=%s' % (quoted(t), 'utf-8')),
                     part('w', disp='Form-Data; FILENAME="n"; Name=%s' % quoted(t), ctype='text/y; q=%s; r*=%s; charset=koi8-r' % (quoted(t), ext(u)))])
        r = HttpRequest(BytesIO(raw), settings(**{Settings.Key.DEFAULT_CHARSET: 'utf-8'}))
        o = attempt(r.parse)
        if o[0] != 'ok':
            x.fail('name %r: %r' % (t, o))
            continue
        fs = files_view(r.FILES)
        # white space around a field name is dropped
        key = u.strip()
        post = lists(r.POST)
        if [(k, len(v)) for k, v in post] != [(key, 1)] or len(fs) != 1:
            x.fail('name %r: POST %r, FILES %r' % (t, post, fs))
            continue
        f = post[0][1][0]
        e = dict(f['content-type-extra'])
        x.eq((f['data'], f['content-type'], e.get('p'), e.get('charset')), ('v', 'text/x', t, 'utf-8'), 'field with parameter %r' % t)
        kind_, name, size, ctype, charset, extra, cte, content = fs[0][1][0]
        if (fs[0][0] != t.strip() and fs[0][0] != key) or name != 'n' or ctype != 'text/y' or charset != 'koi8-r' or (extra or {}).get('q') != t or content != 'w':
            x.fail('file with parameter %r: %r' % (t, fs))
        if not (u[:1] == u[-1:] == '"' and len(u) > 1) and (extra or {}).get('r') != u:
            x.fail('file with extended parameter %r: %r' % (u, extra))
        r.close()
        x.did()
        x.watch.begin = 0


def u_request(x, a, n):
    """in the Content-Type of the request"""
    for rest in strings(CHARS[:10], n):
        t = (CHARS[a] + rest)
        for line in ('Multipart/Form-Data; x=%s; BOUNDARY=B', 'multipart/form-data; boundary="B"; x=%s', 'multipart/form-data;boundary=B;x=%s;y="boundary=C"'):
            body = multipart([part('v', 'a')])
            r = HttpRequest(BytesIO(http(body, line % quoted(t))), settings())
            o = attempt(r.parse)
            if o[0] != 'ok' or r.content_type != 'multipart/form-data' or [k for k, v in lists(r.POST)] != ['a']:
                x.fail('Content-Type %r: %r, %r, %r' % (line % quoted(t), o, r.content_type, lists(r.POST)))
            r = HttpRequest(BytesIO(http('a=%C3%A9', 'Application/X-WWW-Form-Urlencoded; x=' + quoted(t) + '; Charset="utf-8"')), settings())
            o = attempt(r.parse)
            if o[0] != 'ok' or lists(r.POST) != [(u'a', [u'\u00e9'])] or r.encoding != 'utf-8':
                x.fail('urlencoded with parameter %r: %r, %r' % (t, o, lists(r.POST)))
            x.did(2)
        x.watch.begin = 0


def units(x):
    t = 1 if x.thorough else 0
    x.count('characters', len(CHARS))
    for main, name in (('form-data', 'name'), ('TEXT/Plain', 'X-Y'), ('a/b+c', 'charset')):
        yield ('one', main, name, 0, None)
        for a in range(len(CHARS)):
            yield ('one', main, name, (3 if main == 'form-data' else 2) + t, a)
    for i in range(len(WS)):
        yield ('spaces', i)
    for a in range(len(CHARS)):
        for n in range(0, 2 + t):
            yield ('pair', a, n, n < 2)
        yield ('part', a, 1 + t)
        if a < 10:
            yield ('request', a, 1 + t)
    for i in range(len(EXT)):
        for charset in ('utf-8', 'iso-8859-1', 'UTF-8', 'cp1252', 'shift_jis', 'ISO-8859-15'):
            yield ('extended', i, charset)
    for i in range(len(BAD)):
        yield ('undecodable', i)
    for charset in ('utf-8', 'iso-8859-1', 'cp1252', 'koi8-r', 'us-ascii', 'Windows-1251'):
        for lo in range(0, 256, 32):
            yield ('escapes', charset, lo)
    for a in range(len(ROBUST)):
        for b in range(len(ROBUST)):
            yield ('robust', 4 + t, a, b, False)
    for a in range(len(WIDE)):
        for b in range(len(WIDE)):
            yield ('robust', 3 + t, a, b, True)
