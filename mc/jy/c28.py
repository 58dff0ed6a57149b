# -*- coding: utf-8 -*-
"""C28: the charset of a request."""
import codecs
from urllib import quote
from encodings.aliases import aliases
from env import *

ORACLE = ('The charset in force is the declared one if it is a character set (a table of codecs that are not, otherwise what the codec registry knows), otherwise the one set or of the settings; '
          'expected text is what the codec makes of the bytes.')
BOUNDS = {'quick': 'all codec names and aliases of the platform in 6 spellings; 12 charsets x 14 ways of declaring x 4 defaults x 5 kinds of requests; every byte and all pairs of 20 bytes escaped, raw and in names; '
                   'the charset set between header and body; all sequences of 3 of 9 requests, settings and parsing steps on one object',
          'thorough': 'sequences of 4, all pairs of bytes from 128'}
ASSUMPTIONS = ['a query string or a form is only sent in a charset whose first half is ASCII', 'charset is not declared twice', 'raw bytes that are not in the charset give some text',
               'multipart names have no bytes that quoting changes']

# codecs of Python that are no character sets
NOT_TEXT = ('hex', 'base64', 'base_64', 'bz2', 'uu', 'zip', 'zlib', 'quopri', 'quotedprintable', 'quoted_printable', 'rot13', 'rot_13', 'string_escape', 'unicode_escape', 'raw_unicode_escape',
            'unicode_internal', 'punycode', 'idna', 'undefined', 'mbcs')
UNKNOWN = ('nonsense', 'utf-99', 'iso-8859-99', '8', '-', 'None', 'default', 'utf\xc3\xa98', '\xff', 'x' * 300, '../utf-8', 'os.path', 'utf-8x', 'iso', '%75tf-8')
ASCII = ''.join(map(chr, range(128)))


def norm(name):
    return name.lower().replace('-', '_').replace(' ', '_')


def is_text(name):
    n = norm(name)
    if n in NOT_TEXT or n.endswith('_codec') and n[:-6] in NOT_TEXT:
        return False
    try:
        codecs.lookup(name)
        return True
    except Exception:
        return False


def ascii_based(name):
    try:
        return ASCII.decode(name) == ASCII.decode('ascii') and u'aZ09%=&'.encode(name) == 'aZ09%=&'
    except Exception:
        return False


def spellings(n):
    out = []
    for s in (n, n.upper(), n.replace('_', '-'), n.replace('-', '_'), n.title(), n.swapcase()):
        if s not in out:
            out.append(s)
    return out


def esc(b):
    return ''.join('%%%02X' % ord(c) for c in b)


def in_force(x, what, r, name):
    """the charset of r is name, in some spelling"""
    if norm(str(r.encoding)) != norm(name):
        x.fail('%s: encoding is %r, expected %r' % (what, r.encoding, name))
        return False
    return True


def check(x, raw, cs, what, post=None, get=None, text=None, default='iso-8859-1', names=None, prepare=None):
    r = HttpRequest(BytesIO(raw), settings(DEFAULT_CHARSET=default))
    if prepare:
        prepare(r)
    r.parse()
    x.did(1)
    if not in_force(x, what, r, cs):
        return
    if get is not None:
        x.eq(lists(r.GET), get, '%s: GET' % what)
    if post is not None:
        x.eq(lists(r.POST), post, '%s: POST' % what)
    if names is not None:
        x.eq((sorted(r.POST.keys()), [type(k) for k in r.POST.keys()]), (names, [type(u'')] * len(names)), '%s: the names of fields' % what)
    if text is not None:
        x.eq(r.body(), text, '%s: body()' % what)
    r.close()


def u_names(x, name, default):
    """every name the platform knows, and some that it does not"""
    for n in spellings(name) if name not in UNKNOWN else (name,):
        cs = n if is_text(n) else default
        what = 'charset=%s, default %s' % (n, default)
        # a header is ASCII
        ch = 'charset=' + n if n == ''.join(k for k in n if k < '\x7f') else "charset*=iso-8859-1''" + esc(n)
        h = '\xe9\xa4b'
        if ascii_based(cs):
            v = h.decode(cs, 'replace')
            q = 'k%s=%s' % (esc(h), esc(h))
            check(x, http(q, FORM + '; ' + ch, target='/?' + q), cs, what, [(u'k' + v, [v])], [(u'k' + v, [v])], default=default)
            check(x, http('x', 'image/png; ' + ch, target='/?' + q), cs, what, [], [(u'k' + v, [v])], u'x', default=default)
            check(x, http(q, FORM + '; ' + ch + '; q=1'), cs, what, [(u'k' + v, [v])], [], default=default)
        try:
            b = u'a\u00e9'.encode(cs)
            t = b.decode(cs)
        except Exception:
            b, t = 'ab', None
            try:
                t = b.decode(cs)
            except Exception:
                pass
        if t is not None:
            check(x, http(b, 'text/plain; ' + ch), cs, what, [], [], t, default=default)
        x.outcome((cs == default, is_text(n), t is None))
    x.sample(name)
    x.step()


CS = ('utf-8', 'iso-8859-1', 'koi8-r', 'cp1252', 'iso-8859-15', 'cp1251', 'iso-8859-7', 'euc-jp', 'gbk', 'big5', 'mac-roman', 'ascii')
TEXT = {'utf-8': u'é\u20ac\U0001f600', 'koi8-r': u'\u0416\u044f', 'cp1251': u'\u0416\u044f', 'iso-8859-7': u'\u03a9', 'euc-jp': u'\u65e5\u672c', 'gbk': u'\u65e5\u672c', 'big5': u'\u65e5\u672c', 'ascii': u'abc'}
WAYS = ['%(t)s; charset=%(c)s', '%(t)s;charset=%(c)s', '%(t)s; CHARSET=%(c)s', '%(t)s; Charset="%(c)s"', '%(t)s ;  charset = %(c)s ', '%(t)s; a=b; charset=%(c)s', '%(t)s; charset=%(c)s; a="b;charset=x"',
        '%(t)s; x="charset=ascii; charset=ascii"; charset=%(c)s', '%(T)s; charset=%(C)s', "%(t)s; charset*=us-ascii''%(c)s", "%(t)s; charset*=utf-8'en'%(c)s", '%(t)s; b="\\\\"; charset="%(c)s"; c', '%(t)s; charsets=ascii; charset=%(c)s; charset2=ascii',
        '%(t)s;; charset=%(c)s;']
MB = 'multipart/form-data; boundary=B'
NAME = u'é'


def declared(way, t, c):
    return WAYS[way] % {'t': t, 'T': t.upper() if 'boundary' not in t else t, 'c': c, 'C': c.upper()}


def u_ways(x, c, way, default):
    """however it is declared, it holds for every part of the request"""
    t = TEXT.get(c, u'\u00e9\u00fc')
    b = t.encode(c)
    q = '%s=%s&%s=x' % (esc(b), esc(b), quote(b))
    raw = '%s=%s' % (b, b)
    what = 'Content-Type %r, default %s'
    for prepare, d in ((None, default), (lambda r: setattr(r, 'encoding', 'cp437'), default)):
        ct = declared(way, FORM, c)
        check(x, http(q, ct, target='/?' + q), c, what % (ct, default), [(t, [t, u'x'])], [(t, [t, u'x'])], default=d, prepare=prepare)
        check(x, http(raw, ct, target='/?' + q), c, what % (ct, default), [(t, [t])], [(t, [t, u'x'])], default=d, prepare=prepare)
        for ct in (declared(way, 'text/plain', c), declared(way, 'application/json', c)):
            check(x, http(b, ct, target='/?' + q), c, what % (ct, default), [], [(t, [t, u'x'])], t, default=d, prepare=prepare)
        ct = declared(way, MB, c)
        m = multipart([part('v', b), part('w', 'x' + b + 'y'), part('z', 'f', 'n')])
        check(x, http(m, ct, target='/?' + q), c, what % (ct, default), None, [(t, [t, u'x'])], None, default=d, names=sorted([t, u'x' + t + u'y']), prepare=prepare)
        # nothing is sent but a query
        ct = declared(way, FORM, c)
        check(x, http('', ct, target='/?' + q), c, what % (ct, default), [], [(t, [t, u'x'])], default=d, prepare=prepare)
        check(x, http('', declared(way, 'text/plain', c), target='/?' + q, method='GET', length=None), c, what % (ct, default), [], [(t, [t, u'x'])], default=d, prepare=prepare)
    x.step()


def u_none(x, c, default, n):
    """nothing usable is declared: what was set, otherwise the settings"""
    ct = ('', '; charset', '; charset=', '; charset=""', '; charset=nonsense', '; charset="utf-8 "x', '; charset*0=utf-8', '; xcharset=ascii', '; a="; charset=ascii"', "; charset*=nonsense''%ff",
          '; charset=hex', "; charset*=iso-8859-1''%FF", '; charset=unicode_escape', '; charset=idna')[n]
    t = TEXT.get(c, u'\u00e9\u00fc')
    b = t.encode(c)
    q = '%s=%s' % (esc(b), esc(b))
    for prepare, d in ((None, c), (lambda r: setattr(r, 'encoding', c), default)):
        what = 'Content-Type ...%s, %s %s' % (ct, 'set' if prepare else 'default', c)
        check(x, http(q, FORM + ct, target='/?' + q), c, what, [(t, [t])], [(t, [t])], default=d, prepare=prepare)
        check(x, http(b, 'text/plain' + ct, target='/?' + q), c, what, [], [(t, [t])], t, default=d, prepare=prepare)
        check(x, http(multipart([part('v', b)]), MB + ct, target='/?' + q), c, what, None, [(t, [t])], names=[t], default=d, prepare=prepare)
        if not ct:
            check(x, http(b, None, target='/?' + q), c, what, [], [(t, [t])], t, default=d, prepare=prepare)
    x.step()


SOME = '\x80\x81\x8f\x90\xa0\xa4\xbf\xc0\xc2\xc3\xe0\xe2\xe9\xed\xef\xf0\xf4\xf8\xfe\xff'


def u_bytes(x, c, i, wide):
    """every byte, and pairs of them, escaped: what the codec makes of it, with U+FFFD for what it does not know"""
    second = [''] + [chr(k) for k in (range(128, 256) if wide else map(ord, SOME))] + ['A', '~', '1']
    pairs = []
    for s in second:
        b = chr(i) + s
        v = b.decode(c, 'replace')
        pairs.append((b, v))
    q = '&'.join('k%d=%s' % (n, esc(b)) for n, (b, v) in enumerate(pairs))
    want = sorted((u'k%d' % n, [v]) for n, (b, v) in enumerate(pairs))
    check(x, http(q, FORM + '; charset=' + c, target='/?' + q), c, 'byte %02x and others in %s' % (i, c), want, want, default='utf-8' if c != 'utf-8' else 'ascii')
    # the second one as it is, where it is ASCII
    for b, v in pairs:
        if b[1:] in ('A', '~', '1') and b[1:]:
            check(x, http('', FORM + '; charset=' + c, target='/?k=' + esc(b[0]) + b[1]), c, '%%%02X%s in %s' % (i, b[1], c), None, [(u'k', [v])])
    for b, v in pairs:
        try:
            t = ('(' + b).decode(c)[1:]
        except UnicodeError:
            t = None
        for ct in ('text/plain; charset=' + c, 'application/json; charset=' + c, 'x; a=b; charset="%s"' % c, None, 'image/png'):
            r = HttpRequest(BytesIO(http('(' + b, ct)), settings(DEFAULT_CHARSET=c if ct is None or ct[0] == 'i' else 'iso-8859-1'))
            got = attempt(r.parse)[:2]
            if t is None:
                x.eq(got, ('raised', 'UnicodeError'), 'text %r (%s), which is not in %s' % (b, ct, c))
            else:
                x.eq((got, r.body()), (('ok', None), u'(' + t), 'text %r (%s) in %s' % (b, ct, c))
            x.did(1)
    x.step()


REQS = [(FORM, None), (FORM + '; charset=utf-8', 'utf-8'), (FORM + '; charset=koi8-r', 'koi8-r'), (FORM + '; charset=nonsense', None), ('text/plain; charset=cp1251', 'cp1251')]
V = '\xc3\xa9'
STEPS = tuple(range(len(REQS))) + ('set utf-8', 'set koi8-r', 'again', 'body')


def u_seq(x, n, a, default):
    """one object, several requests: a declared charset is over with its request, one that was set stays"""
    for steps in product(STEPS, repeat=n - 1):
        steps = (STEPS[a],) + steps
        if not isinstance(steps[0], int) and steps[0][:3] != 'set':
            continue
        r = HttpRequest(None, settings(DEFAULT_CHARSET=default))
        base, cur, req, parsed = default, default, None, False
        bad = None
        for k, s in enumerate(steps):
            if isinstance(s, int):
                ct, dec = REQS[s]
                q = 'q=' + esc(V)
                body = 'p=' + esc(V) if ct[:4] != 'text' else V
                r.stream = BytesIO(http(body, ct, target='/?' + q))
                if norm(r.encoding) != norm(base):
                    bad = ('encoding before parsing', r.encoding, base)
                r.parse()
                cur, req = dec or base, s
                want = (u'q', [V.decode(cur)]), V.decode(cur)
            elif s[:3] == 'set':
                r.encoding = s[4:]
                base = cur = s[4:]
                if req is not None:
                    # the query is decoded again
                    want = (u'q', [V.decode(cur)]), want[1]
            elif s == 'again':
                if req is not None:
                    r.parse()
            elif req is not None:
                # the same header, another body
                r.body_stream = BytesIO('p=' + esc(V) if REQS[req][0][:4] != 'text' else V)
                r.parse_request_body()
                want = want[0], V.decode(cur)
            else:
                continue
            if bad is None and norm(r.encoding) != norm(cur):
                bad = ('encoding', r.encoding, cur)
            if bad is None and req is not None:
                got = lists(r.GET), r.POST.get('p') if REQS[req][0][:4] != 'text' else r.body()
                if got != ([want[0]], want[1]):
                    bad = ('GET and body', got, ([want[0]], want[1]))
            if bad:
                x.fail('default %s, steps %r: %s is %r after the last, expected %r' % ((default, [REQS[i][0] if isinstance(i, int) else i for i in steps[:k + 1]]) + bad))
                return
        x.did(n)
        x.outcome((base, cur))
    x.step()


def u_between(x, c, way, default):
    """the charset is set when the header is parsed, and the body is not; again, after the body is, too"""
    t = TEXT.get(c, u'\u00e9\u00fc')
    b = t.encode(c)
    q = '%s=%s' % (esc(b), esc(b))
    for dec in ('', '; charset=utf-8', '; charset=cp437', '; charset=nonsense'):
        for ct, body in ((FORM, q), (MB, multipart([part('v', b), part('f', 'g', 'n')])), ('text/plain', b), ('application/json', b), (FORM, '')):
            r = HttpRequest(BytesIO(http(body, ct + dec, target='/?' + q)), settings(DEFAULT_CHARSET=default))
            r.parse_request_header()
            if way:
                r.GET
                r.encoding = 'cp437'
            r.encoding = c
            what = 'a %r with charset %s set after the header' % (ct + dec, c)
            in_force(x, what, r, c)
            x.eq(lists(r.GET), [(t, [t])], what + ': GET')
            r.parse_request_body()
            if ct == FORM:
                x.eq(lists(r.POST), [(t, [t])] if body else [], what + ': POST')
            elif ct == MB:
                x.eq(r.POST.keys(), [t], what + ': names')
            else:
                x.eq(r.body(), t, what + ': body()')
            in_force(x, what + ' (parsed)', r, c)
            # a new request starts with it
            r.stream = BytesIO(http(q, FORM, target='/?' + q))
            r.parse()
            x.eq((lists(r.GET), lists(r.POST)), ([(t, [t])],) * 2, what + ', and for the next request: GET and POST')
            x.did(2)
    x.step()


def units(x):
    names = sorted(set(aliases) | set(aliases.values()) | set(UNKNOWN) | set(NOT_TEXT) | set(('utf-8-sig', 'java', 'sjis', 'windows-1252', 'Shift_JIS', 'latin1', 'l1', 'utf8')))
    for i, n in enumerate(names):
        for default in ('iso-8859-1', 'utf-8', 'koi8-r') if x.thorough or n in UNKNOWN or n in NOT_TEXT else (('iso-8859-1', 'utf-8', 'koi8-r')[i % 3],):
            yield ('names', n, default)
    for c in CS:
        for default in ('utf-8', 'iso-8859-1', 'cp1251', 'ascii'):
            for way in range(len(WAYS)):
                yield ('ways', c, way, default)
            for n in range(14):
                yield ('none', c, default, n)
            yield ('between', c, False, default)
            yield ('between', c, True, default)
        for i in range(256):
            if i >= 128 or i % 16 == 1:
                yield ('bytes', c, i, x.thorough)
    for default in ('iso-8859-1', 'utf-8', 'cp1251'):
        for n in (1, 2, 3) + ((4,) if x.thorough else ()):
            for a in range(len(STEPS)):
                yield ('seq', n, a, default)
