# -*- coding: utf-8 -*-
"""C18: urlencoded data and QueryDict."""
from env import *
import copy, pickle
from request_parser.utils.http import limited_parse_qsl, urlencode

ORACLE = ('A decoder written for this check from the definition of application/x-www-form-urlencoded: split at & and ;, skip empty pieces, split at the first =, '
          '+ is a space, runs of ASCII and percent-escapes are bytes in the charset, undecodable bytes are U+FFFD, an incomplete escape is literal.  '
          'urlencode() must be ASCII and be decoded, by that decoder and by QueryDict, to the contents it was made of.')
BOUNDS = {'quick': 'all strings of up to 4 of 19 tokens and 5 of 9 in 3 charsets, 2 of 19 in 7 charsets, as bytes and text; up to 3 of 12 tokens as query and body of a request '
                   'with and without a declared charset; every byte as %XX in 5 charsets; round trips of all dictionaries of 1 to 3 pairs over 19 strings and 12 safe sets',
          'thorough': 'up to 5 of 19 and 7 of 9 tokens'}
ASSUMPTIONS = ['the charset is a superset of ASCII', 'a key with an empty list has no urlencoded form']

HEX = '0123456789abcdefABCDEF'
CHARSETS = ['utf-8', 'iso-8859-1', 'cp1252', 'shift_jis', 'koi8-r', 'gbk', 'ascii']


def dec(s, enc):
    """text of a name or value"""
    s = s.replace('+', ' ')
    if '%' not in s:
        return unicode(s)
    out, run = [], []

    def flush():
        if run:
            out.append(''.join(run).decode(enc, 'replace'))
            del run[:]
    i = 0
    while i < len(s):
        c = s[i]
        if ord(c) > 127:
            flush()
            out.append(unicode(c))
            i += 1
        elif c == '%' and i + 2 < len(s) and s[i + 1] in HEX and s[i + 2] in HEX:
            run.append(chr(int(s[i + 1:i + 3], 16)))
            i += 3
        else:
            run.append(str(c))
            i += 1
    flush()
    return u''.join(out)


def pairs(qs, enc, blank=True):
    if isinstance(qs, bytes):
        try:
            qs = qs.decode(enc)
        except UnicodeError:
            qs = qs.decode('iso-8859-1')
    out = []
    for p in qs.replace(';', '&').split('&'):
        if not p:
            continue
        i = p.find('=')
        if i < 0:
            if blank:
                out.append((dec(p, enc), u''))
        elif p[i + 1:] or blank:
            out.append((dec(p[:i], enc), dec(p[i + 1:], enc)))
    return out


def grouped(ps):
    d = {}
    for k, v in ps:
        d.setdefault(k, []).append(v)
    return sorted(d.items())


def check(x, qs, enc):
    want = grouped(pairs(qs, enc))
    q = QueryDict(settings(), qs, encoding=enc)
    got = lists(q)
    if got != want:
        x.fail('QueryDict(%r) in %s: %r, expected %r' % (qs, enc, got, want))
    for k, v in got:
        if type(k) is not unicode or [e for e in v if type(e) is not unicode]:
            x.fail('QueryDict(%r) in %s is not text: %r' % (qs, enc, got))
    x.did()
    x.outcome(got)
    return q


TOKENS = ['a', 'b', '=', '&', ';', '+', '%', '%41', '%C3%A9', '%c3', '4', '%e9', u'\u00e9'.encode('utf-8'), '\xff', '%26', '%3D', '%2B', '%00', ' ']
SOME = ['a', '=', '&', ';', '+', '%', '4', '%c3%a9', '%A9']
FEWER = ['a', '=', '&', ';', '+', '%', '%c3%A9', '%E9', '%26', '4', '%3d', 'b']


def u_tokens(x, enc, a, b, n):
    """bytes"""
    toks = TOKENS
    for rest in strings(toks, n):
        check(x, toks[a] + (toks[b] if b is not None else '') + rest, enc)
    x.step()


def u_text(x, enc, a, n):
    toks = [t.decode('utf-8', 'replace') for t in TOKENS] + [u'\u20ac']
    for rest in strings(toks, n):
        check(x, toks[a] + rest, enc)
    x.step()


def u_some(x, enc, a, n):
    for rest in strings(SOME, n, n):
        check(x, SOME[a] + rest, enc)
        x.watch.begin = 0


def u_bytes(x, enc, lo):
    """every byte, written in every way, alone and as a pair"""
    for b in range(lo, lo + 16):
        esc = ['%%%02x' % b, '%%%02X' % b] + ([chr(b)] if b > 127 else [])
        for e in esc:
            for qs in (e, 'k=' + e, e + '=v', 'k=' + e + 'x', 'k=a' + e + '&' + e):
                check(x, qs, enc)
            for b2 in range(256) if x.thorough else (0x20, 0x41, 0x7f, 0x80, 0x81, 0xa9, 0xbf, 0xc3, 0xe2, 0xff):
                check(x, 'k=' + e + '%%%02X' % b2, enc)
    x.step()


def u_qsl(x, a, n):
    """limited_parse_qsl itself"""
    for rest in strings(FEWER, n):
        qs = unicode(FEWER[a] + rest)
        for blank in (True, False):
            for enc in ('utf-8', 'iso-8859-1'):
                want = pairs(qs, enc, blank)
                got = limited_parse_qsl(qs, keep_blank_values=blank, encoding=enc)
                if got != want:
                    x.fail('limited_parse_qsl(%r, %r, %s): %r, expected %r' % (qs, blank, enc, got, want))
        pieces = qs.count('&') + qs.count(';') + 1
        for limit in range(1, pieces + 2):
            o = attempt(limited_parse_qsl, qs, True, fields_limit=limit)
            if limit < pieces and o[1] != 'TooManyFieldsSent' or limit >= pieces and o != ('ok', pairs(qs, 'utf-8')):
                x.fail('limited_parse_qsl(%r), limit %d: %r' % (qs, limit, o))
        x.did(4)
        x.watch.begin = 0


REQ = [(FORM, {}, 'ISO-8859-1'), (FORM + '; charset=utf-8', {}, 'utf-8'), (FORM + '; charset="utf-8"', {Settings.Key.DEFAULT_CHARSET: 'cp1252'}, 'utf-8'),
       (FORM, {Settings.Key.DEFAULT_CHARSET: 'utf-8'}, 'utf-8'), (FORM + '; charset=nonsense', {}, 'ISO-8859-1'), (FORM.upper(), {}, 'ISO-8859-1')]


def u_request(x, ri, a, n):
    ctype, kw, enc = REQ[ri]
    for rest in strings(FEWER, n):
        qs = FEWER[a] + rest
        r = HttpRequest(BytesIO(http(qs, ctype, target='/p?' + qs)), settings(**kw))
        r.parse()
        want = grouped(pairs(qs, enc))
        g, p = lists(r.GET), lists(r.POST)
        if g != want or p != want:
            x.fail('%r in a request (%s, %r): GET %r, POST %r, expected %r' % (qs, ctype, kw, g, p, want))
        if r.META[QUERY_STRING] != qs:
            x.fail('query string %r: %r' % (qs, r.META[QUERY_STRING]))
        x.did()
        x.watch.begin = 0


def u_body(x, ri, a, n):
    """bytes that are not ASCII in a body"""
    ctype, kw, enc = REQ[ri]
    toks = TOKENS
    for rest in strings(toks, n):
        qs = toks[a] + rest
        r = HttpRequest(BytesIO(http(qs, ctype)), settings(**kw))
        r.parse()
        want = grouped(pairs(qs, enc))
        if lists(r.POST) != want:
            x.fail('body %r (%s, %r): %r, expected %r' % (qs, ctype, kw, lists(r.POST), want))
        x.did()
        x.watch.begin = 0


STRINGS = [u'', u'a', u'b', u' ', u'&', u'=', u';', u'+', u'%', u'%41', u'\u00e9', u'a/b~c', u'\u20ac\u3042', u'\n\x00', u'"\'', u'k=v&x', u'%C3%A9', u'\\.', u'\u00e9+ ;']
SAFE = [None, '', '/', '~', '/:~', 'a', ' ', u'\u00e9', '"', '\\.', '!*\'()', 'b/ ~']


def encodable(enc):
    out = []
    for s in STRINGS:
        try:
            if s.encode(enc).decode(enc) == s:
                out.append(s)
        except UnicodeError:
            pass
    return out


UNRESERVED = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~%+&='


def round_trip(x, content, enc, safes):
    q = QueryDict(settings(), mutable=True, encoding=enc)
    for k, v in content:
        q.appendlist(k, v)
    for safe in safes:
        if isinstance(safe, unicode):
            try:
                safe.encode(enc)
            except UnicodeError:
                continue
        o = attempt(q.urlencode, safe) if safe is not None else attempt(q.urlencode)
        if o[0] != 'ok':
            x.fail('urlencode(%r) of %r in %s: %r' % (safe, content, enc, o))
            continue
        s = o[1]
        if safe != u'\u00e9' and [c for c in s if not 32 <= ord(c) < 127]:
            x.fail('urlencode(%r) of %r in %s is not ASCII: %r' % (safe, content, enc, s))
        may = UNRESERVED + ('' if safe is None else safe.encode(enc))
        if [c for c in s if c not in may]:
            x.fail('urlencode(%r) of %r in %s: %r has characters that are neither unreserved nor asked for' % (safe, content, enc, s))
        back = QueryDict(settings(), s, encoding=enc)
        if not (back == q) or lists(back) != grouped(content):
            x.fail('urlencode(%r) of %r in %s: %r, which is %r' % (safe, content, enc, s, lists(back)))
        if grouped(pairs(s, enc)) != grouped(content):
            x.fail('urlencode(%r) of %r in %s: %r' % (safe, content, enc, s))
        x.did()
    return q


WAYS = (('copy()', lambda q: q.copy()), ('copy.copy', copy.copy), ('deepcopy', copy.deepcopy), ('pickle 0', lambda q: pickle.loads(pickle.dumps(q, 0))),
        ('pickle 2', lambda q: pickle.loads(pickle.dumps(q, 2))))


def u_one(x, enc, i):
    ss = encodable(enc)
    if i >= len(ss):
        return
    for j in range(len(ss)):
        q = round_trip(x, [(ss[i], ss[j])], enc, SAFE)
        for k in range(len(ss)):
            round_trip(x, [(ss[i], ss[j]), (ss[i], ss[k])], enc, (None, '/'))
            round_trip(x, [(ss[i], ss[j]), (ss[k], ss[j])], enc, (None, ' ~'))
        x.watch.begin = 0
        # copies
        for name, f in WAYS:
            c = f(q)
            if type(c) is not QueryDict or c != q or lists(c) != lists(q) or c.encoding != enc or c.urlencode() != q.urlencode():
                x.fail('%s of %r: %r in %r' % (name, q, c, c.encoding))
            c.appendlist(ss[i], 'more')
            c.setlist('new', [u'1'])
            x.eq(lists(q), [(ss[i], [ss[j]])], '%s: the original' % name)
            x.did()


def u_three(x, enc, i, j):
    ss = encodable(enc)
    if max(i, j) >= len(ss):
        return
    for k in range(len(ss)):
        round_trip(x, [(ss[i], ss[j]), (ss[k], ss[i]), (ss[i], ss[k])], enc, (None, '/'))
        round_trip(x, [(ss[i], ss[j]), (ss[j], ss[k]), (ss[k], ss[i])], enc, (None,))
    x.step()


def u_values(x):
    """values that are no text"""
    q = QueryDict(settings(), mutable=True)
    q['n'] = 5
    q['f'] = 1.5
    q['b'] = 'bytes \xe9'
    q['l'] = True
    x.eq(lists(QueryDict(settings(), q.urlencode())), [(u'b', [u'bytes \u00e9']), (u'f', [u'1.5']), (u'l', [u'True']), (u'n', [u'5'])], 'values')
    for enc in CHARSETS + ['utf-16', None]:
        for mutable in (True, False):
            for text in ('', 'a=1', 'a=1&b=2&a=3', 'a=&=', '%41=+'):
                q = QueryDict(settings(), text, mutable=mutable, encoding=enc)
                for name, f in WAYS:
                    c = f(q)
                    if type(c) is not QueryDict or lists(c) != lists(q) or c.encoding != q.encoding or enc and c.encoding != enc:
                        x.fail('%s of QueryDict(%r, encoding=%r): %r in %r' % (name, text, enc, c, c.encoding))
                    x.did()
    q = QueryDict(settings(), mutable=True)
    x.eq(q.urlencode(), '', 'urlencode() of an empty QueryDict')
    x.eq(QueryDict.fromkeys(['a', 'b', 'a'], 'v w').urlencode() in ('a=v+w&a=v+w&b=v+w', 'b=v+w&a=v+w&a=v+w'), True, 'fromkeys')


def u_urlencode(x, i):
    """utils.http.urlencode"""
    k = STRINGS[i]
    for v in STRINGS:
        for src in ({k: v}, [(k, v)], MultiValueDict({k: [v]}), QueryDict(settings(), mutable=True, encoding='utf-8')):
            if isinstance(src, QueryDict):
                src[k] = v
            doseq = isinstance(src, MultiValueDict)
            s = urlencode(src, doseq)
            if lists(QueryDict(settings(), s, encoding='utf-8')) != [(k, [v])]:
                x.fail('urlencode(%r, %r): %r' % (src, doseq, s))
        for w in STRINGS:
            want = [(k, [v, w])]
            for src in (MultiValueDict({k: [v, w]}), {k: [v, w]}, {k: (v, w)}, [(k, [v, w])], {k: iter([v, w])}):
                s = urlencode(src, True)
                if lists(QueryDict(settings(), s, encoding='utf-8')) != want:
                    x.fail('urlencode(%r, True): %r' % (src, s))
                x.did()
        x.watch.begin = 0
    for bad in ({k: None}, {k: [None]}, [(k, ['a', None])], MultiValueDict({k: [None]})):
        for doseq in (True, False):
            o = attempt(urlencode, bad, doseq)
            if o[0] == 'ok' or not isinstance(o[2], TypeError):
                x.fail('urlencode(%r, %r): %r' % (bad, doseq, o))
    x.eq(urlencode({'a': 5}), 'a=5', 'a number')
    x.eq(urlencode({'a': [1, 2]}, True), 'a=1&a=2', 'numbers')


def units(x):
    for enc in CHARSETS:
        main = enc in ('utf-8', 'iso-8859-1', 'shift_jis')
        for a in range(len(TOKENS)):
            if main:
                for b in range(len(TOKENS)):
                    yield ('tokens', enc, a, b, 3 if x.thorough else 2 if enc == 'utf-8' else 1)
            else:
                yield ('tokens', enc, a, None, 2 if x.thorough else 1)
        for a in range(len(TOKENS) + 1):
            yield ('text', enc, a, 3 if x.thorough and main else 2 if main else 1)
        for a in range(len(SOME)):
            for n in (4, 5, 6) if x.thorough else (4,):
                if main and (x.thorough or enc != 'shift_jis'):
                    yield ('some', enc, a, n)
        for lo in range(0, 256, 16):
            yield ('bytes', enc, lo)
    for a in range(len(FEWER)):
        yield ('qsl', a, 3 if x.thorough else 2)
        for ri in range(len(REQ)):
            yield ('request', ri, a, 2 if x.thorough or ri < 2 else 1)
    for a in range(len(TOKENS)):
        for ri in range(len(REQ)):
            yield ('body', ri, a, 2 if x.thorough else 1)
    yield ('values',)
    for i in range(len(STRINGS)):
        yield ('urlencode', i)
        for enc in CHARSETS[:5]:
            yield ('one', enc, i)
        for j in range(len(STRINGS)):
            for enc in CHARSETS[:3] if x.thorough else CHARSETS[:1]:
                yield ('three', enc, i, j)
