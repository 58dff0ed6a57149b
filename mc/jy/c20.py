# -*- coding: utf-8 -*-
"""C20: URI functions and the URI accessors of a request."""
from env import *
from request_parser.utils.encoding import iri_to_uri, uri_to_iri, escape_uri_path
from request_parser.utils.http import urlquote, urlquote_plus, urlunquote, urlunquote_plus

ORACLE = ('Percent-encoding written for this check from RFC 3986 and 3987 (the bytes of the UTF-8 form, the characters that may stay), and the parts the generator put together '
          'for the accessors.  Idempotence and inverses are checked on the results.')
BOUNDS = {'quick': 'all strings of up to 3 of 26 characters and up to 4 of 11, as text and as UTF-8; every code point to U+0FFF and every 255th after; every %XX; '
                   'all targets of 4 schemes, 5 hosts, 5 ports, 16 paths, 12 queries; all paths of up to 4 of 9 characters through set_path; all paths and queries of 3 of 12 characters through requests',
          'thorough': 'one character more everywhere, and every code point'}
ASSUMPTIONS = ['text has no lone surrogates', 'an empty parameter at the end of the path may be dropped, like an empty query', 'an origin-form target gives no scheme: get_uri() is checked after set_scheme()', 'what a percent-encoding of other than UTF-8 stands for is not checked']

ALNUM = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
IRI_SAFE = set(ALNUM + '-._~' + ':/?#[]@' + "!$&'()*+,;=" + '%')
PATH_SAFE = set(ALNUM + "-_.!~*'()" + '/:@&+$,')
HEX = '0123456789ABCDEF'


def enc(t, safe):
    out = []
    for c in (t.encode('utf-8') if isinstance(t, unicode) else t):
        out.append(c if c in safe else '%' + HEX[ord(c) >> 4] + HEX[ord(c) & 15])
    return ''.join(out)


def dec(t):
    """UTF-8 of the text that t (ASCII or text) stands for; None if it is not UTF-8."""
    b = t.encode('utf-8') if isinstance(t, unicode) else t
    out, i = [], 0
    while i < len(b):
        h = b[i + 1:i + 3].upper()
        if b[i] == '%' and len(h) == 2 and h[0] in HEX and h[1] in HEX:
            out.append(chr(HEX.index(h[0]) * 16 + HEX.index(h[1])))
            i += 3
        else:
            out.append(b[i])
            i += 1
    out = ''.join(out)
    try:
        if out.decode('utf-8').encode('utf-8') == out:
            return out
    except UnicodeError:
        pass




def is_ascii(s):
    return not [c for c in s if ord(c) > 127]


def functions(x, t):
    """everything about the string t"""
    n = 0
    for s in ((t, t.encode('utf-8')) if isinstance(t, unicode) else (t,)):
        for name, f, safe in (('iri_to_uri', iri_to_uri, IRI_SAFE), ('escape_uri_path', escape_uri_path, PATH_SAFE),
                              ('escape_uri_path(encode_percent=False)', keep_percent, PATH_SAFE | set('%')),
                              ('urlquote', urlquote, set(ALNUM + '_.-/')), ('urlquote_plus', urlquote_plus, set(ALNUM + '_.- '))):
            o = attempt(f, s)
            want = enc(s, safe)
            if f is urlquote_plus:
                want = want.replace(' ', '+')
            n += 1
            if o[0] != 'ok' or o[1] != want or not is_ascii(o[1]):
                x.fail('%s(%r): %r, expected %r' % (name, s, o[1:], want))
                continue
            if f is iri_to_uri or f is keep_percent:
                again = attempt(f, o[1])
                if again != ('ok', want):
                    x.fail('%s(%r) gives %r, and that gives %r' % (name, s, want, again[1:]))
                back = dec(want)
                if back is not None:
                    got = attempt(uri_to_iri, o[1])
                    if got[0] != 'ok' or (got[1].encode('utf-8') if isinstance(got[1], unicode) else got[1]) != back:
                        x.fail('uri_to_iri(%r): %r, expected %r' % (want, got[1:], back))
            else:
                inv = urlunquote_plus if f is urlquote_plus else urlunquote
                got = attempt(inv, o[1])
                full = s if isinstance(s, unicode) else s.decode('utf-8')
                if got[0] != 'ok' or (got[1] if isinstance(got[1], unicode) else got[1].decode('utf-8')) != full:
                    x.fail('%s gives %r, and %s of that %r; it was %r' % (name, want, inv.__name__, got[1:], s))
        # text that is not encoded, or partly
        if isinstance(s, unicode) or is_ascii(s):
            got = attempt(uri_to_iri, s)
            back = dec(s)
            n += 1
            if got[0] != 'ok':
                x.fail('uri_to_iri(%r): %r' % (s, got))
            elif back is not None and (got[1].encode('utf-8') if isinstance(got[1], unicode) else got[1]) != back:
                x.fail('uri_to_iri(%r): %r, expected %r' % (s, got[1], back))
    x.did(n, 1, 1)


def keep_percent(s):
    return escape_uri_path(s, encode_percent=False)


A1 = [u'a', u'Z', u'0', u'%', u'4', u'F', u'/', u'?', u'#', u'[', u']', u':', u';', u'=', u'&', u'+', u' ', u'~', u"'", u'"', u'\\', u'<', u'\u00e9', u'\u20ac', u'\U0001F600', u'\x00']
A2 = [u'a', u'%', u'2', u'F', u'/', u'?', u';', u'+', u' ', u'~', u'\U0001F600']


def u_strings(x, which, n, *first):
    alpha = (A1, A2)[which]
    pre = u''.join(alpha[i] for i in first)
    for t in product(alpha, repeat=n):
        functions(x, pre + u''.join(t))
    x.watch.begin = 0
    x.outcome((which, n, first))


def u_points(x, lo, hi, step):
    for c in range(lo, hi, step):
        if not 0xd800 <= c < 0xe000:
            functions(x, u'/' + unichr(c) + u'a')
    x.step()


def u_escapes(x, lo):
    """every escape, in either case, complete or not, alone and beside others"""
    for b in range(lo, lo + 16):
        for e in ('%%%02X' % b, '%%%02x' % b, '%' + HEX[b >> 4], '%%%%%02X' % b, '%25' + '%02X' % b, '%%C3%%%02X' % b, '%%E2%%82%%%02x' % b, '%%F0%%9F%%98%%%02X' % b):
            for pre in (u'', u'\u00e9'):
                for post in (u'', u'z', u'%'):
                    t = pre + e + post
                    functions(x, t)
    x.step()


def u_others(x):
    x.eq(iri_to_uri(None), None, 'iri_to_uri(None)')
    x.eq(uri_to_iri(None), None, 'uri_to_iri(None)')
    for f in (iri_to_uri, uri_to_iri, escape_uri_path, urlquote, urlquote_plus, urlunquote, urlunquote_plus):
        x.eq(f(''), '', f.__name__ + " of ''")
        x.eq(f(u''), u'', f.__name__ + " of u''")
    for n in (0, 5, -12, 10 ** 20, 1.5):
        x.eq(iri_to_uri(n), str(n), 'iri_to_uri(%r)' % n)
    for safe in ('', '/', ':', ' ', '~', '%/'):
        for t in strings(['a', '/', ':', ' ', '%', '~'], 3):
            x.eq(urlquote(t, safe), enc(t, set(ALNUM + '_.-' + safe)), 'urlquote(%r, %r)' % (t, safe))
            x.eq(urlquote_plus(t, safe), enc(t, set(ALNUM + '_.- ' + safe)).replace(' ', '+'), 'urlquote_plus(%r, %r)' % (t, safe))
    x.did()


# -- the accessors of a request

def request(target, host='hh'):
    r = HttpRequest(BytesIO('GET %s HTTP/1.1%sHost: %s%s%s' % (target, CRLF, host, CRLF, CRLF)), settings())
    r.parse()
    return r


DEFAULT = {'http': 80, 'https': 443}


def accessors(x, r, scheme, host, port, path, query, what):
    """port: None if there is none"""
    full = enc(path, PATH_SAFE | set('%')) + ('?' + enc(query, IRI_SAFE) if query else '')
    slash = enc(path, PATH_SAFE | set('%')) + ('' if path[-1:] == '/' else '/') + ('?' + enc(query, IRI_SAFE) if query else '')
    base = '%s://%s%s' % (scheme, host, '' if port is None or DEFAULT.get(scheme) == port else ':%d' % port)
    ok = True
    for name, f, want in (('get_full_path()', r.get_full_path, full), ('get_uri()', r.get_uri, base + full),
                          ('get_full_path(force_append_slash=True)', slash_path(r), slash), ('get_path()', r.get_path, path),
                          ('get_scheme()', r.get_scheme, scheme), ('get_host()', r.get_host, host)):
        o = attempt(f)
        if o[0] != 'ok' or o[1] != want:
            x.fail('%s of %s: %r, expected %r' % (name, what, o[1:], want))
            ok = False
        elif name != 'get_path()' and not is_ascii(o[1]):
            x.fail('%s of %s is not ASCII: %r' % (name, what, o[1]))
    raw = dec(full)
    if raw is not None:
        for name, f, want in (('get_full_path(raw=True)', lambda: r.get_full_path(raw=True), raw), ('get_uri(raw=True)', lambda: r.get_uri(raw=True), None)):
            o = attempt(f)
            if want is None:
                want = base + raw
            if o[0] != 'ok' or (o[1].encode('utf-8') if isinstance(o[1], unicode) else o[1]) != want:
                x.fail('%s of %s: %r, expected %r' % (name, what, o[1:], want))
                ok = False
    o = attempt(repr, r)
    if o[0] != 'ok' or full and full not in o[1] or r.method not in o[1] and full:
        x.fail('repr() of %s: %r' % (what, o[1:]))
    x.did(8)
    return base + full if ok else None


def slash_path(r):
    return lambda: r.get_full_path(force_append_slash=True)


SCHEMES = ['http', 'https', 'HTTPS', 'ftp']
HOSTS = ['h', 'Www.Example.com', '127.0.0.1', '[::1]', 'a-b.c']
PORTS = [None, 80, 443, 8080, 65535]
PATHS = ['/', '', '/a', '/a/', '/a;p', '/a;p=1;q', '/a%2Fb', '/%', '/"q"', '/a:b', '/[x]', '/~u', '/a,b', '/a=b&c', '/%C3%A9', '/a\\b', '/%2541']
QUERIES = ['', 'a', 'a=b', 'a=%26', 'a?b', 'a=b;c', '%', 'a/b', '"', 'x=%C3%A9', 'a=http://z/', '[1]', 'x=%2541', '%25%34%31', 'a=%252541']


def u_absolute(x, s, h):
    for port in PORTS:
        for path in PATHS:
            for query in QUERIES:
                target = SCHEMES[s] + '://' + HOSTS[h] + ('' if port is None else ':%d' % port) + path + ('?' + query if query else '')
                o = attempt(request, target)
                if o[0] != 'ok':
                    x.fail('target %r: %r' % (target, o))
                    continue
                scheme = SCHEMES[s].lower()
                uri = accessors(x, o[1], scheme, HOSTS[h].lower(), port, path, query, 'target %r' % target)
                if uri and path:
                    # its own URI as the target of a request
                    again = attempt(lambda: request(uri).get_uri())
                    if again != ('ok', uri):
                        x.fail('get_uri() of %r is %r; as a target this has %r' % (target, uri, again[1:]))
        x.watch.begin = 0


def u_origin(x, h):
    for port in PORTS:
        for path in PATHS:
            for query in QUERIES:
                if not path:
                    continue
                target = path + ('?' + query if query else '')
                host = HOSTS[h] + ('' if port is None else ':%d' % port)
                for scheme in ('http', 'https', 'gopher'):
                    r = request(target, host)
                    r.set_scheme(scheme)
                    accessors(x, r, scheme, HOSTS[h].lower(), port, path, query, 'target %r, host %r, scheme set' % (target, host))
        x.watch.begin = 0


REQ = ['a', '%', '4', '/', ';', '?', '=', '&', '+', '"', '~', ']']


def u_target(x, n, a):
    """any target"""
    for rest in strings(REQ, n):
        t = REQ[a] + rest
        for target in ('/' + t, '/p?' + t):
            if target.startswith('//'):
                continue
            path, _, query = target.partition('?')
            if path[-1:] == ';':
                continue
            o = attempt(request, 'http://h:81' + target)
            if o[0] != 'ok':
                x.fail('target %r: %r' % (target, o))
                continue
            accessors(x, o[1], 'http', 'h', 81, path, query, 'target %r' % target)
        x.watch.begin = 0


SET = [u'a', u'%', u'4', u'/', u'?', u';', u' ', u'\u00e9', u'#']


def u_set_path(x, n, a, query):
    r = request('https://h:8443/orig' + ('?' + query if query else ''))
    for rest in product(SET, repeat=n):
        p = u'/' + SET[a] + u''.join(rest)
        for s in (p, p.encode('utf-8')):
            r.set_path(s)
            want = enc(enc(s, IRI_SAFE), PATH_SAFE | set('%'))
            accessors(x, r, 'https', 'h', 8443, want, query, 'set_path(%r)' % s)
            if attempt(r.get_path)[1] != want:
                x.fail('set_path(%r): get_path() gives %r, expected %r' % (s, r.get_path(), want))
        # as it is
        r.set_path(p, encode_safely=False)
        x.eq(r.get_path(), p, 'get_path() after set_path(%r, encode_safely=False)' % p)
        x.eq(r.get_full_path(), enc(p, PATH_SAFE | set('%')) + ('?' + query if query else ''), 'get_full_path() after set_path(%r, encode_safely=False)' % p)
        # setting what get_path() gives changes nothing
        r.set_path(p)
        q = r.get_path()
        r.set_path(q)
        x.eq(r.get_path(), q, 'set_path(get_path()) after set_path(%r)' % p)
        x.watch.begin = 0
    x.outcome((n, a))


def u_scheme(x):
    r = request('http://h:80/p?q')
    for s in ('https', '', None, 'http', 'ws'):
        old = r.get_scheme()
        r.set_scheme(s)
        x.eq(r.get_scheme(), s or old, 'get_scheme() after set_scheme(%r)' % s)
    x.eq(r.get_method(), 'GET', 'get_method()')
    x.eq(r.get_protocol_info(), 'HTTP/1.1', 'get_protocol_info()')
    x.eq(r.get_port(), '80', 'get_port()')
    x.eq(r.get_uri(), 'ws://h:80/p?q', 'get_uri()')
    for s, want in (('https', True), ('http', False), ('ftp', False)):
        r.set_scheme(s)
        x.eq(r.is_secure(), want, 'is_secure() with %s' % s)
    empty = HttpRequest(BytesIO(), settings())
    x.eq(empty.get_path(), '', 'get_path() before parsing')
    x.eq(empty.get_full_path(), '', 'get_full_path() before parsing')
    x.eq('HttpRequest' in repr(empty), True, 'repr() before parsing')
    x.did()


def units(x):
    t = 1 if x.thorough else 0
    yield ('others',)
    yield ('scheme',)
    yield ('strings', 0, 0)
    for a in range(len(A1)):
        yield ('strings', 0, 0, a)
        for b in range(len(A1)):
            yield ('strings', 0, 0, a, b)
            yield ('strings', 0, 1, a, b)
            if t:
                yield ('strings', 0, 2, a, b)
    for a in range(len(A2)):
        for b in range(len(A2)):
            yield ('strings', 1, 2 + t, a, b)
    for lo in range(0, 0x110000 if t else 0x1000, 0x100):
        yield ('points', lo, lo + 0x100, 1)
    if not t:
        for lo in range(0x1000, 0x110000, 0x1000):
            yield ('points', lo, lo + 0x1000, 0xff)
    for lo in range(0, 256, 16):
        yield ('escapes', lo)
    for h in range(len(HOSTS)):
        for s in range(len(SCHEMES)):
            yield ('absolute', s, h)
        yield ('origin', h)
    for a in range(len(REQ)):
        for n in ((2, 3) if t else (2,)):
            yield ('target', n, a)
        yield ('target', 0, a)
    for a in range(len(SET)):
        for n in range(0, 4 + t):
            for q in ('', 'a=1'):
                if n < 3 + t or not q:
                    yield ('set_path', n, a, q)
