# -*- coding: utf-8 -*-
"""C02: the request line and the headers are reported faithfully."""
from env import *

ORACLE = ('The expected attributes are computed from the pieces the request was generated from; hosts are judged by a '
          'hand-written recogniser of name[:digits] and [ipv6][:digits].')
BOUNDS = {'quick': 'every combination of 4 methods x 3 protocols with one target, every target of 7 schemes x 16 authorities x 9 paths x '
                   '6 queries x 3 fragments, every sequence of up to 3 of 16 header lines with Host at every place and case, '
                   'every host string up to 5 characters over 11',
          'thorough': 'header sequences up to 4, host strings up to 6, targets crossed with methods and host headers'}
ASSUMPTIONS = ['an empty component ("/a?", "/a;") is not distinguished from an absent one',
               'origin-form paths that start with two slashes are outside the grammar']

METHODS = ('GET', 'POST', 'get', 'M-SEARCH')
PROTOS = ('HTTP/1.1', 'HTTP/1.0', 'http/2')
SCHEMES = ('', 'http', 'https', 'HTTP', 'HttpS', 'ftp', 'ws+x')
AUTH = ('h', 'H.Example', 'h.example.', 'h:80', 'h:443', 'H:8080', 'a-b.c:0', '1.2.3.4', '1.2.3.4:65535', '[::1]', '[FE80::1]:81',
        '[::1.2.3.4]', 'a_b', 'u@h', 'h:', 'h:x', '[::1', 'h.:5')
PATHS = ('', '/', '/a/b.html', '/a%20b%2F', '/a;p=1', '/a;p/b;q=2;r', '/a:b@c', '/~x,y+(z)!', '/a//b')
QUERIES = ('', 'x=1', 'a=1&a=2&b=', 'q=/x?y', 'u=http://z:1/', 'a;b=%C3%A9+d')
FRAGS = ('', 'f', 'f/x?y')
GETS = {'': [], 'x=1': [('x', ['1'])], 'a=1&a=2&b=': [('a', ['1', '2']), ('b', [''])], 'q=/x?y': [('q', ['/x?y'])],
        'u=http://z:1/': [('u', ['http://z:1/'])], 'a;b=%C3%A9+d': [('a', ['']), ('b', [u'\xc3\xa9 d'])]}
LOW = 'abcdefghijklmnopqrstuvwxyz'
HEX = '0123456789abcdef'
DIG = '0123456789'


def model_host(host):
    """(domain, port) of a host, or ('', '')"""
    h = ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in host)
    if h[:1] == '[':
        k = h.find(']')
        if k < 0:
            return '', ''
        name, rest, inner = h[:k + 1], h[k + 1:], h[1:k]
        c = inner.find(':')
        if c < 0 or any(ch not in HEX for ch in inner[:c]) or inner[c + 1:] == '' or any(ch not in HEX + '.:' for ch in inner[c + 1:]):
            return '', ''
    else:
        k = h.find(':')
        if k < 0:
            k = len(h)
        name, rest = h[:k], h[k:]
        if name == '' or any(ch not in LOW + DIG + '.-' for ch in name):
            return '', ''
        if name[-1] == '.':
            name = name[:-1]
    if rest == '':
        return name, ''
    if rest[0] != ':' or len(rest) < 2 or any(ch not in DIG for ch in rest[1:]):
        return '', ''
    return name, rest[1:]


def expect_target(scheme, auth, path, query, frag, host_header):
    host, port = model_host(auth if scheme else host_header)
    s = scheme.lower()
    if not port:
        port = {'http': 80, 'https': 443}.get(s, 65536)
    return (s or 'UNKNOWN', host, port, path)


def run(x, raw, what):
    o = attempt(parse, raw)
    x.did(3)
    if o[0] != 'ok':
        x.fail('%s: %r' % (what, o), raw)
        return None
    x.outcome((o[1].scheme, o[1].host, o[1].port, o[1].content_type))
    return o[1]


def same(x, r, raw, want):
    for name, w in want.items():
        g = getattr(r, name)
        if callable(g):
            g = g()
        if g != w:
            x.fail('%s is %r, expected %r' % (name, g, w), raw)


def u_target(x, scheme, auth, path, meths, protos, hosts):
    for query in QUERIES:
        for frag in FRAGS:
            target = (scheme + '://' + auth if scheme else '') + path + ('?' + query if query else '') + ('#' + frag if frag else '')
            for m in meths:
                for p in protos:
                    for hh in hosts:
                        raw = '%s %s %s\r\nHost: %s\r\nZ: 1\r\n\r\n' % (m, target, p, hh)
                        r = run(x, raw, 'a well-formed request is rejected')
                        if r is None:
                            continue
                        s, host, port, pth = expect_target(scheme, auth, path, query, frag, hh)
                        same(x, r, raw, {'method': m, 'scheme': s, 'host': host, 'port': port, 'path': pth, 'protocol_info': p,
                                         'get_method': m, 'get_scheme': s, 'get_host': host, 'get_port': str(port), 'get_path': pth,
                                         'get_protocol_info': p, 'is_secure': s == 'https', 'is_ajax': False, 'is_plain_text': False,
                                         'content_type': None})
                        x.eq(r.META[QUERY_STRING], query, 'query string', raw)
                        x.eq(lists(r.GET), GETS[query], 'GET', raw)
                        x.eq(lists(r.META[REQ_HEADERS]), [('Host', [hh]), ('Z', ['1'])] if scheme else [('Z', ['1'])], 'headers', raw)
                        x.eq(lists(r.POST), [], 'POST', raw)
            d = parse_request_line('%s %s %s' % (m, target, p))
            x.eq((d['METHOD'], d['SCHEME'], d['DOMAIN'], d['QUERY_STRING'], d['FRAGMENT'], d['PROTOCOL_INFO'],
                  d['PATH'] + (';' + d['PARAMS'] if d['PARAMS'] else '')),
                 (m, scheme.lower(), auth if scheme else '', query, frag, p, path), 'parse_request_line', target)
    x.sample((scheme, auth, path))


LINES = (('A: 1', 'A', '1'), ('A:2', 'A', '2'), ('a: 3', 'a', '3'), ('B:  x:y ', 'B', 'x:y'), ('C:', 'C', ''),
         ('X-Requested-With: XMLHttpRequest', 'X-Requested-With', 'XMLHttpRequest'),
         ('x-REQUESTED-with: XMLHttpRequest', 'X-Requested-With', 'XMLHttpRequest'),
         ('X-Requested-With: other', 'X-Requested-With', 'other'),
         ('Content-Type: Text/Plain; charset=utf-8', 'Content-Type', 'Text/Plain; charset=utf-8'),
         ('CONTENT-TYPE: text/html', 'Content-Type', 'text/html'),
         ('content-length:  3', 'Content-Length', '3'),
         ('D: \tq r\t', 'D', 'q r'), ('E: k: v: w', 'E', 'k: v: w'), ('F::', 'F', ':'), ('G: "q"', 'G', '"q"'), ('Host-X: "a, b; c"', 'Host-X', '"a, b; c"'))
HOSTS = (('Host: h1:9', 'h1', '9'), ('HOST:H2', 'h2', 65536), ('host: [::2]:7', '[::2]', '7'), ('hOsT:   h4.  ', 'h4', 65536))


def u_headers(x, idx, absolute):
    chosen = [LINES[i] for i in idx]
    for at in range(len(chosen) + 1):
        for hline, host, port in HOSTS:
            lines = [c[0] for c in chosen]
            lines.insert(at, hline)
            target = 'https://top.example/x' if absolute else '/x'
            raw = '\r\n'.join(['GET %s HTTP/1.1' % target] + lines) + '\r\n\r\n'
            r = run(x, raw, 'a well-formed header is rejected')
            if r is None:
                continue
            want = {}
            for l, n, v in chosen:
                want.setdefault(n, []).append(v)
            ct = want.get('Content-Type', [None])[-1]
            cts = {None: None, 'text/html': 'text/html'}.get(ct, 'text/plain')
            if absolute:
                want['Host'] = [hline.split(':', 1)[1].strip()]
                host, port = 'top.example', 443
            same(x, r, raw, {'host': host, 'port': port, 'content_type': cts, 'is_plain_text': cts == 'text/plain',
                             'is_ajax': want.get('X-Requested-With', [''])[-1] == 'XMLHttpRequest',
                             'encoding': 'utf-8' if cts == 'text/plain' else 'ISO-8859-1'})
            x.eq(lists(r.META[REQ_HEADERS]), sorted(want.items()), 'headers', raw)
            for k, v in want.items():
                x.eq(r.META[REQ_HEADERS][k], v[-1], 'header %s' % k, raw)
    line, h = parse_request_headers('GET / HTTP/1.0\r\nQ: q\r\n' + ''.join(c[0] + '\r\n' for c in chosen))
    want = {'Q': ['q']}
    for l, n, v in chosen:
        want.setdefault(n, []).append(v)
    x.eq((line, lists(h)), ('GET / HTTP/1.0', sorted(want.items())), 'parse_request_headers', idx)


def u_host(x, prefix, n):
    for t in product(HALPHA, repeat=n):
        h = prefix + ''.join(t)
        g = split_domain_port(h)
        x.did(1)
        if tuple(g) != model_host(h):
            x.fail('split_domain_port(%r) is %r, expected %r' % (h, g, model_host(h)), h)


HALPHA = 'aF1.-:[]_\n@'


def u_opaque(x, target, scheme, path, query):
    """absolute targets without an authority, and the asterisk: the host comes from the header"""
    for hh, host, port in (('h', 'h', None), ('H:81', 'h', '81')):
        raw = 'OPTIONS %s HTTP/1.1\r\nHost: %s\r\n\r\n' % (target, hh)
        r = run(x, raw, 'a well-formed request is rejected')
        if r is not None:
            same(x, r, raw, {'scheme': scheme or 'UNKNOWN', 'host': host, 'path': path,
                             'port': port or {'http': 80, 'https': 443}.get(scheme, 65536)})
            x.eq(r.META[QUERY_STRING], query, 'query string', raw)


OPAQUE = (('*', '', '*', ''), ('urn:a:b', 'urn', 'a:b', ''), ('a:b:c/d', 'a', 'b:c/d', ''), ('mailto:u@h', 'mailto', 'u@h', ''), ('urn:x?a:b', 'urn', 'x', 'a:b'),
          ('http:/p', 'http', '/p', ''), ('HTTPS:/p:q', 'https', '/p:q', ''), ('x+y.z-1:/p?q:/r', 'x+y.z-1', '/p', 'q:/r'), ('p/q:r', '', 'p/q:r', ''),
          ('/p:q/r:s', '', '/p:q/r:s', ''), ('/?u=h:1', '', '/', 'u=h:1'), ('1_:b', '', '1_:b', ''), ('?a:b', '', '', 'a:b'))


def u_reject(x, line):
    o = attempt(parse, line + '\r\nHost: h\r\n\r\n')
    x.did(1)
    if o[:2] != ('raised', 'InvalidHttpRequest'):
        x.fail('request line %r gives %r instead of InvalidHttpRequest' % (line, o), line)


def u_nohost(x, target, ok):
    o = attempt(parse, 'GET %s HTTP/1.1\r\nA: b\r\n\r\n' % target)
    x.did(1)
    if ok and (o[0] != 'ok' or o[1].host != 'z'):
        x.fail('absolute target without Host: %r' % (o,), target)
    if not ok and o[:2] != ('raised', 'NoHostFoundException'):
        x.fail('no host gives %r instead of NoHostFoundException' % (o,), target)


def units(x):
    for scheme in SCHEMES:
        for auth in AUTH if scheme else ('',):
            if auth in ('[::1',):
                continue
            for path in PATHS:
                if not scheme and not path:
                    continue
                yield ('target', scheme, auth, path, METHODS[:1], PROTOS[:1], ('h:1', auth) if scheme else ('h:1',))
    for hh in AUTH:
        yield ('target', '', '', '/p', METHODS[:1], PROTOS[:1], (hh,))
    yield ('target', '', '', '/p', METHODS, PROTOS, ('h', 'H:1'))
    yield ('target', 'http', 'a:1', '/p', METHODS, PROTOS, ('h', 'H:1'))
    for n in range(0, 4 if not x.thorough else 5):
        for idx in product(range(len(LINES)), repeat=n):
            yield ('headers', idx, False)
            if n < 3 or x.thorough:
                yield ('headers', idx, True)
    n = 6 if x.thorough else 5
    for k in range(0, 3):
        for t in product(HALPHA, repeat=k):
            if k < 2:
                yield ('host', ''.join(t), 0)
            else:
                for m in range(0, n - 1):
                    yield ('host', ''.join(t), m)
    for h in AUTH + ('h.example.com:8000', 'xn--80ak6aa92e.com', 'h\n', 'h:80\n', '[::1]\n', 'h:1:2', '[::1]:', 'h.:80', 'A.B.'):
        yield ('host', h, 0)
    for line in ('GET', 'GET /', 'GET /  HTTP/1.1', 'GET  / HTTP/1.1', 'GET / a HTTP/1.1', ' GET / HTTP/1.1', 'GET / HTTP/1.1 ', '', 'a b c d',
                 'GET http://[::1/ HTTP/1.1', 'GET http://::1]/ HTTP/1.1', 'GET /\xc3\xa9 HTTP/1.1', 'GET / '):
        if line.count(' ') == 2 and '[' not in line and ']' not in line and '\xc3' not in line:
            continue        # three pieces, some of them empty: what they mean is not specified
        yield ('reject', line)
    for t in OPAQUE:
        yield ('opaque',) + t
    yield ('nohost', '/', False)
    yield ('nohost', 'http://z/', True)
    if x.thorough:
        for scheme in SCHEMES[:4]:
            for auth in AUTH[:8] if scheme else ('',):
                for path in PATHS[1:]:
                    yield ('target', scheme, auth, path, METHODS, PROTOS, AUTH[:6])
