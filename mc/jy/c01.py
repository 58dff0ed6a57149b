# -*- coding: utf-8 -*-
"""C01: the outcome of parsing does not depend on how the bytes are delivered."""
from env import *
import base64

ORACLE = ('Differential: the outcome (every public attribute, GET, POST, FILES with content and metadata, body, or the '
          'kind of exception) of each delivery schedule is compared with that of the delivery in one piece; '
          'multipart contents themselves are decided by C04.')
BOUNDS = {'quick': 'corpus of requests; all 1-cuts, all 2-cuts on a grid of step 3 x 2, '
                   'every uniform piece size 1..17, every composition of a window of 9 bytes around each delimiter, '
                   '38 requests whose contents (base64 in 9 layouts, invalid base64, delimiter-like data) arrive in handler chunks of 1..26 and larger bytes, '
                   'MAX_HEADER_SIZE 1..20 and larger, handler chunk sizes 1..13 and larger x piece sizes, bodies around 64 KB and 1024-byte part headers',
          'thorough': 'as quick with windows of 13 bytes, all 2-cuts of every request, and 3-cuts of the delimiter regions'}
ASSUMPTIONS = ['the stream never delivers an empty piece before its end']

LONGB = '----WebKitFormBoundary7MA4YWxk'


def corpus():
    c = []
    c.append(('get', 'GET http://u.example:81/p;a=1?x=1&y=%C3%A9+b HTTP/1.1\r\nHost: h\r\nX-A: 1\r\nx-b:2\r\nX-A:  3\r\n\r\n', {}))
    c.append(('get-nohost', 'GET / HTTP/1.1\r\nX-A: 1\r\n\r\n', {}))
    c.append(('bad-line', 'GET  / HTTP/1.1\r\nHost: h\r\n\r\nbody', {}))
    c.append(('cr-noise', 'GET / HTTP/1.1\r\nHost: h\r\nA: \r\r\nB: \n\r\n\r\n\r\n\r\ntail', {}))
    c.append(('no-end', 'GET / HTTP/1.1\r\nHost: h\r\nA: b\r\n', {}))
    c.append(('form', http('a=1&b=%E2%82%AC+x&a=&c;d=\xc3\xa9&=e', FORM + '; charset=utf-8'), {}))
    c.append(('text', http(u'h\u20acllo \U0001f600\r\n\r\nend'.encode('utf-8'), 'text/plain; charset=utf-8'), {}))
    c.append(('text-bad', http('h\xe2\x82 x', 'text/plain; charset=utf-8'), {}))
    c.append(('fields', mhttp([part('v1\r\n--\r\n-B', 'a'), part('', 'b'), part('\r\n', 'a')]), {}))
    c.append(('files', mhttp([part('v', 'x'), part('\r\n--A\r\n--\r--\n', 'f', 'a.txt', 'text/plain; charset=utf-8; q="a;b"'),
                              part('', 'f', 'empty')]), {}))
    c.append(('base64', mhttp([part('aGVs\r\nbG8g\r\nd29y\r\nbGQ=', 'f', 'a', None, 'base64'),
                               part('eHl6', 'g', None, 'text/plain', 'base64')]), {}))
    c.append(('ignored', mhttp([part('\r\nContent-Disposition: form-data; name="evil"\r\n\r\nx', None),
                                part('a\r\n\r\nContent-Disposition: form-data; name="e2"\r\n\r\nb', 'f', ''),
                                part('ok', 'good')], preamble='pre\r\n', epilogue='\r\nepi\r\n\r\nlogue'), {}))
    c.append(('around', mhttp([part('a--B', 'f', 'a'), part('---B', 'x')], preamble='Content-Disposition: form-data; name="p"\r\n\r\nx--B\r\n',
                              epilogue='\r\nContent-Disposition: form-data; name="e"\r\n\r\nx\r\n--B--\r\n'), {}))
    c.append(('nofinal', http('--B\r\nContent-Disposition: form-data; name="a"\r\n\r\n1\r\n--B\r\n'
                              'Content-Disposition: form-data; name="f"; filename="x"\r\n\r\nhalf', mtype()), {}))
    c.append(('longb', mhttp([part('--' + LONGB[:-1] + '\r\n--', 'a', b=LONGB), part('x' * 50, 'f', 'n', b=LONGB)], b=LONGB), {}))
    c.append(('lf', http('--B\nContent-Disposition: form-data; name="a"\n\n1\n--B--\n', mtype()), {}))
    c.append(('limits', mhttp([part('123', 'a'), part('12345', 'b'), part('zz', 'f', 'n')]),
              {Settings.Key.DATA_UPLOAD_MAX_MEMORY: 14}))
    c.append(('toobig', mhttp([part('123', 'a'), part('123456', 'b'), part('zz', 'f', 'n')]),
              {Settings.Key.DATA_UPLOAD_MAX_MEMORY: 14}))
    c.append(('spill', mhttp([part('12345', 'f', 'a'), part('abcdefgh', 'g', 'b'), part('ZZ', 'g', 'c')]),
              {Settings.Key.FILE_UPLOAD_MAX_MEMORY: 8, Settings.Key.FILE_UPLOAD_DIR: True}))
    return c


def padded(content, first, name='f', filename='n', **kw):
    """a part whose header leaves `first` bytes of content in the first 1024 bytes, so that the rest comes in chunks"""
    head = len(part('', name, filename, headers=['X: '], **kw)) - len('--B') - 2
    return part(content, name, filename, headers=['X: ' + 'h' * (1024 - head - first)], **kw)


def wrapped(n, w, ws='\r\n', at=0):
    t = base64.b64encode(''.join(chr((j * 37 + 11) & 255) for j in range(n)))
    return t[:at] + (ws if at else '') + ws.join(every(t[at:], w))


def streamed():
    c = []
    for first in (0, 2):
        for n, w, ws, at in ((40, 5, '\r\n', 0), (41, 7, '\n', 0), (42, 10, '\r\n', 3), (30, 1, ' ', 0), (31, 2, '\r\n', 1), (33, 3, '\t \r\n', 0), (60, 76, '', 0),
                             (36, 9, '\r\n', 0), (20, 6, '\r\n\r\n\r\n\r\n\r\n', 2)):
            c.append(('base64 %d %d %r' % (n, w, ws), mhttp([padded(wrapped(n, w, ws, at), first, cte='base64'), part('w', 'z')])))
        for bad in ('QUJD' * 5 + '=' + 'QUJD' * 5, 'QUJD' * 6 + 'QQ==' + 'QUJD', 'QUJD' * 9 + 'Q', 'QUJD' * 6 + '\r\n!\r\n' + 'QUJD' * 4, 'QUJD' * 5 + 'QQ==' + '\r\n' * 30 + 'QUJD' * 3):
            c.append(('bad base64', mhttp([padded(bad, first, cte='base64'), part('w', 'z')])))
        for t in ('x' * 60, '\r\n--\r\n--A\r\n-' * 5, '\r' * 20 + '\n' * 20, '--' * 20, '\r\n' * 20, '-B\r\n-B--' * 4, 'x--B' * 12, '--B-'[1:] + '\r--B\r\n ' * 6):
            c.append(('content', mhttp([padded(t, first), part('w', 'z'), padded(t[1:], 0, 'g', None), part('', 'f', 'last')])))
    return c


CORPUS = corpus()
NORMAL = len(CORPUS)
CORPUS += [(a, b, {}) for a, b in streamed()]
_base = {}
_dir = []


def setup(x, i):
    name, raw, st = CORPUS[i]
    st = dict(st)
    if Settings.Key.FILE_UPLOAD_DIR in st:
        if not _dir:
            _dir.append(x.dir())
        st[Settings.Key.FILE_UPLOAD_DIR] = _dir[0]
    s = settings(**st)
    if i not in _base:
        _base[i] = outcome(raw, s)
        x.outcome(_base[i])
        x.sample((name, _base[i]))
        if 'UNDOCUMENTED' in _base[i][1:2]:
            x.fail('undocumented failure of %s: %r' % (name, _base[i]))
    return raw, s, _base[i]


def check(x, i, chunks, s=None, **kw):
    raw, s0, want = setup(x, i)
    got = outcome(Chunks(chunks), s or s0, **kw)
    x.did(len(chunks))
    if got != want:
        x.fail('%s: outcome depends on the delivery (%s): %r instead of %r' % (CORPUS[i][0], kw, got, want), chunks)


def u_one(x, i):
    raw = CORPUS[i][1]
    for a in range(1, len(raw)):
        check(x, i, cut(raw, [a]))


def u_uniform(x, i, n):
    check(x, i, every(CORPUS[i][1], n))


def u_two(x, i, a, step):
    raw = CORPUS[i][1]
    for b in range(a + 1, len(raw), step):
        check(x, i, cut(raw, [a, b]))


def u_three(x, i, a, lo, hi):
    raw = CORPUS[i][1]
    for b in range(a + 1, hi):
        for c in range(b + 1, hi):
            check(x, i, cut(raw, [a, b, c]))
    x.step()


def u_window(x, i, at, w):
    """every way of cutting the w bytes from at, the rest in one piece"""
    raw = CORPUS[i][1]
    head, win, tail = raw[:at], raw[at:at + w], raw[at + w:]
    for pts in compositions(len(win)):
        pcs = cut(win, pts)
        check(x, i, [head] + pcs + [tail])
    x.step()


def u_headersize(x, i, n):
    raw, s, want = setup(x, i)
    st = dict(CORPUS[i][2])
    if Settings.Key.FILE_UPLOAD_DIR in st:
        st[Settings.Key.FILE_UPLOAD_DIR] = _dir[0]
    st[Settings.Key.MAX_HEADER_SIZE] = n
    s = settings(**st)
    for p in (1, 2, 3, 5, 16, 17, len(raw)):
        check(x, i, every(raw, p), s)


def u_handler(x, i, n):
    """an upload handler that asks for pieces of n bytes"""
    raw = CORPUS[i][1]
    for p in (1, 2, 3, 4, 5, 7, 11, 16, len(raw)):
        check(x, i, every(raw, p), chunk_size=n)
    for a in range(raw.find('\r\n\r\n') + 4, len(raw), 3):
        check(x, i, cut(raw, [a]), chunk_size=n)


def u_streamed(x, i, n):
    """contents that reach the handler in chunks of n bytes"""
    raw = CORPUS[i][1]
    for p in (n, 7, 16, len(raw)):
        check(x, i, every(raw, p), chunk_size=n)
    at = raw.find('\r\n\r\n', raw.find('X: hh')) + 4
    check(x, i, [raw[:at]] + every(raw[at:], n), chunk_size=n)
    check(x, i, [raw[:at]] + every(raw[at:], 3), chunk_size=n)


def u_read(x, i, n):
    """the body read through the request itself"""
    raw, s, want = setup(x, i)
    k = raw.find('\r\n\r\n')
    body = raw[k + 4:]
    for p in (1, 2, 3, 7, 16, 19, len(raw)):
        def go():
            r = HttpRequest(Chunks(every(raw, p)), s)
            r.parse_request_header()
            if n == 'body':
                b = r.body()
                again = r.body()
                x.eq(again, b, 'second body()')
                return b
            if n == 'lines':
                ls = list(r)
                x.eq(''.join(ls), body, 'lines')
                return ls
            out = []
            while True:
                d = r.read(n)
                if not d:
                    break
                if len(d) > n:
                    x.fail('read(%d) gave %d bytes' % (n, len(d)))
                out.append(d)
            return ''.join(out)
        o = attempt(go)
        x.did(1)
        if want[0] == 'raised' and o[0] == 'raised':
            continue
        if o[0] == 'raised':
            x.fail('reading the body (%s) fails: %r' % (n, o))
        elif n == 'lines':
            x.eq(o[1], body.splitlines(True) if '\r' not in body.replace('\r\n', '') else lf_lines(body), 'lines of the body')
        else:
            x.eq(o[1], body, 'body read with %r in pieces of %d' % (n, p))


def lf_lines(s):
    out = s.split('\n')
    return [l + '\n' for l in out[:-1]] + ([out[-1]] if out[-1] else [])


# ---- larger inputs
def big(kind_, n):
    if kind_ == 'file':
        data = ''.join(chr(32 + (j * 7 + j / 251) % 90) for j in range(n))
        return mhttp([part('v', 'a'), part(data, 'f', 'big'), part('w', 'z')])
    if kind_ == 'crfile':
        return mhttp([part(('\r\n--' * (n / 4 + 1))[:n], 'f', 'big'), part('w', 'z')])
    if kind_ == 'text':
        return http((u'\u20ac' * (n / 3 + 1)).encode('utf-8'), 'text/plain; charset=utf-8')
    if kind_ == 'form':
        return http('a=' + '%41' * (n / 3) + '&b=1', FORM)
    if kind_ == 'parthead':
        pad = n - len('Content-Disposition: form-data; name="a"\r\nX: ') - 0
        return mhttp([part('1\r\n\r\n2', 'a', headers=['X: ' + 'y' * pad]), part('w', 'z')])
    if kind_ == 'manyparts':
        return mhttp([part('', 'a') for j in range(n)])
    if kind_ == 'manyheaders':
        return http('x', None, headers=['H: 1'] * n)


_big = {}


def u_big(x, kind_, n, sizes):
    raw = big(kind_, n)
    want = outcome(raw)
    x.outcome(hash(repr(want)))
    if want[0] != 'ok' and kind_ != 'parthead':
        x.fail('a %s request of size %d fails: %r' % (kind_, n, want))
    for p in sizes:
        for kw in ({}, {'chunk_size': 64}, {'chunk_size': 4096}) if kind_ != 'text' else ({},):
            got = outcome(Chunks(every(raw, p)), **kw)
            x.did(len(raw) / p + 1)
            x.step()
            if got != want:
                x.fail('%s of size %d in pieces of %d (%s): %s instead of %s' % (kind_, n, p, kw, repr(got)[:300], repr(want)[:300]))


DELIMS = ('\r\n\r\n', '\r\n--', '--\r\n', '\r\n')


def units(x):
    for i, (name, raw, st) in enumerate(CORPUS[:NORMAL]):
        yield ('one', i)
        for n in range(1, 18) + [31, 32, 33, 64, 100]:
            yield ('uniform', i, n)
    for i, (name, raw, st) in enumerate(CORPUS[:NORMAL]):
        for n in range(1, 40) + [64, 128, 1000] if x.thorough else range(1, 21) + [31, 32, 33, 64, 128, 1000]:
            yield ('headersize', i, n)
        for n in (1, 2, 3, 5, 8, 13, 64, 1000, 'lines') + (() if Settings.Key.DATA_UPLOAD_MAX_MEMORY in st else ('body',)):
            yield ('read', i, n)
        if 'multipart' in raw:
            for n in range(1, 41) + [48, 64, 100, 128, 1024] if x.thorough else range(1, 14) + [16, 17, 19, 24, 32, 33, 50, 64, 100, 1024]:
                yield ('handler', i, n)
    for i in range(NORMAL, len(CORPUS)):
        for n in range(1, 100) if x.thorough else range(1, 27) + [30, 31, 32, 33, 40, 50, 64]:
            yield ('streamed', i, n)
    w = 13 if x.thorough else 9
    for i, (name, raw, st) in enumerate(CORPUS[:NORMAL]):
        done = set()
        for d in DELIMS[:3] if not x.thorough else DELIMS:
            at = raw.find(d)
            while at != -1:
                a = max(1, at - 3)
                if a not in done:
                    done.add(a)
                    yield ('window', i, a, w)
                at = raw.find(d, at + 1)
    for i, (name, raw, st) in enumerate(CORPUS[:NORMAL]):
        for a in range(1, len(raw) - 1, 1 if x.thorough else 3):
            yield ('two', i, a, 1 if x.thorough else 2)
    sizes = (1 << 16, (1 << 16) - 1, 1000, 65537, 4096, 16) if not x.thorough else (1 << 16, (1 << 16) - 1, 1000, 65537, 4096, 16, 7, 1, 3, 511)
    for k, ns in (('file', (65400, 65535, 65536, 65537, 70000, 131072, 140000)), ('crfile', (65536, 65600, 65700)),
                  ('text', (65535, 65536, 65539, 140000)), ('form', (65533, 65536, 140000)),
                  ('parthead', range(1015, 1030) + [2000]), ('manyparts', (1, 39, 40, 41, 42, 50, 51, 60, 120, 400)),
                  ('manyheaders', (1, 40, 41, 45, 60, 200, 1000))):
        for n in ns:
            yield ('big', k, n, sizes)
    if x.thorough:
        for i, (name, raw, st) in enumerate(CORPUS[:NORMAL]):
            at = raw.find('--B\r\n')
            while at != -1:
                lo, hi = max(1, at - 8), min(len(raw), at + 14)
                for a in range(lo, hi):
                    yield ('three', i, a, lo, hi)
                at = raw.find('--B', at + 3)
