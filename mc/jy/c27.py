# -*- coding: utf-8 -*-
"""C27: a request is a file of its body."""
from urllib import unquote_plus
from env import *

ORACLE = ('The bytes after the header as a string of which every reading operation takes from the front; a form in what is left is split by hand, a multipart body that is whole gives '
          'its fields, and one that is not gives what a new request with what is left gives.')
BOUNDS = {'quick': 'all sequences of 3 of 19 operations (read, lines, iteration, body(), parsing) on 10 bodies of 6 content types x 7 deliveries; reading before the header is parsed; '
                   'every cutting of short bodies; bodies of every byte; bodies around 64 KB and 128 KB; bodies of 6 charsets from every position',
          'thorough': 'sequences of 4'}
ASSUMPTIONS = ['body() gives what was left when it was first called', 'a body of which nothing is left counts as not parsed', 'Content-Length is right, or missing where the body is not multipart',
               'read(-1) is left open: LazyStream has only sizes and None']

PNG = 'image/png'
MP = multipart([part('1', 'a'), part('x\ny', 'b', filename='n.txt')], preamble='pre\r\nam\nble\r\n')
BODIES = [
    (None, ''), (None, 'a\nb'), ('text/plain', 'one\r\n\r\ntwo\nthree'), ('text/plain', '\n'), ('text/x', 'a\rb\x0bc\x1c\n\rd\n'), (PNG, 'x' * 40 + '\n' + 'y' * 20),
    (FORM, 'a=1&b=\n2&a=3'), (FORM, 'abc'), (mtype(), MP), (mtype(), ''),
]


class Files(object):
    """a stream of the system"""

    def __init__(self, x):
        self.dir, self.n = x.dir(), 0

    def __call__(self, raw):
        p = os.path.join(self.dir, 'in')
        h = open(p, 'wb')
        h.write(raw)
        h.close()
        return open(p, 'rb')


_files = []


def stream(x, kind, raw):
    if kind == 'bytes':
        return BytesIO(raw)
    if kind == 'file':
        if not _files:
            _files.append(Files(x))
        return _files[0](raw)
    if kind == 'head':                  # the header alone, then the rest
        return Chunks(cut(raw, [raw.find('\r\n\r\n') + 4]))
    if kind == 'late':                  # a chunk from the header into the body
        k = raw.find('\r\n\r\n') + 4
        return Chunks(cut(raw, [p for p in (k - 3, k + 2) if p < len(raw)]))
    if kind == 'lines':
        return Chunks([l + '\n' for l in raw.split('\n')[:-1]] + [raw.split('\n')[-1]])
    if kind == 'nested':
        return LazyStream(Chunks(every(raw, 3)))
    return Chunks(every(raw, kind))


KINDS = ('bytes', 'file', 'head', 'late', 'lines', 'nested', 1, 7)
SIZES = (1, 16, 1000)


def lf(q):
    out = q.split('\n')
    return [l + '\n' for l in out[:-1]] + ([out[-1]] if out[-1] else [])


def form(q):
    out = {}
    for p in q.replace(';', '&').split('&') if q else ():
        if p:
            k, _, v = p.partition('=')
            out.setdefault(unquote_plus(k).decode('utf-8'), []).append(unquote_plus(v).decode('utf-8'))
    return sorted(out.items())


WHOLE = [(u'a', [field_value('1')])], [('b', 'x\ny')]


class Model(object):
    """what is left of the body, and what was parsed"""

    def __init__(self, ctype, q):
        self.ctype, self.q = ctype, q
        self.body, self.parsed, self.post, self.files = None, False, [], []

    def take(self, n):
        t, self.q = self.q[:n], self.q[n:]
        return t

    def line(self, n=None):
        k = self.q.find('\n') + 1 or len(self.q)
        return self.take(k if n is None else min(k, n))

    def lines(self):
        return lf(self.take(len(self.q)))


def first(it):
    for l in it:
        return l
    return ''


OPS = {
    'read0': (lambda r: r.read(0), lambda m: m.take(0)),
    'read1': (lambda r: r.read(1), lambda m: m.take(1)),
    'read3': (lambda r: r.read(3), lambda m: m.take(3)),
    'read20': (lambda r: r.read(20), lambda m: m.take(20)),
    'read99999': (lambda r: r.read(99999), lambda m: m.take(99999)),
    'read()': (lambda r: r.read(), lambda m: m.take(len(m.q))),
    'read(None)': (lambda r: r.read(None), lambda m: m.take(len(m.q))),
    'readline': (lambda r: r.readline(), lambda m: m.line()),
    'readline2': (lambda r: r.readline(2), lambda m: m.line(2)),
    'readline0': (lambda r: r.readline(0), lambda m: ''),
    'readline90': (lambda r: r.readline(90), lambda m: m.line(90)),
    'next': (lambda r: first(r), lambda m: m.line()),
    'xnext': (lambda r: first(r.xreadlines()), lambda m: m.line()),
    'two': (lambda r: [l for _, l in zip((1, 2), r)], lambda m: [l for l in (m.line(), m.line()) if l]),
    'list': (lambda r: list(r), Model.lines),
    'readlines': (lambda r: r.readlines(), Model.lines),
    'xreadlines': (lambda r: list(r.xreadlines()), Model.lines),
    'stream': (lambda r: r.body_stream.read(2), lambda m: m.take(2)),
    'stream2': (lambda r: r.stream.readline(), lambda m: m.line()),
}
READS = tuple(sorted(OPS))
ALL = tuple(o for o in READS if o not in ('read0', 'readline0', 'readline90')) + ('body', 'parse', 'header')


def left(ctype, q):
    """what parsing q as a body of this type gives, of a new request"""
    if q == MP:
        return WHOLE
    r = attempt(lambda: parse(http(q, ctype)))
    if r[0] == 'raised':
        return r[:2]
    return lists(r[1].POST), sorted((k, f.read()) for k, l in r[1].FILES.lists() for f in l)


_left = {}


def do(r, m, op):
    """(what happens, what should)"""
    if op in OPS:
        return attempt(OPS[op][0], r)[:2], ('ok', OPS[op][1](m))
    if op == 'header':
        return attempt(r.parse_request_header)[:2], ('ok', None)
    if op == 'body':
        got = attempt(r.body)[:2]
        if m.parsed and m.ctype and (m.ctype == FORM or m.ctype.startswith('multipart')):
            return got, ('raised', 'RawPostDataException')
        if m.body is None:
            m.body = m.q
        return got, ('ok', m.body)
    got = attempt(r.parse_request_body)[:2]
    want = ('ok', None)
    if not m.parsed:
        q, m.q = m.q, ''
        m.post, m.files = [], []
        if q:
            if m.ctype == FORM:
                m.post = form(q)
            elif m.ctype and m.ctype.startswith('multipart'):
                if q not in _left:
                    _left[q] = left(m.ctype, q)
                if _left[q][0] == 'raised':
                    return got, _left[q]
                m.post, m.files = _left[q]
            else:
                m.body = q.decode('utf-8')
            m.parsed = True
    return got, want


def run(x, b, kind, hs, ops, prefix=''):
    ctype, body = BODIES[b]
    r = HttpRequest(stream(x, kind, prefix + http(body, ctype, length=b % 2 == 0 or 'multipart' in (ctype or ''))), settings(MAX_HEADER_SIZE=hs))
    if prefix:
        got = (r.readline() if prefix[-1] == '\n' else r.read(len(prefix)))
        if got != prefix:
            return x.fail('%s: %r is read of a stream that starts with %r' % (kind, got, prefix))
    if not (ops and ops[0] == 'body'):
        r.parse_request_header()
    m = Model(ctype, body)
    for n, op in enumerate(ops):
        got, want = do(r, m, op)
        if got != want:
            x.fail('a body %r (%s) delivered as %s, MAX_HEADER_SIZE %d, %s: the last gives %r, expected %r' % (body, ctype, kind, hs, ' '.join(ops[:n + 1]), got, want))
            return
        if got[0] == 'raised' and op == 'parse':
            return x.did(n)
    x.did(len(ops))
    got = (lists(r.POST), sorted((k, f.read()) for k, l in r.FILES.lists() for f in l))
    rest = r.read()
    if got != (m.post, m.files):
        x.fail('a body %r (%s) delivered as %s, %s: POST and FILES are %r, expected %r' % (body, ctype, kind, ' '.join(ops), got, (m.post, m.files)))
    elif rest != m.q:
        x.fail('a body %r (%s) delivered as %s, %s: %r is left, expected %r' % (body, ctype, kind, ' '.join(ops), rest, m.q))
    x.outcome((m.q, m.body, m.parsed))
    r.close()


def u_seq(x, b, kind, hs, n, a):
    for ops in product(ALL, repeat=n - 1):
        run(x, b, kind, hs, (ALL[a],) + ops)
    x.sample('%r as %s: %s and %d more' % (BODIES[b][1][:20], kind, ALL[a], n - 1))
    x.step()


def u_raw(x, b, kind, n, a):
    """without parsing anything, the stream is the request from its first byte"""
    ctype, body = BODIES[b]
    raw = http(body, ctype)
    for ops in product(READS, repeat=n - 1):
        ops = (READS[a],) + ops
        r = HttpRequest(stream(x, kind, raw), settings())
        m = Model(ctype, raw)
        for i, op in enumerate(ops):
            got, want = do(r, m, op)
            if got != want:
                x.fail('an unparsed %r delivered as %s, %s: the last gives %r, expected %r' % (raw, kind, ' '.join(ops[:i + 1]), got, want))
                return
        x.did(n)
        x.eq(r.read(), m.q, 'what is left of %r after %s' % (raw, ' '.join(ops)))
    x.step()


PREFIXES = ('\r\n', '\n', 'PROXY TCP4 1.2.3.4 5.6.7.8 1 2\r\n', '\x0d\x0a\x0d\x0a\x00\x0d\x0aQUIT', 'x')


def u_prefix(x, p, b, kind):
    """what is read before the header is parsed is no part of it"""
    for hs in SIZES:
        for ops in ((), ('body',), ('parse', 'body'), ('readline', 'parse'), ('read3', 'body', 'parse'), ('body', 'parse')):
            run(x, b, kind, hs, ops, PREFIXES[p])
    x.step()


def u_cuts(x, b, q):
    """every cutting of a short request's body (and its header's end), with the operations one by one"""
    ctype = BODIES[b][0]
    head = http('', ctype, length=None)
    k = len(head) - 2
    for points in compositions(len(q) + 2):
        for hs in (1, 16, 1000):
            for op in ('readline', 'read3', 'list', 'body', 'two'):
                r = HttpRequest(Chunks(cut(head + q, [k] + [k + p for p in points])), settings(MAX_HEADER_SIZE=hs))
                r.parse_request_header()
                m = Model(ctype, q)
                for o in (op, op, 'body' if op != 'body' else 'readline'):
                    got, want = do(r, m, o)
                    if got != want:
                        x.fail('a body %r (%s) cut at %r, %s: %s gives %r, expected %r' % (q, ctype, points, op, o, got, want))
                        return
                x.did(3)
    x.step()


K = 65536


def u_long(x, n, where, kind):
    """longer than what is read at once"""
    q = 'a' * where + '\n' + 'b' * (n - where - 1) if 0 <= where < n else 'a' * n
    s = settings(DATA_UPLOAD_MAX_MEMORY_SIZE=None)
    for ops in (('body', 'parse'), ('readline', 'body', 'readline'), ('list',), ('read99999', 'parse'), ('read99999', 'readline'), ('read1', 'body', 'parse'), ('readline', 'parse', 'read()')):
        for ctype in ('text/plain', FORM):
            r = HttpRequest(stream(x, kind, http(q, ctype)), s)
            r.parse_request_header()
            m = Model(ctype, q)
            for o in ops:
                got, want = do(r, m, o)
                if got != want:
                    x.fail('a body of %d bytes (line feed at %d, %s) as %s, %s: %s gives %d, expected %d (%.60r, expected %.60r)' % (
                        n, where, ctype, kind, ' '.join(ops), o, len(got[1] or ''), len(want[1] or ''), got[1], want[1]))
                    return
            x.eq(lists(r.POST), m.post, 'POST of a form of %d bytes (%s)' % (n, ' '.join(ops)))
            x.did(len(ops))
    x.step()


CHARSETS = {'utf-8': u'é\u20ac\n\U0001f600b', 'iso-8859-1': u'é\nü', 'utf-16-le': u'a\nbé', 'utf-16': u'aé', 'cp1252': u'\u20aca\n', 'ascii': u'a\nb'}


def u_charset(x, cs, kind):
    """text is decoded in its charset, once, whatever was read of it before or how it is delivered"""
    t = CHARSETS[cs]
    for lead in ('', '\n', 'skipped\n', 'a\xff\n'):
        q = lead + t.encode(cs)
        for spelling in (cs, cs.upper(), '"%s"' % cs):
            for before in ((), ('body',), ('read',), ('body', 'body')):
                for declared in (True, False):
                    r = HttpRequest(stream(x, kind, http(q, 'text/plain' + ('; charset=' + spelling if declared else ''))), settings())
                    if not declared:
                        r.encoding = cs
                    r.parse_request_header()
                    if lead and r.readline() != lead:
                        x.fail('the first line of %r is not %r' % (q, lead))
                    got = []
                    for o in before:
                        got.append(r.body() if o == 'body' else r.read(0))
                    x.eq(got, [q[len(lead):] if o == 'body' else '' for o in before], 'before text in %s is parsed' % cs)
                    r.parse_request_body()
                    x.eq(attempt(r.body)[:2], ('ok', t), 'text in %s (%s) delivered as %s after %r and %r' % (cs, 'declared' if declared else 'set', kind, lead, before))
                    x.eq((lists(r.POST), lists(r.FILES), r.read()), ([], [], ''), 'POST, FILES and what is left of text in %s' % cs)
                    x.did(3)
    x.step()


def u_octets(x, i, kind):
    """every byte is as good as any other"""
    for q in (chr(i), chr(i) * 2, chr(i) * 5, 'a' + chr(i), chr(i) + 'a', '\n' + chr(i), chr(i) + '\n' + chr(i)):
        for ctype in (PNG, 'text/plain', None):
            for first in ('readline', 'read1', 'body', 'list', 'read()', 'xnext', 'parse'):
                r = HttpRequest(stream(x, kind, http(q, ctype)), settings(DEFAULT_CHARSET='iso-8859-1'))
                r.parse_request_header()
                m = Model(ctype, q)
                for o in (first, 'body') if first == 'parse' else (first, 'readline', 'body', 'parse', 'body'):
                    if o == 'parse':
                        got, want = attempt(r.parse_request_body)[:2], ('ok', None)
                        if m.q:
                            m.body, m.q, m.parsed = m.q.decode('iso-8859-1'), '', True
                    else:
                        got, want = do(r, m, o)
                    if got != want:
                        x.fail('a body %r (%s) delivered as %s, %s first: %s gives %r, expected %r' % (q, ctype, kind, first, o, got, want))
                        return
                x.did(3)
    x.step()


def units(x):
    for b in range(len(BODIES)):
        for i, kind in enumerate(KINDS):
            for hs in SIZES:
                for n in (0, 1, 2):
                    for a in range(len(ALL)):
                        if n:
                            yield ('seq', b, kind, hs, n, a)
            for a in range(len(ALL)):
                if (i + b) % 5 == 0 or x.thorough:
                    yield ('seq', b, kind, SIZES[(i + a) % 3], 3, a)
                if x.thorough and (i + b) % 4 == 1:
                    yield ('seq', b, kind, 16, 4, a)
            for a in range(len(READS)):
                for n in (1, 2):
                    yield ('raw', b, kind, n, a)
            for p in range(len(PREFIXES)):
                yield ('prefix', p, b, kind)
    for b in (0, 2, 5):
        for q in ('', 'a\n', 'a\nb', '\n\n', 'ab=c\nd', '\r\n\r\n'):
            yield ('cuts', b, q)
    for n in (K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 3 * K):
        for where in (0, K - 2, K - 1, K, 2 * K - 1, 2 * K, -1):
            for kind in ('bytes', 'head', 1000, K):
                yield ('long', n, where, kind)
    for i in range(256):
        for kind in ('bytes', 'head', 1):
            yield ('octets', i, kind)
    for cs in sorted(CHARSETS):
        for kind in ('bytes', 'head', 'lines', 1):
            yield ('charset', cs, kind)
