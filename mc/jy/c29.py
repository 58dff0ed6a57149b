# -*- coding: utf-8 -*-
"""C29: the multipart parser used by itself."""
from env import *


ORACLE = ('The parts that the body is made of, and a regular description of what is a multipart Content-Type, a boundary and a length; a stream and handlers that record whether they were touched.')
BOUNDS = {'quick': 'all bodies of up to 3 of 8 parts x 6 kinds of streams x 4 kinds of META x 5 encodings x 4 handler lists (a part of the product); 60 content types x 16 lengths; all boundaries of up to 2 characters of the '
                   'whole ASCII range and all lengths up to 210; two parsers working on two bodies, interleaved at every piece of data',
          'thorough': 'the whole product'}
ASSUMPTIONS = ['META has the names of the headers as HttpRequest has them', 'handlers are given (with none, files go nowhere)']

H = lambda: [ConvenientFileUploadHandler(None)]
HANDLERS = [H, lambda: [MemoryFileUploadHandler(None)], lambda: [TemporaryFileUploadHandler(None)], lambda: [Keep(), MemoryFileUploadHandler(None)]]


class Keep(FileUploadHandler):
    """takes part, and lets everything through"""

    def __init__(self, log=None):
        FileUploadHandler.__init__(self)
        self.log = log if log is not None else []

    def handle_raw_input(self, *a, **k):
        self.log.append('raw')

    def new_file(self, *a, **k):
        self.log.append('new')

    def receive_data_chunk(self, d, start):
        return d

    def file_complete(self, size):
        return None

    def upload_complete(self):
        self.log.append('done')


PARTS = [
    (part('1', 'a'), ('a', field_value('1'), None)),
    (part('2\r\n3', 'a', ctype='text/x'), ('a', field_value('2\r\n3', 'text/x'), None)),
    (part('', 'b'), ('b', field_value(''), None)),
    (part('QUI=', 'c', cte='base64'), ('c', field_value('AB', '', 'base64'), None)),
    (part('content', 'f', 'n.txt', 'text/plain'), None, ('f', 'n.txt', 'text/plain', 'content')),
    (part('', 'f', 'm'), None, ('f', 'm', '', '')),
    (part('QUJD' * 300, 'g', 'o', 'image/png', 'base64'), None, ('g', 'o', 'image/png', 'ABC' * 300)),
    (part('x\xe9\xa4y', '\xe9\xa4', ctype='t/u'), ('\xe9\xa4', field_value('x\xe9\xa4y', 't/u'), None)),
]


class Text(object):
    """a stream that has read only"""

    def __init__(self, data, n=None):
        self.data, self.n, self.reads = data, n, 0

    def read(self, size):
        self.reads += 1
        k = size if self.n is None else min(size, self.n)
        out, self.data = self.data[:k], self.data[k:]
        return out


def stream(x, kind, body):
    if kind == 0:
        return BytesIO(body)
    if kind == 1:
        return LazyStream(iter(every(body, 3)))
    if kind == 2:
        return Text(body)
    if kind == 3:
        return Text(body, 1)
    if kind == 4:
        return Chunks(every(body, 5))
    if not _dir:
        _dir.append(x.dir())
    p = os.path.join(_dir[0], 'in')
    h = open(p, 'wb')
    h.write(body)
    h.close()
    return open(p, 'rb')


_dir = []


def meta(kind, ctype, length):
    d = {'Content-Type': ctype, 'Content-Length': length}
    if kind == 0:
        return d
    d = dict((k, [v]) for k, v in d.items())
    if kind == 1:
        return MultiValueDict(d)
    if kind == 2:
        return ImmutableMultiValueDict(d)
    r = HttpRequest(BytesIO('POST / HTTP/1.1\r\nHost: h\r\ncontent-type: %s\r\nCONTENT-LENGTH: %s\r\n\r\n' % (ctype, length)), settings())
    r.parse_request_header()
    return r.META[REQ_HEADERS]


def got(post, files):
    return lists(post), sorted((k, [(f.name, f.content_type, f.read()) for f in l]) for k, l in files.lists())


def want(parts, cs):
    post, files = {}, {}
    for f, v, h in parts:
        if v:
            post.setdefault(v[0].decode(cs, 'replace'), []).append(v[1])
        else:
            files.setdefault(h[0], []).append(h[1:])
    return sorted(post.items()), sorted(files.items())



ENC = ((None, 'iso-8859-1'), (None, 'cp1251'), ('utf-8', 'iso-8859-1'), ('cp1251', 'utf-8'), ('koi8-r', 'koi8-r'))


def u_body(x, n, a, skind, b):
    """what was sent is found, whatever is around the parser"""
    for t in product(range(len(PARTS)), repeat=n - 1) if n else ((),):
        t = ((a,) + t) if n else ()
        parts = [(PARTS[i][0], PARTS[i][1][:2] if PARTS[i][1] else None, PARTS[i][2] if PARTS[i][1] is None else None) for i in t]
        body = multipart([p[0] for p in parts], preamble='pre\r\n' if len(t) % 2 else '', epilogue='\r\nepilogue' if a % 2 else '\r\n')
        if not t:
            body = '--B--\r\n'
        for j in range(len(ENC) * 4 * len(HANDLERS)) if x.thorough or n < 2 else ((sum(t) * 7 + b + k * 13) % 80 for k in range(3)):
            e, rest = j % len(ENC), j / len(ENC)
            m, h = rest % 4, rest / 4
            enc, default = ENC[e]
            s = settings(DEFAULT_CHARSET=default)
            hs = HANDLERS[h]()
            for k in hs:
                k.settings = s
            mt = meta(m, 'multipart/form-data; boundary=B', str(len(body)))
            before = sorted(mt.items())
            parser = MultiPartParser(mt, stream(x, skind, body), hs, s, enc)
            o = attempt(parser.parse)
            if o[0] != 'ok':
                x.fail('%r with encoding %r, settings %r: %r' % (body[:200], enc, default, o))
                return
            x.did(1)
            post, files = o[1]
            cs = enc or default
            x.outcome((t, cs))
            x.eq(got(post, files), want(parts, cs), 'POST and FILES of %r as stream %d, META %d, handlers %d, encoding %r, settings %s' % (body[:300], skind, m, h, enc, default))
            x.eq(post.encoding, cs, 'encoding of POST, encoding %r, settings %s' % (enc, default))
            x.eq(attempt(post.appendlist, 'z', '1')[0], 'raised', 'appending to POST')
            x.eq((sorted(mt.items()), s.DEFAULT_CHARSET), (before, default), 'META and the charset of the settings afterwards')
            for f in [f for l in files.lists() for f in l[1]]:
                f.close()
    x.step()


CTYPES = (
    [(t + p, ok) for t, ok in (('multipart/form-data', 1), ('Multipart/Form-Data', 1), ('MULTIPART/MIXED', 1), ('multipart/', 1), ('multipart', 0), ('text/plain', 0), ('', 0), ('xmultipart/form-data', 0), (FORM, 0),
                               (' multipart/form-data', 0), ('text/plain; a=multipart/form-data', 0))
     for p in ('; boundary=B', ';boundary="B"', '; BOUNDARY=B', '; charset=utf-8; boundary=B', '; boundary=B; x=y')] +
    [('multipart/form-data' + p, 0) for p in ('', ';', '; boundary', '; boundary=', '; boundary=""', '; boundary= ', '; bound=B', '; boundary="B "', '; boundary="' + 'x' * 202 + '"', '; boundary="a\tb"', '; boundary="\x7f"')])
LENGTHS = (('1', 1), ('0', 1), ('-1', 0), ('-99999999999', 0), ('x', 1), ('', 1), (None, 1), ('1.5', 1), (' 12 ', 1), ('12abc', 1), (7, 1), (-7, 0), ('99999999999999999999', 1), ('0x10', 1), ('+5', 1), ('--5', 1))


def u_meta(x, c):
    """what is no multipart request is refused by the constructor, which touches nothing"""
    ctype, ok = CTYPES[c]
    for length, lok in LENGTHS:
        for kind in (0, 1, 2):
            m = meta(kind, ctype, length)
            if length is None and kind == 0:
                del m['Content-Length']
            s, log, before = Text('--B--'), [], sorted(m.items())
            o = attempt(lambda: MultiPartParser(m, s, [Keep(log)], settings()))
            w = 'ok' if ok and lok else 'MultiPartParserError'
            g = o[0] if o[0] == 'ok' else o[1]
            x.did(1)
            if o[0] == 'ok' and not s.reads:
                attempt(MultiPartParser(m, Text('--B--'), [Keep([])], settings()).parse)
            x.eq(sorted(m.items()), before, 'META after a parser for %r, Content-Length %r' % (ctype, length))
            if g != w:
                x.fail('a parser for %r, Content-Length %r: %r, expected %s' % (ctype, length, o, w))
            elif s.reads or log:
                x.fail('a parser for %r, Content-Length %r: read %d times, handlers called: %r' % (ctype, length, s.reads, log))
            elif w == 'ok' and length in ('0', 'x', '', None, '1.5', '12abc', '0x10', '--5'):
                # no length is a body of no length
                p = o[1].parse()
                x.eq((lists(p[0]), lists(p[1]), s.reads, [l for l in log if l != 'raw']), ([], [], 0, []), 'parsing with Content-Length %r' % (length,))
                for enc, default in ENC:
                    p = MultiPartParser(m, Text('--B--'), [Keep(log)], settings(DEFAULT_CHARSET=default), enc).parse()
                    x.eq((lists(p[0]), p[0].encoding, lists(p[1]), attempt(p[0].appendlist, 'z', '1')[0]), ([], enc or default, [], 'raised'), 'parsing with Content-Length %r, encoding %r, settings %s' % (length, enc, default))
                    x.did(1)
    o = attempt(lambda: MultiPartParser({}, Text(''), [], settings()))
    x.eq(o[1], 'MultiPartParserError', 'a parser without a Content-Type')
    x.step()


def u_boundary(x, i):
    """every boundary of printable characters that does not end with a blank works; no other is accepted"""
    first = chr(i)
    for b in [first] + [first + chr(j) for j in range(128)] + [first + chr(j) + 'x' for j in range(0, 128, 3)]:
        if b[-1] == '\n':
            continue        # left open
        ok = all(' ' <= c <= '~' for c in b) and b[-1] != ' '
        if '"' in b or '\\' in b:
            q = b.replace('\\', '\\\\').replace('"', '\\"')
        else:
            q = b
        # blanks around it are part of the quoted value
        body = '--%s\r\nContent-Disposition: form-data; name="a"\r\n\r\n--\r\n%s--\r\n--%s--\r\n' % (b, b[:-1], b)
        ctype = 'multipart/form-data; boundary="%s"' % q
        o = attempt(lambda: MultiPartParser({'Content-Type': ctype, 'Content-Length': len(body)}, Text(body), H(), settings()).parse())
        x.did(1)
        if not ok:
            if o[0] == 'ok' or o[1] != 'MultiPartParserError':
                x.fail('boundary %r is accepted: %r' % (b, o))
        elif o[0] != 'ok' or b[:1] != ' ' and lists(o[1][0]) != [(u'a', [field_value('--\r\n%s--' % b[:-1])])]:
            x.fail('boundary %r: %r' % (b, o if o[0] != 'ok' else lists(o[1][0])))
    x.step()


def u_length(x, n):
    b = ('-' * n)[:n - 1] + 'x' if n else ''
    for bb in (b, 'a' * n, ('ab ' * n)[:n - 1] + 'z' if n else ''):
        body = '--%s\r\nContent-Disposition: form-data; name="a"\r\n\r\n--%s\r\n--%s--\r\n' % (bb, bb[:-1], bb)
        o = attempt(lambda: MultiPartParser({'Content-Type': 'multipart/form-data; boundary="%s"' % bb, 'Content-Length': len(body)}, Text(body), H(), settings()).parse())
        x.did(1)
        if 0 < n <= 201:
            if o[0] != 'ok' or lists(o[1][0]) != [(u'a', [field_value('--' + bb[:-1])])]:
                x.fail('a boundary of %d characters: %r' % (n, o))
        elif o[0] == 'ok' or o[1] != 'MultiPartParserError':
            x.fail('a boundary of %d characters: %r' % (n, o))
    x.step()


class Inner(Text):
    """a stream in the middle of which something else happens"""

    def __init__(self, data, n, at, what):
        Text.__init__(self, data, n)
        self.at, self.what = at, what

    def read(self, size):
        if self.reads == self.at:
            self.what()
        return Text.read(self, size)


def u_two(x, i, j, piece):
    """a parser works while another one is in the middle of its work"""
    def make(k):
        ps = [PARTS[k % 8], PARTS[(k + 3) % 8], PARTS[(k + 5) % 8]]
        parts = [(p[0], p[1][:2] if p[1] else None, p[2] if p[1] is None else None) for p in ps]
        return parts, multipart([p[0] for p in parts])
    (p1, b1), (p2, b2) = make(i), make(j)
    m = lambda b: {'Content-Type': 'multipart/form-data; boundary=B', 'Content-Length': str(len(b))}
    for at in range(0, len(b1) / piece + 2):
        out = []

        def other():
            out.append(MultiPartParser(m(b2), Text(b2, 17), H(), settings(), 'cp1251').parse())
        mine = MultiPartParser(m(b1), Inner(b1, piece, at, other), H(), settings(), 'utf-8').parse()
        x.did(2)
        x.eq(got(*mine), want(p1, 'utf-8'), 'parsing %r in pieces of %d with another parser at piece %d' % (b1[:300], piece, at))
        for o in out:
            x.eq(got(*o), want(p2, 'cp1251'), 'parsing %r within piece %d of another one' % (b2[:300], at))
        x.count('interleavings', len(out))
    x.step()


def units(x):
    for n in (0, 1, 2, 3):
        for a in range(len(PARTS) if n else 2):
            for skind in range(6):
                if n < 3 or x.thorough or (a + skind) % 6 == 0:
                    yield ('body', n, a, skind, a * 6 + skind)
    for c in range(len(CTYPES)):
        yield ('meta', c)
    for i in range(128):
        yield ('boundary', i)
    for n in range(0, 212):
        yield ('length', n)
    for i in range(8):
        for j in range(8):
            for piece in (40, 61) if x.thorough else (61,):
                yield ('two', i, j, piece)
