# -*- coding: utf-8 -*-
"""C13: the life cycle of a request, as an explicit-state model replayed on the code."""
from env import *
import re

ORACLE = ('A state machine (stream, header, body, charset) whose answers are those of fresh requests that parse the same bytes once, in the plain order: '
          'parse_request_header, encoding, parse_request_body.  After the last operation of a history its outcome and all public attributes must agree.')
BOUNDS = {'quick': 'all histories of up to 3 of 20 operations (parse_request_header, parse_request_body, parse, body, 2 encodings, 9 streams, 5 body streams, one of each None) from 9 first streams, '
                   'all of 4 of 10 operations, and all of 6 of 4 operations; all charset pairs; every reachable state of the model x every operation',
          'thorough': 'all histories of 4 operations of 20, of 5 of 10, of 9 of 4'}
ASSUMPTIONS = ['after a failed parse only a new stream or body stream is specified', 'POST and FILES are kept until the next body is parsed (documented)']

K = Settings.Key
U8 = u'\u00e9\u20ac'.encode('utf-8')
STREAMS = [
    mhttp([part('v' + U8, 'a'), part('content', 'f', 'n.txt', ctype='text/plain'), part('w', 'a')], target='/m?x=1'),
    http('a=%C3%A9&b=' + U8 + '&a=2', FORM, target='/u?q=%C3%A9&q=2'),
    http('some ' + U8, 'text/plain; charset=utf-8', target='http://H:81/t;p?r=' + '%E9'),
    http('', method='GET', target='/g?q=%E9', length=False),
    http('plain ' + U8, target='/n'),
    'no request',
    http('x', 'multipart/form-data', target='/bad?x=2'),
    http('c=%C3%A9', FORM + '; charset=utf-8', target='/v?q=%C3%A9', host='other:8080'),
    '',
]
BODIES = [
    'k=%C3%A9&l=1',
    multipart([part('n', 'b'), part('gg', 'g', 'm')]),
    '',
    'line ' + U8 + '\r\n\r\nrest',
    '',
]
NONE = {'stream': len(STREAMS) - 1, 'body_stream': len(BODIES) - 1}      # the empty one, given as None


def stream(kind, i):
    data = (STREAMS if kind == 'stream' else BODIES)[i]
    return None if i == NONE[kind] else BytesIO(data)

CHARSETS = ['utf-8', 'iso-8859-1', 'cp1252', 'utf-16', 'ascii', 'utf-7']
DEFAULT = 'ISO-8859-1'


def split(raw):
    i = raw.find('\r\n\r\n')
    return (raw[:i + 4], raw[i + 4:]) if i >= 0 else (raw, None)


_memo = {}


def memo(fn):
    def m(*a):
        k = (fn.__name__,) + a
        if k not in _memo:
            _memo[k] = fn(*a)
        return _memo[k]
    return m


@memo
def ref_new(default):
    return header_view(HttpRequest(BytesIO(b''), Settings({K.DEFAULT_CHARSET: default})))


def fresh(raw, default):
    r = HttpRequest(BytesIO(raw), Settings({K.DEFAULT_CHARSET: default}))
    r.parse_request_header()
    return r


def undeclared(head):
    """the same request without the charset it declares"""
    return re.sub(r'; charset=[^;\r]*', '', head)


@memo
def ref_header(head, default, later):
    o = attempt(lambda: header_view(fresh(head, default)))[:2]
    if later is None or o[0] != 'ok':
        return o
    # a charset set later replaces the declared one: as if it were the default and none were declared
    h = attempt(lambda: header_view(fresh(undeclared(head), later)))[:2]
    return ('ok', h[1][:9] + (o[1][9],) + h[1][10:]) if h[0] == 'ok' else h


@memo
def ref_form(head, body, default, later):
    r = fresh(head + body, default) if later is None else fresh(undeclared(head) + body, later)
    o = attempt(r.parse_request_body)[:2]
    if o[0] == 'ok':
        o = ('ok', body_view(r), r.content_type)
        r.close()
    return o


class Model(object):
    """stream: its bytes; head: the header, when parsed; default: charset of requests that declare none;
    later: charset set after the header; body: 'unread', 'done', 'failed'"""

    def __init__(self, raw):
        self.raw, self.default = raw, DEFAULT
        self.head = self.later = None
        self.headfailed = False
        self.hdefault = None
        self.body = 'unread'
        self.post = ([], [])
        self.text = None
        self.fresh_post = True      # POST and FILES are known

    def key(self):
        return (self.raw, self.default, self.head, self.later, self.headfailed, self.hdefault, self.body, repr(self.post), self.text, self.fresh_post)

    def data(self):
        """the body"""
        return self.raw if self.own_body else split(self.raw)[1]

    own_body = False

    def set_stream(self, raw):
        default = self.default
        post, known = self.post, self.fresh_post
        self.__init__(raw)
        self.own_body = False
        self.default = default
        self.post = post
        self.fresh_post = known and post == ([], [])

    def set_body(self, raw):
        self.raw = raw
        self.own_body = self.head is not None
        self.headfailed = False
        self.body = 'unread'
        self.text = None
        self.post = ([], [])
        self.fresh_post = True

    def set_encoding(self, val):
        self.default = val
        if self.head is not None:
            self.later = val

    def header(self):
        if self.head is not None:
            return ('ok', None)
        if self.headfailed:
            return ('raised', None)
        head, body = split(self.raw)
        o = ref_header(head, self.default, None)
        if o[0] == 'ok':
            self.head, self.hdefault = head, self.default
            return ('ok', None)
        self.headfailed = True
        return o

    def form(self):
        if self.head is None:
            return ('raised', 'RequestHeaderParseException')
        if self.body == 'failed':
            self.fresh_post = False
            # nothing of the body was read: the same error again
            return ('raised', 'MultiPartParserError') if self.unread() else None
        if self.body == 'done':
            return ('ok', None)
        o = ref_form(self.head, self.data(), self.hdefault, self.later)
        if o[0] == 'ok':
            if self.data():
                self.body = 'done'
            self.post = o[1]
            self.fresh_post = True
            if o[2] in (FORM, 'multipart/form-data') and self.data():
                self.text = RawPostDataException
            else:
                self.text = self.data().decode(self.charset())
            return ('ok', None)
        self.body = 'failed'
        return o

    def unread(self):
        """multipart without a boundary, and something to parse"""
        return 'multipart/' in self.head and 'boundary=' not in self.head and bool(self.data())

    def charset(self):
        return ref_header(self.head, self.hdefault, self.later)[1][7]

    def parse(self):
        o = self.header()
        return o if o[0] != 'ok' else self.form()

    def get_body(self):
        o = self.header()
        if o[0] != 'ok':
            return o
        if self.body == 'failed':
            return ('ok', self.data()) if self.unread() else None
        if self.body == 'done':
            return ('raised', 'RawPostDataException') if self.text is RawPostDataException else ('ok', self.text)
        return ('ok', self.data())

    def head_view(self):
        if self.headfailed:
            return None
        if self.head is None:
            return ref_new(self.default)
        return ref_header(self.head, self.hdefault, self.later)[1]


def apply(op, r, m):
    """(what the code does, what the model says)"""
    name, arg = op
    if name == 'header':
        return attempt(r.parse_request_header), m.header()
    if name == 'form':
        return attempt(r.parse_request_body), m.form()
    if name == 'parse':
        return attempt(r.parse), m.parse()
    if name == 'body':
        return attempt(r.body), m.get_body()
    if name == 'stream':
        o = attempt(setattr, r, 'stream', stream(name, arg))
        m.set_stream(STREAMS[arg])
        return o, ('ok', None)
    if name == 'body_stream':
        o = attempt(setattr, r, 'body_stream', stream(name, arg))
        m.set_body(BODIES[arg])
        return o, ('ok', None)
    o = attempt(setattr, r, 'encoding', CHARSETS[arg])
    m.set_encoding(CHARSETS[arg])
    return o, ('ok', None)


BASIC = [('header', None), ('form', None), ('parse', None), ('body', None)]
ENCODINGS = [('encoding', 0), ('encoding', 2)]
NEW = [('stream', i) for i in range(len(STREAMS))]
BODY = [('body_stream', i) for i in range(len(BODIES))]
ALL = BASIC + ENCODINGS + NEW + BODY
SOME = BASIC + [('encoding', 0), ('stream', 0), ('stream', 1), ('stream', 6), ('body_stream', 1), ('body_stream', 3)]


def history(x, first, ops, prefixes=False):
    r = HttpRequest(stream('stream', first), Settings({K.DEFAULT_CHARSET: DEFAULT}))
    m = Model(STREAMS[first])
    for i, op in enumerate(ops):
        got, want = apply(op, r, m)
        if i == len(ops) - 1 or prefixes:
            compare(x, r, m, got, want, first, ops[:i + 1])
    x.did(len(ops))
    attempt(r.close)
    return m


def compare(x, r, m, got, want, first, ops):
    def why():
        return 'stream %d, %s' % (first, ' '.join(n if a is None else '%s=%s' % (n, a) for n, a in ops))
    if want is not None:
        if got[0] != want[0] or want[0] == 'raised' and want[1] is not None and got[1] != want[1]:
            x.fail('%s: %r, expected %r' % (why(), got, want))
        elif want[0] == 'ok' and got[1] != want[1]:
            x.fail('%s: gives %r, expected %r' % (why(), got[1], want[1]))
    hv = m.head_view()
    if hv is not None:
        g = attempt(header_view, r)[:2]
        if g != ('ok', hv):
            x.fail('%s: the header is %r, expected %r' % (why(), g, hv))
    if m.fresh_post:
        g = attempt(body_view, r)[:2]
        if g != ('ok', m.post):
            x.fail('%s: POST and FILES are %r, expected %r' % (why(), g, m.post))
    if not isinstance(r.stream, LazyStream) or r.stream is not r.body_stream:
        x.fail('%s: stream is %r, body_stream %r' % (why(), r.stream, r.body_stream))
    x.outcome((got[0], hv is None, m.body))


def u_all(x, first, n, a):
    for ops in product(ALL, repeat=n - 1):
        history(x, first, (ALL[a],) + ops)
        x.step()


def u_some(x, first, n, a):
    for ops in product(SOME, repeat=n - 1):
        history(x, first, (SOME[a],) + ops)
        x.step()


def u_basic(x, first, n, a):
    """repetitions, and observations in between"""
    for ops in product(BASIC, repeat=n - 1):
        history(x, first, (BASIC[a],) + ops, prefixes=True)
        x.step()


def u_charset(x, a, b):
    """two charsets, at every point of the life of every request"""
    for s in range(len(STREAMS)):
        for t in (0, 1, 7):
            for seq in ((('encoding', a), ('header', None), ('encoding', b), ('form', None)),
                        (('encoding', a), ('parse', None), ('encoding', b), ('form', None)),
                        (('encoding', a), ('body', None), ('encoding', b), ('parse', None), ('body', None)),
                        (('parse', None), ('encoding', a), ('stream', t), ('parse', None)),
                        (('encoding', a), ('parse', None), ('stream', t), ('encoding', b), ('parse', None)),
                        (('parse', None), ('encoding', a), ('body_stream', t % 3), ('encoding', b), ('form', None)),
                        (('header', None), ('stream', t), ('header', None), ('encoding', b), ('stream', s), ('parse', None))):
                history(x, s, seq, prefixes=True)
            x.step()


def u_states(x, first, part_, parts):
    """every reachable state of the model, reached by a shortest history, and every pair of operations from there"""
    seen = {}
    front = [()]
    while front:
        nxt = []
        for h in front:
            for op in SOME:
                m = Model(STREAMS[first])
                for o in h + (op,):
                    model_apply(o, m)
                k = m.key()
                if k not in seen:
                    seen[k] = h + (op,)
                    if len(h) < (7 if x.thorough else 5):
                        nxt.append(h + (op,))
        front = nxt
    hs = sorted(seen.values())
    if part_ == 0:
        x.count('states of the model', len(hs))
    for i, h in enumerate(hs):
        if i % parts == part_:
            for op in ALL:
                history(x, first, h + (op,))
            x.step()


class Dummy(object):
    parse_request_header = parse_request_body = parse = body = staticmethod(lambda: None)


def model_apply(op, m):
    apply(op, Dummy(), m)


def u_repeat(x, s, call):
    """a call repeated: what it gave the first time"""
    r = HttpRequest(BytesIO(STREAMS[s]), settings())
    seen = []
    for i in range(5):
        o = attempt(getattr(r, call))[:2]
        seen.append((o, attempt(view, r)[:2]))
        x.did()
        if o[0] != 'ok':
            break
    files = [id(f) for k, v in lists(r.FILES) for f in v]
    for i in range(1, len(seen)):
        if seen[i] != seen[0]:
            x.fail('%s() of stream %d: call %d gives %r, the first gave %r' % (call, s, i + 1, seen[i], seen[0]))
    # the same objects, too
    if seen[0][0][0] == 'ok' and call == 'parse':
        post, fs = r.POST, r.FILES
        r.parse()
        r.parse_request_body()
        if STREAMS[s].find('Content-Length') > 0 and (r.POST is not post or r.FILES is not fs or [id(f) for k, v in lists(r.FILES) for f in v] != files):
            x.fail('stream %d: parse() again replaces POST or FILES' % s)
    attempt(r.close)


def units(x):
    q = range(len(STREAMS))
    for s in q:
        for call in ('parse_request_header', 'parse', 'body'):
            yield ('repeat', s, call)
    for s in q:
        for a in range(len(ALL)):
            for n in (1, 2, 3, 4) if x.thorough else (1, 2, 3):
                yield ('all', s, n, a)
    for s in q:
        for a in range(len(SOME)):
            yield ('some', s, 5 if x.thorough else 4, a)
    for s in q:
        for a in range(len(BASIC)):
            yield ('basic', s, 9 if x.thorough else 6, a)
    for a in range(len(CHARSETS)):
        for b in range(len(CHARSETS)):
            yield ('charset', a, b)
    for s in q:
        for i in range(4):
            yield ('states', s, i, 4)
