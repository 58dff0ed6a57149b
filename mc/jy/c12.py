# -*- coding: utf-8 -*-
"""C12: an I/O error of the input is always reported."""
from env import *
import socket

ORACLE = ('The same operations on the same bytes without the fault.  Every operation that finishes before the environment raised its error must give the same '
          'as there; the one during which the error was raised must raise an IOError with its arguments (UnreadablePostError for body(), read(), readline(), '
          'iteration and for bodies read as a whole); POST and FILES stay empty; the request then parses a new stream exactly as a new request does.')
BOUNDS = {'quick': '9 requests (multipart with fields, files, base64, padded parts; urlencoded; text; no body) x every chunk of 6 deliveries as fault point x '
                   'all sequences of up to 2 of 11 operations x 6 kinds of error; LazyStream operations on every producer of 4 chunks',
          'thorough': 'sequences of 3 operations, 12 deliveries, handler chunk sizes 1..64'}
ASSUMPTIONS = ['an input stream that failed keeps failing until it is replaced']

K = Settings.Key


class OwnError(IOError):
    def __init__(self, *a):
        IOError.__init__(self, *a)


ERRORS = [lambda: Fault(5, 'injected'), lambda: IOError('text only'), lambda: OwnError(1, 2), lambda: UnreadablePostError('u'), lambda: IOError(),
          lambda: socket.timeout('timed out')]
# errors of a broken stream that are no IOError
OTHERS = [lambda: ValueError('I/O operation on closed file'), lambda: OSError(5, 'o'), lambda: RuntimeError('r'), lambda: KeyError('k'),
          lambda: AssertionError('a'), lambda: TypeError('t')]

PAD = ['X: ' + 'h' * 930]
REQUESTS = [
    mhttp([part('v1', 'a'), part('file content', 'f', 'n.txt', ctype='text/plain'), part('', 'b')]),
    mhttp([part('QUJDREVGR0hJ', 'f', 'n', cte='base64'), part('QUJD', 'a', cte='base64')], preamble='pre\r\n', epilogue='\r\nepilogue'),
    mhttp([part('QUJDREVGR0hJ' * 6, 'f', 'n', cte='base64', headers=PAD), part('long' * 20, 'g', 'm', headers=PAD)]),
    mhttp([part('i' * 30, 'f', 'skip\x00', disp='attachment; filename="x"'), part('w', 'a')]),
    http('a=1&b=%41&c', FORM),
    http('some text\r\nsecond line\n\nlast', 'text/plain; charset=utf-8'),
    http('{"a": 1}', 'application/json', target='http://h:81/p?q=1'),
    http('bare\nbody'),
    http('', method='GET', target='/p?a=1&b=2', length=False),
    mhttp([part('x', 'f', 'n'), part('v', 'a')], epilogue='\r\n--B\r\n' + 'e' * 300),
]
HANDLERS = [None, [MemoryFileUploadHandler, TemporaryFileUploadHandler], [TemporaryFileUploadHandler]]


def op_header(r):
    r.parse_request_header()
    return header_view(r)


def op_parse(r):
    r.parse()
    return header_view(r), body_view(r)


def op_form(r):
    r.parse_request_body()
    return body_view(r)


def op_body(r):
    return r.body()


def op_read(r):
    return r.read()


def op_read3(r):
    return r.read(3)


def op_readbig(r):
    return r.read(1000000)


def op_readline(r):
    return r.readline()


def op_iter(r):
    return list(r)


def op_readlines(r):
    return r.readlines()


def op_xread(r):
    return list(r.xreadlines())


OPS = [op_header, op_parse, op_form, op_body, op_read, op_read3, op_readbig, op_readline, op_iter, op_readlines, op_xread]
READING = (op_body, op_read, op_read3, op_readbig, op_readline, op_iter, op_readlines, op_xread)


def request(stream, hi, cs, d=None):
    # the header is read in small pieces: the body must not be read with it
    kw = {K.MAX_HEADER_SIZE: 16}
    if d:
        kw[K.FILE_UPLOAD_DIR] = d
    r = HttpRequest(stream, settings(**kw))
    if HANDLERS[hi]:
        r.upload_handlers = [h(r) if h is ConvenientFileUploadHandler else h() for h in HANDLERS[hi]]
    elif cs:
        r.upload_handlers = [ConvenientFileUploadHandler(r)]
    if cs:
        for h in r.upload_handlers:
            h.chunk_size = cs
    return r


_whole = {}


def whole(qi):
    if qi not in _whole:
        r = HttpRequest(BytesIO(REQUESTS[qi]), settings())
        _whole[qi] = op_parse(r)
        r.close()
    return _whole[qi]


_seq = {}


def undisturbed(qi, p, ops, hi, cs, d):
    """Result of each operation without a fault, and how many chunks had been delivered by then."""
    key = (qi, p, ops, hi, cs)
    if key not in _seq:
        if len(_seq) > 500:
            _seq.clear()
        r = request(Chunks(every(REQUESTS[qi], p)), hi, cs, d)
        _seq[key] = [attempt(op, r)[:2] for op in ops]
        attempt(r.close)
    return _seq[key]


def unit_run(x, qi, p, ops, k, error, hi=0, cs=None, d=None, ioerror=True):
    raw = REQUESTS[qi]
    e = error()
    s = Chunks(every(raw, p), fault_at=k, fault=e)
    r = request(s, hi, cs, d)
    want = undisturbed(qi, p, ops, hi, cs, d)
    why = 'request %d in chunks of %d, %s at chunk %d, %s' % (qi, p, type(e).__name__, k, '+'.join(o.__name__[3:] for o in ops))
    failed = parsed = False
    for i, op in enumerate(ops):
        before = s.faults
        o = attempt(op, r)
        parsed = parsed or o[0] == 'ok' and op in (op_header, op_body, op_parse)
        if s.faults > before:
            if o[0] == 'ok':
                x.fail('%s: the error is swallowed by operation %d: %r' % (why, i, o))
                break
            if ioerror:
                if not isinstance(o[2], IOError) or o[2].args != e.args:
                    x.fail('%s: operation %d raises %r' % (why, i, o[1:]))
                if op in READING and i and parsed and o[1] != 'UnreadablePostError':
                    x.fail('%s: operation %d raises %r' % (why, i, o[1:]))
            elif o[2] is not e and type(o[2]) is not type(e):
                x.count('other errors replaced')
            failed = True
        elif not failed:
            if o[:2] != want[i]:
                x.fail('%s: operation %d gives %r, without the fault %r' % (why, i, o[:2], want[i]))
        elif op in (op_parse, op_form) and o[0] == 'ok':
            x.fail('%s: operation %d succeeds after the failure: %r' % (why, i, o[1]))
    x.did(len(ops))
    x.outcome((failed, qi, p))
    if failed:
        if not any(op in (op_parse, op_form) and w[0] == 'ok' for op, w in zip(ops[:-1], want)):
            x.eq((lists(r.POST), lists(r.FILES)), ([], []), '%s: POST and FILES' % why)
        # the request is as good as new
        r.stream = BytesIO(raw)
        o = attempt(op_parse, r)
        x.eq(wherever(o), wherever(('ok', whole(qi))), '%s: the next stream' % why)
        attempt(r.close)
    return failed


def wherever(o):
    """an outcome, whether its files are in memory or on disk (the handlers are not those of the reference)"""
    if o[0] != 'ok':
        return o[:2]
    h, (post, files) = o[1]
    return h, post, [(k, [f[1:] for f in v]) for k, v in files]


def u_single(x, qi, p, ei):
    """every operation, and every fault point, for one error"""
    n = len(every(REQUESTS[qi], p))
    met = 0
    for ops in [(op_parse,), (op_header, op_form), (op_body,), (op_header, op_read), (op_header, op_iter), (op_header, op_readline)]:
        for k in range(n + 1):
            met += unit_run(x, qi, p, ops, k, ERRORS[ei])
        x.step()
    if not met:
        x.fail('no fault was met')


def u_other(x, qi, p, ei):
    n = len(every(REQUESTS[qi], p))
    for ops in [(op_parse,), (op_header, op_form), (op_body,), (op_header, op_read), (op_header, op_iter)]:
        for k in range(n + 1):
            unit_run(x, qi, p, ops, k, OTHERS[ei], ioerror=False)
        x.step()


def u_pair(x, qi, p, a, rest):
    n = len(every(REQUESTS[qi], p))
    for ops in product(OPS, repeat=rest):
        for k in range(n + 1):
            unit_run(x, qi, p, (OPS[a],) + ops, k, ERRORS[0])
        x.step()


_dir = []


def u_upload(x, qi, p, hi, cs):
    """handlers and their chunk sizes"""
    if not _dir:
        _dir.append(x.dir())
    n = len(every(REQUESTS[qi], p))
    for ops in [(op_parse,), (op_body, op_form), (op_header, op_form, op_form)]:
        for k in range(n + 1):
            unit_run(x, qi, p, ops, k, ERRORS[0], hi, cs, _dir[0])
        x.step()
    left = os.listdir(_dir[0])
    if left:
        x.fail('%r is left' % left)


def u_body_stream(x, qi, p):
    """the body from a stream of its own, after a good header"""
    raw = REQUESTS[qi]
    h = raw.find('\r\n\r\n') + 4
    chunks = every(raw[h:], p)
    for k in range(len(chunks) + 1):
        for op in (op_form, op_body, op_read, op_iter):
            r = HttpRequest(BytesIO(raw), settings())
            r.parse_request_header()
            e = Fault(5, 'injected')
            s = Chunks(chunks, fault_at=k, fault=e)
            r.body_stream = s
            o = attempt(op, r)
            why = 'body of request %d in chunks of %d, fault at chunk %d, %s' % (qi, p, k, op.__name__)
            if not s.faults:
                x.eq(o[:2], ('ok', body_alone(qi, op)), why)
            elif o[0] == 'ok' or not isinstance(o[2], IOError) or o[2].args != e.args:
                x.fail('%s: %r' % (why, o))
            x.did(2)
            # another one
            r.body_stream = BytesIO(raw[h:])
            x.eq(attempt(op_form, r)[:2], ('ok', body_alone(qi, op_form)), '%s: the next body stream' % why)
            r.close()
            r.stream = BytesIO(raw)
            x.eq(attempt(op_parse, r)[:2], ('ok', whole(qi)), '%s: the next stream' % why)
            attempt(r.close)
    x.step()


def body_alone(qi, op):
    r = HttpRequest(BytesIO(REQUESTS[qi]), settings())
    r.parse_request_header()
    v = op(r)
    attempt(r.close)
    return v


def u_lazy(x, mask, k):
    """LazyStream and ChunkIter: what was delivered before the fault comes out, the fault is never an end"""
    data = 'ab\ncd\n\ne'
    chunks = cut(data, [i + 1 for i in range(len(data) - 1) if mask >> i & 1])
    if k > len(chunks):
        return
    good = ''.join(chunks[:k])
    for how in ('read', 'next', 'readline', 'iter', 1, 2, 3, 100):
        s = Chunks(chunks, fault_at=k)
        lazy = LazyStream(s)
        got = []

        def go():
            while True:
                if how == 'read':
                    c = lazy.read()
                elif how == 'next':
                    c = lazy.next()
                elif how == 'iter':
                    for c in lazy:
                        got.append(c)
                    return 'END'
                elif how == 'readline':
                    c = lazy.readline()
                else:
                    c = lazy.read(how)
                if not c:
                    return 'END'
                got.append(c)
        o = attempt(go)
        x.did(len(got) + 1)
        out = ''.join(got)
        if o[0] == 'ok' or not isinstance(o[2], Fault):
            x.fail('LazyStream %r %r fault at %d: %r after %r' % (how, chunks, k, o, got))
        if not good.startswith(out) or how in ('next', 'iter', 1) and out != good:
            x.fail('LazyStream %r %r fault at %d: %r' % (how, chunks, k, got))
    for n in (1, 2, 3, 100):
        s = Chunks(chunks, fault_at=k)
        got = []
        o = attempt(lambda: got.extend(iter(ChunkIter(s, n))))
        if o[0] == 'ok' or not isinstance(o[2], Fault) or ''.join(got) != good and got:
            x.fail('ChunkIter(%d) %r fault at %d: %r after %r' % (n, chunks, k, o, got))
        x.did(len(got) + 1)


def units(x):
    q = range(len(REQUESTS))
    for qi in q:
        if qi == 2:
            sizes = (61, 997, 5000) if not x.thorough else (7, 61, 120, 997, 1024, 5000)
        else:
            sizes = (1, 2, 7, 30, 100, 5000) if x.thorough else (3, 7, 30, 5000)
        for p in sizes:
            for ei in range(len(ERRORS)):
                if x.thorough or ei == 0 or p >= 7:
                    yield ('single', qi, p, ei)
            for ei in range(len(OTHERS)):
                if p >= 30 or x.thorough:
                    yield ('other', qi, p, ei)
    for qi in q:
        for p in (61, 997) if qi == 2 else (7, 40) if x.thorough else (17, 101):
            for a in range(len(OPS)):
                yield ('pair', qi, p, a, 1)
                if x.thorough:
                    yield ('pair', qi, p * 3, a, 2)
    for qi in (0, 1, 2, 3, 9):
        for hi in range(len(HANDLERS)):
            for cs in (1, 3, 4, 16, 64) if x.thorough else (3, 16):
                for p in (5, 16, 61, 150, 997) if x.thorough else (61, 150):
                    yield ('upload', qi, p, hi, cs)
    for qi in q:
        for p in (1, 3, 10, 100) if qi != 2 else (13, 100, 1000):
            yield ('body_stream', qi, p)
    for mask in range(1 << 7):
        for k in range(9):
            yield ('lazy', mask, k)
