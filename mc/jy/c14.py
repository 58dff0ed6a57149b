# -*- coding: utf-8 -*-
"""C14: requests do not influence each other."""
from env import *

ORACLE = ('Every request is also run alone, with a Settings object of its own: whatever the interleaving, each operation and the final state must be the same.  '
          'The shared Settings object, the defaults and the class attributes of Settings must be unchanged, and no mutable object may be reachable from two requests.')
BOUNDS = {'quick': 'all interleavings of the operations of 2 requests (12 programs of up to 5 operations x 9 requests, every pair of a program and request with a '
                   'rotating partner), and of 3 requests; a request run to its end at every chunk, at every handler call and at the first and last execution of every line '
                   '(every execution for 3 pairs) of the code under test for another one, '
                   'with shared and separate Settings (6 configurations); 25 requests with a piece of 1 to 300 characters, repeated among others that differ in one character',
          'thorough': 'every pair of program and request with every other, nesting of three'}
ASSUMPTIONS = ['scheduling points are operations, chunks of input, calls of upload handlers and lines of the code under test; a preempted request waits until the other one is done']

K = Settings.Key
U8 = u'\u00e9'.encode('utf-8')
REQUESTS = [
    mhttp([part('v' + U8, 'a'), part('content', 'f', 'n.txt', ctype='text/plain; charset=x')], target='/m?x=%C3%A9'),
    mhttp([part('v' + U8, 'a'), part('QUJD', 'f', 'n2', cte='base64'), part('more', 'f', 'n3')], target='/m2', host='h2:1').replace('boundary=B', 'boundary=B; charset=utf-8'),
    http('a=%C3%A9&b=1&a=2', FORM, target='/u?q=%C3%A9'),
    http('a=%C3%A9', FORM + '; charset=utf-8', target='/u?q=%C3%A9&q=2'),
    http('text ' + U8, 'text/plain; charset=utf-8', target='http://hh:81/t?r=%C3%A9'),
    http('', method='GET', target='/g?q=%C3%A9', length=False),
    'no request\r\n\r\n',
    mhttp([part('x' * 40, 'f', 'n'), part('QUJ*', 'f', 'bad', cte='base64')]),
    http('a=1&b=2&c=3&d=4', FORM, headers=['X-A: 1', 'X-A: 2']),
]
CONFIGS = [
    {}, {K.DEFAULT_CHARSET: 'utf-8'}, {K.DATA_UPLOAD_MAX_FIELDS: 3, K.DATA_UPLOAD_MAX_MEMORY: 60}, {K.MAX_HEADER_SIZE: 10, K.FILE_UPLOAD_MAX_MEMORY: 3},
    {'handlers': ['request_parser.files.uploadhandler.MemoryFileUploadHandler', 'request_parser.files.uploadhandler.TemporaryFileUploadHandler']}, {K.DATA_UPLOAD_MAX_MEMORY: None},
]
PROGRAMS = [
    ('header', 'form', 'body'), ('parse',), ('body', 'parse'), ('utf-8', 'parse'), ('header', 'utf-8', 'form'), ('parse', 'next', 'parse'),
    ('header', 'read', 'readline'), ('header', 'handlers', 'form', 'close'), ('parse', 'spoil', 'close'), ('utf-16', 'header', 'cp1252', 'body', 'form'),
    ('form', 'parse', 'again'), ('parse', 'close', 'next', 'header', 'form'),
]
_dir = []


def scratch(x):
    if not _dir:
        _dir.append(x.dir())
    return _dir[0]


class Run(object):
    """one request and its program"""

    def __init__(self, i, q, p, s, stream=None):
        self.q, self.p = q, p
        self.r = HttpRequest(stream or BytesIO(REQUESTS[q]), s)
        self.out = []
        self.n = 0

    def step(self):
        op = PROGRAMS[self.p][self.n]
        self.n += 1
        r = self.r
        if op == 'header':
            o = attempt(r.parse_request_header)
        elif op == 'form':
            o = attempt(r.parse_request_body)
        elif op in ('parse', 'again'):
            o = attempt(r.parse)
        elif op == 'body':
            o = attempt(r.body)
        elif op == 'read':
            o = attempt(r.read, 3)
        elif op == 'readline':
            o = attempt(r.readline)
        elif op == 'close':
            o = attempt(r.close)
        elif op == 'next':
            o = attempt(setattr, r, 'stream', BytesIO(REQUESTS[(self.q + 1) % len(REQUESTS)]))
        elif op == 'handlers':
            o = attempt(self.handlers)
        elif op == 'spoil':
            o = attempt(self.spoil)
        else:
            o = attempt(setattr, r, 'encoding', op)
        if op == 'close' or op == 'spoil':
            self.out.append(o[:2])
        else:
            self.out.append((o[:2], self.state(op)))

    def state(self, op):
        r = self.r
        o = [attempt(header_view, r)[:2]]
        f = attempt(body_view, r)[:2]
        o.append(f)
        return o

    def handlers(self):
        self.r.upload_handlers = [TemporaryFileUploadHandler()]

    def spoil(self):
        """change everything that belongs to this request"""
        r = self.r
        r.upload_handlers.append(None)
        r.META['new'] = 1
        h = r.META.get(REQ_HEADERS)
        r.META.clear()
        for d in (r.GET, r.POST, h):
            if d is not None:
                d._mutable = True
                for k, v in list(d.lists()):
                    for e in v:
                        if isinstance(e, dict):
                            e['content-type-extra']['spoiled'] = 1
                            e.clear()
                    try:
                        d.setlist(k, ['spoiled'])
                        d['spoiled'] = 'yes'
                    except AttributeError:
                        pass
        for k, v in r.FILES.lists():
            for f in v:
                if isinstance(f.content_type_extra, dict):
                    f.content_type_extra['spoiled'] = 1
        r.settings.DEFAULT_CHARSET = 'ascii'
        r.settings.FILE_UPLOAD_HANDLERS[:] = ['no.such.Handler']
        r.settings.MAX_HEADER_SIZE = 1
        r.settings.DATA_UPLOAD_MAX_NUMBER_FIELDS = 0
        r.settings.FILE_UPLOAD_DIR = '/nonexistent'

    @property
    def more(self):
        return self.n < len(PROGRAMS[self.p])

    def finish(self):
        while self.more:
            self.step()
        attempt(self.r.close)


def make(ci, x):
    kw = dict(CONFIGS[ci])
    kw[K.FILE_UPLOAD_DIR] = scratch(x)
    handlers = kw.pop('handlers', None)
    s = Settings(kw)
    if handlers:
        s.FILE_UPLOAD_HANDLERS = handlers
    return s


_alone = {}


def alone(x, q, p, ci):
    k = (q, p, ci)
    if k not in _alone:
        a = Run(0, q, p, make(ci, x))
        a.finish()
        _alone[k] = a.out
    return _alone[k]


def attrs(s):
    return sorted((k, v if not isinstance(v, (list, dict)) else repr(v), id(v) if isinstance(v, (list, dict)) else None) for k, v in vars(s).items())


_pristine = []


def classes():
    return sorted((k, repr(v)) for k, v in vars(Settings).items() if not callable(v) and not k.startswith('__')), \
        sorted((k, repr(v)) for k, v in vars(Settings.default()).items())


def defaults(x, why):
    if not _pristine:
        _pristine.append(classes())
    if classes() != _pristine[0]:
        x.fail('%s: the default settings are %r, were %r' % (why, classes(), _pristine[0]))
        _pristine[0] = classes()


def interleavings(lens):
    """all orders"""
    if not any(lens):
        yield ()
    for i, n in enumerate(lens):
        if n:
            for rest in interleavings(lens[:i] + (n - 1,) + lens[i + 1:]):
                yield (i,) + rest


def together(x, members, ci, shared, order):
    s = make(ci, x)
    before = attrs(s)
    runs = [Run(i, q, p, s if shared else make(ci, x)) for i, (q, p) in enumerate(members)]
    for i in order:
        runs[i].step()
    for r in runs:
        r.finish()
    x.did(len(order))
    for (q, p), r in zip(members, runs):
        want = alone(x, q, p, ci)
        if r.out != want:
            k = [i for i in range(len(want)) if r.out[i] != want[i]][0]
            x.fail('requests and programs %r, configuration %d, %s Settings, order %r: request %d, operation %d (%s) gives %r, alone %r'
                   % (members, ci, 'shared' if shared else 'separate', order, q, k, PROGRAMS[p][k], r.out[k], want[k]))
    if attrs(s) != before:
        x.fail('requests and programs %r, order %r: the Settings object is %r, was %r' % (members, order, attrs(s), before))
    x.outcome((members, ci))


def u_pair(x, q1, p1, q2, p2, ci, shared):
    defaults(x, 'before')
    for order in interleavings((len(PROGRAMS[p1]), len(PROGRAMS[p2]))):
        together(x, ((q1, p1), (q2, p2)), ci, shared, order)
    x.step()
    defaults(x, 'requests %d, %d, programs %d, %d' % (q1, q2, p1, p2))


def u_triple(x, q1, q2, q3, p, ci):
    defaults(x, 'before')
    ps = (p, (p + 1) % 5, (p + 3) % 5)
    for order in interleavings(tuple(len(PROGRAMS[i]) for i in ps)):
        together(x, ((q1, ps[0]), (q2, ps[1]), (q3, ps[2])), ci, True, order)
        x.step()
    defaults(x, 'requests %d, %d, %d' % (q1, q2, q3))


class Hooked(Chunks):
    """runs something before chunk number `at`"""

    def __init__(self, chunks, at, what):
        Chunks.__init__(self, chunks)
        self.at, self.what = at, what

    def _fill(self):
        if not self.cur and self.i == self.at and self.what is not None:
            w, self.what = self.what, None
            w()
        Chunks._fill(self)


def u_nested(x, q1, p1, q2, p2, ci, size, shared):
    """request q2 from its beginning to its end while chunk k of q1 is on its way"""
    raw = REQUESTS[q1]
    n = len(every(raw, size))
    for k in range(n + 1):
        s = make(ci, x)
        before = attrs(s)
        inner = Run(1, q2, p2, s if shared else make(ci, x))
        outer = Run(0, q1, p1, s, Hooked(every(raw, size), k, inner.finish))
        outer.finish()
        inner.finish()
        x.did(len(PROGRAMS[p1]) + len(PROGRAMS[p2]))
        for r, q, p in ((inner, q2, p2), (outer, q1, p1)):
            if r.out != alone(x, q, p, ci):
                x.fail('request %d (program %d) within chunk %d of request %d (program %d), configuration %d: request %d gives %r, alone %r'
                       % (q2, p2, k, q1, p1, ci, q, r.out, alone(x, q, p, ci)))
        if attrs(s) != before:
            x.fail('request %d within chunk %d of request %d: the Settings object is %r, was %r' % (q2, k, q1, attrs(s), before))
    x.step()


def u_handler(x, q1, q2, p2, ci):
    """request q2 within every call of an upload handler of q1"""
    def run(at):
        s = make(ci, x)
        count = [0]
        inner = Run(1, q2, p2, s)

        class H(MemoryFileUploadHandler, object):
            pass

        def hook(name):
            base = getattr(MemoryFileUploadHandler, name)

            def m(self, *a, **k):
                count[0] += 1
                if count[0] == at:
                    inner.finish()
                return base(self, *a, **k)
            setattr(H, name, m)
        for name in ('handle_raw_input', 'new_file', 'receive_data_chunk', 'file_complete', 'upload_complete'):
            hook(name)
        r = HttpRequest(BytesIO(REQUESTS[q1]), s)
        r.upload_handlers = [H(), TemporaryFileUploadHandler()]
        o = attempt(r.parse)[:2], attempt(header_view, r)[:2], attempt(body_view, r)[:2]
        attempt(r.close)
        inner.finish()
        x.did(count[0])
        return o, inner.out, count[0]
    want, _, n = run(0)
    for at in range(1, n + 1):
        o, out, _ = run(at)
        if o != want:
            x.fail('request %d (program %d) within call %d of the handler of request %d: that gives %r, expected %r' % (q2, p2, at, q1, o, want))
        if out != alone(x, q2, p2, ci):
            x.fail('request %d (program %d) within call %d of the handler of request %d: gives %r, alone %r' % (q2, p2, at, q1, out, alone(x, q2, p2, ci)))
    x.step()


def u_line(x, q1, p1, q2, p2, ci, shared, lo, step):
    """request q2 from its beginning to its end between two lines of the code that runs for q1"""
    def outer_run():
        a = Run(0, q1, p1, make(ci, x))
        a.finish()
    outer_run()
    points = turning_points(outer_run) if lo is None else range(1 + lo, count_lines(outer_run) + 1, step)
    for k in points:
        s = make(ci, x)
        before = attrs(s)
        outer = Run(0, q1, p1, s)
        inner = Run(1, q2, p2, s if shared else make(ci, x))
        Preempt(outer.finish, (k, inner.finish)).run()
        inner.finish()
        x.did(len(PROGRAMS[p1]) + len(PROGRAMS[p2]))
        for r, q, p in ((inner, q2, p2), (outer, q1, p1)):
            if r.out != alone(x, q, p, ci):
                x.fail('request %d (program %d) at line %d of request %d (program %d), configuration %d: request %d gives %r, alone %r'
                       % (q2, p2, k, q1, p1, ci, q, r.out, alone(x, q, p, ci)))
        if attrs(s) != before:
            x.fail('request %d at line %d of request %d: the Settings object is %r, was %r' % (q2, k, q1, attrs(s), before))
        x.watch.begin = 0
    x.count('preemptions at a line', len(points))
    x.outcome((q1, p1, q2, p2, ci))


def upload(n):
    """two files, each longer than what memory may hold, and a field; every name is of this upload only"""
    return mhttp([part('first %d ' % n * 4, 'f%d' % n, 'n%d' % n, ctype='text/plain; charset=c%d; e=%d' % (n, n)), part('v%d' % n, 'a'),
                  part('%d' % n * (9 + n), 'g%d' % n, 'm%d' % n, ctype='image/x%d' % n, cte='binary')], target='/u%d' % n)


MEMORY = 'request_parser.files.uploadhandler.MemoryFileUploadHandler'
DISK = 'request_parser.files.uploadhandler.TemporaryFileUploadHandler'
UPLOADS = [{K.FILE_UPLOAD_MAX_MEMORY: 3}, {K.FILE_UPLOAD_MAX_MEMORY: 20}, {'handlers': [MEMORY, DISK]}, {'handlers': [DISK]}]


LENGTHS = (1, 7, 40, 61, 130, 300)


def sized(n, c):
    """requests with one piece of n characters, that ends with c"""
    w = 'w' * (n - 1) + c
    L = 'text/plain; charset=utf-8'
    return [http('', method=w.upper(), length=False), http('', host=w, method='GET', length=False), http('', host=w + ':81', method='GET', length=False),
            http('', target='/' + w, method='GET', length=False), http('', target='/p;' + w, method='GET', length=False), http('', target='/?' + w, method='GET', length=False),
            http('', target='/?a=' + w + '&b=1', method='GET', length=False), http('', target='http://' + w + '/', method='GET', length=False), http('', target='/#' + w, method='GET', length=False),
            http('', target='/?' + '%41' * n + c, method='GET', length=False), http('', headers=['X-%s: 1' % w, 'X: %s' % w], method='GET', length=False), http(w, L), http(w + '=1&b=' + w, FORM),
            http(w, 'text/' + w), http('a', 'text/plain; %s=%s' % (w, w)), mhttp([part(w, w)]), mhttp([part('1', 'f', w)]), mhttp([part(w, 'f', 'n')]), mhttp([part('2', 'f', 'n', ctype='a/' + w)]),
            mhttp([part('3', 'f', 'n', ctype='text/plain; charset=%s; x=%s' % (w, w))]), mhttp([part('4', w, 'n.' + w)]), mhttp([part('5', 'a', headers=['Content-Length: ' + '1' * n])]),
            mhttp([part('6', 'a', headers=['X-%s: %s' % (w, w)])]), mhttp([part('QUJD' * n, 'f', 'n', cte='base64')]), mhttp([part('7', 'f', disp="form-data; name=f; filename*=utf-8''" + '%41' * n + c)])]


def u_again(x, n, k):
    """a request that differs little from others, and the same one again: what each gives when it comes first"""
    first = {}
    for turn in range(3):
        for c in ('bca', 'abc', 'bab')[turn]:
            raw = sized(n, c)[k]

            def go():
                r = parse(raw, make(0, x))
                try:
                    return view(r)
                finally:
                    r.close()
            o = attempt(go)[:2]
            if first.setdefault(c, o) != o:
                x.fail('request %d with %d characters, again: %r, the first time %r' % (k, n, o, first[c]), raw[:300])
            x.did()
    if first['a'] == first['b'] and k not in (0, 21) and first['a'][0] == 'ok' and (k != 11 or n > 1):
        x.count('alike')
    x.step()


def u_upload(x, a, b, part_, parts):
    """an upload from its beginning to its end between two lines of another one that fills memory, goes to disk or is on disk"""
    def one(n, kw):
        kw = dict(kw)
        kw[K.FILE_UPLOAD_DIR] = scratch(x)
        handlers = kw.pop('handlers', None)
        s = Settings(kw)
        if handlers:
            s.FILE_UPLOAD_HANDLERS = handlers
        out = []

        def run():
            r = HttpRequest(BytesIO(upload(n)), s)
            o = attempt(r.parse)[:2]
            out.append((o, header_view(r), body_view(r)))
            r.close()
        return run, out
    alone_ = []
    for n, kw in ((1, UPLOADS[a]), (2, UPLOADS[b])):
        run, out = one(n, kw)
        run()
        alone_ += out
        names = [(k, f[1], f[7]) for k, v in out[0][2][1] for f in v]
        x.eq(names, [('f%d' % n, 'n%d' % n, 'first %d ' % n * 4), ('g%d' % n, 'm%d' % n, '%d' % n * (9 + n))], 'files of upload %d' % n)
    points = turning_points(one(1, UPLOADS[a])[0], 3 if x.thorough else 2)
    for k in points[part_::parts]:
        outer, o1 = one(1, UPLOADS[a])
        inner, o2 = one(2, UPLOADS[b])
        Preempt(outer, (k, inner)).run()
        if o2 == []:
            inner()
        x.did(2)
        for n, o in ((0, o1), (1, o2)):
            if o != [alone_[n]]:
                x.fail('upload 2 (%r) at line %d of upload 1 (%r): upload %d gives %r, alone %r' % (UPLOADS[b], k, UPLOADS[a], n + 1, o, alone_[n]))
        x.watch.begin = 0
    x.count('preemptions at a line', len(points[part_::parts]))
    x.outcome((a, b))


SETS = ('iso-8859-1', 'utf-8', 'cp1252')


def token(n):
    return 't%d' % n


def u_context(x, what, lo, step):
    """equal bytes in unequal circumstances, in every order of two: what each must give is computed without the other"""
    def pct(raw, cs):
        return raw.decode(cs, 'replace')
    VAL = '\xc3\xa9'

    def fields(tok, cs):
        return [(u'b', [u'']), (u'q', [pct(VAL, cs), u'2']), (unicode(tok), [u'1'])]
    if what == 'charset':
        ctxs = [(d, c, l) for d in SETS for c in (None,) + SETS for l in (None, 'utf-8', 'cp1252')]

        def run(ctx, tok):
            d, c, l = ctx
            qs = 'q=%C3%A9&q=2&b=&' + tok + '=1'
            r = HttpRequest(BytesIO(http(qs, FORM + ('; charset=' + c if c else ''), target='/?' + qs)), Settings({K.DEFAULT_CHARSET: d}))
            r.parse_request_header()
            if l:
                r.encoding = l
            r.parse_request_body()
            return lists(r.GET), lists(r.POST)

        def want(ctx, tok):
            d, c, l = ctx
            return (fields(tok, l or c or d),) * 2
    elif what == 'query':
        # the containers themselves
        ctxs = [(d, e, n) for d in SETS for e in (None,) + SETS for n in (3, 4, 0, None)]

        def run(ctx, tok):
            d, e, n = ctx
            kw = {K.DEFAULT_CHARSET: d}
            if n is not None:
                kw[K.DATA_UPLOAD_MAX_FIELDS] = n
            return lists(QueryDict(Settings(kw), 'q=%C3%A9&q=2&b=&' + tok + '=1', encoding=e))

        def want(ctx, tok):
            d, e, n = ctx
            return 'TooManyFieldsSent' if n == 3 else fields(tok, e or d)
    elif what == 'parts':
        ctxs = [(d, c, h) for d in SETS for c in (None, 'utf-8', 'cp1252') for h in (None, MEMORY, DISK)]

        def run(ctx, tok):
            d, c, h = ctx
            s = Settings({K.DEFAULT_CHARSET: d, K.FILE_UPLOAD_DIR: scratch(x)})
            if h:
                s.FILE_UPLOAD_HANDLERS = [h]
            raw = mhttp([part('v', VAL), part('c' + VAL, 'f', tok, ctype='text/plain')])
            r = HttpRequest(BytesIO(raw.replace('boundary=B', 'boundary=B; charset=' + c) if c else raw), s)
            r.parse()
            out = [(k, [e.get('data', e) if isinstance(e, dict) else e for e in v]) for k, v in lists(r.POST)], files_view(r.FILES)
            r.close()
            return out

        def want(ctx, tok):
            d, c, h = ctx
            return [(pct(VAL, c or d), ['v'])], [('f', [('disk' if h == DISK else 'memory', tok, 3, 'text/plain', None, {}, None, 'c' + VAL)])]
    else:
        ctxs = [(f, m, hs) for f in (2, 3, None) for m in (20, 60, None) for hs in (30, 16)]

        def run(ctx, tok):
            f, m, hs = ctx
            kw = {K.MAX_HEADER_SIZE: hs}
            if f is not None:
                kw[K.DATA_UPLOAD_MAX_FIELDS] = f
            if m is not None:
                kw[K.DATA_UPLOAD_MAX_MEMORY] = m
            r = HttpRequest(BytesIO(http('a=1&b=2&' + tok + '=' + 'x' * 30, FORM)), Settings(kw))
            r.parse()
            return lists(r.POST)

        def want(ctx, tok):
            f, m, hs = ctx
            # the memory is checked first
            return 'RequestDataTooBig' if m == 20 else 'TooManyFieldsSent' if f == 2 else [(u'a', [u'1']), (u'b', [u'2']), (unicode(tok), [u'x' * 30])]
    n = 0
    for a in ctxs[lo::step]:
        for b in ctxs:
            n += 1
            tok = 't%d' % (lo + step * n)
            for i, c in enumerate((a, b, a)):
                o = attempt(run, c, tok)
                g = o[1]
                if g != want(c, tok):
                    x.fail('%s: request %d of the same bytes in the circumstances %r: %r gives %r, expected %r' % (what, i + 1, (a, b, a), c, g, want(c, tok)))
                x.did()
    x.step()


def reachable(r):
    """mutable objects of a request that a user gets at"""
    out = {}

    def put(path, o):
        if isinstance(o, (dict, list, MultiValueDict, Settings, LazyStream, FileUploadHandler, UploadedFile)) and not isinstance(o, tuple):
            out[id(o)] = (path, o)
    for name in ('META', 'GET', 'POST', 'FILES', 'upload_handlers', 'settings', 'stream', 'content_params'):
        put(name, getattr(r, name))
    put('settings.FILE_UPLOAD_HANDLERS', r.settings.FILE_UPLOAD_HANDLERS)
    put('headers', r.META.get(REQ_HEADERS))
    for name in ('GET', 'POST', 'FILES'):
        d = getattr(r, name)
        for k in dict.keys(d):
            put('%s list %r' % (name, k), dict.__getitem__(d, k))
            for e in d.getlist(k):
                put('%s[%r]' % (name, k), e)
                if isinstance(e, dict):
                    for kk, vv in e.items():
                        put('%s[%r][%r]' % (name, k, kk), vv)
                elif isinstance(e, UploadedFile):
                    put('%s[%r].extra' % (name, k), e.content_type_extra)
                    put('%s[%r].file' % (name, k), e.file)
    for h in r.upload_handlers:
        put('handler', h)
    h = r.META.get(REQ_HEADERS)
    if h is not None:
        for k in dict.keys(h):
            put('header list %r' % k, dict.__getitem__(h, k))
    return out


def u_apart(x, q1, q2, ci, shared):
    """nothing mutable belongs to two requests"""
    s = make(ci, x)
    rs = []
    for q in (q1, q2):
        r = HttpRequest(BytesIO(REQUESTS[q]), s if shared else Settings.default())
        attempt(r.parse)
        rs.append(r)
    rs.append(HttpRequest(BytesIO(REQUESTS[q2]), s if shared else None))
    rs.append(HttpRequest(None, s if shared else None))
    rs.append(HttpRequest())
    maps = [reachable(r) for r in rs]
    for i in range(len(maps)):
        for j in range(i):
            for k in maps[i]:
                if k in maps[j] and not isinstance(maps[i][k][1], type(None)):
                    x.fail('requests %d and %d (%s): %s is also %s of another request' % (q1, q2, 'shared' if shared else 'separate', maps[i][k][0], maps[j][k][0]))
        if id(s.FILE_UPLOAD_HANDLERS) in maps[i] or id(Settings.FILE_UPLOAD_HANDLERS) in maps[i]:
            x.fail('request %d uses the list of handlers of a Settings object' % i)
        if id(s) in maps[i]:
            x.fail('request %d uses the Settings object it was given' % i)
    for r in rs:
        r.close()
    x.did(len(rs))


def u_files(x, q1, q2, ci):
    """closing one request leaves the files of the other"""
    d = x.dir()
    for first in (0, 1):
        kw = dict(CONFIGS[ci])
        kw[K.FILE_UPLOAD_DIR] = d
        s = Settings(kw)
        rs = [parse(REQUESTS[q], s, handlers=[TemporaryFileUploadHandler()]) for q in (q1, q2)]
        views = [body_view(r) for r in rs]
        rs[first].close()
        x.eq(body_view(rs[1 - first]), views[1 - first], 'request %d after request %d was closed' % ((q1, q2)[1 - first], (q1, q2)[first]))
        paths = [f.temporary_file_path() for k, v in rs[1 - first].FILES.lists() for f in v]
        x.eq([os.path.exists(p) for p in paths], [True] * len(paths), 'files of the other request')
        rs[1 - first].close()
        x.eq(os.listdir(d), [], 'directory')
        x.did(4)


def units(x):
    qs, ps = range(len(REQUESTS)), range(len(PROGRAMS))
    members = [(q, p) for q in qs for p in ps]
    n = 0
    for i, (q1, p1) in enumerate(members):
        for j, (q2, p2) in enumerate(members):
            if j < i:
                continue
            n += 1
            long = len(PROGRAMS[p1]) + len(PROGRAMS[p2]) > 6
            if x.thorough or q1 != q2 and (p1 + p2 + q1 * 3 + q2) % (9 if long else 3) == 0 or q1 == q2 and not long:
                yield ('pair', q1, p1, q2, p2, n % len(CONFIGS), n % 5 != 0)
    for q1 in qs:
        for q2 in qs:
            if x.thorough or (q1 + 2 * q2) % 4 == 0:
                yield ('line', q1, 1, q2, 1, (q1 + q2) % len(CONFIGS), True, None, 1)
    for q1, p1, q2, p2 in ((3, 4, 2, 3), (8, 11, 3, 8), (4, 9, 2, 9)) + (((0, 1, 1, 3), (1, 7, 0, 8), (2, 5, 3, 9)) if x.thorough else ()):
        for lo in range(16):
            yield ('line', q1, p1, q2, p2, (q1 + q2) % 2, True, lo, 16)
    for t in ((0, 2, 4), (1, 3, 6), (7, 0, 3), (5, 2, 7), (8, 1, 4)):
        for p in range(5):
            for ci in range(len(CONFIGS)):
                if x.thorough or (ci + p) % 3 == 0:
                    yield ('triple',) + t + (p, ci)
    for q1 in qs:
        for q2 in qs:
            for p1 in (0, 1, 2) if x.thorough else ((q1 + q2) % 3,):
                for p2 in ps if x.thorough else (1, 3, 9):
                    yield ('nested', q1, p1, q2, p2, (q1 + q2 + p2) % len(CONFIGS), 23, (q1 + p2) % 4 != 0)
            for ci in range(len(CONFIGS)):
                for shared in (True, False):
                    yield ('apart', q1, q2, ci, shared)
    for n in LENGTHS:
        for k in range(len(sized(n, 'a'))):
            yield ('again', n, k)
    for what, n in (('charset', 12), ('query', 16), ('parts', 9), ('limits', 6)):
        for lo in range(n):
            yield ('context', what, lo, n)
    for a in range(len(UPLOADS)):
        for b in range(len(UPLOADS)):
            if x.thorough or (a, b) in ((0, 0), (1, 0), (0, 3), (2, 2)):
                for i in range(4):
                    yield ('upload', a, b, i, 4)
    for q1 in (0, 1, 7):
        for q2 in qs:
            for p2 in (1, 2, 3, 8, 9):
                yield ('handler', q1, q2, p2, (q2 + p2) % 2)
        for q2 in (0, 1):
            for ci in (0, 3):
                if q1 != 7:
                    yield ('files', q1, q2, ci)
