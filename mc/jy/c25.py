# -*- coding: utf-8 -*-
"""C25: which upload handlers are in force."""
from env import *
from request_parser.utils.module_loading import import_string
from request_parser.files.uploadhandler import load_handler

ORACLE = ('A state machine (handlers of the request, names in its settings, upload processed or not), whose answers for each operation are compared with the code: '
          'which handler objects are called in an upload and in which order, what upload_handlers gives, what assigning it does, and of what class and for which request the '
          'objects are that are made from names.  Handlers record their calls.')
BOUNDS = {'quick': 'all histories of 3 of 20 operations (3 assignments, reading, 2 changes of the list, 6 lists of names, parsing of the header, the body or both, body(), encoding, 5 new streams or '
                   'bodies) from 5 first requests, ended by an upload; all of 4 of 10 operations and of 5 of 7 operations; up to 5 handlers that are equal and false; 30 names',
          'thorough': 'all histories of 4 of 20, of 5 of 10, of 7 of 7'}
ASSUMPTIONS = ['after a body failed to parse nothing is said about the handlers until there is a new stream or body', 'names are dotted names of identifiers',
               'handlers are not assigned after parse_request_body() was called too early']

K = Settings.Key
LOG = []
MADE = []


class Recorder(FileUploadHandler, object):
    def __init__(self, request=None):
        FileUploadHandler.__init__(self, request)
        MADE.append(self)

    def handle_raw_input(self, *a, **k):
        LOG.append((self, 'raw'))

    def new_file(self, field_name, file_name, *a, **k):
        LOG.append((self, 'new', file_name))

    def receive_data_chunk(self, data, start):
        return data

    def file_complete(self, size):
        LOG.append((self, 'complete'))

    def upload_complete(self):
        LOG.append((self, 'upload'))


class RecA(Recorder):
    pass


class RecB(Recorder):
    pass


BODY = {
    'one': [('f', 'n1', 'content')], 'two': [('f', 'n2', 'x'), ('g', 'n3', '')],
}


def upload(name):
    return multipart([part(c, f, n) for f, n, c in BODY[name]] + [part('v', 'a')])


RAW = {
    'one': mhttp([part(c, f, n) for f, n, c in BODY['one']] + [part('v', 'a')]),
    'two': mhttp([part(c, f, n) for f, n, c in BODY['two']] + [part('v', 'a')]),
    'form': http('a=1', FORM), 'empty': http('', mtype(), length=False), 'text': http('text', 'text/plain'),
    'bad': mhttp([part('QUJ*', 'f', 'n', cte='base64')]),
}
RA, RB, DISK = __name__ + '.RecA', __name__ + '.RecB', 'request_parser.files.uploadhandler.TemporaryFileUploadHandler'
DEFAULT = ['request_parser.files.uploadhandler.ConvenientFileUploadHandler']
NAMES = [[RA], [RB, RA], [DISK], [], [RA, 'no.such.Handler'], ['nodots']]
CLASS = {RA: RecA, RB: RecB, DISK: TemporaryFileUploadHandler, DEFAULT[0]: ConvenientFileUploadHandler}
BASIC = [('header',), ('form',), ('parse',), ('body',), ('get',)]
ALL = BASIC + [('set', 1), ('set', 2), ('set', 0), ('insert',), ('clear',), ('encoding',)] + [('names', i) for i in range(len(NAMES))] + \
    [('stream', 'one'), ('stream', 'form'), ('body_stream', 'two')]
SOME = [('form',), ('parse',), ('get',), ('set', 2), ('set', 0), ('insert',), ('names', 1), ('names', 4), ('stream', 'one'), ('body_stream', 'two')]
FEW = [('parse',), ('get',), ('set', 1), ('names', 0), ('stream', 'two'), ('stream', 'empty'), ('body_stream', 'one')]


class Unspecified(Exception):
    pass


class Model(object):
    def __init__(self, kind):
        self.kind = kind            # of the stream
        self.handlers = None        # the list that upload_handlers gives, when there is one
        self.names = DEFAULT
        self.head = None            # the header: a kind
        self.processed = False
        self.used = False
        self.failed = False

    def new(self, kind):
        self.kind = kind
        self.processed = self.failed = False
        if self.used:
            self.handlers, self.used = None, False


class Check(object):
    def __init__(self, x, kind, dir_):
        self.x, self.dir = x, dir_
        self.m = Model(kind)
        self.r = HttpRequest(BytesIO(RAW[kind]), settings(**{K.FILE_UPLOAD_DIR: dir_}))
        self.done = [kind]
        self.known = len(MADE)

    def bad(self, what):
        self.x.fail('%s: %s' % (' '.join(str(d) for d in self.done), what))

    def expect(self, o, error=None):
        if error is None and o[0] != 'ok' or error is not None and (o[0] == 'ok' or not isinstance(o[2], error)):
            self.bad('%r, expected %s' % (o[1:], 'success' if error is None else error.__name__))

    def resolvable(self):
        return all(n in CLASS for n in self.m.names)

    def loaded(self, l, old):
        """l: made from the names; old: objects that were there before"""
        m = self.m
        if [type(h) for h in l] != [CLASS[n] for n in m.names]:
            self.bad('handlers %r of the names %r' % (l, m.names))
        for h in l:
            if isinstance(h, Recorder) and h.request is not self.r:
                self.bad('%r was made for %r' % (h, h.request))
            if isinstance(h, Recorder) and [o for o in old if o is h]:
                self.bad('%r served before' % h)

    def get(self, old=None):
        m, r = self.m, self.r
        old = list(MADE) if old is None else old
        o = attempt(lambda: r.upload_handlers)
        if m.handlers:
            self.expect(o)
            if o[0] == 'ok' and (len(o[1]) != len(m.handlers) or [1 for a, b in zip(o[1], m.handlers) if a is not b]):
                self.bad('upload_handlers is %r, expected %r' % (o[1], m.handlers))
        elif not self.resolvable():
            self.expect(o, ImportError)
        else:
            self.expect(o)
            if o[0] == 'ok':
                self.loaded(o[1], old)
                m.handlers = list(o[1])

    def do(self, op):
        m, r, x = self.m, self.r, self.x
        self.done.append(':'.join(str(e) for e in op))
        del LOG[:]
        name = op[0]
        if name == 'get':
            if m.failed:
                raise Unspecified()
            self.get()
        elif name == 'set':
            if m.failed:
                raise Unspecified()
            hs = [RecA(), RecB()][:op[1]]
            o = attempt(setattr, r, 'upload_handlers', hs)
            self.expect(o, AttributeError if m.processed else None)
            if not m.processed:
                m.handlers = list(hs)
        elif name in ('insert', 'clear'):
            if m.failed:
                raise Unspecified()
            if not m.handlers and not self.resolvable():
                self.expect(attempt(lambda: r.upload_handlers), ImportError)
                return
            if not m.handlers and not m.names:
                return                  # no list that is kept
            if name == 'insert':
                # this may be the first access to the list
                old, h = list(MADE), RecB()
                r.upload_handlers.insert(0, h)
                if m.handlers:
                    m.handlers.insert(0, h)
                else:
                    hs = list(r.upload_handlers)
                    if not hs or hs[0] is not h:
                        self.bad('upload_handlers is %r after a handler was put into it' % (hs,))
                    self.loaded(hs[1:], old)
                    m.handlers = hs
            else:
                self.get()
                del r.upload_handlers[:]
                m.handlers = None
        elif name == 'names':
            m.names = NAMES[op[1]]
            r.settings.FILE_UPLOAD_HANDLERS = list(m.names)
        elif name == 'encoding':
            r.encoding = 'utf-8'
        elif name == 'stream':
            r.stream = BytesIO(RAW[op[1]])
            m.new(op[1])
            m.head = None
        elif name == 'body_stream':
            if m.head is None:
                raise Unspecified()
            r.body_stream = BytesIO(upload(op[1]))
            m.new('b:' + op[1])
        elif name == 'header':
            self.header()
        elif name == 'form':
            if m.head is None:
                raise Unspecified()
            self.form(r.parse_request_body)
        elif name == 'parse':
            if m.head is None:
                m.head = m.kind
            self.form(r.parse)
        elif name == 'body':
            attempt(r.body)
            if m.head is None:
                m.head = m.kind
        if name not in ('form', 'parse') and LOG:
            self.bad('%s calls handlers: %r' % (name, LOG))
        x.did()

    def header(self):
        self.expect(attempt(self.r.parse_request_header))
        if self.m.head is None:
            self.m.head = self.m.kind

    def form(self, fn):
        m, r = self.m, self.r
        if m.failed:
            raise Unspecified()
        old = list(MADE)
        if m.processed or m.kind == 'empty' or m.head in ('form', 'text', 'empty') and m.head != 'empty':
            self.expect(attempt(fn))
            if LOG:
                self.bad('handlers are called: %r' % (LOG,))
            m.processed = True
            return
        if m.handlers is None and not self.resolvable() or not m.handlers and not self.resolvable():
            self.expect(attempt(fn), ImportError)
            if LOG:
                self.bad('handlers are called: %r' % (LOG,))
            m.failed = True
            return
        o = attempt(fn)
        m.used = True
        if m.kind == 'bad':
            self.expect(o, MultiPartParserError)
            m.failed = True
            return
        self.expect(o)
        if o[0] != 'ok':
            m.failed = True
            return
        m.processed = True
        if m.head == 'empty':
            # multipart without a length: nothing is parsed
            if LOG:
                self.bad('handlers are called: %r' % (LOG,))
            self.get(old)
            return
        if not m.handlers:
            hs = list(r.upload_handlers)
            self.loaded(hs, old)
            m.handlers = hs
        elif [1 for a, b in zip(r.upload_handlers, m.handlers) if a is not b] or len(r.upload_handlers) != len(m.handlers):
            self.bad('upload_handlers is %r, expected %r' % (r.upload_handlers, m.handlers))
        files = BODY[m.kind.split(':')[-1]]
        want, taken = [], [h for h in m.handlers if not isinstance(h, Recorder)]
        recs = [h for h in m.handlers if isinstance(h, Recorder)]
        if taken:
            # a handler of the library takes the file: those after it do not complete it
            upto = [h for h in m.handlers[:m.handlers.index(taken[0])]]
        for h in recs:
            want.append((h, 'raw'))
        mem = taken and not isinstance(taken[0], TemporaryFileUploadHandler)
        for f, n, c in files:
            for h in recs:
                if mem and h not in upto:
                    continue            # it stops the chain
                want.append((h, 'new', n))
            for h in recs:
                if not taken or h in upto:
                    want.append((h, 'complete'))
        for h in recs:
            want.append((h, 'upload'))
        if LOG != want:
            self.bad('calls %r, expected %r' % (LOG, want))
        got = [(k, [(f.name, f.read()) for f in v]) for k, v in lists(r.FILES)]
        exp = [(f, [(n, c)]) for f, n, c in files] if taken else []
        if got != exp:
            self.bad('FILES %r, expected %r' % (got, exp))


_dir = []


def history(x, kind, ops):
    if not _dir:
        _dir.append(x.dir())
    if len(MADE) > 3000:
        del MADE[:]
    c = Check(x, kind, _dir[0])
    try:
        for op in ops:
            c.do(op)
        # and an upload
        if not c.m.failed and not c.m.processed and c.m.head is not None:
            c.do(('form',))
        c.do(('stream', 'one'))
        c.do(('parse',))
        if c.m.processed:
            c.do(('set', 1))
    except Unspecified:
        pass
    x.outcome((c.m.kind, c.m.processed, c.m.failed, c.m.used, len(c.m.handlers or ()), tuple(c.m.names)))
    attempt(c.r.close)


def u_all(x, kind, n, *first):
    for ops in product(ALL, repeat=n):
        history(x, kind, tuple(ALL[i] for i in first) + ops)
        x.watch.begin = 0


def u_some(x, kind, n, *first):
    for ops in product(SOME, repeat=n):
        history(x, kind, tuple(SOME[i] for i in first) + ops)
        x.watch.begin = 0


def u_few(x, kind, n, *first):
    for ops in product(FEW, repeat=n):
        history(x, kind, tuple(FEW[i] for i in first) + ops)
        x.watch.begin = 0


HAVE = [(RA, RecA), (RB, RecB), (unicode(RA), RecA), ('os.path.join', os.path.join), ('request_parser.http.request.HttpRequest', HttpRequest),
        ('request_parser.http.request', None), ('request_parser.conf.settings.Settings', Settings), (DEFAULT[0], ConvenientFileUploadHandler), (DISK, TemporaryFileUploadHandler),
        ('request_parser.files.uploadhandler.MemoryFileUploadHandler', MemoryFileUploadHandler), (__name__ + '.NAMES', NAMES), (__name__ + '.HAVE', None)]
HAVE_NOT = [p + '.' + f(n) for p, n in (n.rsplit('.', 1) for n in (RA, DISK, DEFAULT[0])) for f in (lambda n: '_' + n, lambda n: n + '_', lambda n: '__' + n, lambda n: n + ' ',
    lambda n: ' ' + n, lambda n: n.upper(), lambda n: n.lower(), lambda n: n[1:], lambda n: n[:-1], lambda n: n + n, lambda n: n + 's')] + ['nodots', '', 'a', 'no.such.Handler', __name__ + '.RecC', __name__ + '.RecA.nothing', __name__ + 'x.RecA', 'request_parser.files.nothing.Handler', 'request_parser.nothing',
            'os.path.nothing', 'os.nothing.join', DISK + 'x', DISK[:-1], DISK.lower(), 'Request_Parser.files.uploadhandler.TemporaryFileUploadHandler', DISK + '.', u'nodots', u'no.such.Handler']


class Alike(Recorder):
    """equal to each other, and false"""

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def __nonzero__(self):
        return False


class AlikeTaking(Alike):
    def file_complete(self, size):
        Alike.file_complete(self, size)
        return SimpleUploadedFile('n', b'c')


def u_alike(x, n, taking, how):
    """handlers that cannot be told apart by comparing them"""
    for kind in ('one', 'two'):
        for again in range(2):
            hs = [AlikeTaking() if i == taking else Alike() for i in range(n)]
            r = HttpRequest(BytesIO(RAW[kind]), settings())
            if how == 'set':
                r.upload_handlers = hs
            elif how == 'body':
                r.upload_handlers = hs
                r.body()
            else:
                l = r.upload_handlers
                for i, h in enumerate(hs):
                    l.insert(i, h)
                del l[n:]
            if again:
                r.upload_handlers
                r.parse_request_header()
                r.stream = BytesIO(RAW[kind])
            del LOG[:]
            o = attempt(r.parse)
            want = [(id(h), 'raw') for h in hs]
            for f in BODY[kind]:
                want += [(id(h), 'new') for h in hs]
                want += [(id(h), 'complete') for i, h in enumerate(hs) if taking is None or i <= taking]
            want += [(id(h), 'upload') for h in hs]
            got = [(id(e[0]), e[1]) for e in LOG]
            if o[0] != 'ok' or got != want or [id(h) for h in r.upload_handlers] != [id(h) for h in hs]:
                x.fail('%d equal handlers (%s), upload %r: %r, calls %r, expected %r' % (n, how, kind, o[1:], [([id(h) for h in hs].index(a) if a in [id(h) for h in hs] else '?', w) for a, w in got],
                                                                                  [([id(h) for h in hs].index(a), w) for a, w in want]))
            x.did(len(want))


def u_import(x):
    for path, want in HAVE:
        o = attempt(import_string, path)
        if o[0] != 'ok' or want is not None and o[1] is not want:
            x.fail('import_string(%r): %r' % (path, o[1:]))
        x.did()
    for path in HAVE_NOT:
        for f in (import_string, load_handler):
            o = attempt(f, path)
            if o[0] == 'ok' or not isinstance(o[2], ImportError):
                x.fail('%s(%r): %r' % (f.__name__, path, o[1:]))
            x.did()
    for path in (RA, DISK, DEFAULT[0]):
        token = object()
        a, b, c = load_handler(path, token), load_handler(path, request=token), load_handler(path)
        if not (type(a) is type(b) is type(c) is CLASS[path]) or a is b:
            x.fail('load_handler(%r): %r' % (path, (a, b, c)))
        elif path != DEFAULT[0] and (a.request is not token or b.request is not token or c.request is not None):
            x.fail('load_handler(%r): %r' % (path, (a, b, c, a.request, b.request, c.request)))
        x.did(3)


def units(x):
    t = 1 if x.thorough else 0
    yield ('import',)
    for n in range(1, 6):
        for taking in [None] + range(n):
            for how in ('set', 'body', 'insert'):
                yield ('alike', n, taking, how)
    for kind in ('one', 'form', 'empty', 'bad', 'text'):
        for n in range(3):
            yield ('all', kind, n)
        for a in range(len(ALL)):
            yield ('all', kind, 2, a)
            if t:
                for b in range(len(ALL)):
                    yield ('all', kind, 2, a, b)
        for a in range(len(SOME)):
            if t or kind in ('one', 'form'):
                yield ('some', kind, 3 + t, a)
        for a in range(len(FEW)):
            for b in range(len(FEW)):
                if t or kind in ('one', 'empty'):
                    yield ('few', kind, 3 + 2 * t, a, b)
