# -*- coding: utf-8 -*-
"""C09: upload handlers are driven by the documented protocol."""
from env import *

ORACLE = ('An explicit-state model of the protocol (class Model): every call the code makes to a handler must be one the model allows in its current state, with '
          'the arguments the model predicts, and at the end the model must be in a final state with the same FILES.')
BOUNDS = {'quick': 'all pairs of handlers out of 98 scripts (new_file: continue, stop the chain, skip, stop the upload; receive_data_chunk: pass, '
                   'consume, shorten, empty, skip or stop in the first or the second chunk; file_complete: nothing or a file), active for every file or only the first or '
                   'second; all triples out of 20 scripts; handle_raw_input and upload_complete results of up to 4 handlers; 3 bodies, contents in 1 or several chunks',
          'thorough': 'all pairs on all bodies, all triples out of 48 scripts'}
ASSUMPTIONS = ['how content is divided into chunks is not part of the protocol', 'handlers do not change their chunk_size while parsing',
               'SkipFile and StopUpload are raised by new_file or receive_data_chunk only', 'an empty list of handlers stands for the default ones']


class Bad(Exception):
    pass


class Model(object):
    """The state machine of one upload.  files: what is in the body; each is (field, args of new_file, content)."""

    def __init__(self, n, files, raw_args):
        self.n, self.files, self.raw_args = n, files, raw_args
        self.phase, self.i, self.f = 'raw', 0, -1
        self.result = []        # what FILES must hold
        self.uploads = 0
        if n == 0:
            self.phase = 'idle'

    def need(self, ok, what):
        if not ok:
            raise Bad('%s (in phase %s, file %d, handler %d)' % (what, self.phase, self.f, self.i))

    # every method: a call of handler i begins; then returned()/raised() with what it did
    def call(self, i, name, args):
        if name == 'raw':
            self.need(self.phase == 'raw' and i == self.i, 'handle_raw_input of handler %d' % i)
            self.need(args == self.raw_args, 'handle_raw_input%r instead of %r' % (args, self.raw_args))
        elif name == 'new':
            if self.phase in ('idle', 'recv', 'complete'):
                self.next_file()
            self.need(self.phase == 'new' and i == self.i, 'new_file of handler %d' % i)
            self.need(args == self.files[self.f][1], 'new_file%r instead of %r' % (args, self.files[self.f][1]))
        elif name == 'recv':
            if self.phase == 'new' and self.i == self.n:
                self.phase, self.i = 'recv', 0
            self.need(self.phase == 'recv' and i == self.i, 'receive_data_chunk of handler %d' % i)
            chunk, start = args
            if i == 0:
                content = self.files[self.f][2]
                self.need(content[self.got:self.got + len(chunk)] == chunk, 'chunk %r at %d of %r' % (chunk, self.got, content))
                self.got += len(chunk)
            else:
                self.need(chunk == self.passed, 'chunk %r, the handler before returned %r' % (chunk, self.passed))
            self.need(start == self.counters[i], 'start is %r instead of %r' % (start, self.counters[i]))
            self.counters[i] += len(chunk)
        elif name == 'complete':
            if self.phase == 'new' and self.i == self.n:
                self.phase, self.i = 'recv', 0
            if self.phase == 'recv':
                self.need(self.i == 0 and self.got == len(self.files[self.f][2]), 'file_complete before the end (%d bytes)' % self.got)
                self.phase, self.i = 'complete', 0
            self.need(self.phase == 'complete' and i == self.i, 'file_complete of handler %d' % i)
            self.need(args == (self.counters[i],), 'file_complete%r instead of %r' % (args, self.counters[i]))
        elif name == 'upload':
            if self.phase in ('idle', 'new', 'recv', 'complete'):
                self.end_of_files()
            self.need(self.phase == 'upload' and i == self.i, 'upload_complete of handler %d' % i)

    def file_finished(self):
        if self.phase == 'recv' or self.phase == 'new' and self.i == self.n:
            # a file without handlers that complete it still has to be completed by calls
            return False
        return self.phase in ('idle', 'done-file') or self.phase == 'complete' and self.i == self.n

    def next_file(self):
        self.need(self.file_finished(), 'the next file begins before the last one is complete')
        self.need(self.f + 1 < len(self.files), 'a file that was not sent')
        self.f += 1
        self.phase, self.i, self.got, self.counters = 'new', 0, 0, [0] * self.n

    def end_of_files(self):
        self.need(self.file_finished() and self.f + 1 == len(self.files), 'the upload ends after file %d of %d' % (self.f + 1, len(self.files)))
        self.phase, self.i = 'upload', 0

    def returned(self, name, v):
        if name == 'raw':
            if v is not None:
                self.phase = 'replaced'
            else:
                self.i += 1
                if self.i == self.n:
                    self.phase = 'idle'
        elif name == 'new':
            self.i += 1
        elif name == 'recv':
            self.passed = v
            self.i = 0 if v is None or self.i + 1 == self.n else self.i + 1
        elif name == 'complete':
            self.i += 1
            if v is not None:
                self.result.append((self.files[self.f][0], v))
                self.phase = 'idle'
            elif self.i == self.n:
                self.phase = 'idle'
        elif name == 'upload':
            self.i += 1
            if v or self.i == self.n:
                self.phase = 'end'

    def raised(self, name, e):
        if isinstance(e, StopFutureHandlers):
            self.i = self.n
        elif isinstance(e, SkipFile):
            self.phase = 'idle'
        elif isinstance(e, StopUpload):
            self.phase, self.i = 'upload', 0

    def final(self):
        if self.n == 0:
            return
        if self.phase == 'idle':
            self.end_of_files()
        self.need(self.phase in ('end', 'replaced'), 'the upload ends')


class Result(object):
    """a file object; it may be false"""

    def __init__(self, name, true):
        self.name, self.true = name, true

    def __nonzero__(self):
        return self.true

    def __repr__(self):
        return '<Result %s>' % self.name

    def close(self):
        pass


class Scripted(FileUploadHandler, object):
    def __init__(self, model, i, script, when):
        FileUploadHandler.__init__(self)
        self.model, self.i, self.script, self.when, self.file_no = model, i, script, when, -1
        self.steps = 0

    def act(self, name, args, what, chunk=None):
        self.steps += 1
        self.model.call(self.i, name, args)
        e = {'stop': StopFutureHandlers, 'skip': SkipFile}.get(what) if type(what) is str else None
        if type(what) is str and what in ('abort', 'reset'):
            e = StopUpload(connection_reset=True) if what == 'reset' else StopUpload()
        elif e is not None:
            e = e()
        if e is not None:
            self.model.raised(name, e)
            raise e
        self.model.returned(name, what)
        return what

    def now(self):
        f = self.model.f + (1 if self.model.phase in ('idle', 'complete') else 0)
        return self.when is None or self.when == f

    def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
        return self.act('raw', (META.get('X-Id'), content_length, boundary, settings.MAX_HEADER_SIZE), self.script.get('raw'))

    def new_file(self, *args, **kw):
        if kw:
            raise Bad('new_file is called with keywords %r' % kw)
        self.file_no += 1
        self.chunks = 0
        return self.act('new', args, self.script.get('new') if self.now() else None)

    def receive_data_chunk(self, raw_data, start):
        self.chunks = getattr(self, 'chunks', 0) + 1
        w = self.script.get('recv', 'pass') if self.when is None or self.when == self.model.f else 'none'
        if w in ('skip2', 'abort2', 'reset2', 'empty2', 'none2'):
            w = w[:-1] if start > 0 else 'pass'
        if w == 'pass':
            w = raw_data
        elif w == 'none':
            w = None
        elif w == 'short':
            w = raw_data[:len(raw_data) / 2]
        elif w == 'long':
            w = raw_data + '+' + raw_data
        elif w == 'empty':
            w = b''
        return self.act('recv', (raw_data, start), w)

    def file_complete(self, file_size):
        w = self.script.get('complete') if self.when is None or self.when == self.model.f else self.script.get('else')
        return self.act('complete', (file_size,), Result('%d/%d' % (self.i, self.model.f), self.model.f % 2 == 0) if w else None)

    def upload_complete(self):
        return self.act('upload', (), self.script.get('upload'))


def F(name, fn, content, ctype=None, cte=None, clen=None, pad=0):
    h = []
    if clen is not None:
        h.append('Content-Length: ' + clen)
    if pad:
        h.append('X: ' + 'h' * pad)
    main, extra = '', {}
    if ctype:
        main = ctype.split(';')[0]
        extra = dict(p.strip().split('=') for p in ctype.split(';')[1:])
    return (part(content, name, fn, ctype=ctype, cte=cte, headers=h),
            (name, (name, fn, main, int(clen) if clen and clen.isdigit() else None, extra.get('charset'), extra, cte), content))


LONG = ''.join(chr(33 + j % 90) for j in range(150)).replace('--B', '+++')
BODIES = [
    [F('a', 'x.txt', 'content-a'), (part('v', 'p'), None), F('b', 'y', 'content-b', 'text/plain; charset=utf-8', '8bit', '9')],
    [F('a', 'x', LONG, pad=940), F('b', 'y', LONG[::-1], pad=940)],
    [F('a', 'x', ''), (part('1', 'p'), None), F('a', 'y', 'q', 'a/b', None, 'bad'), (part('2', 'p'), None), F('a', 'z', '')],
    [F('a', 'x', 'one')],
    [(part('v', 'p'), None)],
    [],
]
TAIL = 'T' * 200


def run(x, bi, scripts, chunk_size=None, how='set'):
    """scripts: (script, when) for each handler"""
    body = BODIES[bi]
    raw_body = multipart([p[0] for p in body], epilogue='\r\n' + TAIL)
    raw = http(raw_body, mtype(), headers=['X-Id: 17'])
    files = [p[1] for p in body if p[1] is not None]
    fields = len([p for p in body if p[1] is None])
    s = settings(**{Settings.Key.MAX_HEADER_SIZE: 23})
    m = Model(len(scripts), files, ('17', len(raw_body), 'B', 23))
    hs = [Scripted(m, i, sc, w) for i, (sc, w) in enumerate(scripts)]
    for h in hs:
        if chunk_size:
            h.chunk_size = chunk_size
    r = HttpRequest(BytesIO(raw), s)
    if how == 'set':
        r.upload_handlers = hs
    elif how == 'insert':
        r.upload_handlers[:] = []
        del r.upload_handlers[:]
        for i, h in enumerate(hs):
            r.upload_handlers.insert(i, h)
            while len(r.upload_handlers) > i + 1:
                r.upload_handlers.pop()
    o = attempt(r.parse)
    x.did(sum(h.steps for h in hs))
    why = 'handlers %r, body %d, chunk size %r' % (scripts, bi, chunk_size)
    if o[0] != 'ok':
        x.fail('%s: %r' % (why, o[1:]), raw[:600])
        return
    try:
        m.final()
    except Bad as e:
        x.fail('%s: %s' % (why, e), raw[:600])
        return
    if m.phase != 'replaced':
        want = {}
        for name, v in m.result:
            want.setdefault(name, []).append(v)
        if lists(r.FILES) != sorted(want.items()):
            x.fail('%s: FILES %r, the handlers gave %r' % (why, lists(r.FILES), m.result), raw[:600])
        stopped = m.f + 1 < len(files)
        if not stopped and not any(sc.get(k) in ('abort', 'reset', 'abort2', 'reset2') for sc, w in scripts for k in ('new', 'recv')):
            x.eq(len(r.POST.getlist('p')), fields, why + ': fields')
    x.outcome((m.phase, m.f, len(m.result), [h.steps for h in hs]))
    return r


def scripts(news, recvs, completes=(0, 1)):
    return [{'new': n, 'recv': v, 'complete': c} for n in news for v in recvs for c in completes]


def reduce_(ss):
    # a handler that ends the file in new_file never gets to the rest
    return [s for s in ss if s['new'] not in ('skip', 'abort', 'reset') or s['recv'] == 'pass']


ALL = reduce_(scripts((None, 'stop', 'skip', 'abort', 'reset'), ('pass', 'none', 'short', 'long', 'empty', 'skip', 'abort', 'reset', 'skip2', 'abort2', 'reset2', 'empty2', 'none2')))
FEW = reduce_(scripts((None, 'stop', 'skip'), ('pass', 'none', 'short', 'abort'), (0, 1)))
MORE = reduce_(scripts((None, 'stop', 'skip', 'abort'), ('pass', 'none', 'short', 'empty', 'skip', 'abort2'), (0, 1)))


def u_single(x, i, bi):
    for when in (None, 0, 1):
        for cs in (None, 16):
            run(x, bi, [(ALL[i], when)], cs)
    run(x, bi, [(ALL[i], None)], 1000, 'insert')


def u_pair(x, i, bi, cs):
    for b in ALL:
        whens = [(None, None)]
        if x.thorough or bi == 0:
            whens += [(0, None), (None, 1), (1, 0)]
        for wa, wb in whens:
            run(x, bi, [(ALL[i], wa), (b, wb)], cs)
    x.step()


def u_triple(x, i, j, bi, cs):
    T = MORE if x.thorough else FEW
    for c in T:
        run(x, bi, [(T[i], None), (T[j], None), (c, None)], cs)
    x.step()


def u_raw(x, n, k, up):
    """handler k replaces parsing (k == n: none does)"""
    post, files = MultiValueDict({'from': ['handler']}), MultiValueDict({'file': [Result('r', True)]})
    for bi, p, fs in ((0, post, files), (3, post, files), (4, post, files), (0, None, files), (0, post, None), (3, None, None), (3, MultiValueDict(), MultiValueDict())):
        raw_result(x, n, k, up, bi, p, fs)


def raw_result(x, n, k, up, bi, post, files):
    ss = []
    for i in range(n):
        ss.append(({'raw': (post, files, i) if i >= k else None, 'recv': 'pass', 'complete': 1, 'upload': up[i] if i < len(up) else None}, None))
    for how in ('set', 'insert'):
        r = run(x, bi, ss, how=how)
        if r is not None and k < n:
            if r.POST is not post or r.FILES is not files:
                x.fail('the objects %r, %r given by handle_raw_input of handler %d of %d are not used' % (post, files, k, n))


def u_upload(x, ups):
    for bi in (0, 2, 3, 4):
        for sc in ({'recv': 'none', 'complete': 1}, {'recv': 'pass', 'complete': 0}, {'new': 'abort'}, {'new': 'skip'}):
            run(x, bi, [(dict(sc, upload=u), None) for u in ups])


def u_consume(x, what, where, size, cs):
    """StopUpload uses up the body unless the connection is to be reset; everything else always does"""
    big = 'z' * size
    raw = mhttp([part('0123', 'a', 'n'), part('w', 'p'), part('4567', 'a', 'm'), part(big, 'a', 'o')])
    for delivery in ([raw], every(raw, 4096), every(raw, 100)):
        st = Chunks(delivery)
        m = Model(1, [('a', ('a', fn, '', None, None, {}, None), c) for fn, c in (('n', '0123'), ('m', '4567'), ('o', big))],
                  (None, len(raw) - raw.find('\r\n\r\n') - 4, 'B', 23))
        h = Scripted(m, 0, {'new': what, 'recv': 'none', 'else': 1} if where == 'new' else {'recv': what, 'else': 1}, 1)
        if cs:
            h.chunk_size = cs
        r = HttpRequest(st, settings(**{Settings.Key.MAX_HEADER_SIZE: 23}))
        r.upload_handlers = [h]
        o = attempt(r.parse)
        x.did(h.steps)
        why = '%s in %s, %d bytes to come' % (what, where, size)
        if o[0] != 'ok':
            x.fail('%s: %r' % (why, o))
            continue
        try:
            m.final()
        except Bad as e:
            x.fail('%s: %s' % (why, e))
        rest = r.read()
        if what == 'reset':
            if not rest and size > 200000:
                x.fail('%s: the body is used up in spite of connection_reset' % why)
        else:
            x.eq((st.pos, rest), (len(raw), ''), why + ': left in the stream')
        names = [f.name for f in r.FILES.getlist('a')]
        x.eq(names, ['0/0', '0/2'] if what == 'skip' else ['0/0'], why + ': files')
    x.step()


def u_own(x, k):
    """the handlers set on a request are the ones used, and can be set only before the upload"""
    d = x.dir()
    s = settings(**{Settings.Key.FILE_UPLOAD_DIR: d})
    raw = mhttp([part('data', 'f', 'n'), part('v', 'p')])
    for hs, want in (([TemporaryFileUploadHandler()], 'disk'), ([MemoryFileUploadHandler()], 'memory'), ([ConvenientFileUploadHandler()], 'memory'),
                     ([TemporaryFileUploadHandler(), MemoryFileUploadHandler()], 'disk'), ([MemoryFileUploadHandler(), TemporaryFileUploadHandler()], 'memory')):
        r = HttpRequest(BytesIO(raw), s)
        if k == 1:
            r.parse_request_header()
        elif k == 2:
            r.upload_handlers
        elif k == 3:
            r.parse_request_header()
            r.body()
        r.upload_handlers = hs
        if r.upload_handlers is not hs and list(r.upload_handlers) != hs:
            x.fail('upload_handlers gives %r instead of %r' % (r.upload_handlers, hs))
        r.parse()
        x.did(1)
        x.eq(file_view(r.FILES['f'])[0], want, 'handlers %r' % hs)
        o = attempt(setattr, r, 'upload_handlers', [MemoryFileUploadHandler()])
        if o[0] == 'ok' or not isinstance(o[2], AttributeError):
            x.fail('the handlers can be set after the upload: %r' % (o,))
        r.close()
        x.eq(os.listdir(d), [], 'after close')
    # the default ones
    r = parse(raw, s)
    x.eq([type(h).__name__ for h in r.upload_handlers], ['ConvenientFileUploadHandler'], 'default handlers')
    q = parse(raw, s)
    if r.upload_handlers[0] is q.upload_handlers[0]:
        x.fail('two requests share a handler')


def units(x):
    for bi in range(len(BODIES)):
        for i in range(len(ALL)):
            yield ('single', i, bi)
    for i in range(len(ALL)):
        for bi, cs in ((0, None), (1, 16), (2, None)) if not x.thorough else [(b, c) for b in range(4) for c in (None, 16, 100)]:
            yield ('pair', i, bi, cs)
    n = len(MORE if x.thorough else FEW)
    for i in range(n):
        for j in range(n):
            yield ('triple', i, j, 0, None)
            if x.thorough:
                yield ('triple', i, j, 1, 30)
    for n in range(1, 5):
        for k in range(0, n + 1):
            yield ('raw', n, k, ())
            yield ('raw', n, k, (1,))
    for n in range(1, 5):
        for ups in product((None, 0, 1), repeat=n):
            yield ('upload', ups)
    for what in ('abort', 'reset', 'skip'):
        for where in ('new', 'recv'):
            for size in (0, 1, 100, 5000, 70000, 300000):
                for cs in (None, 4096):
                    yield ('consume', what, where, size, cs)
    for k in range(4):
        yield ('own', k)
