# -*- coding: utf-8 -*-
"""C10: a failed or stopped upload leaves nothing behind."""
from env import *

ORACLE = ('After every failure the upload directory must be empty and every temporary file that was created closed; after a stop it must hold exactly the '
          'complete files, which must have their content and go away with close().  The exception seen must be the very one that was raised.')
BOUNDS = {'quick': '12 handler configurations x 4 bodies x every failure point: every call of every handler method, before and after it did its work, x 9 '
                   'exceptions; every chunk of the input as I/O error in 3 deliveries; every creation of and every write to a temporary file; '
                   'malformed base64 in every file; every value of both limits; every truncation point',
          'thorough': 'all pairs of a SkipFile and a later failure as well, 5 deliveries, chunk sizes 1..64'}
ASSUMPTIONS = ['handlers keep the file they receive in their attribute file (documented in _close_files)', 'the exceptions are subclasses of Exception']

K = Settings.Key
_dir = []


def scratch(x):
    if not _dir:
        _dir.append(x.dir())
    return _dir[0]


class Plan(object):
    """Which call is to fail."""

    def __init__(self, at=None, before=True, error=None, second=None):
        self.at, self.before, self.error, self.second = at, before, error, second
        self.n = 0
        self.complete = []          # (field, name) of the files completed
        self.current = None
        self.skipping = False
        self.log = []

    def now(self, before):
        if before:
            self.n += 1
        if self.n == self.at and before == self.before:
            e = self.error
            if self.second:
                self.at, self.before, self.error = self.second
                self.second = None
            raise e


def hooked(base, plan, i):
    class Hooked(base, object):
        inside = False

        def handle_raw_input(self, *a, **k):
            plan.log.append('raw')
            plan.now(True)
            r = base.handle_raw_input(self, *a, **k)
            plan.now(False)
            return r

        def new_file(self, field, name, *a, **k):
            plan.log.append('new')
            plan.current = (field, name)
            plan.now(True)
            try:
                base.new_file(self, field, name, *a, **k)
            except StopFutureHandlers:
                plan.now(False)
                raise
            plan.now(False)

        def receive_data_chunk(self, data, start):
            plan.log.append('recv')
            plan.now(True)
            self.inside = True
            try:
                r = base.receive_data_chunk(self, data, start)
            finally:
                self.inside = False
            plan.now(False)
            return r

        def file_complete(self, size):
            if self.inside:         # the handler calls itself
                return base.file_complete(self, size)
            plan.log.append('complete')
            plan.now(True)
            r = base.file_complete(self, size)
            plan.now(False)
            if r is not None:
                plan.complete.append(plan.current)
            return r

        def upload_complete(self):
            plan.log.append('upload')
            plan.now(True)
            r = base.upload_complete(self)
            plan.now(False)
            return r
    return Hooked()


class Watch(FileUploadHandler, object):
    """looks at the data only"""

    def receive_data_chunk(self, data, start):
        return data

    def file_complete(self, size):
        return None


T, M, C, W = TemporaryFileUploadHandler, MemoryFileUploadHandler, ConvenientFileUploadHandler, Watch
# (handlers, memory limit)
SETS = [([T], 0), ([C], 3), ([C], 0), ([C], 8), ([C], 1000), ([M, T], 1 << 20), ([M, T], 1), ([W, T], 0), ([T, W], 0), ([W, C], 3), ([C, W], 8), ([W, M, T], 1)]
A64 = 'QUJDREVG'
BODIES = [
    [('f', 'a', 'data1', None), ('f', 'b', 'data22', None), ('g', 'c', '', None), (None, 'p', 'v', None), ('f', 'd', 'z' * 9, None)],
    [('f', 'a', '', None), ('f', 'b', A64, 'base64'), ('f', 'c', 'x' * 9, None)],
    [(None, 'p', '1', None), ('f', 'only', 'content', None)],
    [('f', 'a', 'long' * 30, 'pad'), ('f', 'b', 'long' * 40, 'pad')],
]


def body(bi, bad=None):
    ps = []
    for j, (field, name, data, cte) in enumerate(BODIES[bi]):
        if field is None:
            ps.append(part(data, name))
        else:
            if bad == j:
                data, cte = A64 + 'Q', 'base64'
            ps.append(part(data, field, name, cte=cte if cte == 'base64' else None, headers=['X: ' + 'h' * 955] if cte == 'pad' else ()))
    return ps


def data_of(bi):
    return dict((name, 'ABCDEF' if cte == 'base64' else data) for field, name, data, cte in BODIES[bi] if field is not None)


def run(x, stream, si, plan, why, cs=None, kw=None):
    hs, limit = SETS[si]
    d = scratch(x)
    st = {K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: limit}
    st.update(kw or {})
    r = HttpRequest(stream, settings(**st))
    r.upload_handlers = [hooked(h, plan, i) for i, h in enumerate(hs)]
    if cs:
        for h in r.upload_handlers:
            h.chunk_size = cs
    TempFiles.reset(TempFiles.create_fault, TempFiles.write_fault, TempFiles.error)
    o = attempt(r.parse)
    x.did(len(plan.log))
    x.outcome((o[0], str(o[1])[:30] if o[0] != 'ok' else '', plan.log))
    return r, o, d


def leaves_nothing(x, r, o, d, why):
    left = os.listdir(d)
    if left:
        x.fail('%s: %r leaves %r' % (why, o[1:], left))
        for n in left:
            os.unlink(os.path.join(d, n))
    for f in TempFiles.created:
        if not is_closed(f):
            x.fail('%s: %r leaves the file %r open' % (why, o[1:], f))
    c = attempt(r.close)
    if c[0] != 'ok':
        x.fail('%s: close() afterwards fails: %r' % (why, c))


def is_closed(f):
    f = getattr(f, 'file', f)
    return f.closed


def keeps_complete(x, r, d, bi, plan, why):
    """exactly the complete files are there"""
    want = {}
    for field, name in plan.complete:
        want.setdefault(field, []).append((name, data_of(bi)[name]))
    got = {}
    paths = set()
    for k, v in lists(r.FILES):
        for f in v:
            if f.closed:
                x.fail('%s: the complete file %s is closed' % (why, f.name))
                continue
            got.setdefault(k, []).append((f.name, file_view(f)[7]))
            if isinstance(f, TemporaryUploadedFile):
                paths.add(f.temporary_file_path())
    if got != want:
        x.fail('%s: FILES %r, complete were %r' % (why, got, want))
    there = set(os.path.join(d, n) for n in os.listdir(d))
    if there != paths:
        x.fail('%s: the directory holds %r, the request %r' % (why, sorted(there), sorted(paths)))
    for f in TempFiles.created:
        if not is_closed(f) and f.name not in paths:
            x.fail('%s: an incomplete file stays open' % why)
    r.close()
    left = os.listdir(d)
    if left:
        x.fail('%s: close() leaves %r' % (why, left))
        for n in left:
            os.unlink(os.path.join(d, n))
    for f in TempFiles.created:
        if not is_closed(f):
            x.fail('%s: close() leaves a file open' % why)


def error(k):
    return {'value': ValueError('v'), 'io': IOError(28, 'full'), 'parser': MultiPartParserError('p'), 'key': KeyError('k'), 'os': OSError(28, 'full'),
            'big': RequestDataTooBig('b'), 'unicode': UnicodeDecodeError('ascii', b'x', 0, 1, 'r'), 'own': Own(1, 2), 'skip': SkipFile(), 'stop': StopUpload(),
            'reset': StopUpload(connection_reset=True)}[k]


class Own(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, a, b)


ERRORS = ('value', 'io', 'parser', 'key', 'own', 'big', 'unicode')
_calls = {}


def calls(x, si, bi, cs):
    """the calls of an undisturbed upload"""
    if (si, bi, cs) not in _calls:
        plan = Plan()
        r, o, d = run(x, BytesIO(mhttp(body(bi))), si, plan, '', cs)
        if o[0] != 'ok':
            x.fail('handlers %d, body %d: %r' % (si, bi, o))
        n = len([1 for p in BODIES[bi] if p[0] is not None])
        if len(plan.complete) != n or r.FILES.getlist('f') == []:
            x.fail('handlers %d, body %d: %d of %d files' % (si, bi, len(plan.complete), n))
        keeps_complete(x, r, d, bi, plan, 'undisturbed, handlers %d, body %d' % (si, bi))
        _calls[si, bi, cs] = list(plan.log)
    return _calls[si, bi, cs]


def u_call(x, si, bi, before, cs):
    log = calls(x, si, bi, cs)
    for at in range(1, len(log) + 1):
        for k in ERRORS + (('skip', 'stop', 'reset') if log[at - 1] in ('new', 'recv') else ()):
            e = error(k)
            plan = Plan(at, before, e)
            why = 'handlers %r, body %d: %s %s call %d (%s)' % ([h.__name__ for h in SETS[si][0]], bi, k, 'before' if before else 'after', at, log[at - 1])
            r, o, d = run(x, BytesIO(mhttp(body(bi))), si, plan, why, cs)
            if k in ('skip', 'stop', 'reset'):
                if o[0] != 'ok':
                    x.fail('%s: %r' % (why, o))
                keeps_complete(x, r, d, bi, plan, why)
            else:
                if o[0] == 'ok' or o[2] is not e and (type(o[2]) is not type(e) or o[2].args != e.args):
                    x.fail('%s: the caller sees %r instead of %r' % (why, o[1:], e))
                leaves_nothing(x, r, o, d, why)
    x.step()


def u_skip_then(x, si, bi, first, cs):
    """SkipFile or nothing at call number `first`, then a failure at every later call"""
    log = calls(x, si, bi, cs)
    if first > len(log) or log[first - 1] not in ('new', 'recv'):
        return
    for b1 in (True, False):
        for at in range(first + 1, len(log) + 3):
            for k in ('value', 'stop', 'skip'):
                for b2 in (True, False):
                    e = error(k)
                    plan = Plan(first, b1, SkipFile(), second=(at, b2, e))
                    why = 'handlers %d, body %d: SkipFile at call %d (%s), %s at call %d (%s)' % (si, bi, first, b1, k, at, b2)
                    r, o, d = run(x, BytesIO(mhttp(body(bi))), si, plan, why, cs)
                    if o[0] == 'ok':
                        if k == 'value' and plan.n > at:
                            x.fail('%s: the error is lost' % why)
                        keeps_complete(x, r, d, bi, plan, why)
                    elif k != 'value' and (plan.log[at - 1] in ('new', 'recv') or o[2] is not e):
                        x.fail('%s: %r' % (why, o))
                    else:
                        leaves_nothing(x, r, o, d, why)
    x.step()


def u_fault(x, si, bi, p, cs):
    """the input fails at every chunk"""
    raw = mhttp(body(bi))
    chunks = every(raw, p)
    head = raw.find('\r\n\r\n') / p
    for k in range(max(0, head - 2), len(chunks)):
        e = Fault(5, 'injected')
        plan = Plan()
        why = 'handlers %d, body %d: I/O error at chunk %d of %d bytes' % (si, bi, k, p)
        r, o, d = run(x, Chunks(chunks, fault_at=k, fault=e), si, plan, why, cs)
        if o[0] == 'ok' or not isinstance(o[2], IOError):
            x.fail('%s: %r' % (why, o))
        leaves_nothing(x, r, o, d, why)
    x.step()


def u_disk(x, si, bi, what, cs):
    """temporary files that cannot be created or written"""
    k = 1
    while True:
        e = (IOError if k % 2 else OSError)(28, 'No space left on device')
        TempFiles.create_fault, TempFiles.write_fault, TempFiles.error = (k, None, e) if what == 'create' else (None, k, e)
        plan = Plan()
        why = 'handlers %d, body %d: %s of a temporary file, number %d' % (si, bi, what, k)
        try:
            r, o, d = run(x, BytesIO(mhttp(body(bi))), si, plan, why, cs)
            met = (TempFiles.creates if what == 'create' else TempFiles.writes) >= k
        finally:
            TempFiles.create_fault = TempFiles.write_fault = None
        if not met:
            keeps_complete(x, r, d, bi, plan, why)
            break
        if o[0] == 'ok' or o[2] is not e and (type(o[2]) is not type(e) or o[2].args != e.args):
            x.fail('%s: the caller sees %r' % (why, o[1:]))
        leaves_nothing(x, r, o, d, why)
        k += 1
    x.step()


def u_malformed(x, si, bi, cs):
    for j in range(len(BODIES[bi])):
        if BODIES[bi][j][0] is None:
            continue
        why = 'handlers %d, body %d: part %d is not base64' % (si, bi, j)
        r, o, d = run(x, BytesIO(mhttp(body(bi, j))), si, Plan(), why, cs)
        if o[1] != 'MultiPartParserError':
            x.fail('%s: %r' % (why, o[1:]))
        leaves_nothing(x, r, o, d, why)


def u_limit(x, si, bi, extra):
    """fields beyond the limit after, before and between the files"""
    ps = body(bi)
    for pos in range(len(ps) + 1):
        qs = ps[:pos] + [part('12345', 'q')] * extra + ps[pos:]
        own = len([1 for p in BODIES[bi] if p[0] is None])
        for kw in ({K.DATA_UPLOAD_MAX_FIELDS: n} for n in range(0, own + extra)):
            why = 'handlers %d, body %d: %r with %d fields at %d' % (si, bi, kw, extra, pos)
            r, o, d = run(x, BytesIO(mhttp(qs)), si, Plan(), why, None, kw)
            if o[1] != 'TooManyFieldsSent':
                x.fail('%s: %r' % (why, o[1:]))
            leaves_nothing(x, r, o, d, why)
        for n in range(0, 8 * extra, 3):
            kw = {K.DATA_UPLOAD_MAX_MEMORY: n}
            why = 'handlers %d, body %d: %r with %d fields at %d' % (si, bi, kw, extra, pos)
            r, o, d = run(x, BytesIO(mhttp(qs)), si, Plan(), why, None, kw)
            if o[1] != 'RequestDataTooBig':
                x.fail('%s: %r' % (why, o[1:]))
            leaves_nothing(x, r, o, d, why)
    x.step()


def u_truncated(x, si, bi, cs):
    b = multipart(body(bi))
    raw = http(b, mtype())
    for t in range(len(raw) - len(b), len(raw), 1 if len(b) < 600 else 7):
        plan = Plan()
        why = 'handlers %d, body %d: cut at %d' % (si, bi, t)
        r, o, d = run(x, BytesIO(raw[:t]), si, plan, why, cs)
        if o[0] != 'ok':
            leaves_nothing(x, r, o, d, why)
        else:
            keeps_complete(x, r, d, bi, plan, why)
    x.step()


def units(x):
    sets = range(len(SETS))
    for si in sets:
        for bi in range(len(BODIES)):
            sizes = (None, 16) if bi == 3 else (None,) if not x.thorough else (None, 1, 3, 64)
            for cs in sizes:
                for before in (True, False):
                    yield ('call', si, bi, before, cs)
                for what in ('create', 'write'):
                    yield ('disk', si, bi, what, cs)
                yield ('malformed', si, bi, cs)
                for p in (1, 7, 40, 100, 4096) if x.thorough else (5, 40) if bi < 3 else (40, 100):
                    yield ('fault', si, bi, p, cs)
                yield ('truncated', si, bi, cs)
            for extra in (1, 2):
                yield ('limit', si, bi, extra)
    for si in sets:
        for bi in range(len(BODIES)):
            for first in range(1, 60 if x.thorough else 20):
                if x.thorough or bi in (1, 2) or bi == 0 and si % 3 == 0:
                    yield ('skip_then', si, bi, first, None if bi < 3 else 16)
