# -*- coding: utf-8 -*-
"""The environment the code under test runs in, and what can be observed of it (public API only)."""
import os, sys
from io import BytesIO
from itertools import product, combinations, permutations

import tempfile


class TempFiles(object):
    """Temporary files as the code under test gets them from the system: recorded, and with faults on demand."""
    real = staticmethod(tempfile.NamedTemporaryFile)
    created = []
    create_fault = write_fault = None       # number of the creation / write that fails
    creates = writes = 0
    error = None

    @classmethod
    def reset(cls, create_fault=None, write_fault=None, error=None):
        cls.created = []
        cls.creates = cls.writes = 0
        cls.create_fault, cls.write_fault, cls.error = create_fault, write_fault, error

    @classmethod
    def create(cls, *a, **k):
        cls.creates += 1
        if cls.create_fault == cls.creates:
            raise cls.error
        f = cls.real(*a, **k)
        cls.created.append(f)
        if cls.write_fault is not None:
            write = f.write

            def failing(data):
                cls.writes += 1
                if cls.writes == cls.write_fault:
                    raise cls.error
                return write(data)
            f.write = failing
        elif len(cls.created) > 200:
            del cls.created[:100]
        return f


tempfile.NamedTemporaryFile = TempFiles.create

from request_parser.conf.settings import Settings, InvalidDirectory
from request_parser.http.request import (
    HttpRequest, QueryDict, InvalidHttpRequest, NoHostFoundException, RawPostDataException,
    RequestHeaderParseException, UnreadablePostError, split_domain_port, parse_request_headers, parse_request_line)
from request_parser.http.multipartparser import MultiPartParser, MultiPartParserError, parse_header
from request_parser.exceptions.exceptions import (
    SuspiciousOperation, SuspiciousMultipartForm, TooManyFieldsSent, RequestDataTooBig, InputStreamExhausted)
from request_parser.files.uploadhandler import (
    FileUploadHandler, TemporaryFileUploadHandler, MemoryFileUploadHandler, ConvenientFileUploadHandler,
    SkipFile, StopUpload, StopFutureHandlers)
from request_parser.files.uploadedfile import (
    UploadedFile, TemporaryUploadedFile, InMemoryUploadedFile, SimpleUploadedFile)
from request_parser.utils.datastructures import (
    MultiValueDict, ImmutableMultiValueDict, ImmutableList, LazyStream, ChunkIter, MultiValueDictKeyError)

CRLF = '\r\n'
REQ_HEADERS, QUERY_STRING = 'REQUEST_HEADERS', 'QUERY_STRING'

# most specific first
DOCUMENTED = [
    InvalidHttpRequest, NoHostFoundException, MultiPartParserError, TooManyFieldsSent, RequestDataTooBig,
    SuspiciousMultipartForm, SuspiciousOperation, UnreadablePostError, RawPostDataException,
    RequestHeaderParseException, UnicodeError, IOError]


class Fault(IOError):
    """The I/O error of the environment."""


class Chunks(object):
    """An input stream (iterable and file-like) that delivers its bytes in the given chunks.
    With fault_at=k it fails instead of delivering chunk number k (and at every later attempt)."""

    def __init__(self, chunks, fault_at=None, fault=None):
        self.chunks = [c for c in chunks if c]
        self.i = 0
        self.cur = b''
        self.pos = 0            # bytes delivered
        self.fault_at = fault_at
        self.fault = fault
        self.faults = 0

    def _fill(self):
        if not self.cur:
            if self.fault_at is not None and self.i >= self.fault_at:
                self.faults += 1
                raise self.fault if self.fault is not None else Fault(5, 'injected')
            if self.i < len(self.chunks):
                self.cur = self.chunks[self.i]
                self.i += 1

    def __iter__(self):
        return self

    def next(self):
        self._fill()
        c, self.cur = self.cur, b''
        if not c:
            raise StopIteration()
        self.pos += len(c)
        return c

    def read(self, size=-1, *a):
        if size is None or size < 0:
            out = []
            while True:
                self._fill()
                if not self.cur:
                    break
                out.append(self.cur)
                self.pos += len(self.cur)
                self.cur = b''
            return b''.join(out)
        if size == 0:
            return b''
        self._fill()
        c, self.cur = self.cur[:size], self.cur[size:]
        self.pos += len(c)
        return c

    def readline(self, *a):
        out = []
        while True:
            self._fill()
            if not self.cur:
                break
            k = self.cur.find(b'\n') + 1 or len(self.cur)
            out.append(self.cur[:k])
            self.pos += k
            self.cur = self.cur[k:]
            if out[-1][-1:] == b'\n':
                break
        return b''.join(out)

    def close(self):
        pass


def cut(data, points):
    """The chunks of data cut at the given positions."""
    out, a = [], 0
    for p in points:
        out.append(data[a:p])
        a = p
    out.append(data[a:])
    return [c for c in out if c]


def every(data, n):
    return [data[i:i + n] for i in range(0, len(data), n)]


def compositions(n):
    """Every way of cutting n bytes."""
    for mask in xrange(1 << max(0, n - 1)):
        yield [i + 1 for i in range(n - 1) if mask >> i & 1]


def strings(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in product(alphabet, repeat=n):
            yield ''.join(t)


def kind(e):
    for c in DOCUMENTED:
        if isinstance(e, c):
            return c.__name__
    return 'UNDOCUMENTED ' + type(e).__name__ if isinstance(e, BaseException) else 'UNDOCUMENTED ' + repr(type(e))


def attempt(fn, *a, **k):
    """('ok', value) or ('raised', documented class, exception).  Java errors count, too."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('raised', kind(e), e)
    except:
        from core import Stop
        e = sys.exc_info()[1]
        if isinstance(e, (Stop, KeyboardInterrupt, SystemExit)):
            raise
        return ('raised', 'UNDOCUMENTED ' + str(type(e)), e)


def file_view(f):
    f.seek(0)
    content = f.read()
    return ('disk' if isinstance(f, TemporaryUploadedFile) else 'memory' if isinstance(f, InMemoryUploadedFile) else type(f).__name__,
            f.name, f.size, f.content_type, f.charset, f.content_type_extra, f.transfer_encoding, content)


def lists(d):
    return sorted((k, list(v)) for k, v in d.lists())


def files_view(d):
    return sorted((k, [file_view(f) for f in v]) for k, v in d.lists())


def header_view(r):
    h = r.META.get(REQ_HEADERS)
    return (r.method, r.scheme, r.host, r.port, r.path, r.protocol_info, r.content_type, r.encoding,
            r.META.get(QUERY_STRING), lists(h) if h is not None else None, lists(r.GET))


def body_view(r):
    return (lists(r.POST), files_view(r.FILES))


def text_body(r):
    """What body() says of a request whose body was parsed (None where it may not be asked)."""
    o = attempt(r.body)
    return o[:2]


def view(r):
    return (header_view(r), body_view(r), text_body(r))


_settings = {}


def settings(**kw):
    """A Settings object (one for each combination of values)."""
    key = tuple(sorted(kw.items()))
    s = _settings.get(key)
    if s is None:
        s = _settings[key] = Settings(dict(kw)) if kw else Settings.default()
    return s


def http(body='', ctype=None, target='/', method='POST', headers=(), length=True, host='h'):
    h = ['%s %s HTTP/1.1' % (method, target), 'Host: ' + host]
    if ctype is not None:
        h.append('Content-Type: ' + ctype)
    if length is True:
        h.append('Content-Length: %d' % len(body))
    elif length is not None and length is not False:
        h.append('Content-Length: %s' % length)
    h.extend(headers)
    return CRLF.join(h) + CRLF + CRLF + body


FORM = 'application/x-www-form-urlencoded'
B = 'B'


def mtype(b=B):
    return 'multipart/form-data; boundary=' + b


def part(content='', name='f', filename=None, ctype=None, cte=None, headers=(), b=B, disp=None):
    if disp is None:
        disp = 'form-data'
        if name is not None:
            disp += '; name="%s"' % name
        if filename is not None:
            disp += '; filename="%s"' % filename
    h = ['Content-Disposition: ' + disp]
    if ctype is not None:
        h.append('Content-Type: ' + ctype)
    if cte is not None:
        h.append('Content-Transfer-Encoding: ' + cte)
    h.extend(headers)
    return '--' + b + CRLF + CRLF.join(h) + CRLF + CRLF + content + CRLF


def multipart(parts, b=B, preamble='', epilogue=CRLF):
    return preamble + ''.join(parts) + '--' + b + '--' + epilogue


def mhttp(parts, b=B, preamble='', epilogue=CRLF, **kw):
    return http(multipart(parts, b, preamble, epilogue), mtype(b), **kw)


def field_value(data, ctype='', cte='', extra=None):
    return {'data': data, 'content-type': ctype, 'transfer-encoding': cte, 'content-type-extra': extra or {}}


def parse(raw, s=None, handlers=None, chunk_size=None, call='parse'):
    """A request parsed from raw (bytes, or a stream)."""
    r = HttpRequest(BytesIO(raw) if isinstance(raw, bytes) else raw, s if s is not None else settings())
    if handlers is not None:
        r.upload_handlers = [h(r) if callable(h) else h for h in handlers]
    if chunk_size is not None:
        if handlers is None:
            r.upload_handlers = [ConvenientFileUploadHandler(r)]
        for h in r.upload_handlers:
            h.chunk_size = chunk_size
    if call:
        getattr(r, call)()
    return r


def outcome(raw, s=None, **kw):
    """view() of the parsed request, or the kind of exception."""
    holder = []

    def go():
        r = parse(raw, s, call=None, **kw)
        holder.append(r)
        r.parse()
        return view(r)
    o = attempt(go)
    if holder:
        attempt(holder[0].close)
    return o[:2]


class Preempt(object):
    """Runs fn(); when it has come to the given lines of the code under test (numbered as they are executed), the other functions run, one after another.
    What other threads do between two lines is explored by taking every line."""

    def __init__(self, fn, *stops):
        self.fn, self.stops, self.lines = fn, dict(stops), 0
        self.trail = None if stops else []
        self.repo = os.environ.get('VERIF_REPO', '/repo')

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.repo):
            return None
        if event == 'line':
            self.lines += 1
            if self.trail is not None:
                self.trail.append((frame.f_code.co_filename, frame.f_lineno))
                return self._trace
            other = self.stops.pop(self.lines, None)
            if other is not None:
                sys.settrace(None)
                try:
                    other()
                finally:
                    if self.stops:
                        sys.settrace(self._trace)
        return self._trace if self.stops or self.trail is not None else None

    def run(self):
        sys.settrace(self._trace)
        try:
            return self.fn()
        finally:
            sys.settrace(None)


def count_lines(fn):
    p = Preempt(fn)
    p.run()
    return p.lines


def turning_points(fn, times=2):
    """Of every line that fn() executes its first and last execution (and with times > 2, those after the first)."""
    p = Preempt(fn)
    p.run()
    at = {}
    for i, where in enumerate(p.trail):
        at.setdefault(where, []).append(i + 1)
    out = set()
    for v in at.values():
        out.update(v[:times - 1] + v[-1:])
    return sorted(out)
