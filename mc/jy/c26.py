# -*- coding: utf-8 -*-
"""C26: File and ContentFile."""
import io, shutil
from env import *
from request_parser.files.base import File, ContentFile

ORACLE = ('A content and a position in it, which every operation changes as it does those of a file; what is wrapped is looked at directly, too.  Names, modes and '
          'the state of being closed are those the file was made with.')
BOUNDS = {'quick': 'all sequences of 3 of 22 operations (reading, seeking, writing, size, pieces, lines, closing and opening) on 12 kinds of files with 5 contents, of 4 of 10 operations; sizes of all lengths '
                   'up to 40 from every position; 12 names x 9 kinds; 12 modes; what 14 kinds of wrapped objects can do',
          'thorough': 'sequences of 4 of 22 and of 5 of 10 operations'}
ASSUMPTIONS = ['what was written is flushed before the size of a file on disk is asked for', 'a file is read or written from a position in it or at its end',
               'a wrapped file that changes is not one that its wrapper has the size of (content files excepted)']

_d = []


def scratch(x):
    if not _d:
        _d.append(x.dir())
    return _d[0]


def path(x, c, name='some.txt'):
    p = os.path.join(scratch(x), name)
    h = open(p, 'wb')
    h.write(c)
    h.close()
    return p


class Sized(BytesIO):
    """its size is known without looking"""

    def __init__(self, c):
        BytesIO.__init__(self, c)

    @property
    def size(self):
        return len(self.getvalue())

    def seek(self, pos, whence=0):
        if whence == 2 and pos == 0:
            self.ends = getattr(self, 'ends', 0) + 1
        return BytesIO.seek(self, pos, whence)


class Named(BytesIO):
    """its name is not that of a file, and of no use in asking for the size"""
    name = '/no/such/file'


class Numbered(BytesIO):
    name = 7


def temp(x, c):
    t = TempFiles.real(dir=scratch(x))
    t.write(c)
    t.flush()
    t.seek(0)
    return t


# name: (makes (file, wrapped), writable, closes, name of the file, can be opened again)
KINDS = [
    ('File(BytesIO)', lambda x, c: File(BytesIO(c)), True, True, None, False),
    ('File(BytesIO, n)', lambda x, c: File(BytesIO(c), 'n'), True, True, 'n', False),
    ('File(File(BytesIO))', lambda x, c: File(File(BytesIO(c))), True, True, None, False),
    ('File(Sized)', lambda x, c: File(Sized(c), u'sized'), True, True, u'sized', False),
    ('File(Named)', lambda x, c: File(Named(c)), True, True, '/no/such/file', False),
    ('File(Numbered)', lambda x, c: File(Numbered(c)), True, True, 7, False),
    ('File(open r+b)', lambda x, c: File(open(path(x, c), 'r+b')), True, True, 'path', True),
    ('File(open rb)', lambda x, c: File(open(path(x, c), 'rb')), False, True, 'path', True),
    ('File(NamedTemporaryFile)', lambda x, c: File(temp(x, c)), True, True, 'temp', False),
    ('ContentFile', lambda x, c: ContentFile(c), True, False, None, True),
    ('ContentFile(n)', lambda x, c: ContentFile(c, 'n'), True, False, 'n', True),
    ('File(ContentFile)', lambda x, c: File(ContentFile(c), 'n'), True, False, 'n', False),
]
CONTENTS = ['', 'abc', 'a\r\nb\rc\n\nd', '\r', 'x' * 20 + '\n']


def lines(c):
    out, i, a = [], 0, 0
    while i < len(c):
        if c[i] == '\n' or c[i] == '\r' and c[i + 1:i + 2] != '\n':
            out.append(c[a:i + 1])
            a = i + 1
        i += 1
    if a < len(c):
        out.append(c[a:])
    return out


class State(object):
    def __init__(self, kind, c):
        self.kind, self.c, self.p, self.closed = kind, c, 0, False

    def read(self, n=None):
        e = len(self.c) if n is None else min(self.p + n, len(self.c))
        v, self.p = self.c[self.p:e], max(e, self.p)
        return v

    def write(self, d):
        self.c = self.c[:self.p] + d + self.c[self.p + len(d):]
        self.p += len(d)

    def line(self):
        e = self.c.find('\n', self.p) + 1 or len(self.c)
        v, self.p = self.c[self.p:e], e
        return v


class Raises(object):
    """the operation must fail with one of these"""

    def __init__(self, *cls):
        self.cls = cls


SHUT = Raises(ValueError, IOError)


def flush(f):
    if hasattr(f.file, 'flush'):
        f.flush()


def w_write(data):
    def go(f):
        f.write(data)
        flush(f)

    def model(s):
        if not KINDS[s.kind][2]:
            return Raises(IOError, ValueError)
        s.write(data)
    return go, model


def append(f):
    f.seek(0, 2)
    f.write('end\n')
    flush(f)


def m_append(s):
    s.p = len(s.c)
    if not KINDS[s.kind][2]:
        return Raises(IOError, ValueError)
    s.write('end\n')


def chunks(n):
    def model(s):
        s.p = len(s.c)
        return every(s.c, n) if s.c else []
    return (lambda f: list(f.chunks(n))), model


def first_chunk(f):
    for c in f.chunks(2):
        return c


def m_first_chunk(s):
    s.p = min(2, len(s.c))
    return s.c[:2] or None


def m_lines(s):
    s.p = len(s.c)
    return lines(s.c)


def seek(k):
    def go(f):
        f.seek(min(k, f.size))

    def model(s):
        s.p = min(k, len(s.c))
    return go, model


def m_end(s):
    s.p = len(s.c)


def m_readlines(s):
    out = []
    while s.p < len(s.c):
        out.append(s.line())
    return out


def m_close(s):
    s.closed = KINDS[s.kind][3]


def reopen(mode):
    def go(f):
        return f.open(mode) is f if mode else f.open() is f

    def model(s):
        if s.closed and not KINDS[s.kind][5]:
            # (a number is no name to open it by)
            return Raises(ValueError, TypeError) if KINDS[s.kind][4] == 7 else Raises(ValueError)
        s.closed, s.p = False, 0
        return True
    return go, model


def within(f):
    with f as g:
        return g is f, g.read(1)


def m_within(s):
    v = s.read(1)
    m_close(s)
    return True, v


def seek_before(f):
    # reading after writing: a file on disk wants a seek between
    f.seek(f.tell())


# name, operation, model, works on closed files
OPS = [
    ('read()', lambda f: f.read(), State.read, False),
    ('read(1)', lambda f: f.read(1), lambda s: s.read(1), False),
    ('read(3)', lambda f: f.read(3), lambda s: s.read(3), False),
    ('readline()', lambda f: f.readline(), State.line, False),
    ('readlines()', lambda f: f.readlines(), m_readlines, False),
    ('tell()', lambda f: f.tell(), lambda s: s.p, False),
    ('seek(0)',) + seek(0) + (False,), ('seek(2)',) + seek(2) + (False,), ('seek(0, 2)', lambda f: f.seek(0, 2) and None or None, m_end, False),
    ("write('W')",) + w_write('W') + (False,), ("write('\\r\\nlonger')",) + w_write('\r\nlonger') + (False,), ('append', append, m_append, False),
    ('chunks(1)',) + chunks(1) + (False,), ('chunks(3)',) + chunks(3) + (False,), ('first of chunks(2)', first_chunk, m_first_chunk, False), ('lines', lambda f: list(f), m_lines, False),
    ('size', lambda f: (f.size, len(f), f.size), lambda s: (len(s.c),) * 3, False),
    ('multiple_chunks(3)', lambda f: bool(f.multiple_chunks(3)), lambda s: len(s.c) > 3, False),
    ('close()', lambda f: f.close(), m_close, True),
    ('open()',) + reopen(None) + (True,), ("open('rb')",) + reopen('rb') + (True,), ('with', within, m_within, False),
]
FEW = [OPS[i] for i in (1, 3, 8, 9, 11, 13, 15, 16, 18, 19)]


def history(x, kind, c, ops):
    what, make, writable, closes, name, again = KINDS[kind]
    f = make(x, c)
    s = State(kind, c)
    done = []
    mode = 'rb' if what == 'File(open rb)' else None

    def bad(t):
        x.fail('%s with %r: %s: %s' % (what, c, '; '.join(done), t))
    for opname, go, model, on_closed in ops:
        done.append(opname)
        if mode == 'reopened' and ('write' in opname or opname == 'append'):
            break                       # opened for reading
        if s.closed and opname == 'size':
            continue                    # on disk it has a size still
        if s.closed and opname == 'multiple_chunks(3)':
            continue
        if not s.closed and not on_closed:
            seek_before(f)
        was = s.closed
        want = SHUT if s.closed and not on_closed else model(s)
        if was and not s.closed and opname == "open('rb')":
            mode = 'reopened'
        o = attempt(go, f)
        if isinstance(want, Raises):
            if o[0] == 'ok' or not isinstance(o[2], want.cls):
                bad('%r, expected one of %r' % (o[1:], want.cls))
                return
            if opname == 'append' or opname.startswith('write'):
                # refused: the file is read only
                s.p = min(s.p, len(s.c))
        elif o != ('ok', want):
            bad('%r, expected %r' % (o[1:], want))
            return
        if bool(f.closed) != s.closed:
            bad('closed is %r' % f.closed)
            return
        if not s.closed and attempt(f.tell) != ('ok', s.p):
            bad('position %r, expected %d' % (attempt(f.tell)[1:], s.p))
            return
    if bool(f) != (bool(name) or what.startswith('Content')):
        bad('its truth is %r' % bool(f))
    if not s.closed:
        # and all of it, read from what is wrapped
        f.seek(0)
        if f.file.read() != s.c or (f.size, len(f)) != (len(s.c), len(s.c)):
            bad('it has %d bytes, expected %r' % (f.size, s.c))
        f.close()
        if not closes:
            f.file.close()
    x.did(len(ops))


def u_ops(x, kind, ci, n, *first):
    for ops in product(OPS, repeat=n):
        history(x, kind, CONTENTS[ci], tuple(OPS[i] for i in first) + ops)
        x.watch.begin = 0
    x.outcome((kind, ci, first))


def u_few(x, kind, ci, n, *first):
    for ops in product(FEW, repeat=n):
        history(x, kind, CONTENTS[ci], tuple(FEW[i] for i in first) + ops)
        x.watch.begin = 0
    x.outcome((kind, ci, first, 'few'))


def u_size(x, kind, lo):
    """the size is known at every position, and asking for it changes nothing"""
    what, make = KINDS[kind][:2]
    for n in range(lo, lo + 7):
        c = ''.join(chr(97 + i % 26) for i in range(n))
        f = make(x, c)
        for p in range(n + 1):
            f.seek(p)
            x.eq((f.size, len(f), f.tell(), f.size, f.read()), (n, n, p, n, c[p:]), '%s of %d bytes at %d: size, length, position, size, rest' % (what, n, p))
            for k in range(1, n + 2):
                x.eq(bool(f.multiple_chunks(k)), n > k, '%s of %d bytes: multiple_chunks(%d)' % (what, n, k))
                f.seek(p)
                x.eq(list(f.chunks(k)), every(c, k) if c else [], '%s of %d bytes: chunks(%d) at %d' % (what, n, k, p))
            x.did(3 + 2 * n)
        if what == 'File(Sized)':
            x.eq(getattr(f.file, 'ends', 0), 0, 'seeks to the end of a file that knows its size')
        # a size that was set
        f.size = 1000
        x.eq((f.size, len(f), bool(f.multiple_chunks(999)), bool(f.multiple_chunks(1000))), (1000, 1000, True, False), '%s: a size that was set' % what)
        f.close()
    x.step()


NAMES = [None, '', 'n', u'n', 'a b.txt', '/a/path', '..', '\xc3\xa9', 'x' * 300, '0', ' ', 'None']


def u_names(x, i):
    """the name of a file, its truth and how it is shown"""
    name = NAMES[i]
    for own in [n for n in NAMES if n != '..'] + [7, '<fdopen>']:
        class W(BytesIO):
            pass
        for have in (True, False):
            w = W(b'data')
            if have:
                w.name = own
            f = File(w, name)
            want = name if name is not None else own if have else None
            why = 'File of name %r of a file %s' % (name, 'named %r' % (own,) if have else 'without a name')
            x.eq((f.name, bool(f), f.size, len(f)), (want, bool(want), 4, 4), why + ': name, truth, size, length')
            if type(want) is not int:
                x.eq(str(f), want or '', why + ': str()')
                x.eq(repr(f), '<File: %s>' % (want or None), why + ': repr()')
            f.name = 'later'
            x.eq((f.name, bool(f), str(f)), ('later', True, 'later'), why + ': name that was set')
            f.name = None
            x.eq((f.name, bool(f), str(f)), (None, False, ''), why + ': no name, later')
            x.did(6)
    for c in ('', 'x', u'', u'\u20ac'):
        f = ContentFile(c, name)
        x.eq((f.name, bool(f), f.size, len(f), f.read()), (name, True, len(c), len(c), c), 'ContentFile(%r, %r): name, truth, size, length, content' % (c, name))
        x.eq((str(f), repr(f)), ('Raw content', '<ContentFile: Raw content>'), 'ContentFile: str(), repr()')
        x.did(4)
    x.step()


class Plain(object):
    """a file-like object with some methods"""
    closed = False

    def __init__(self, c):
        self.c = c

    def read(self, n=-1):
        k = len(self.c) if n is None or n < 0 else n
        v, self.c = self.c[:k], self.c[k:]
        return v


class Says(Plain):
    def __init__(self, r, w, s):
        Plain.__init__(self, b'')
        self.can = r, w, s

    def readable(self):
        return self.can[0]

    def writable(self):
        return self.can[1]

    def seekable(self):
        return self.can[2]


class Full(Plain):
    """it has everything that a File passes on"""
    encoding, newlines = 'an encoding', ('\r', '\n')
    METHODS = ('fileno', 'flush', 'isatty', 'readinto', 'readline', 'readlines', 'seek', 'tell', 'truncate', 'write', 'writelines', 'read')

    def __getattr__(self, name):
        if name in self.METHODS:
            return lambda *a, **k: (name, a, k)
        raise AttributeError(name)
    read = property(lambda self: self.__getattr__('read'))


MODES = [('r', True, False), ('rb', True, False), ('w', False, True), ('wb', False, True), ('a', False, True), ('ab', False, True), ('r+', True, True), ('r+b', True, True), ('rb+', True, True),
         ('w+b', True, True), ('a+b', True, True), ('a+', True, True)]


def u_can(x):
    """what a File says that can be done with it is what can be done"""
    for mode, r, w in MODES:
        for opener in (open, io.open):
            p = path(x, b'content')
            h = opener(p, mode)
            f = File(h)
            why = 'File of %s(%r)' % ('open' if opener is open else 'io.open', mode)
            x.eq((f.readable(), f.writable(), f.seekable(), f.closed, f.name), (r, w, True, False, p), why + ': readable, writable, seekable, closed, name')
            if opener is open:
                x.eq(f.mode, mode, why + ': mode')
            x.eq(f.encoding if hasattr(h, 'encoding') else None, getattr(h, 'encoding', None), why + ': encoding')
            x.eq(f.fileno() == h.fileno(), True, why + ': fileno()')
            x.eq(f.isatty(), False, why + ': isatty()')
            x.eq(attempt(f.read, 1)[0] == 'ok', r, why + ': reading')
            f.seek(0, 2)
            x.eq(attempt(f.write, u'w' if opener is io.open and 'b' not in mode else b'w')[0] == 'ok', w, why + ': writing')
            f.close()
            x.eq((f.readable(), f.writable(), f.seekable(), f.closed, h.closed), (False, False, False, True, True), why + ': readable, writable, seekable, closed, closed')
            x.did(12)
            if opener is open:
                # opened again as it was
                g = f.open()
                x.eq((g is f, f.closed, f.file.mode, f.readable(), f.writable()), (True, False, mode, r, w), why + ': opened again')
                f.close()
                f.open('rb')
                x.eq((f.closed, f.file.mode, f.readable(), f.writable()), (False, 'rb', True, False), why + ': opened again for reading')
                f.close()
                os.remove(p)
                for m in (None, 'r', 'rb', 'w', 'wb', 'ab', 'r+b', 'w+b'):
                    o = attempt(f.open, m)
                    x.eq(o[0] != 'ok' and isinstance(o[2], ValueError), True, why + ': opened again (%r) when it is gone (%r)' % (m, o[1:]))
                    x.eq(os.path.exists(p), False, why + ': opening a file that is gone creates one (%r)' % m)
                x.did(4)
    for r in (True, False):
        for w in (True, False):
            for s in (True, False):
                f = File(Says(r, w, s))
                x.eq((f.readable(), f.writable(), f.seekable(), f.closed), (r, w, s, False), 'an object that says %r' % ((r, w, s),))
                g = File(f)
                x.eq((g.readable(), g.writable(), g.seekable(), g.closed), (r, w, s, False), 'a File of an object that says %r' % ((r, w, s),))
                f.file.closed = True
                x.eq((f.readable(), f.writable(), f.seekable(), f.closed), (False, False, False, True), 'a closed object that says %r' % ((r, w, s),))
                x.did(3)
    f = File(None)
    x.eq((f.closed, f.readable(), f.writable(), f.seekable(), f.name, bool(f)), (True, False, False, False, None, False), 'a File of nothing')
    f = UploadedFile()
    x.eq((f.closed, f.readable(), f.writable(), f.seekable(), f.name, bool(f)), (True, False, False, False, None, False), 'an UploadedFile of nothing')
    # what cannot be sought is read from where it is
    for n in (1, 2, 5, 6, 7):
        x.eq(list(File(Plain(b'abcdef')).chunks(n)), every(b'abcdef', n), 'an object that can only be read: chunks(%d)' % n)
        f = File(Plain(b'a\nb\r\nc\rd'))
        f.DEFAULT_CHUNK_SIZE = n
        x.eq(list(f), ['a\n', 'b\r\n', 'c\r', 'd'], 'an object that can only be read: lines')
        x.did(2)
    for o in (Plain(b'abc'), Plain(b'')):
        a = attempt(lambda: File(o).size)
        x.eq(a[0] != 'ok' and isinstance(a[2], AttributeError), True, 'size of an object that can only be read: %r' % (a[1:],))
    for name in Full.METHODS:
        for a, k in (((), {}), ((1,), {}), ((1, 2), {'z': 3})):
            x.eq(getattr(File(Full(b'')), name)(*a, **k), (name, a, k), name)
            x.eq(getattr(File(File(Full(b''))), name)(*a, **k), (name, a, k), 'nested ' + name)
            x.did(2)
    x.eq((File(Full(b'')).encoding, File(Full(b'')).newlines), ('an encoding', ('\r', '\n')), 'encoding, newlines')
    for name in Full.METHODS[:11] + ('encoding', 'newlines'):
        a = attempt(getattr, File(Plain(b'')), name)
        x.eq(a[0] != 'ok' and isinstance(a[2], AttributeError), True, '%s of an object that has none: %r' % (name, a[1:]))


def u_close(x):
    """closing: once, again, by with, when an exception comes"""
    for kind in range(len(KINDS)):
        what, make, writable, closes = KINDS[kind][:4]
        for how in range(4):
            f = make(x, 'abc')
            inner = f.file
            if how == 0:
                f.close()
            elif how == 1:
                f.close()
                f.close()
            elif how == 2:
                with f as g:
                    x.eq((g is f, g.read()), (True, 'abc'), what + ': with')
            else:
                o = attempt(broken, f)
                x.eq(o[0] != 'ok' and isinstance(o[2], KeyError), True, what + ': the exception in with (%r)' % (o[1:],))
            x.eq((f.closed, bool(inner.closed)), (closes, closes), '%s: closed (%d)' % (what, how))
            if not closes:
                x.eq(f.open().read(), 'abc', what + ': read after closing')
            x.did(2)


def broken(f):
    with f:
        raise KeyError('broken')


def u_text(x, n, first):
    """text, and its lines: only CR, LF and CRLF end one"""
    for t in strings(u'a\r\n\x85\u2028\x0c', n, n):
        c = first + t
        for f in (File(io.StringIO(c, newline=u'')), ContentFile(c.replace(u'\r', u'b')), File(io.StringIO(c, newline=u''), 'n')):
            if type(f) is ContentFile:
                c = c.replace(u'\r', u'b')
            else:
                c = first + t
            if type(f) is ContentFile or not [l for l in c if l > u'\x7f']:
                # (the positions of a StringIO are not those of its characters here)
                x.eq((f.size, len(f)), (len(c), len(c)), 'size of the text %r' % c)
            for k in (1, 2, 3, 100):
                x.eq(list(f.chunks(k)), every(c, k) if c else [], 'chunks(%d) of the text %r' % (k, c))
                f.DEFAULT_CHUNK_SIZE = k
                x.eq(list(f), lines(c), 'lines of the text %r, %d characters at a time' % (c, k))
            del f.DEFAULT_CHUNK_SIZE
            x.did(9)
    x.step()


def u_default(x, d):
    """around the default size of a chunk"""
    K = 64 * 1024
    for n in (K + d, 2 * K + d):
        c = 'l\n' + 'x' * (n - 4) + '\r\n'
        for kind, (what, make, w, closes, name, again) in enumerate(KINDS):
            f = make(x, c)
            f.seek(5)
            got = [len(p) for p in f.chunks()]
            x.eq(got, [len(p) for p in every(c, K)], '%s of %d bytes: chunks()' % (what, n))
            x.eq(bool(f.multiple_chunks()), n > K, '%s of %d bytes: multiple_chunks()' % (what, n))
            x.eq(list(f) == lines(c), True, '%s of %d bytes: lines' % (what, n))
            f.close()
            x.did(3)


def units(x):
    t = 1 if x.thorough else 0
    yield ('can',)
    yield ('close',)
    for i in range(len(NAMES)):
        yield ('names', i)
    for kind in range(len(KINDS)):
        for lo in range(0, 42, 7):
            yield ('size', kind, lo)
    for n in range(0, 4 + t):
        for a in u'a\r\n\x85\u2028\x0c':
            yield ('text', n, a)
    for d in (-1, 0, 1):
        yield ('default', d)
    for kind in range(len(KINDS)):
        for ci in range(len(CONTENTS)):
            for a in range(len(OPS)):
                for n in (0, 1, 2 + t) if ci in (1, 2) or t else (0, 1):
                    yield ('ops', kind, ci, n, a)
            for a in range(len(FEW)):
                for n in (2, 3 + t) if ci in (1, 2) else (2,):
                    yield ('few', kind, ci, n, a)
