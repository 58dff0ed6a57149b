# -*- coding: utf-8 -*-
"""C23: reading an uploaded file."""
import shutil
from env import *

ORACLE = 'The content, a position in it, and lines cut by a scan for CR, LF and CRLF written for this check; every operation is done on the file and on these.'
BOUNDS = {'quick': 'all contents of up to 5 of 4 characters, and of 7 of {x, CR, LF}, with every chunk size, in pieces and by lines; all sequences of 3 of 19 operations for 8 contents and 4 for one, '
                   'each class, and files that parsing produced with each handler; contents around the default chunk size of 64 KB; every length of the file from 0 to 40 with every chunk size',
          'thorough': 'contents of up to 7 of 4 characters, sequences of 4 for 8 contents and 5 for one'}
ASSUMPTIONS = ['reading continues after a seek to a position in the file or at its end', 'the pieces of an empty file are none, or one that is empty', 'nothing is written to the file after the upload']

_d = {}


def where(x):
    if 's' not in _d:
        _d['s'] = settings(**{Settings.Key.FILE_UPLOAD_DIR: x.dir()})
    return _d['s']


def disk(x, c):
    f = TemporaryUploadedFile('n.txt', 'text/plain', len(c), None, where(x))
    f.write(c)
    f.seek(0)
    return f


def memory(x, c):
    return InMemoryUploadedFile(BytesIO(c), 'f', 'n.txt', 'text/plain', len(c), None)


def simple(x, c):
    return SimpleUploadedFile('n.txt', c)


def from_dict(x, c):
    return SimpleUploadedFile.from_dict({'filename': 'n.txt', 'content': c, 'content-type': 'text/plain'})


def parsed(handler, chunk=None, headers=()):
    def make(x, c):
        r = parse(mhttp([part(c, filename='n.txt', ctype='text/plain', headers=headers)]), where(x), [handler], chunk)
        f = r.FILES['f']
        f._request = r
        return f
    return make


MAKE = [disk, memory, simple, from_dict, parsed(TemporaryFileUploadHandler), parsed(MemoryFileUploadHandler), parsed(ConvenientFileUploadHandler), parsed(TemporaryFileUploadHandler, 3)]


def on_disk(f):
    return isinstance(f, TemporaryUploadedFile)


def pieces(f, c, n):
    """the pieces that chunks(n) may give"""
    if not on_disk(f):
        return [[c]] if c else [[], ['']]
    return [every(c, n)] if c else [[], ['']]


def lines(c):
    out, i, a = [], 0, 0
    while i < len(c):
        if c[i] == '\n' or c[i] == '\r' and c[i + 1:i + 2] != '\n':
            out.append(c[a:i + 1])
            a = i + 1
        i += 1
    if a < len(c):
        out.append(c[a:])
    return out


def lf_lines(c):
    out = [l + '\n' for l in c.split('\n')]
    out[-1] = out[-1][:-1]
    return out if out[-1] else out[:-1]


def facts(x, f, c, what):
    if f.size != len(c) or len(f) != len(c):
        x.fail('%s: size %r, length %r of %r' % (what, f.size, len(f), c))


def whole(x, mk, c, sizes):
    f = MAKE[mk](x, c)
    what = 'file %d with %r' % (mk, c)
    facts(x, f, c, what)
    x.eq(f.read(), c, what + ' read()')
    for start in (0, len(c), len(c) // 2):
        for n in sizes:
            f.seek(start)
            got = list(f.chunks(n))
            if got not in pieces(f, c, n):
                x.fail('%s: chunks(%d) from position %d: %r' % (what, n, start, got))
            want = on_disk(f) and len(c) > n
            if bool(f.multiple_chunks(n)) != want:
                x.fail('%s: multiple_chunks(%d) is %r' % (what, n, f.multiple_chunks(n)))
            f.DEFAULT_CHUNK_SIZE = n
            f.seek(start)
            got = list(f)
            if got != lines(c):
                x.fail('%s: lines, read %d bytes at a time: %r, expected %r' % (what, n, got, lines(c)))
            got = list(f.chunks())
            if got not in pieces(f, c, n) or bool(f.multiple_chunks()) != want:
                x.fail('%s: chunks() with the default set to %d: %r, multiple_chunks() %r' % (what, n, got, f.multiple_chunks()))
            x.did(4)
            del f.DEFAULT_CHUNK_SIZE
    f.close()


def u_contents(x, mk, alpha, n, *first):
    chars = ('ab\r\n', 'x\r\n')[alpha]
    pre = ''.join(chars[i] for i in first)
    for rest in strings(chars, n, n):
        c = pre + rest
        whole(x, mk, c, range(1, len(c) + 2) if mk < 2 or len(c) < 4 else (1, 2, len(c)))
    x.watch.begin = 0
    x.outcome((alpha, n, first))


def u_lengths(x, mk, lo):
    for n in range(lo, lo + 5):
        whole(x, mk, ''.join(chr(97 + i % 26) for i in range(n)), range(1, 43))
    x.step()


def u_declared(x, mk):
    """a length that the part declares says nothing about the file"""
    n = 0
    for length in ('0', '1', '7', '64', '70000', '-1', 'x', ''):
        for h in (TemporaryFileUploadHandler, MemoryFileUploadHandler, ConvenientFileUploadHandler):
            MAKE.append(parsed(h, None, ['Content-Length: ' + length]))
            try:
                for c in ('', 'a', 'ab\ncdefg', 'x' * 64, 'long' * 700):
                    whole(x, len(MAKE) - 1, c, (1, 8, 10000))
            finally:
                MAKE.pop()
    x.step()


def u_proxy(x, mk):
    """what a file says it can do"""
    for c in ('x', 'two\nlines'):
        f = MAKE[mk](x, c)
        x.eq((f.readable(), f.seekable(), f.closed), (True, True, False), 'file %d: readable, seekable, closed' % mk)
        x.eq(f.readlines(), lf_lines(c), 'file %d: readlines()' % mk)
        x.eq(f.content_type, 'text/plain', 'file %d: content type' % mk)
        x.eq(f.name, 'n.txt', 'file %d: name' % mk)
        f.close()
        x.eq((f.readable(), f.writable(), f.seekable(), f.closed), (False, False, False, True), 'closed file %d: readable, writable, seekable, closed' % mk)
        x.did(8)
    x.eq(SimpleUploadedFile.from_dict({'filename': 'n.txt', 'content': 'c', 'content-type': 'image/png'}).content_type, 'image/png', 'content type')
    x.eq(SimpleUploadedFile.from_dict({'filename': 'n.txt', 'content': 'c'}).content_type, 'text/plain', 'content type')


def u_bytes(x, mk, lo):
    """every byte is data but CR and LF"""
    for b in range(lo, lo + 32):
        for c in ('a' + chr(b) + 'b', chr(b), chr(b) * 3 + '\r' + chr(b), '\r' + chr(b) + '\n' + chr(b) + '\r\n'):
            whole(x, mk, c, (1, 2, 3))
    x.step()


def u_big(x, mk, d):
    """around the default size of a chunk"""
    K = 64 * 1024
    for base in (K, 2 * K):
        for tail in ('', 'z', '\n', '\r', '\r\n', '\n\r', 'z\r\ny', '\r\r\n\n'):
            c = 'l\n' + 'x' * (base - 2 + d) + tail
            f = MAKE[mk](x, c)
            what = 'file %d with %d bytes and %r' % (mk, base + d, tail)
            facts(x, f, c, what)
            got = list(f.chunks())
            if got not in pieces(f, c, K):
                x.fail('%s: the chunks have %r bytes' % (what, [len(p) for p in got]))
            if bool(f.multiple_chunks()) != (on_disk(f) and len(c) > K):
                x.fail('%s: multiple_chunks() is %r' % (what, f.multiple_chunks()))
            if list(f) != lines(c):
                x.fail('%s: the lines have %r bytes, expected %r' % (what, [len(p) for p in f], [len(p) for p in lines(c)]))
            f.seek(K - 1)
            x.eq(f.read(3), c[K - 1:K + 2], what + ' read(3) after seek')
            if on_disk(f) and mk >= 4:
                h = open(f.temporary_file_path(), 'rb')
                x.eq(h.read() == c, True, what + ' read by its path')
                h.close()
            f.close()
            x.did(5)
            x.step()


# -- sequences of operations: name, on the file, on the model (content, position, on disk) -> (results, position)
def op_seek(k):
    def go(f):
        f.seek(k)
    return go, lambda c, p, d: ([None], min(k, len(c)) if k <= len(c) else k)


def op_read(n):
    return (lambda f: f.read(n)), (lambda c, p, d: ([c[p:p + n]], min(p + n, max(len(c), p))))


def part_chunks(n, k):
    def go(f):
        it, out = iter(f.chunks(n)), []
        for p in it:
            out.append(p)
            if len(out) == k:
                break
        return out

    def model(c, p, d):
        ps = every(c, n) if d else [c] if c else None
        if not ps:
            return [[], ['']], 0
        return [ps[:k]], sum(len(q) for q in ps[:k])
    return go, model


def all_chunks(n):
    return (lambda f: list(f.chunks(n))), (lambda c, p, d: ([every(c, n)] if d and c else [[c]] if c else [[], ['']], len(c)))


def read_all(f):
    return f.read()


def line_model(c, p, d):
    l = lf_lines(c[p:])[:1] or ['']
    return l, p + len(l[0])


OPS = [
    ('seek(0)',) + op_seek(0), ('seek(2)',) + op_seek(2), ('seek(3)',) + op_seek(3),
    ('seek(0, 2)', lambda f: f.seek(0, 2) and None, lambda c, p, d: ([None], len(c))),
    ('seek(-1, 2)', lambda f: f.seek(-1, 2) and None, lambda c, p, d: ([None], len(c) - 1)),
    ('read()', read_all, lambda c, p, d: ([c[p:]], max(len(c), p))),
    ('read(0)',) + op_read(0), ('read(1)',) + op_read(1), ('read(2)',) + op_read(2), ('read(9)',) + op_read(9),
    ('readline()', lambda f: f.readline(), line_model),
    ('readlines()', lambda f: f.readlines(), lambda c, p, d: ([lf_lines(c[p:])], max(len(c), p))),
    ('list(chunks(1))',) + all_chunks(1), ('list(chunks(3))',) + all_chunks(3), ('first of chunks(2)',) + part_chunks(2, 1), ('two of chunks(1)',) + part_chunks(1, 2),
    ('list(file)', lambda f: list(f), lambda c, p, d: ([lines(c)], len(c))),
    ('open()', lambda f: f.open() is f, lambda c, p, d: ([True], 0)),
    ('facts', lambda f: (f.size, len(f), f.closed, f.name, bool(f.multiple_chunks(2))), lambda c, p, d: ([(len(c), len(c), False, 'n.txt', d and len(c) > 2)], p)),
]
CONTENTS = ['ab\r\ncd', 'a\nb\nc', '\r\n\r', 'abc', '\n\n\n\n', 'abcdefghij', '\ra\r\n\nb', 'ab\r']


def u_ops(x, mk, ci, n, *first):
    c = CONTENTS[ci]
    for rest in product(range(len(OPS)), repeat=n):
        f = MAKE[mk](x, c) if not rest or 'f' not in locals() or f is None else f
        f.seek(0)
        pos, done = 0, []
        d = on_disk(f)
        for k in first + rest:
            name, go, model = OPS[k]
            done.append(name)
            o = attempt(go, f)
            want, pos = model(c, pos, d)
            if o[0] != 'ok' or o[1] not in want:
                x.fail('file %d with %r: %s: %r, expected %r' % (mk, c, '; '.join(done), o[1:], want))
                f = None
                break
            at = attempt(f.tell)
            if at != ('ok', pos):
                x.fail('file %d with %r: %s: position %r, expected %r' % (mk, c, '; '.join(done), at[1:], pos))
                f = None
                break
        x.did(len(done))
    if f is not None:
        f.close()
    x.watch.begin = 0
    x.outcome((mk, ci, first))


def u_closed(x, mk):
    """A closed file gives nothing, least of all that of another file of its name"""
    here = x.dir()
    old = os.getcwd()
    os.chdir(here)
    try:
        h = open(os.path.join(here, 'n.txt'), 'wb')
        h.write('another file')
        h.close()
        for c in CONTENTS + ['']:
            for how in ('close', 'with', 'request'):
                if mk >= 4 and not c:
                    continue
                f = MAKE[mk](x, c)
                if how == 'close':
                    f.close()
                elif how == 'with':
                    with f as g:
                        x.eq(g is f, True, 'with file')
                        x.eq(g.read(), c, 'read() in with')
                elif mk < 4:
                    continue
                else:
                    f._request.close()
                x.eq(f.closed, True, 'closed')
                facts(x, f, c, 'closed file')
                for name, op in (('open()', lambda: f.open().read()), ('open(rb)', lambda: f.open('rb').read()), ('read()', lambda: f.read()), ('lines', lambda: ''.join(f)), ('chunks()', lambda: ''.join(f.chunks()))):
                    o = attempt(op)
                    if o[0] == 'ok' and o[1] != c or o[0] != 'ok' and not isinstance(o[2], (ValueError, IOError)):
                        x.fail('file %d with %r, closed: %s gives %r' % (mk, c, name, o[1:]))
                    x.did()
                x.eq(attempt(f.close)[0], 'ok', 'close() again')
    finally:
        os.chdir(old)


def units(x):
    t = 1 if x.thorough else 0
    yield ('declared', 0)
    for mk in range(len(MAKE)):
        yield ('closed', mk)
        yield ('proxy', mk)
        if mk < 4:
            yield ('contents', mk, 0, 0)
        top = 5 if mk in (0, 1) else 4
        for n in range(0, top + 2 * t):
            for a in range(4):
                if n < 3:
                    if n or mk < 4:
                        yield ('contents', mk, 0, n, a)
                else:
                    for b in range(4):
                        yield ('contents', mk, 0, n - 1, a, b)
        if mk in (0, 1):
            for a in range(3):
                for b in range(3):
                    for c in range(3):
                        for n in (3, 4):
                            yield ('contents', mk, 1, n + t, a, b, c)
        for lo in range(0, 256, 32):
            yield ('bytes', mk, lo)
        for lo in range(0, 41, 5):
            if mk < 4 or lo:
                yield ('lengths', mk, lo)
        for d in range(-3, 3):
            if mk < 7 and (t or d in (-1, 0, 1) or mk < 1):
                yield ('big', mk, d)
        for ci in range(len(CONTENTS)):
            for a in range(len(OPS)):
                yield ('ops', mk, ci, 2 + t, a)
        if mk < 2:
            for a in range(len(OPS)):
                for b in range(len(OPS)):
                    yield ('ops', mk, 0, 2 + t, a, b)
