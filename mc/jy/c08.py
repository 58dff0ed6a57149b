# -*- coding: utf-8 -*-
"""C08: uploads move from memory to disk at the limit without changing content."""
from env import *

ORACLE = ('Where every file must be is computed by adding up the sizes: the first file with which the total exceeds the limit, and all after it, on '
          'disk; the others in memory.  Contents and metadata come from the generated body.  The upload directory is listed before and after close().')
BOUNDS = {'quick': 'all sequences of up to 3 files of 0, 1, 2, 5, 9 bytes (and 4 files of 0..3) x every limit 0..total+1; the same with contents that '
                   'arrive in chunks of 1, 3, 8 or 40 bytes, for sizes 0..9; 5 handler configurations; 22 names; 12 content types; sizes '
                   'around 64 KB and 128 KB; histories of 3 requests',
          'thorough': 'sequences of 4 files of 5 sizes, more chunk sizes'}
ASSUMPTIONS = ['the upload directory is only used by the request under test']

K = Settings.Key
_dir = []


def scratch(x):
    if not _dir:
        _dir.append(x.dir())
    return _dir[0]


def content(i, n):
    return ''.join(chr((i * 31 + j * 7) & 255) for j in range(n)).replace('-', '+')


def pad(first):
    return ['X: ' + 'h' * (1024 - 70 - first)]


def observe(x, r, d, why):
    out = []
    on_disk = set()
    for k, v in lists(r.FILES):
        for f in v:
            disk = isinstance(f, TemporaryUploadedFile)
            if disk:
                p = f.temporary_file_path()
                if os.path.dirname(p) != d:
                    x.fail('%s: stored as %s, outside %s' % (why, p, d))
                if p in on_disk:
                    x.fail('%s: two files share %s' % (why, p))
                on_disk.add(p)
            out.append((k, file_view(f)))
            if disk:
                h = open(f.temporary_file_path(), 'rb')
                data = h.read()
                h.close()
                if data != out[-1][1][7]:
                    x.fail('%s: the temporary file holds %r, read gives %r' % (why, data[:60], out[-1][1][7][:60]))
    there = set(os.path.join(d, n) for n in os.listdir(d))
    if there != on_disk:
        x.fail('%s: the upload directory holds %r, the request %r' % (why, sorted(there), sorted(on_disk)))
    return out


def run(x, files, limit, cs=None, handlers=None, mode='convenient', why='', headers=(), extra=''):
    """files: (field, name, ctype header, expected ctype, charset, extra, cte, data)"""
    d = scratch(x)
    parts = []
    for i, f in enumerate(files):
        parts.append(part(f[7], f[0], f[1], ctype=f[2], cte=f[6], headers=headers))
        if extra:
            parts.append(part('v' * i, 'x'))
    raw = mhttp(parts)
    s = settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: limit})
    why = '%s: sizes %r, limit %r, chunk size %r, %s' % (why, [len(f[7]) for f in files], limit, cs, mode)

    r = HttpRequest(BytesIO(raw), s)
    if handlers is not None:
        r.upload_handlers = [h(r) for h in handlers]
    if cs is not None:
        for h in r.upload_handlers:
            h.chunk_size = cs
    o = attempt(r.parse)
    if o[0] != 'ok':
        x.fail('%s: %r' % (why, o), raw[:2000])
        return
    got = observe(x, r, d, why)
    total, want = 0, {}
    for f in files:
        total += len(f[7])
        if mode == 'convenient':
            place = 'disk' if total > limit else 'memory'
        else:
            place = mode
        want.setdefault(f[0], []).append((place, f[1], len(f[7]), f[3], f[4], f[5], f[6], f[7]))
    want = sorted(want.items())
    want = [(k, v) for k, vs in want for v in vs]
    if got != want:
        x.fail('%s: %r, expected %r' % (why, got, want), raw[:2000])
    if extra and r.POST.getlist('x') and len(r.POST.getlist('x')) != len(files):
        x.fail('%s: fields %r' % (why, r.POST))
    x.outcome(got)
    r.close()
    left = os.listdir(d)
    if left:
        x.fail('%s: close() leaves %r' % (why, left))
        for n in left:
            os.unlink(os.path.join(d, n))
    x.did(len(files) + 1)


def plain(sizes, names=None):
    return [('f' if i % 3 != 1 else '', 'n%d.txt' % i, None, '', None, {}, None, content(i, n)) for i, n in enumerate(sizes)]


def u_sizes(x, sizes):
    for limit in range(0, sum(sizes) + 2):
        run(x, plain(sizes), limit, why='small files', extra='x' if limit % 2 else '')
    for mode, hs in (('disk', [TemporaryFileUploadHandler]), ('memory', [MemoryFileUploadHandler]),
                     ('memory', [MemoryFileUploadHandler, TemporaryFileUploadHandler])):
        run(x, plain(sizes), 100000, handlers=hs, mode=mode)
    run(x, plain(sizes), 0, handlers=[TemporaryFileUploadHandler], mode='disk')
    # the memory handler steps back when the whole request is too large
    run(x, plain(sizes), 1, handlers=[MemoryFileUploadHandler, TemporaryFileUploadHandler], mode='disk')
    x.step()


def u_chunked(x, sizes, cs):
    """contents that arrive in several chunks"""
    for limit in range(0, sum(sizes) + 2):
        run(x, plain(sizes), limit, cs, why='chunked', headers=pad(0))
    run(x, plain(sizes), 0, cs, handlers=[TemporaryFileUploadHandler], mode='disk', headers=pad(1))
    run(x, plain(sizes), 1 << 20, cs, handlers=[MemoryFileUploadHandler], mode='memory', headers=pad(2))
    x.step()


def u_exact(x, n):
    """the memory handler is used up to the limit of the whole request"""
    fs = plain([n, 1])
    length = len(multipart([part(f[7], f[0], f[1]) for f in fs]))
    for d in (-1, 0, 1):
        run(x, fs, length + d, handlers=[MemoryFileUploadHandler, TemporaryFileUploadHandler], mode='disk' if d < 0 else 'memory')


NAMES = ('a', 'a.txt', 'a.tar.gz', '.hidden', 'a b.c d', 'x.' + 'e' * 200, 'n' * 255, u'\u20ac.p\xe9'.encode('utf-8'), "it's.txt", 'a.b;c', '-', 'a%2f.b',
         'CON', 'a.', '~', '*', '$(x).sh', 'a.txt~', 'x' * 200 + '.jpeg', '..a', '...', 'a..b')


def u_names(x, name):
    for limit in (0, 1, 100):
        for k in (0, 3):
            if any(ord(c) > 127 for c in name):
                continue
            run(x, [('f', name, None, '', None, {}, None, 'd' * k), ('f', 'other', None, '', None, {}, None, 'e')], limit, why='name %r' % name)
            run(x, [('f', name, None, '', None, {}, None, 'd' * k)] * 2, limit, why='name %r twice' % name)
    if any(ord(c) > 127 for c in name):
        d = scratch(x)
        for limit in (0, 100):
            raw = http(multipart([part('data', 'f', name)]), mtype() + '; charset=utf-8')
            r = parse(raw, settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: limit}))
            v = file_view(r.FILES['f'])
            r.close()
            x.did(1)
            x.eq((v[0], v[1] if isinstance(v[1], unicode) else v[1].decode('utf-8'), v[2], v[7]), ('memory' if limit else 'disk', name.decode('utf-8'), 4, 'data'), 'name %r' % name)
            x.eq(os.listdir(d), [], 'after close')


TYPES = ((None, '', None, {}), ('text/plain', 'text/plain', None, {}), ('TEXT/HTML; charset=utf-8', 'text/html', 'utf-8', {'charset': 'utf-8'}),
         ('a/b; q="1;2"; x=y', 'a/b', None, {'q': '1;2', 'x': 'y'}), ('application/octet-stream', 'application/octet-stream', None, {}),
         ('image/png; name=x', 'image/png', None, {'name': 'x'}))


def u_types(x, i, cte):
    t = TYPES[i]
    for sizes in ((0,), (3,), (2, 2), (0, 5, 1)):
        for limit in (0, 1, 2, 3, 4, 100):
          for length in (None, '0', '1', '7', '1000', 'x'):
            headers = ['Content-Length: ' + length] if length is not None else []
            files = [('f', 'n%d' % j, t[0], t[1], t[2], t[3], cte, content(j, n)) for j, n in enumerate(sizes)]
            run(x, files, limit, why='type', headers=headers)
            for mode, hs in (('disk', [TemporaryFileUploadHandler]), ('memory', [MemoryFileUploadHandler])):
                run(x, files, 1 << 20, handlers=hs, mode=mode, why='type', headers=headers)


def u_big(x, n, cs):
    for limit in (0, n - 1, n, n + 9, n + 10, 2 * n + 20, 1 << 24):
        run(x, [('f', 'a', None, '', None, {}, None, content(1, 100) * (n / 100) + content(2, n % 100)),
                ('g', 'b', None, '', None, {}, None, '0123456789'),
                ('h', 'c', None, '', None, {}, None, content(3, 100) * (n / 100) + content(4, n % 100))], limit, cs, why='large')
    x.step()


def u_requests(x, seq):
    """what one request stored says nothing about the next; a request is closed before or after the next one is parsed"""
    d = scratch(x)
    s = settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: 4})
    open_ = []
    for n, close_now in seq:
        r = parse(mhttp([part('x' * n, 'f', 'n'), part('y', 'f', 'm')]), s)
        place = [file_view(f)[0] for f in r.FILES.getlist('f')]
        x.did(1)
        x.eq(place, ['disk' if n > 4 else 'memory', 'disk' if n + 1 > 4 else 'memory'], 'request %r of %r' % (n, seq))
        open_.append((r, len([p for p in place if p == 'disk'])))
        x.eq(len(os.listdir(d)), sum(c for q, c in open_), 'files in the directory')
        if close_now:
            q, c = open_.pop(0)
            q.close()
            x.eq(len(os.listdir(d)), sum(c for q, c in open_), 'files in the directory after close')
    for q, c in open_:
        q.close()
        q.close()
    x.eq(os.listdir(d), [], 'after close')


def u_nodir(x, depth):
    """the directory is created when it is missing"""
    base = x.dir()
    d = os.path.join(base, *['s%d' % i for i in range(depth)])
    s = Settings({K.FILE_UPLOAD_MAX_MEMORY: 0, K.FILE_UPLOAD_DIR: os.path.join(base, 's0')})
    s.FILE_UPLOAD_TEMP_DIR = d
    if os.path.isdir(os.path.join(base, 's0')):
        os.rmdir(os.path.join(base, 's0'))
    r = parse(mhttp([part('data', 'f', 'n'), part('', 'g', 'n')]), s)
    x.eq([file_view(r.FILES[k])[0::7] for k in 'fg'], [('disk', 'data'), ('disk', '')], 'files')
    x.eq(os.path.dirname(r.FILES['f'].temporary_file_path()), d, 'directory')
    r.close()
    x.eq(os.listdir(d), [], 'after close')
    x.did(2)


def units(x):
    for k in range(1, 4):
        for sizes in product((0, 1, 2, 5, 9), repeat=k):
            yield ('sizes', sizes)
    for sizes in product((0, 1, 2, 3, 5) if x.thorough else (0, 1, 2, 3), repeat=4):
        yield ('sizes', sizes)
    for cs in (1, 2, 3, 5, 8, 40) if x.thorough else (1, 3, 8, 40):
        for n in range(0, 10):
            yield ('chunked', (n,), cs)
        for a in (0, 1, 5):
            for b in (0, 1, 2, 4):
                yield ('chunked', (a, b), cs)
    for n in (0, 1, 10, 100):
        yield ('exact', n)
    for name in NAMES:
        yield ('names', name)
    for i in range(len(TYPES)):
        for cte in (None, '8bit'):
            yield ('types', i, cte)
    for n in (65400, 65535, 65536, 65537, 131072, 200000):
        for cs in (None, 1000, 65536):
            yield ('big', n, cs)
    acts = [(n, c) for n in (1, 4, 9) for c in (0, 1)]
    for seq in product(acts, repeat=3):
        yield ('requests', seq)
    for depth in (1, 2, 3):
        yield ('nodir', depth)
