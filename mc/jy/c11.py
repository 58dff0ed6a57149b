# -*- coding: utf-8 -*-
"""C11: the name of an uploaded file can never be a path."""
from env import *

ORACLE = ('Safety of every reported name (no "/", not empty, "." or "..", at most 255 characters) and of every temporary file path is checked directly; the name '
          'itself is computed by an independent decoder of entities and path separators.')
BOUNDS = {'quick': 'all names of up to 4 of 11 tokens (separators, dots, entities, blanks, escapes) and up to 3 of 20, sent quoted, unquoted, RFC 2231 encoded '
                   'and in both forms at once, kept in memory and on disk; all lengths 250..260 and 500 x extension lengths; all 256 byte '
                   'values in 3 positions; 5 charsets',
          'thorough': 'up to 5 of 11 and 4 of 20 tokens'}
ASSUMPTIONS = ['surrounding blanks of a name are not significant', 'names are not declared as utf-16 with a truncated surrogate (the decoder of Jython itself fails)']

K = Settings.Key
_dir = []
ENT = {'&#47;': '/', '&#x2f;': '/', '&#x2F;': '/', '&#92;': '\\', '&#46;': '.', '&amp;': '&', '&lt;': '<', '&#x2e;': '.', '&#32;': ' ', '&quot;': '"', '&#0047;': '/'}


def scratch(x):
    if not _dir:
        _dir.append(x.dir())
    return _dir[0]


def unescape(v):
    out, i = [], 0
    while i < len(v):
        if v[i] == '&':
            j = v.find(';', i)
            if j > 0 and v[i:j + 1] in ENT:
                out.append(ENT[v[i:j + 1]])
                i = j + 1
                continue
        out.append(v[i])
        i += 1
    return v[:0].join(out)


def expected(v):
    v = unescape(v)
    v = v[v.rfind('\\') + 1:].strip()
    base = v[v.rfind('/') + 1:]
    if base in ('', '.', '..'):
        return None
    if len(base) > 255:
        i = base.rfind('.')
        stem, ext = (base[:i], base[i:]) if i > 0 and base[:i].strip('.') else (base, '')
        base = stem[:255 - min(255, len(ext))] + ext[:255]
    return base


def safe(x, name, why):
    if '/' in name or name in ('', '.', '..') or len(name) > 255:
        x.fail('%s: the name is %r' % (why, name))


def quoted(v):
    return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'


def percent(v):
    return ''.join('%%%02X' % ord(c) for c in v)


def forms(v):
    """(header parameter, value meant)"""
    out = [('filename=' + quoted(v), v)]
    if ';' not in v and '"' not in v and v.strip() == v and '\\\\' not in v:
        out.append(('filename=' + v, v))
    if '"' not in v and '\\\\' not in v and not v.endswith('\\'):
        # the way old browsers send a path
        out.append(('filename="' + v + '"', v))
    if '"' not in (v[:1], v[-1:]):
        out.append(("filename*=utf-8''" + percent(v), v))
        out.append(("filename*=us-ascii'en'" + percent(v) + '; x="y"', v))
    return out


def check(x, v, why='', sel=None):
    fs = forms(v)
    d = scratch(x)
    parts, want = [], []
    for i, (h, val) in enumerate(fs):
        parts.append(part('c%d' % i, disp='form-data; name="n%d"; %s' % (i, h)))
        want.append(expected(val))
    for limit in (1 << 20, 0):
        raw = mhttp(parts)
        o = attempt(parse, raw, settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: limit}))
        x.did(len(parts))
        if o[0] != 'ok':
            x.fail('name %r: %r' % (v, o), raw)
            return
        r = o[1]
        try:
            for i, w in enumerate(want):
                f = r.FILES.get('n%d' % i)
                where = 'name %r sent as %s' % (v, fs[i][0][:100])
                if f is None:
                    if w is not None:
                        x.fail('%s: no file, expected %r' % (where, w))
                    continue
                safe(x, f.name, where)
                if w is None:
                    x.fail('%s: file %r, expected none' % (where, f.name))
                elif f.name.strip() != w.strip():
                    x.fail('%s: %r, expected %r' % (where, f.name, w))
                if f.read() != 'c%d' % i:
                    x.fail('%s: content' % where)
                if limit == 0:
                    on_disk(x, f, d, where)
            if sorted(r.POST.keys()) and any(w is None and v for w in want):
                x.fail('name %r: POST %r' % (v, r.POST))
            x.outcome([w for w in want])
        finally:
            r.close()
        if os.listdir(d):
            x.fail('name %r: close() leaves %r' % (v, os.listdir(d)))


def on_disk(x, f, d, where):
    p = f.temporary_file_path()
    if os.path.dirname(p) != d or os.path.realpath(p) != os.path.join(os.path.realpath(d), os.path.basename(p)) or not os.path.isfile(p):
        x.fail('%s: stored as %r' % (where, p))
    if [c for c in os.path.basename(p) if ord(c) < 32 or c in '\\\x7f']:
        x.fail('%s: stored under the name %r' % (where, os.path.basename(p)))


SMALL = ('/', '\\', '.', 'a', ' ', '&#47;', '&#92;', '&#46;', '&amp;', '..', 'b.txt')
LARGE = SMALL + ('%2f', '&#x2f;', '"', ';', '&lt;', "'", '&', '&quot;', '\\\\')


def u_tokens(x, prefix, alphabet, n):
    for t in product(LARGE if alphabet else SMALL, repeat=n):
        v = prefix + ''.join(t)
        if v:
            check(x, v)
    x.step()


def u_length(x, n):
    for e in (0, 1, 2, 4, 5, 10, 100, 200, 253, 254, 255, 256, 300):
        if e >= n:
            continue
        stem = 's' * (n - e)
        v = stem + ('.' + 'e' * (e - 1) if e else '')
        # the header of a part is limited to 1024 bytes
        fs = [('filename="%s"' % v, v), ("filename*=utf-8''" + v, v)]
        d = scratch(x)
        for limit in (1 << 20, 0):
            for h, val in fs:
                o = attempt(parse, mhttp([part('c', disp='form-data; name="n"; ' + h)]), settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: limit}))
                x.did(1)
                if o[0] != 'ok':
                    x.fail('name of %d + %d: %r' % (n - e, e, o))
                    continue
                f = o[1].FILES['n']
                safe(x, f.name, 'name of %d + %d characters' % (n - e, e))
                x.eq(f.name, v if n <= 255 else stem[:max(0, 255 - e)] + ('.' + 'e' * (e - 1) if e else '')[:255], 'name of %d + %d characters' % (n - e, e))
                if limit == 0:
                    on_disk(x, f, d, 'name of %d + %d characters' % (n - e, e))
                o[1].close()
                x.eq(os.listdir(d), [], 'after close')
    x.step()


def u_byte(x, c):
    """every byte in a name"""
    d = scratch(x)
    for v in (chr(c), 'a' + chr(c) + 'b', 'a.' + chr(c), chr(c) * 3 + '/' + chr(c), '..' + chr(c), chr(c) + '..'):
        for cs in ('', '; charset=utf-8', '; charset=koi8-r'):
            for h in (quoted(v), ):
                if c in (13, 10):
                    continue
                for limit in (1 << 20, 0):
                    raw = http(multipart([part('c', disp='form-data; name="n"; filename=' + h)]), mtype() + cs)
                    o = attempt(parse, raw, settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: limit}))
                    x.did(1)
                    if o[0] != 'ok':
                        x.fail('name %r (%s): %r' % (v, cs, o))
                        continue
                    for f in o[1].FILES.getlist('n'):
                        safe(x, f.name, 'name %r' % v)
                        if limit == 0:
                            on_disk(x, f, d, 'name %r' % v)
                    o[1].close()
                    x.eq(os.listdir(d), [], 'after close')
        # every code point of the other form
        for enc in ('utf-8', 'iso-8859-1', 'cp932', 'koi8-r', 'nonsense', ''):
            raw = mhttp([part('c', disp="form-data; name=\"n\"; filename*=%s''%s" % (enc, percent(v)))])
            o = attempt(parse, raw, settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: 0}))
            x.did(1)
            if o[0] != 'ok':
                x.fail('extended name %r (%s): %r' % (v, enc, o))
                continue
            for f in o[1].FILES.getlist('n'):
                safe(x, f.name, 'extended name %r (%s)' % (v, enc))
                on_disk(x, f, d, 'extended name %r (%s)' % (v, enc))
            o[1].close()
            x.eq(os.listdir(d), [], 'after close')
    x.step()


def u_both(x, a, b):
    """filename and filename* in one header: none of them may smuggle a path in"""
    d = scratch(x)
    for order in (0, 1):
        hs = ['filename=' + quoted(a), "filename*=utf-8''" + percent(b)]
        if order:
            hs.reverse()
        raw = mhttp([part('c', disp='form-data; name="n"; ' + '; '.join(hs))])
        o = attempt(parse, raw, settings(**{K.FILE_UPLOAD_DIR: d, K.FILE_UPLOAD_MAX_MEMORY: 0}))
        x.did(1)
        if o[0] != 'ok':
            x.fail('names %r, %r: %r' % (a, b, o))
            continue
        for f in o[1].FILES.getlist('n'):
            safe(x, f.name, 'names %r, %r' % (a, b))
            on_disk(x, f, d, 'names %r, %r' % (a, b))
            if f.name.strip() not in [(expected(v) or '').strip() for v in (a, b)]:
                x.fail('names %r, %r: %r' % (a, b, f.name))
        o[1].close()


def u_direct(x, n):
    """file objects made without a request"""
    for t in product(SMALL[:6] + (('.b\n', '\n', '\x00') if n < 4 else ()), repeat=n):
        v = ''.join(t)
        for f in (attempt(SimpleUploadedFile, v, 'c'), attempt(InMemoryUploadedFile, BytesIO(b'c'), 'n', v, '', 1, None),
                  attempt(UploadedFile, BytesIO(b'c'), v)):
            x.did(1)
            if f[0] != 'ok':
                x.fail('a file named %r: %r' % (v, f))
            elif '/' in f[1].name or f[1].name != v[v.rfind('/') + 1:]:
                x.fail('a file named %r has the name %r' % (v, f[1].name))
            f[1].name = '/x/' + v + '/y/z'
            x.eq(f[1].name, 'z', 'name set')
        t = attempt(TemporaryUploadedFile, v, '', 0, None, settings(**{K.FILE_UPLOAD_DIR: scratch(x)}))
        if t[0] != 'ok':
            x.fail('a temporary file named %r: %r' % (v, t))
        else:
            on_disk(x, t[1], scratch(x), 'temporary file named %r' % v)
            if '/' in t[1].name:
                x.fail('a temporary file named %r has the name %r' % (v, t[1].name))
            t[1].close()


def units(x):
    n = 5 if x.thorough else 4
    for k in range(1, 3):
        for t in product(SMALL, repeat=k):
            for m in range(0 if k < 2 else n - 3, n - 1):
                if k == 2 or m == 0:
                    yield ('tokens', ''.join(t), 0, m if k == 2 else 0)
    for t in product(SMALL, repeat=2):
        yield ('tokens', ''.join(t), 0, 0)
        if n > 4:
            yield ('tokens', ''.join(t), 0, 1)
    for t in product(LARGE, repeat=2 if not x.thorough else 3):
        yield ('tokens', ''.join(t), 1, 1)
    for t in LARGE:
        yield ('tokens', t, 1, 1)
        yield ('tokens', t, 1, 0)
    for n in range(250, 262) + [300, 500]:
        yield ('length', n)
    for c in range(256):
        yield ('byte', c)
    for a in SMALL + ('../x', '/etc/passwd', 'ok.txt', '..\\..\\y'):
        for b in SMALL + ('../x', '/etc/passwd', 'ok.txt', '..\\..\\y'):
            yield ('both', a, b)
    for k in range(1, 6):
        yield ('direct', k)
