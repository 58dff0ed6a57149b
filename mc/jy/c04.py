# -*- coding: utf-8 -*-
"""C04: a multipart body yields exactly the fields and files that were sent."""
from env import *
import base64

ORACLE = ('The body is generated from a list of part descriptions; the expected POST and FILES are computed from the same '
          'list, independently of the code.')
BOUNDS = {'quick': 'every content up to 5 characters over {CR, LF, -, B, x, NUL} (without a line that starts with the delimiter) as field, file and last part; every '
                   'sequence of up to 3 of 24 part shapes x preamble/epilogue; 14 boundaries; 3 kinds of part x 6 Content-Types x 9 transfer encodings x 9 Content-Lengths x orders of the headers; 12 preambles x 14 epilogues that look like parts, headers or delimiters; part counts up to 400, sizes around '
                   '64 KB, part headers around 1024 bytes',
          'thorough': 'contents up to 7 characters, sequences up to 4'}
ASSUMPTIONS = ['content has no line that starts with the delimiter ("--" boundary)', 'parts with a header above 1024 bytes are not well-formed here', 'the header lines of parts are not folded']


def fld(content, name='f', **kw):
    return (part(content, name, **kw), [('P', name.strip(), field_value(content, kw.get('ctype') or '', kw.get('cte') or ''))])


def fil(content, name='f', filename='n', **kw):
    return (part(content, name, filename, **kw),
            [('F', name.strip(), ('memory', filename, len(content), kw.get('ctype') or '', None, {}, kw.get('cte'), content))])


def shapes():
    c = []
    c.append(fld('v1', 'a'))
    c.append(fld('', 'a'))
    c.append(fld('\r\n', 'b'))
    c.append(fil('data\r\n--\r\n', 'a', 'x.txt'))
    c.append(fil('', 'g', 'empty.bin', ctype='application/octet-stream'))
    c.append(fil('no name', '', 'e.txt'))
    c.append(fld('no name', ''))
    c.append(fld('no file', 'a', filename=''))
    c.append((part('qp=41', 'a', cte='quoted-printable'), [('P', 'a', field_value('qp=41', '', 'quoted-printable'))]))
    c.append(fil('bin', 'f', cte='binary', headers=['Content-Length: 1']))
    c.append(fil('\x00\xff\r\r\n\n', 'a', 'y y.tar.gz', ctype='text/plain'))
    c.append((part('p', 'c', ctype='Text/Plain; Charset=UTF-8; q="a;b\\"c"'),
              [('P', 'c', field_value('p', 'text/plain', '', {'charset': 'UTF-8', 'q': 'a;b"c'}))]))
    c.append((part('q', 'h', 'z', ctype='text/csv; charset=koi8-r; header=present', cte='8bit'),
              [('F', 'h', ('memory', 'z', 1, 'text/csv', 'koi8-r', {'charset': 'koi8-r', 'header': 'present'}, '8bit', 'q'))]))
    c.append((part('aGk=', 'b64', 'e', cte='base64'), [('F', 'b64', ('memory', 'e', 2, '', None, {}, 'base64', 'hi'))]))
    c.append((part('aGkh', 'a', cte='base64'), [('P', 'a', field_value('hi!', '', 'base64'))]))
    # parts that are to be ignored
    c.append((part('Content-Disposition: form-data; name="evil"\r\n\r\nx', None), []))
    c.append((part('\r\nContent-Disposition: form-data; name="evil"; filename="e"\r\n\r\nx\r\n', None, 'evil.txt'), []))
    c.append(('--B\r\nX-Y: z\r\n\r\nContent-Disposition: form-data; name="evil"\r\n\r\ny\r\n', []))
    c.append(('--B\r\n\r\nContent-Disposition: form-data; name=evil\r\n', []))
    c.append(('--B\r\n\r\n\r\n', []))
    # other forms of the header
    c.append(('--B\r\nX-First: 1\r\ncontent-DISPOSITION:form-data ; filename = n1 ;  NAME = up \r\nX-Last: "\r\n\r\nod\r\n',
              [('F', 'up', ('memory', 'n1', 2, '', None, {}, None, 'od'))]))
    c.append((part('Content-Disposition: form-data; name="evil"\r\n\r\nnested', 'n1'),
              [('P', 'n1', field_value('Content-Disposition: form-data; name="evil"\r\n\r\nnested'))]))
    c.append((part('w', '', disp='form-data; name="a;b=c\\"d\\\\e"'), [('P', 'a;b=c"d\\e', field_value('w'))]))
    c.append((part('1', ' sp ', 'n'), [('F', 'sp', ('memory', 'n', 1, '', None, {}, None, '1'))]))
    return c


SHAPES = shapes()
IGNORED = [s for s in SHAPES if not s[1]][2]


def expected(exps):
    post, files = {}, {}
    for e in exps:
        for k, name, v in e:
            (post if k == 'P' else files).setdefault(name, []).append(v)
    return sorted(post.items()), sorted(files.items())


def check(x, raw, exps, what, s=None, **kw):
    def go():
        r = parse(raw, s, **kw)
        v = body_view(r)
        r.close()
        return v
    o = attempt(go)
    want = expected(exps)
    x.did(len(exps) + 1)
    if o[0] != 'ok' or o[1] != want:
        if o[0] == 'ok' and len(raw) > 3000:
            x.fail('%s: %s entries instead of %s; first difference %s' % (
                what, [(k, len(v)) for g in o[1] for k, v in g][:20], [(k, len(v)) for g in want for k, v in g][:20],
                [(a, b) for a, b in zip(str(o[1]), str(want)) if a != b][:5]))
        else:
            x.fail('%s: %r, expected %r' % (what, o[1:], want), raw)
    x.outcome(o[1])


def u_content(x, prefix, n):
    for t in product('\r\n-Bx\x00', repeat=n):
        c = prefix + ''.join(t)
        if '\n--B' in '\n' + c:
            continue
        e = [fld(c, 'a'), fil(c, 'f'), fld('w', 'z')]
        check(x, mhttp([p[0] for p in e]), [p[1] for p in e], 'content %r in field and file' % c)
        e = [fil(c, 'f')]
        check(x, mhttp([p[0] for p in e], epilogue=''), [p[1] for p in e], 'content %r in the last file' % c)
    x.step()


def u_seq(x, idx):
    ps = [SHAPES[i] for i in idx]
    for pre, epi in (('', '\r\n'), ('pre\r\namble\r\n', '\r\nepi\r\n\r\nlogue\r\n'), ('', '')) if len(idx) < 3 else (('', '\r\n'),):
        raw = mhttp([p[0] for p in ps], preamble=pre, epilogue=epi)
        check(x, raw, [p[1] for p in ps], 'parts %r' % (idx,))
    x.sample((idx, expected([p[1] for p in ps])))


BOUNDS_ = ('B', '-', '--', 'x-', "'()+_,-./:=?0", '0123456789' * 7, '----WebKitFormBoundaryAbC', 'a b', 'ab', 'aba', 'aab', 'b=c', 'B-', 'b;c', '[x]', 'q"r', '\\')


def u_boundary(x, b):
    q = '"' + b.replace('\\', '\\\\').replace('"', '\\"') + '"'
    quoted = [q] if not all(c.isalnum() or c in '-_.+' for c in b) else [q, b]
    for bb in quoted:
        for c in ('', 'x', '\r\n', '--', '-' + b[:-1], '--' + b[:-1], '\r\n--' + b[:-1] + '\r\n', b, '\r\n-' + b, '--' + b[1:] + '!', b * 3, 'x--' + b, '-----' + b + '--\r\n', '\r--' + b + '\r\n\r\n', 'a--' + b + '--' + b):
            if '\n--' + b in '\n' + c:
                continue
            es = [fld(c, 'a', b=b), fil(c, 'f', b=b), fil('', 'g', b=b), fld(c, 'a', b=b)]
            body = multipart([p[0] for p in es], b)
            check(x, http(body, 'multipart/form-data; boundary=' + bb), [p[1] for p in es], 'boundary %r content %r' % (b, c))
            check(x, http(body, 'Multipart/Form-Data; charset=utf-8; Boundary=%s; x=y' % bb), [p[1] for p in es], 'boundary %r content %r' % (b, c))


def u_count(x, n, what):
    if what == 'fields':
        es = [fld(str(j % 7), 'a') for j in range(n)]
    elif what == 'empty':
        es = [fld('', 'a') for j in range(n)]
    elif what == 'files':
        es = [fil('x' * (j % 3), 'f', 'n%d' % (j % 10)) for j in range(n)]
    elif what == 'ignored':
        es = [IGNORED for j in range(n)] + [fld('v', 'a')]
    else:
        es = [(fld if j % 2 else fil)('%d' % j, 'k%d' % (j % 5)) for j in range(n)]
    for kw in ({}, {'chunk_size': 32}, {'chunk_size': 1000}):
        check(x, mhttp([p[0] for p in es]), [p[1] for p in es], '%d parts (%s)' % (n, what), **kw)
        x.step()


def u_size(x, n, shift):
    """contents of the size of the internal buffers, at every phase of the boundary"""
    data = ('0123456789abcdef' * (n / 16 + 1))[:n]
    es = [fld('s' * shift, 'a'), fil(data, 'f'), fil(data[:10], 'f'), fld(data[:n / 2], 'z')]
    check(x, mhttp([p[0] for p in es]), [p[1] for p in es], 'file of %d bytes' % n)
    d2 = ('\r\n--' * (n / 4 + 1))[:n]
    es = [fld('s' * shift, 'a'), fil(d2, 'f')]
    check(x, mhttp([p[0] for p in es]), [p[1] for p in es], 'file of %d CRLF bytes' % n)


def u_phase(x, n, chunk, size):
    """every position of the delimiter relative to the chunks"""
    for k in range(size):
        d = 'y' * (n + k)
        es = [fld('1', 'a'), fil(d, 'f'), fld('\r\n', 'b'), fil('\r\n--', 'g')]
        check(x, mhttp([p[0] for p in es]), [p[1] for p in es], 'file of %d bytes, chunk size %d' % (n + k, chunk), chunk_size=chunk)


def u_head(x, n):
    """part headers of n bytes"""
    fix = len('\r\nContent-Disposition: form-data; name="a"\r\nX: \r\n\r\n') 
    for kindf in (fld, fil):
        for c in ('', 'x', '\r\n\r\n', 'y' * 50):
            base = kindf(c, 'a')
            pad = n - len(base[0][3:base[0].find('\r\n\r\n') + 4]) - len('\r\nX: ')
            if pad < 0:
                continue
            p = kindf(c, 'a', headers=['X: ' + 'h' * pad])
            check(x, mhttp([fld('q', 'first')[0], p[0], fld('w', 'z')[0]]), [fld('q', 'first')[1], p[1], fld('w', 'z')[1]], 'part header of %d bytes' % n)


CTYPES = ((None, '', {}), ('text/plain', 'text/plain', {}), ('Text/HTML; Charset=utf-8', 'text/html', {'charset': 'utf-8'}), ('a/b;x="y;z"; q', 'a/b', {'x': 'y;z'}),
          ('multipart/mixed; boundary=B', 'multipart/mixed', {'boundary': 'B'}), ('', '', {}))
CTES = (None, '7bit', '8bit', 'binary', 'quoted-printable', 'base64', 'BASE64', 'x-gzip', '')
CLENS = (None, '0', '3', '8', '9', 'x', '-1', '9' * 20, '')


def u_partheads(x, kind_, ci, ti, content):
    """every combination of the other headers of a part, in every order"""
    ctype, main, extra = CTYPES[ci]
    cte = CTES[ti]
    b64 = (cte or '').lower() == 'base64'
    data = base64.b64decode(content) if b64 else content
    for clen in CLENS:
        heads = ['Content-Disposition: form-data; name="f"' + {'field': '', 'file': '; filename="n"', 'nofile': '; filename=""'}[kind_]]
        for h, v in (('Content-Type', ctype), ('Content-Transfer-Encoding', cte), ('Content-Length', clen)):
            if v is not None:
                heads.append(h + ': ' + v)
        if kind_ == 'file':
            want = [('F', 'f', ('memory', 'n', len(data), main, extra.get('charset'), extra, None if cte is None else cte.lower(), data))]
        else:
            want = [('P', 'f', field_value(data, main, (cte or '').lower(), extra))]
        for order in permutations(heads) if x.thorough or len(heads) < 4 else (heads, heads[::-1], heads[1:] + heads[:1]):
            raw = mhttp(['--B\r\n' + '\r\n'.join(order) + '\r\n\r\n' + content + '\r\n', part('w', 'z')])
            check(x, raw, [want, [('P', 'z', field_value('w'))]], 'part headers %r' % (order,))


EVIL = 'Content-Disposition: form-data; name="evil"%s\r\n\r\nevil'
PRE = ('', '\r\n', 'pre\r\n', '\r\n\r\n', EVIL % '' + '\r\n', EVIL % '; filename="e"' + '\r\n', '\r\n' + EVIL % '' + '\r\n', 'x\r\n' + EVIL % '' + '\r\n', '--\r\n', '--A\r\n',
       'not a --B\r\n' + EVIL % '' + '\r\n', 'p' * 1100 + '\r\n')
EPI = ('', '\r\n', '\r\nepi', '\r\n\r\n', '\r\n' + EVIL % '', '\r\n' + EVIL % '; filename="e"' + '\r\n', ' \t\r\n' + EVIL % '', '\r\n\r\n' + EVIL % '', '\r\n--B\r\n' + EVIL % '' + '\r\n--B--\r\n',
       '\r\n' + EVIL % '; filename="e"' + '\r\n--B', '\r\n--B--\r\n--B\r\n' + EVIL % '; filename="e"' + '\r\n--B--', '\r\n' + 'e' * 1100, '--', '\r\n--')
AROUND = ([], [0], [3], [4, 0], [0, 3], [15], [3, 18])


def u_around(x, pre, idx):
    """what is before the first delimiter and after the final one is not a part"""
    ps = [SHAPES[i] for i in AROUND[idx]]
    for epi in EPI:
        for kw in ({}, {'chunk_size': 8}):
            check(x, mhttp([p[0] for p in ps], preamble=pre, epilogue=epi), [p[1] for p in ps], 'preamble %r, epilogue %r' % (pre, epi), **kw)
    x.step()


NAMES = ('a', 'a b', 'a/b', "a'b", 'a%20b', 'a=b', 'a;b', 'a[0]', '\xc3\xa9', u'\u20ac'.encode('utf-8'), 'name', 'filename', '*', 'A' * 300, '0')


def u_name(x, name):
    for cs in (None, 'utf-8'):
        text = name.decode(cs or 'latin-1')
        raw = http(multipart([part('1', name), part('2', name, 'n'), part('3', name)]), mtype() + ('; charset=' + cs if cs else ''))
        o = attempt(parse, raw)
        x.did(3)
        if o[0] != 'ok':
            x.fail('name %r: %r' % (name, o), raw)
            continue
        r = o[1]
        x.eq([(k, [d['data'] for d in v]) for k, v in r.POST.lists()], [(text, ['1', '3'])], 'POST of name %r' % name)
        x.eq([((k if isinstance(k, unicode) else k.decode(cs or 'latin-1')), [f.read() for f in v]) for k, v in r.FILES.lists()],
             [(text, ['2'])], 'FILES of name %r' % name)


def u_nolength(x, length):
    """without a length, or with length 0, there is no body to parse"""
    o = attempt(lambda: body_view(parse(http(multipart([part('1', 'a')]), mtype(), length=length))))
    x.did(1)
    if o[:2] != ('ok', ([], [])):
        x.fail('Content-Length %r: %r' % (length, o))


def units(x):
    n = 7 if x.thorough else 5
    for k in range(0, 3):
        for t in product('\r\n-Bx\x00', repeat=k):
            if k < 2:
                yield ('content', ''.join(t), 0)
            else:
                for m in range(0, n - 1):
                    yield ('content', ''.join(t), m)
    for k in range(0, 4):
        for idx in product(range(len(SHAPES)), repeat=k):
            yield ('seq', idx)
    for b in BOUNDS_:
        yield ('boundary', b)
    for kind_ in ('field', 'file', 'nofile'):
        for ci in range(len(CTYPES)):
            for ti in range(len(CTES)):
                for content in ('', 'QUJDREU=', 'QUJD' * 3):
                    yield ('partheads', kind_, ci, ti, content)
    for what in ('fields', 'empty', 'files', 'ignored', 'mixed'):
        for c in range(1, 7) + [38, 39, 40, 41, 42, 43, 49, 50, 51, 52, 60, 80, 81, 100, 120, 200, 400]:
            yield ('count', c, what)
    for c in (100, 1023, 1024, 1025, 16384, 65000, 65400, 65500, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 200000):
        for sh in (0, 1, 2, 3, 30, 60) if not x.thorough else range(0, 80):
            yield ('size', c, sh)
    for chunk in (1, 2, 3, 4, 5, 7, 8, 11, 16, 32, 64, 100, 128):
        for c in (0, 60):
            yield ('phase', c, chunk, 60 if x.thorough else 30)
    for c in range(60, 100) + range(1000, 1025):
        yield ('head', c)
    for c in NAMES:
        yield ('name', c)
    for c in PRE:
        for k in range(len(AROUND)):
            yield ('around', c, k)
    for c in (None, '0', ''):
        yield ('nolength', c)
    if x.thorough:
        for idx in product(range(len(SHAPES)), repeat=4):
            yield ('seq', idx)
