# -*- coding: utf-8 -*-
"""C07: request size and field-count limits are enforced exactly."""
from env import *

ORACLE = ('The size and number of fields are summed up from the generated list of parts or pieces; the request must be rejected exactly '
          'when they exceed the limit, with the exception of that limit, and otherwise give exactly what it contains.')
BOUNDS = {'quick': 'multipart: all sequences of up to 3 of 9 part shapes x every memory limit 0..size+1 and None x field limits 0..n+1 and None; urlencoded and '
                   'query strings: all strings up to length 5 over {a, =, &, ;} x every memory limit x every field limit; raw bodies of '
                   'up to 80 bytes and around 64 KB, 128 KB x limits around the size x 5 ways of reading x 4 deliveries; the default limits',
          'thorough': 'sequences of 4 parts, strings up to length 8, all sizes within 20 of the buffer sizes'}
ASSUMPTIONS = ['when both limits are exceeded either exception is accepted', 'a field limit of 0 is no limit for urlencoded data (as for Django)']

K = Settings.Key
# (bytes of the part, kind, size counted, name, data reported)
SH = [
    (part('', 'a'), 'P', 3, 'a', ''),
    (part('xyz', 'bb'), 'P', 7, 'bb', 'xyz'),
    (part('\r\n', 'a'), 'P', 5, 'a', '\r\n'),
    (part('QUJD', 'c', cte='base64'), 'P', 7, 'c', 'ABC'),
    (part('Q', 'c', cte='base64'), 'P', 4, 'c', 'Q'),
    (part('v', 'e', ''), 'P', 4, 'e', 'v'),
    (part('file-content', 'f', 'n'), 'F', 0, 'f', 'file-content'),
    (part('QUJD' * 5, 'f', 'n', cte='base64'), 'F', 0, 'f', 'ABC' * 5),
    (part('ignored', None), 'N', 0, None, None),
]
S3 = [SH[i] for i in (1, 3, 6, 0)]
HEADS = [('Content-Length: %s' % n,) for n in ('0', '1', '12', '99999', '-1', 'x', '')] + [('X: y',), ('X: ' + 'h' * 800,), ('Content-Type: text/plain',), ('Content-Type: a/b; charset=utf-8',)]


def u_declared(x, a, b):
    """what a part says of itself does not change what is counted"""
    def shape(h):
        return [(part('', 'a', headers=h), 'P', 3, 'a', ''), (part('xyz', 'bb', headers=h), 'P', 7, 'bb', 'xyz'), (part('file-content', 'f', 'n', headers=h), 'F', 0, 'f', 'file-content'),
                (part('', 'f', 'n', headers=h), 'F', 0, 'f', ''), (part('ignored', None, headers=h), 'N', 0, None, None)]
    for p in shape(HEADS[a]):
        for q in shape(HEADS[b]):
            size = p[2] + q[2]
            n = len([1 for r in (p, q) if r[1] == 'P'])
            for limit in (size - 1, size, None):
                if limit is None or limit >= 0:
                    for fields in (n - 1, n, None):
                        if fields is None or fields >= 0:
                            multi(x, [p, q], limit, fields)
    x.step()


def multi(x, ps, limit, fields, chunks=None, cs=None, kw=None):
    body = multipart([p[0] for p in ps])
    raw = http(body, mtype())
    st = {K.DATA_UPLOAD_MAX_MEMORY: limit, K.DATA_UPLOAD_MAX_FIELDS: fields}
    st.update(kw or {})
    s = settings(**st)

    def go():
        r = parse(Chunks(every(raw, chunks)) if chunks else raw, s, chunk_size=cs)
        try:
            return ([(k, [d['data'] for d in v]) for k, v in lists(r.POST)], [(k, [f.read() for f in v]) for k, v in lists(r.FILES)])
        finally:
            r.close()
    o = attempt(go)
    size = sum(p[2] for p in ps)
    n = len([p for p in ps if p[1] == 'P'])
    post, files = {}, {}
    for p in ps:
        if p[1] != 'N':
            (post if p[1] == 'P' else files).setdefault(p[3], []).append(p[4])
    want = set()
    if limit is not None and size > limit:
        want.add('RequestDataTooBig')
    if fields is not None and n > fields:
        want.add('TooManyFieldsSent')
    x.did(len(ps))
    x.outcome((o[1], size, n, limit, fields))
    if o[0] == 'ok':
        if want:
            x.fail('size %d, %d fields accepted with limits %r, %r' % (size, n, limit, fields), raw)
        elif o[1] != (sorted(post.items()), sorted(files.items())):
            x.fail('limits %r, %r: %r' % (limit, fields, o[1]), raw)
    elif o[1] not in want:
        x.fail('size %d, %d fields, limits %r, %r: %s' % (size, n, limit, fields, o[1]), raw)


def u_multipart(x, idx):
    ps = [SH[i] for i in idx]
    size = sum(p[2] for p in ps)
    n = len([p for p in ps if p[1] == 'P'])
    for limit in range(0, size + 2) + [None] if len(idx) < 3 or x.thorough else sorted(set([0, 3, 4, 7, 10, max(0, size - 1), size, size + 1])):
        for fields in (None, n, n - 1) if limit in (size, size + 1) else (None,):
            if fields is None or fields >= 0:
                multi(x, ps, limit, fields)
    for fields in range(0, n + 2):
        multi(x, ps, None, fields)
        multi(x, ps, size + 1, fields, cs=3)
    if len(idx) < 3 or x.thorough:
        for limit in (size - 1, size):
            if limit >= 0:
                for ch in (1, 13):
                    multi(x, ps, limit, None, chunks=ch)
                for kw in ({K.FILE_UPLOAD_MAX_MEMORY: 0, K.FILE_UPLOAD_DIR: scratch(x)}, {K.MAX_HEADER_SIZE: 1000}, {K.DEFAULT_CHARSET: 'utf-8'}):
                    multi(x, ps, limit, None, kw=kw)
    x.step()


_d = []


def scratch(x):
    if not _d:
        _d.append(x.dir())
    return _d[0]


def u_multibig(x, n, base64_):
    """fields larger than the buffers"""
    data = ('abcdefg' * (n / 7 + 1))[:n]
    ps = [(part(data, 'a'), 'P', n + 3, 'a', data), SH[6], SH[1]]
    if base64_:
        n = n / 4 * 4
        data = 'QUJD' * (n / 4)
        ps[0] = (part(data, 'a', cte='base64'), 'P', n + 3, 'a', 'ABC' * (n / 4))
    for d in (-1, 0, 1):
        multi(x, ps, n + 10 + d, None)
        multi(x, ps[:1], n + 3 + d, None)
        multi(x, [SH[1]] + ps[:1], n + 10 + d, 2)
        multi(x, ps, n + 3 + d, None)
    x.step()


def pairs(q):
    out = []
    for p in q.replace(';', '&').split('&'):
        if p:
            k, _, v = p.partition('=')
            out.append((k, v))
    d = {}
    for k, v in out:
        d.setdefault(k, []).append(v)
    return sorted(d.items())


def u_form(x, q):
    n = q.count('&') + q.count(';') + 1
    want = pairs(q)
    raw = http(q, FORM)
    limits = sorted(set([0, 1, max(0, len(q) - 1), len(q), len(q) + 1])) + [None]
    for limit in limits:
        for fields in range(0, n + 2) + [None] if limit in (None, len(q)) else (None, n):
            s = settings(**{K.DATA_UPLOAD_MAX_MEMORY: limit, K.DATA_UPLOAD_MAX_FIELDS: fields})
            exc = set()
            if limit is not None and len(q) > limit:
                exc.add('RequestDataTooBig')
            elif fields and n > fields and q:
                exc.add('TooManyFieldsSent')
            for how in ('parse', 'body') if limit in (len(q), len(q) - 1) else ('parse',):
                def go():
                    r = parse(raw, s, call='parse_request_header')
                    if how == 'body' and r.body() != q:
                        x.fail('body() of %r' % q)
                    r.parse_request_body()
                    return lists(r.POST)
                o = attempt(go)
                x.outcome((q, limit, fields, how, o[1]))
                x.did(1)
                if o[0] == 'ok' and (exc or o[1] != want) or o[0] != 'ok' and o[1] not in exc:
                    x.fail('form %r (%s), limits %r, %r: %r, expected %s' % (q, how, limit, fields, o[1:], exc or want))
    # the query string, and a QueryDict of its own
    for fields in range(0, n + 2) + [None]:
        s = settings(**{K.DATA_UPLOAD_MAX_FIELDS: fields})
        bad = q and fields and n > fields
        for o in (attempt(lambda: lists(parse(http(target='/?' + q, method='GET'), s).GET)), attempt(lambda: lists(QueryDict(s, q))),
                  attempt(lambda: lists(QueryDict(s, q.decode('ascii'), mutable=True)))):
            x.did(1)
            if (o[0] == 'ok') == bool(bad) or o[0] == 'ok' and o[1] != want or o[0] != 'ok' and o[1] != 'TooManyFieldsSent':
                x.fail('query %r, limit %r: %r' % (q, fields, o[1:]))
    x.step()


READS = ('parse', 'body', 'body2', 'parse-body', 'header-body')


def u_raw(x, n, ctype, how):
    data = ('0123456789' * (n / 10 + 1))[:n]
    if ctype == 'multipart':
        # body() holds all of it in memory
        if n < len(multipart([part('', 'f', 'n')])):
            return
        c = 'y' * (n - len(multipart([part('', 'f', 'n')])))
        data = multipart([part(c, 'f', 'n')])
        ct = mtype()
    else:
        ct = ctype
    raw = http(data, ct)
    ls = sorted(set(l for l in [n + d for d in (-2, -1, 0, 1, 2)] + [0, 1, n / 2] if l >= 0)) + [None]
    for limit in ls:
        s = settings(**{K.DATA_UPLOAD_MAX_MEMORY: limit})
        for p in ((None, 1, 7, 16) if n < 100 else (None, 4096, 65536, 65537)):
            if n < 100 or x.thorough or limit in (n, n - 1, n + 1) or p is None:
                def go():
                    r = HttpRequest(BytesIO(raw) if p is None else Chunks(every(raw, p)), s)
                    if how in ('parse', 'parse-body'):
                        r.parse()
                        if how == 'parse':
                            return None
                        return r.body()
                    if how == 'header-body':
                        r.parse_request_header()
                    v = r.body()
                    if how == 'body2' and r.body() != v:
                        x.fail('body() again differs')
                    r.parse_request_body()
                    if ctype == 'multipart':
                        f = r.FILES['f'].read()
                        if f != c:
                            x.fail('file of %d bytes: %d bytes' % (len(c), len(f)))
                    return v
                o = attempt(go)
                x.outcome((n, ctype, limit, how, o[0]))
                x.did(n / 65536 + 1)
                if limit is not None and n > limit:
                    if ctype == 'multipart' and how == 'parse':
                        good = o[0] == 'ok'      # the content of files does not count
                    else:
                        good = o[1] == 'RequestDataTooBig'
                elif ctype == 'multipart' and how == 'parse-body':
                    good = o[1] == 'RawPostDataException'
                elif o[0] != 'ok':
                    good = False
                elif o[1] is None:
                    good = how == 'parse'
                else:
                    good = o[1] == data
                if ctype == 'multipart' and how == 'parse-body' and o[1] == 'RawPostDataException':
                    good = True
                if not good:
                    x.fail('%d bytes of %s, limit %r, read with %s in pieces of %s: %s' % (n, ctype, limit, how, p, repr(o[1:])[:200]))
    x.step()


def u_defaults(x, what, d):
    s = Settings.default()
    n = s.DATA_UPLOAD_MAX_NUMBER_FIELDS + d
    m = s.DATA_UPLOAD_MAX_MEMORY_SIZE + d
    if what == 'get':
        o = attempt(lambda: len(parse(http(target='/?' + '&'.join(['a=1'] * n), method='GET'), s).GET.getlist('a')))
        ok, exc = n, 'TooManyFieldsSent'
    elif what == 'form':
        o = attempt(lambda: len(parse(http(';'.join(['a=1'] * n), FORM), s).POST.getlist('a')))
        ok, exc = n, 'TooManyFieldsSent'
    elif what == 'multipart':
        o = attempt(lambda: len(parse(mhttp([part('', 'a')] * n), s).POST.getlist('a')))
        ok, exc = n, 'TooManyFieldsSent'
    elif what == 'text':
        o = attempt(lambda: len(parse(http('x' * m, 'text/plain'), s).body()))
        ok, exc = m, 'RequestDataTooBig'
    elif what == 'field':
        o = attempt(lambda: len(parse(mhttp([part('x' * (m - 3), 'a')]), s).POST['a']['data']))
        ok, exc = m - 3, 'RequestDataTooBig'
    elif what == 'file':
        o = attempt(lambda: parse(mhttp([part('x' * m, 'a', 'n')]), s).FILES['a'].size)
        ok, exc = m, ''
    x.did(1)
    if not exc or d <= 0:
        good = o[:2] == ('ok', ok)
    else:
        good = o[1] == exc
    if not good:
        x.fail('%s at the default limit %+d: %r' % (what, d, o[1:]))
    x.step()


def units(x):
    for k in range(0, 5 if x.thorough else 3):
        for idx in product(range(len(SH)), repeat=k):
            yield ('multipart', idx)
    if not x.thorough:
        for idx in product(range(len(SH)), repeat=3):
            yield ('multipart', idx)
    for a in range(len(HEADS)):
        for b in range(len(HEADS)):
            if x.thorough or a in (0, 4, 7) or b == 0 or a == b:
                yield ('declared', a, b)
    for n in (1000, 1023, 1024, 1025, 65520, 65530, 65536, 65540, 131072):
        for b in (0, 1):
            yield ('multibig', n, b)
    for q in strings('a=&;', 8 if x.thorough else 5):
        yield ('form', q)
    if not x.thorough:
        for q in strings('a&', 7, 6):
            yield ('form', q)
    for q in ('%41=%26&b=%3B', 'a=1&' * 5, '&' * 9, 'a+b=%C3%A9'):
        yield ('form', q) if '%' not in q else ('formraw', q)
    ns = list(range(0, 13)) + [71, 72, 75, 80, 99, 100, 1024] if x.thorough else [0, 1, 2, 3, 7, 12, 71, 72, 80, 1024]
    big = [65535, 65536, 65537, 131072, 131073]
    if x.thorough:
        big += range(65536 - 20, 65536 + 20) + range(131072 - 20, 131072 + 20) + [1 << 20]
    for n in ns + big:
        for ct in ('text/plain', 'application/octet-stream', FORM, 'multipart'):
            for how in READS:
                if ct == FORM and how == 'parse-body':
                    continue
                yield ('raw', n, ct, how)
    for what in ('get', 'form', 'multipart', 'text', 'field', 'file'):
        for d in (-1, 0, 1) if x.thorough or what in ('get', 'form') else (1,) if what == 'file' else (0, 1):
            yield ('defaults', what, d)


def u_formraw(x, q):
    """percent-escapes count as sent, and an escaped delimiter does not separate"""
    n = q.count('&') + 1
    for limit in (len(q) - 1, len(q)):
        for fields in (n - 1, n):
            o = attempt(lambda: parse(http(q, FORM), settings(**{K.DATA_UPLOAD_MAX_MEMORY: limit, K.DATA_UPLOAD_MAX_FIELDS: fields or None})))
            x.did(1)
            want = 'RequestDataTooBig' if limit < len(q) else 'TooManyFieldsSent' if fields and n > fields else None
            if (o[0] == 'ok') != (want is None) or want and o[1] != want:
                x.fail('form %r, limits %r: %r' % (q, (limit, fields), o[1:]))
