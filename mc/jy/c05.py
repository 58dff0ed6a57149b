# -*- coding: utf-8 -*-
"""C05: a truncated multipart body never passes for a complete one."""
from env import *
import base64

ORACLE = ('Computed from the layout of the generated body: a part is complete when its closing delimiter lies before the cut, and must '
          'be reported when the whole delimiter line does; a part without either may only be a field holding a prefix.')
BOUNDS = {'quick': 'every truncation point of 15 bodies (and of bodies whose parts announce a length of 0..13) x 5 handler sets x up to 6 deliveries',
          'thorough': 'every truncation point of all bodies of two parts out of 12 shapes and of 15 bodies, x 5 handler sets x 9 deliveries'}
ASSUMPTIONS = ['rejecting a truncated body with MultiPartParserError is accepted']


def F(name, content, cte=None, b=B, **kw):
    enc = base64.b64encode(content) if cte == 'base64' else content
    return ('P', name, content, enc, part(enc, name, cte=cte, b=b, **kw))


def U(name, content, fn='n', cte=None, b=B, **kw):
    enc = base64.b64encode(content) if cte == 'base64' else content
    return ('F', name, content, enc, part(enc, name, fn, cte=cte, b=b, **kw))


def N(content, b=B):
    return ('N', None, content, content, part(content, None, b=b))


LB = '----Boundary0123'
BODIES = [
    ([F('a', 'v1'), U('f', 'file data'), F('z', 'w')], B),
    ([U('f', '')], B),
    ([U('f', 'x'), U('f', 'y'), U('f', 'z')], B),
    ([U('f', '\r\n--\r\n--A\r\n', ctype='text/plain'), U('g', '\r\n')], B),
    ([F('a', ''), F('a', ''), F('b', '\r\n')], B),
    ([F('a', 'x\r\n\r\nContent-Disposition: form-data; name="evil"; filename="e"\r\n\r\ny'), U('f', 'q')], B),
    ([U('f', 'hello world', cte='base64'), F('b', 'xyz', cte='base64'), U('g', '\x00\xff\x80', cte='base64')], B),
    ([N('Content-Disposition: form-data; name="evil"; filename="e"\r\n\r\ny'), U('f', 'q')], B),
    ([U('f', 'd' * 60, b=LB), F('a', 'v' * 30, b=LB), U('g', '--' + LB[:-1], b=LB)], LB),
    ([U('a', '0123456789'), U('b', 'abcdefghij'), U('c', 'ABCDEFGHIJ')], B),
    ([U('a', 'data', headers=['X: ' + 'h' * 100])], B),
    ([F('a', '1'), U('a', '2'), F('a', '3'), U('a', '4'), F('a', '5')], B),
    ([U('f', '\n' * 5 + '\r' * 5)], B),
    ([F('only', 'value')], B),
    ([U('f', 'x--B\r\n'), F('a', '\r\n---B--'), U('g', '--b--B--')], B),
]
SHAPES = [F('a', 'v'), F('a', ''), U('f', 'dat'), U('f', ''), U('g', '\r\n-', ctype='text/x'), N('x\r\n\r\ny'), F('b', '\r\n\r\n'),
          U('h', 'q', cte='base64'), F('c', 'zz', cte='base64'), U('f', 'D' * 40), F('a', 'L' * 40), U('f', '--')]

SETS = ('default', 'spill', 'memory+temp', 'temp', 'small-chunks')
_dirs = {}


def build(x, hs):
    if 'd' not in _dirs:
        _dirs['d'] = x.dir()
    kw = {Settings.Key.FILE_UPLOAD_DIR: _dirs['d']}
    handlers = None
    cs = None
    if hs == 'spill':
        kw[Settings.Key.FILE_UPLOAD_MAX_MEMORY] = 12
    elif hs == 'memory+temp':
        handlers = [MemoryFileUploadHandler, TemporaryFileUploadHandler]
    elif hs == 'temp':
        handlers = [TemporaryFileUploadHandler]
    elif hs == 'small-chunks':
        cs = 5
    return settings(**kw), handlers, cs


def check(x, parts, b, hs, t, chunks, s, handlers, cs):
    bodylen = sum(len(p[4]) for p in parts) + len(b) + 6

    def go():
        r = parse(Chunks(chunks), s, handlers=handlers, chunk_size=cs)
        try:
            return [(k, [d['data'] for d in v]) for k, v in r.POST.lists()], [(k, [file_view(f)[7] for f in v]) for k, v in r.FILES.lists()], \
                   [(f.name, f.size) for k, v in r.FILES.lists() for f in v]
        finally:
            r.close()
    o = attempt(go)
    x.did(len(chunks))
    if o[0] != 'ok':
        x.outcome(o[1])
        if o[1] != 'MultiPartParserError':
            x.fail('cut at %d (%s): %r' % (t, hs, o), chunks)
        return
    x.outcome(o[1])
    post, files = dict(o[1][0]), dict(o[1][1])
    for k, v in files.items():
        for c, (name, size) in zip(v, o[1][2]):
            pass
    # walk the parts
    sep = '--' + b
    pos = 0
    left_p = dict((k, list(v)) for k, v in post.items())
    left_f = dict((k, list(v)) for k, v in files.items())
    for kind_, name, content, enc, raw in parts:
        end = pos + len(raw) + len(sep)      # the end of its closing delimiter
        start = pos + raw.find('\r\n\r\n') + 4
        pos += len(raw)
        if kind_ == 'N':
            continue
        left = (left_p if kind_ == 'P' else left_f).get(name, [])
        if t >= end + 2:
            if not left or left[0] != content:
                x.fail('cut at %d (%s): complete part %r: got %r' % (t, hs, (name, content), left[:1]), chunks)
                return
            left.pop(0)
        elif t >= end:
            if left and left[0] == content:
                left.pop(0)
        elif kind_ == 'P' and t >= start:
            if left and ((enc + '\r\n' + sep).startswith(left[0]) or content.startswith(left[0])):
                left.pop(0)
    for kind_, d in (('POST', left_p), ('FILES', left_f)):
        for k, v in d.items():
            if v:
                x.fail('cut at %d (%s): %s holds %r under %r, which was not received completely' % (t, hs, kind_, v, k), chunks)
                return
    sizes = sorted(n for f, n in o[1][2])
    if sizes != sorted(len(c) for v in files.values() for c in v):
        x.fail('cut at %d (%s): sizes %r of %r' % (t, hs, sizes, files), chunks)


def run(x, parts, b, hs, deep):
    s, handlers, cs = build(x, hs)
    body = multipart([p[4] for p in parts], b)
    raw = http(body, mtype(b))
    h = len(raw) - len(body)
    for t in range(0, len(body)):
        data = raw[:h + t]
        ds = [[data], every(data, 1), cut(data, [max(1, h + t - 1)])]
        if hs == 'default' or deep:
            ds += [every(data, 7), cut(data, [h]), cut(data, [h, h + t / 2])]
        if deep:
            ds += [every(data, n) for n in (2, 3, 11)]
        for d in ds:
            check(x, parts, b, hs, t, d, s, handlers, cs)
    x.step()


def u_body(x, i, hs):
    run(x, BODIES[i][0], BODIES[i][1], hs, x.thorough)
    x.sample((i, hs, multipart([p[4] for p in BODIES[i][0]], BODIES[i][1])[:200]))


def u_pair(x, i, j, hs):
    run(x, [SHAPES[i], SHAPES[j]], B, hs, False)


def u_clen(x, k, hs):
    """parts that announce a length, which is not that of the content"""
    h = ['Content-Length: %s' % k]
    run(x, [U('f', 'content--', headers=h), F('a', 'v', headers=h), U('g', '\r\n', headers=h, ctype='text/plain')], B, hs, False)


def u_large(x, n, hs):
    """cuts around the sizes of the internal buffers"""
    parts = [F('a', 'v'), U('f', 'D' * n), U('g', 'E' * 10)]
    s, handlers, cs = build(x, 'default')
    body = multipart([p[4] for p in parts])
    raw = http(body, mtype())
    h = len(raw) - len(body)
    pts = set(range(len(body) - 160, len(body))) | set(range(65536 - 12, 65536 + 12)) | set((1 << 17) + d for d in range(-8, 8))
    for t in sorted(pts):
        if 0 < t < len(body):
            check(x, parts, B, hs, t, [raw[:h + t]], s, handlers, cs)
    x.step()


def units(x):
    for hs in SETS:
        for i in range(len(BODIES)):
            yield ('body', i, hs)
    for n in (65300, 65400, 65536, 131000):
        yield ('large', n, 'default')
    for k in range(0, 14) + ['x', '-1', '']:
        for hs in SETS if x.thorough or k in (7, 9) else ('default', 'temp'):
            yield ('clen', k, hs)
    for i in range(len(SHAPES)):
        for j in range(len(SHAPES)):
            for hs in SETS if x.thorough else ('default', ):
                if x.thorough or (i * 5 + j) % 6 == 0:
                    yield ('pair', i, j, hs)
