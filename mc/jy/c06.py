# -*- coding: utf-8 -*-
"""C06: base64 parts decode to the original bytes however they are wrapped."""
from env import *
import base64

ORACLE = ('An independent bit-wise decoder: whitespace is removed; the rest must be groups of four characters of the alphabet, padded '
          'only at the very end.  A valid text must give exactly its bytes, an invalid one MultiPartParserError (file) or itself (field).')
BOUNDS = {'quick': 'all placements of 6 whitespace strings at 1 gap, and of 2 at 2 gaps, of the encodings of 0..7 bytes; all strings up to length 6 over '
                   '{A, /, =, !, LF}; every position of each of 16 disturbances in a text of 80 characters; each of them x chunk sizes '
                   '2, 3, 5, 9, 64, 64 KB x part headers that put 0, 1, 2, 3 or all bytes of the content into the first chunk; '
                   'sizes around 64 KB wrapped at 76',
          'thorough': 'placements at up to 3 gaps, strings up to length 7, all chunk sizes to 40, all phases'}
ASSUMPTIONS = ['characters 0x1c-0x1f, 0x85 and 0xa0, which Jython also takes for whitespace, are not used as content']

ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
VAL = dict((c, i) for i, c in enumerate(ALPHA))


def decode(text):
    """the bytes, or None"""
    t = [c for c in text if c not in ' \t\r\n\x0b\x0c']
    if len(t) % 4:
        return None
    out = []
    for g in range(0, len(t), 4):
        q = t[g:g + 4]
        last = g + 4 == len(t)
        n = 4
        if last and q[3] == '=':
            n = 2 if q[2] == '=' else 3
        v = 0
        for c in q[:n]:
            if c not in VAL:
                return None
            v = v * 64 + VAL[c]
        v <<= 6 * (4 - n)
        out.append((chr(v >> 16) + chr(v >> 8 & 255) + chr(v & 255))[:n - 1])
    return ''.join(out)


def encode(data):
    out = []
    for g in range(0, len(data), 3):
        q = data[g:g + 3]
        v = 0
        for c in (q + '\0\0')[:3]:
            v = v * 256 + ord(c)
        out.append((ALPHA[v >> 18] + ALPHA[v >> 12 & 63] + ALPHA[v >> 6 & 63] + ALPHA[v & 63])[:len(q) + 1] + '=' * (3 - len(q)))
    return ''.join(out)


def padded(name, filename, first):
    """header lines that leave `first` bytes of content in the first 1024 bytes of the part"""
    if first is None:
        return ()
    p = part('', name, filename, cte='base64', headers=['X: '])
    n = len(p) - len('--B') - 2
    return ['X: ' + 'h' * (1024 - n - first)]


def build(texts, first):
    ps = []
    for k, t in texts:
        fn = 'n' if k == 'F' else None
        ps.append(part(t, 'f', fn, cte='base64', headers=padded('f', fn, first)))
    return mhttp(ps + [part('w', 'z')])


def check(x, texts, first, cs, why, handlers=None):
    raw = build(texts, first)

    def go():
        r = parse(raw, handlers=handlers, chunk_size=cs)
        try:
            for f in r.FILES.getlist('f'):
                f.seek(0)
            return ([d['data'] for d in r.POST.getlist('f')], [(f.size, f.read()) for f in r.FILES.getlist('f')],
                    [d['data'] for d in r.POST.getlist('z')])
        finally:
            r.close()
    o = attempt(go)
    post, files, bad = [], [], False
    for k, t in texts:
        d = decode(t)
        if k == 'F':
            bad = bad or d is None
            files.append((len(d), d) if d is not None else None)
        else:
            post.append(t if d is None else d)
    want = 'MultiPartParserError' if bad else (post, files, ['w'])
    x.did(len(texts))
    x.outcome(o[1])
    if o[1] != want:
        x.fail('%s, %s, %s bytes in the first chunk, chunk size %s: %r, expected %r' % (why, [(k, t[:100]) for k, t in texts], first, cs, o[1:], want), raw[-300:])


WS = ('\r\n', '\n', ' ', '\t', '\r\n\t ', '\r\n\r\n\r\n')
DATA = ['', '\xff', '\x00\xfe', 'abc', '\xfb\xef\xbe\xad', 'hello', '\r\n--B\r', '\x00\x01\x02\x03\x04\x05\x06']
SIZES = (None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 64)


def u_wrap(x, i, gaps, ws):
    t = encode(DATA[i])
    if base64.b64encode(DATA[i]) != t or decode(t) != DATA[i]:
        x.fail('the oracle is wrong')
    for g, w in reversed(zip(gaps, ws)):
        t = t[:g] + w + t[g:]
    long_ = 'QUJD' * 6
    for first in (None, 0, 1, 2, 3) if len(gaps) < 2 or x.thorough else (None, 0, 1):
        for cs in SIZES if x.thorough and first is not None else (None,) if first is None else (1, 2, 3, 4, 5) if len(gaps) < 2 else (3,):
            check(x, [('F', t), ('P', t), ('F', long_ + t)] if first is None else [('F', long_[:(first + cs) * 4 % 24] + t)], first, cs, 'wrapped')
    x.step()


def u_string(x, prefix, n):
    for tail in strings('A/=!\n', n, n):
        t = prefix + tail
        check(x, [('F', t)], None, None, 'string')
        check(x, [('P', t), ('F', 'QUI='), ('F', 'QUJD')], None, None, 'string')
        if len(t) < 5 or x.thorough:
            check(x, [('F', 'QUJD' * 6 + t)], 0, 4, 'string at the end')
            check(x, [('F', t + 'QUJD' * 6)], 0, 3, 'string at the beginning')
    x.step()


DISTURB = ('', '=', '==', '!', '\x00', '-', '_', 'Q', 'QQ', 'QQQ', '====', '\n', '\r\n', ' \t', '\x0b', '\x0c')


def u_disturb(x, d, pos):
    base = encode(''.join(chr((j * 37 + 11) & 255) for j in range(60)))
    t = base[:pos] + d + base[pos:]
    for first in (0, 1, 2, 3):
        for cs in (2, 5, 9, 64) if not x.thorough else range(1, 41):
            check(x, [('F', t)], first, cs, 'disturbed')
    for cs in (None, 5):
        check(x, [('P', t), ('P', t[:pos]), ('F', 'QQ=='), ('F', base)], None, cs, 'disturbed field')
    # the same cut off
    t = base[:pos] + d
    for cs in (None, 3):
        check(x, [('F', t)], 0, cs, 'cut off')
        check(x, [('F', t), ('F', base)], None, cs, 'cut off')
    x.step()


def u_pairs(x, cs):
    """what one part leaves behind is nothing to the next"""
    ts = ('', 'QQ==', 'QUI=', 'QUJD', 'QUJD' * 12, 'QUJD' * 11 + 'QQ==', 'QUJD' * 11 + 'QUI=', '\n', 'QUJD' * 10 + '\r\nQQ\r\n==\r\n')
    for first in (None, 0, 2):
        for a in ts:
            for b in ts:
                for c in ('QUJD' * 9, 'QQ==') if x.thorough else ('QUJD' * 9,):
                    check(x, [('F', a), ('P', b), ('F', c)], first, cs, 'three parts')
                    check(x, [('F', a), ('F', b), ('P', c)], first, cs, 'three parts')
                x.step()


def u_handlers(x, i, cs):
    t = encode(DATA[i] * 9)
    t = '\r\n'.join(every(t, 7))
    d = x.dir()
    for hs in ([TemporaryFileUploadHandler], [MemoryFileUploadHandler, TemporaryFileUploadHandler], [MemoryFileUploadHandler]):
        for first in (None, 0, 3):
            check(x, [('F', t), ('P', t), ('F', t + '!')] if first else [('F', t), ('F', t)], first, cs, 'handlers %s' % hs, handlers=hs)


def u_other(x, cte):
    """other encodings are not touched"""
    t = 'QUJD\r\nQQ=='
    o = attempt(lambda: body_view(parse(mhttp([part(t, 'f', 'n', cte=cte), part(t, 'g', cte=cte)]))))
    x.did(2)
    want = ([('g', [field_value(t, '', (cte or '').strip())])], [('f', [('memory', 'n', len(t), '', None, {}, cte and cte.strip(), t)])])
    if o[:2] != ('ok', want):
        x.fail('Content-Transfer-Encoding %r: %r' % (cte, o))


def u_heads(x, cte, ctype, clen):
    """the other headers of the part do not matter"""
    d = x.dir()
    hs = [] if clen is None else ['Content-Length: ' + clen]
    for t in ('QUJD', 'QUI=', 'QU\r\nJD', 'QUJ', 'QUJ*', ''):
        want = decode(t)
        for order in (0, 1):
            for fn in (None, 'n', ''):
                p = part(t, 'f', fn, ctype=ctype, cte=cte, headers=hs)
                if order:
                    head, rest = p.split('\r\n\r\n', 1)
                    lines = head.split('\r\n')
                    p = '\r\n'.join(lines[:1] + lines[:0:-1]) + '\r\n\r\n' + rest
                o = attempt(parse, mhttp([p]))
                x.did(1)
                if fn:
                    got = o[1] if o[0] != 'ok' else o[1].FILES['f'].read()
                    w = 'MultiPartParserError' if want is None else want
                else:
                    got = o[1] if o[0] != 'ok' else o[1].POST['f']['data']
                    w = t if want is None else want
                if got != w:
                    x.fail('%r: %r, expected %r' % (p, got, w))


def u_big(x, n, wrap, cs):
    data = ''.join(chr((j * j / 7 + j) & 255) for j in range(1000)) * (n / 1000 + 1)
    t = encode(data[:n])
    t = '\r\n'.join(every(t, wrap)) if wrap else t
    check(x, [('F', t), ('P', t), ('F', t[:100000])], None, cs, '%d bytes wrapped at %s' % (n, wrap))
    check(x, [('F', t[:-1] + '!')], 1, cs, '%d bytes wrapped at %s, bad end' % (n, wrap))
    x.step()


def units(x):
    for i, d in enumerate(DATA):
        n = len(encode(d))
        for k in range(0, 4 if x.thorough else 3):
            for gaps in combinations(range(n + 1), k):
                for ws in product(WS if k < 2 or x.thorough else WS[:3:2], repeat=k):
                    yield ('wrap', i, gaps, ws)
    m = 7 if x.thorough else 6
    yield ('string', '', 0)
    for a in 'A/=!\n':
        yield ('string', a, 0)
        for b in 'A/=!\n':
            for n in range(0, m - 1):
                yield ('string', a + b, n)
    for d in DISTURB:
        for pos in range(0, 81):
            if x.thorough or pos < 9 or pos > 74 or pos % 7 == 0:
                yield ('disturb', d, pos)
    for cs in SIZES if x.thorough else (None, 3, 4):
        yield ('pairs', cs)
    for i in range(len(DATA)):
        for cs in SIZES:
            yield ('handlers', i, cs)
    for cte in ('base64', 'BASE64', ' Base64 ', 'base64; x=y'):
        for ctype in (None, 'text/plain', 'text/plain; charset=utf-8', 'application/octet-stream', 'multipart/mixed', ''):
            for clen in (None, '0', '3', '4', 'x'):
                yield ('heads', cte, ctype, clen)
    for cte in (None, '7bit', '8bit', 'binary', 'quoted-printable', 'x-base64', 'base64x', ''):
        if cte != '':
            yield ('other', cte)
    for n in (49000, 49149, 49150, 49151, 49152, 49153, 65536, 98304, 100001):
        for wrap in (76, 0, 64, 1000) if x.thorough else (76, 0):
            for cs in (None, 1024, 65537) if x.thorough else (None, 1024):
                yield ('big', n, wrap, cs)
