# -*- coding: utf-8 -*-
"""C15: LazyStream against a queue of bytes."""
from env import *

ORACLE = ('A queue of bytes with a position: read(n) takes min(n, left) bytes, read() all, next() a non-empty piece from the front (StopIteration exactly at the end), '
          'readline() up to and with a line feed, unget() puts back in front, tell() is bytes taken minus bytes put back; after close() only what the '
          'producer had delivered and was not consumed is left.')
BOUNDS = {'quick': 'all sequences of up to 4 of 17 operations on every cutting of 4 and 6 bytes with and without empty chunks (producers: iterator, generator, ChunkIter, '
                   'file, LazyStream), sequences of 5 of 8; ungetting 1..60 times without and 300 times with progress; the same through HttpRequest',
          'thorough': 'sequences of 5 of 17 and 7 of 8'}
ASSUMPTIONS = ['up to 30 pushes in a row of the same amount are not "over and over"; 1000 are']


class It(object):
    """a producer, which counts what it delivered"""

    def __init__(self, chunks):
        self.chunks = list(chunks)
        self.i = 0
        self.got = 0

    def __iter__(self):
        return self

    def next(self):
        if self.i >= len(self.chunks):
            raise StopIteration()
        c = self.chunks[self.i]
        self.i += 1
        self.got += len(c)
        return c

    def read(self, n=-1):
        while self.i < len(self.chunks):
            c = self.chunks[self.i]
            if not c:
                self.i += 1
                continue
            if n is None or n < 0 or n >= len(c):
                self.i += 1
            else:
                c, self.chunks[self.i] = c[:n], c[n:]
            self.got += len(c)
            return c
        return b''


def producer(kind, chunks):
    """(what the LazyStream gets, what counts)"""
    it = It(chunks)
    if kind == 'iter':
        return it, it
    if kind == 'gen':
        return (c for c in it), it
    if kind == 'chunkiter':
        return ChunkIter(it, 2), it
    if kind == 'lazy':
        return LazyStream(it), it
    return iter(list(chunks)), None


KINDS = ('iter', 'gen', 'chunkiter', 'lazy', 'list')
OPS = [('read', 0), ('read', 1), ('read', 2), ('read', 5), ('read', None), ('next',), ('readline', None), ('readline', 2), ('readline', 0), ('list',),
       ('unget', ''), ('unget', 'X'), ('unget', '\nYZ'), ('back',), ('close',), ('readline', -1), ('for',)]
FEW = [('read', 1), ('read', 3), ('next',), ('readline', None), ('back',), ('unget', 'X'), ('close',), ('read', None)]


def run(x, kind, data, points, empties, ops):
    chunks = cut(data, points)
    if empties:
        chunks = [''] + [c for p in zip(chunks, [''] * len(chunks)) for c in p]
    p, it = producer(kind, chunks)
    s = LazyStream(p)
    q, pos, last, pushed = data, 0, '', 0
    for n, op in enumerate(ops):
        name = op[0]
        want = None
        if name == 'read':
            k = op[1]
            got = s.read() if k is None else s.read(k)
            want = q if k is None else q[:k]
        elif name == 'readline':
            k = op[1]
            got = s.readline() if k is None else s.readline(k)
            e = q.find('\n') + 1 or len(q)
            if k is not None and k >= 0:
                e = min(e, k)
            want = q[:e]
        elif name == 'list':
            got = b''.join(list(s))
            want = q
        elif name == 'for':
            got = b''
            for c in s:
                got = c
                if c:
                    break
            want = q[:len(got)]
            if q and not got:
                want = q
        elif name == 'next':
            try:
                got = s.next()
                want = q[:len(got)]
                if not got and not (empties and kind != 'chunkiter'):
                    want = '(something)'
            except StopIteration:
                got, want = '', q
        elif name == 'close':
            s.close()
            # what was delivered and not consumed: all of it minus what the producer still has
            if it is not None:
                left = len(data) - it.got
            else:
                left = None
            got = want = ''
            if left is None or kind == 'lazy':
                # the buffer cannot be seen from outside: find out
                rest = s.read()
                if not q.startswith(rest) or len(rest) < pushed:
                    x.fail('%s %r, operations %r: after close() %r is left of %r' % (kind, chunks, ops[:n + 1], rest, q))
                    return
                s.unget(rest)
                q = rest
            elif not closed(ops, n):
                q = q[:len(q) - left]
        else:
            b = last if name == 'back' else op[1]
            s.unget(b)
            q = b + q
            pos -= len(b)
            pushed += len(b)
            got = want = last = ''
        if name not in ('unget', 'back', 'close'):
            q = q[len(got):]
            pos += len(got)
            pushed = max(0, pushed - len(got))
            last = got
        if got != want or s.tell() != pos:
            x.fail('%s %r, operations %r: the last gives %r, expected %r; tell() is %r, expected %r' % (kind, chunks, ops[:n + 1], got, want, s.tell(), pos))
            return
    x.did(len(ops))
    got = s.read()
    if got != q:
        x.fail('%s %r, operations %r: %r is left, expected %r' % (kind, chunks, ops, got, q))
    elif s.tell() != pos + len(q):
        x.fail('%s %r, operations %r: tell() at the end is %r, expected %r' % (kind, chunks, ops, s.tell(), pos + len(q)))
    x.outcome((kind, q, pos))


def closed(ops, n):
    return ('close',) in ops[:n]


def u_seq(x, kind, data, points, empties, n, a):
    for ops in product(OPS, repeat=n - 1):
        run(x, kind, data, points, empties, (OPS[a],) + ops)
    x.step()


def u_few(x, kind, data, points, n, a):
    for ops in product(FEW, repeat=n - 1):
        run(x, kind, data, points, False, (FEW[a],) + ops)
        x.step()


def u_stuck(x, amount, size):
    """the same amount again and again"""
    # reading a part pushes the rest back, too
    for times in range(1, 31 if amount == size else 16):
        s = LazyStream(iter(['x' * size, 'tail']))
        for i in range(times):
            d = s.read(amount)
            s.unget(d)
        x.eq(s.read(), 'x' * size + 'tail', '%d times %d of %d' % (times, amount, size))
        x.did(times)
    for how in ('read', 'next', 'unget') if amount == size else ('unget',):
        s = LazyStream(iter(['x' * size, 'tail']))

        def go():
            for i in range(1000):
                if how == 'unget':
                    s.unget('y' * amount)
                elif how == 'next':
                    s.unget(s.next()[:amount])
                else:
                    s.unget(s.read(amount))
        x.eq(attempt(go)[1], 'SuspiciousMultipartForm', '1000 times %d of %d with %s' % (amount, size, how))
        x.did(40)


def u_progress(x, n, taken, back):
    """progress is never taken for a loop"""
    for count in (60, 300):
        data = [('%05d' % i * 3)[:n] for i in range(count)]
        whole = ''.join(data)
        for chunks in (data, [whole], every(whole, n * 41)):
            # equal steps, with something put back each time
            s = LazyStream(iter(chunks))
            out = []
            while True:
                d = s.read(taken)
                if not d:
                    break
                if len(d) > back:
                    out.append(d[:-back] if back else d)
                    if back:
                        s.unget(d[-back:])
                else:
                    out.append(d)
            x.eq(''.join(out), whole, 'steps of %d back %d over %d chunks of %d' % (taken, back, len(chunks), len(chunks[0])))
            x.did(len(out))
            # chunks of equal size of which the same amount is put back
            s = LazyStream(iter(chunks))
            out = []
            for d in s:
                out.append(d[:taken])
                if d[taken:]:
                    s.unget(d[taken:])
            x.eq(''.join(out), whole, 'pieces of %d over %d chunks' % (taken, len(chunks)))
    text = ''.join(('l' * n + '\n') for i in range(300))
    for size in (1, 7, n + 1, 4000, len(text)):
        s = LazyStream(iter(every(text, size)))
        x.eq([len(l) for l in iter(s.readline, b'')], [n + 1] * 300, 'equal lines in chunks of %d' % size)
        s = LazyStream(iter(every(text, size)))
        x.eq(''.join(iter(lambda: s.read(n), b'')), text, 'equal reads in chunks of %d' % size)
        x.did(600)


def u_chunkiter(x, data, points, n):
    f = Chunks(cut(data, points))
    got = list(ChunkIter(f, n))
    x.eq(''.join(got), data, 'ChunkIter(%d) of %r' % (n, f.chunks))
    if [c for c in got if not c or len(c) > n]:
        x.fail('ChunkIter(%d) of %r gives %r' % (n, f.chunks, got))
    got = list(ChunkIter(BytesIO(data), n))
    x.eq(got, every(data, n), 'ChunkIter(%d) of a file' % n)

    class Exhausted(object):
        def __init__(self):
            self.c = cut(data, points)

        def read(self, n):
            if not self.c:
                raise InputStreamExhausted()
            return self.c.pop(0)
    x.eq(''.join(ChunkIter(Exhausted(), n)), data, 'ChunkIter(%d), a stream that reports its end' % n)
    x.did(3)


RQ = [('read', 0), ('read', 2), ('read', None), ('readline', None), ('readline', 2), ('list',), ('lines',), ('xlines',), ('body',)]


def u_request(x, data, points, hs, n, a):
    """the same through a request"""
    head = http(data).split('\r\n\r\n')[0] + '\r\n\r\n'
    for ops in product(RQ, repeat=n - 1):
        ops = (RQ[a],) + ops
        r = HttpRequest(Chunks(cut(head + data, [len(head) + p for p in points])), settings(**{Settings.Key.MAX_HEADER_SIZE: hs}))
        r.parse_request_header()
        q = data
        body = None
        for i, op in enumerate(ops):
            if op[0] == 'read':
                got = r.read() if op[1] is None else r.read(op[1])
                want = q if op[1] is None else q[:op[1]]
                q = q[len(want):]
            elif op[0] == 'readline':
                got = r.readline() if op[1] is None else r.readline(op[1])
                e = q.find('\n') + 1 or len(q)
                want = q[:e if op[1] is None else min(e, op[1])]
                q = q[len(want):]
            elif op[0] == 'body':
                got = r.body()
                if body is None:
                    body = q
                want = body
            else:
                got = list(r) if op[0] == 'list' else r.readlines() if op[0] == 'lines' else list(r.xreadlines())
                want = lf_lines(q)
                q = ''
            if got != want:
                x.fail('body %r cut at %r, header size %d, %r: the last gives %r, expected %r' % (data, points, hs, ops[:i + 1], got, want))
                return
        x.did(n)
    x.step()


def lf_lines(q):
    return [l + '\n' for l in q.split('\n')[:-1]] + ([q.split('\n')[-1]] if q.split('\n')[-1] else [])


def units(x):
    for data in ('a\nbc', 'a\n\nbc\n'):
        for points in compositions(len(data)):
            for kind in KINDS:
                for empties in (False, True):
                    if kind in ('gen', 'list') and (empties or len(data) > 4):
                        continue
                    for n in (1, 2, 3):
                        for a in range(len(OPS)):
                            yield ('seq', kind, data, points, empties, n, a)
                    if len(data) == 4 and kind in ('iter', 'lazy') and (x.thorough or not empties):
                        for a in range(len(OPS)):
                            if x.thorough or len(points) in (0, 2):
                                yield ('seq', kind, data, points, empties, 4, a)
                            if x.thorough and kind == 'iter':
                                yield ('seq', kind, data, points, empties, 5, a)
    for data in ('ab\ncd',):
        for points in compositions(len(data)):
            for a in range(len(FEW)):
                for n in (4, 5) if not x.thorough else (5, 6, 7):
                    if n < 5 or x.thorough or len(points) % 2 == 0:
                        yield ('few', 'iter', data, points, n, a)
    for amount in (1, 2, 3, 10, 100):
        for size in (1, 2, 3, 10, 100, 1000):
            if size >= amount:
                yield ('stuck', amount, size)
    for n in (1, 2, 5, 10):
        for taken in (1, 2, 3, 7, 10):
            for back in (0, 1, 2):
                if taken > back:
                    yield ('progress', n, taken, back)
    for data in ('', 'a', 'abc', 'abcdef'):
        for points in compositions(len(data)):
            for n in (1, 2, 3, 4, 100):
                yield ('chunkiter', data, points, n)
    for data in ('', 'a\nb', '\r\nab\n\ncd'):
        for points in compositions(len(data)) if len(data) < 5 else ([], [1], [2], [1, 2, 3, 4, 5, 6, 7], [3, 4], [4, 6]):
            for hs in (1, 16, 1000):
                for a in range(len(RQ)):
                    for n in (1, 2, 3) if x.thorough or hs == 16 else (1, 2):
                        yield ('request', data, points, hs, n, a)
