# -*- coding: utf-8 -*-
"""C17: immutable containers never change."""
from env import *
import copy, pickle

ORACLE = ('A deep copy of the contents taken before: every operation that would change them must raise AttributeError, and every operation and every use of a '
          'value returned by an observer must leave the contents, their order of iteration, length and types as they were.')
BOUNDS = {'quick': '95 containers (QueryDict, ImmutableMultiValueDict, GET, POST and headers of requests of every kind, after every way of parsing them) x 60 mutating '
                   'operations, alone and (for 35 of them) in all pairs, x 16 observers; copies of each changed in every way; ImmutableList: 40 operations x 6 lists x 4 warnings',
          'thorough': 'all triples of operations'}
ASSUMPTIONS = ['dict methods called on the object from outside (dict.__setitem__(q, ...)) and the attribute _mutable are not operations of the container',
               'iteritems and the other Python 2 iterators, which the library does not adapt, are not observers']

U8 = u'\u00e9'.encode('utf-8')


def parsed(raw, what, calls=('parse',), **kw):
    def make():
        r = HttpRequest(BytesIO(raw), settings(**kw))
        for c in calls:
            if c.startswith('enc='):
                r.encoding = c[4:]
            else:
                getattr(r, c)()
        return r.META[REQ_HEADERS] if what == 'headers' else getattr(r, what)
    return make


FORMED = http('a=1&b=%C3%A9&a=2&c', FORM, target='/p?x=1&y=%C3%A9&x=2', headers=['X-A: 1', 'X-B: 2', 'X-A: 3'])
MULTI = mhttp([part('v', 'a'), part('w', 'a'), part('file', 'f', 'n'), part(U8, 'b')], target='/?q=1')
MULTI64 = mhttp([part('QUJD', 'a', cte='base64')])
TEXT = http('text', 'text/plain', target='/?q=1&q=2')
EMPTY = http('', FORM, target='/?q=1')


def stopped(at, reset):
    class H(FileUploadHandler, object):
        def new_file(self, *a, **k):
            if at == 'new':
                raise StopUpload(connection_reset=reset)
            FileUploadHandler.new_file(self, *a, **k)

        def receive_data_chunk(self, data, start):
            if at == 'data':
                raise StopUpload(connection_reset=reset)
            raise SkipFile()

        def file_complete(self, size):
            return None

    def make():
        r = HttpRequest(BytesIO(MULTI), settings())
        r.upload_handlers = [H()]
        r.parse()
        return r.POST
    return make


# what a body may be, of requests of every kind: their POST is immutable once the body was parsed
BODIES = [http(b, FORM) for b in ('a', 'a&b', '&', '=', ';', '=&=', '%', 'a=1', '\r\n', U8, ' ')] + [
    mhttp([part('file', 'f', 'n')]), mhttp([part('file', 'f', 'n'), part('file', 'g', 'm')]), mhttp([]), mhttp([part('v', 'a')])[:-7],
    http('preamble only', mtype()), http('preamble\r\n--B--\r\n', mtype()), http('--B\r\n\r\nnothing\r\n--B--\r\n', mtype()),
    http('--B\r\nContent-Disposition: form-data; name="a"\r\n\r\n', mtype()),
    mhttp([part('v', 'a', 'n.txt', ctype='text/plain')]).replace('filename="n.txt"', 'filename=""'), mhttp([part('', 'a')]),
    http('text', None), http('text', 'image/png'), http(U8, 'text/plain; charset=utf-8'), http('{}', 'application/json'), http('<a/>', 'text/xml'),
    http('text', 'multipart/mixed; boundary=B'), http('text', FORM.upper()), http('x=1', FORM, method='PUT'), http('x=1', FORM, method='GET')]

MAKE = [
    ("POST of a stopped upload", stopped('new', False)), ("POST of an upload stopped in a file", stopped('data', False)),
    ("POST of a reset upload", stopped('new', True)), ("POST of an upload with a skipped file", stopped('', False)),
    ("QueryDict('a=1&a=2&b=')", lambda: QueryDict(settings(), 'a=1&a=2&b=')),
    ("QueryDict('')", lambda: QueryDict(settings(), '')),
    ("QueryDict()", lambda: QueryDict(settings())),
    ("QueryDict(utf-8)", lambda: QueryDict(settings(), 'a=%C3%A9&%C3%A9=1&%C3%A9=2', encoding='utf-8')),
    ("QueryDict.fromkeys", lambda: QueryDict.fromkeys(['a', 'b', 'a'], 'v')),
    ("QueryDict.fromkeys settings", lambda: QueryDict.fromkeys(['a'], 'v', settings=settings(), encoding='utf-8')),
    ("pickled QueryDict", lambda: pickle.loads(pickle.dumps(QueryDict(settings(), 'a=1&b=2&a=3'), 2))),
    ("pickled QueryDict, protocol 0", lambda: pickle.loads(pickle.dumps(QueryDict(settings(), 'a=1&b=2&a=3'), 0))),
    ("ImmutableMultiValueDict", lambda: ImmutableMultiValueDict({'a': ['1', '2'], 'b': [], 'c': ['']})),
    ("ImmutableMultiValueDict of pairs", lambda: ImmutableMultiValueDict([('a', ['1', '2']), ('b', ['3'])])),
    ("ImmutableMultiValueDict of a MultiValueDict", lambda: ImmutableMultiValueDict(MultiValueDict({'a': ['1', '2']}))),
    ("ImmutableMultiValueDict()", lambda: ImmutableMultiValueDict()),
    ("pickled ImmutableMultiValueDict", lambda: pickle.loads(pickle.dumps(ImmutableMultiValueDict({'a': ['1', '2'], 'b': ['3']}), 2))),
    ("copy of an ImmutableMultiValueDict", lambda: copy.copy(ImmutableMultiValueDict({'a': ['1', '2'], 'b': ['3']}))),
    ("GET of a form", parsed(FORMED, 'GET')), ("POST of a form", parsed(FORMED, 'POST')), ("headers of a form", parsed(FORMED, 'headers')),
    ("GET, header only", parsed(FORMED, 'GET', ('parse_request_header',))),
    ("GET after encoding", parsed(FORMED, 'GET', ('parse', 'enc=utf-8'))),
    ("GET, encoding first", parsed(FORMED, 'GET', ('enc=utf-8', 'parse'))),
    ("POST, encoding between", parsed(FORMED, 'POST', ('parse_request_header', 'enc=utf-8', 'parse_request_body'))),
    ("POST after body()", parsed(FORMED, 'POST', ('body', 'parse'))),
    ("POST of multipart", parsed(MULTI, 'POST')), ("GET of multipart", parsed(MULTI, 'GET')), ("headers of multipart", parsed(MULTI, 'headers')),
    ("POST of multipart, utf-8", parsed(MULTI, 'POST', ('enc=utf-8', 'parse'))),
    ("POST of base64 multipart", parsed(MULTI64, 'POST')),
    ("POST of text", parsed(TEXT, 'POST')), ("GET of text", parsed(TEXT, 'GET')), ("headers of text", parsed(TEXT, 'headers')),
    ("POST of an empty form", parsed(EMPTY, 'POST')),
]
for i_, raw_ in enumerate(BODIES):
    for j_, kw_ in enumerate(({}, {'DEFAULT_CHARSET': 'utf-8'})):
        MAKE.append(('POST of multipart or else, body %d (%r)' % (i_, kw_), parsed(raw_, 'POST', **kw_)))


def mutators(keys):
    """(name, operation); each of them changes a container with these keys, or one that has none"""
    out = []
    for k in keys + ['new', u'n\u00e9']:
        for v in ('one', None, ['l']):
            out.append(('d[%r]=%r' % (k, v), lambda d, k=k, v=v: d.__setitem__(k, v)))
        out.append(('setlist(%r)' % k, lambda d, k=k: d.setlist(k, ['x', 'y'])))
        out.append(('setlist(%r, [])' % k, lambda d, k=k: d.setlist(k, [])))
        out.append(('appendlist(%r)' % k, lambda d, k=k: d.appendlist(k, 'x')))
        out.append(('setdefault(%r)' % k, lambda d, k=k: d.setdefault(k, 'x')))
        out.append(('setdefault(%r) without value' % k, lambda d, k=k: d.setdefault(k)))
        out.append(('setlistdefault(%r)' % k, lambda d, k=k: d.setlistdefault(k, ['x'])))
        out.append(('setlistdefault(%r) without value' % k, lambda d, k=k: d.setlistdefault(k)))
        out.append(('update({%r})' % k, lambda d, k=k: d.update({k: 'x'})))
        out.append(('update(MultiValueDict(%r))' % k, lambda d, k=k: d.update(MultiValueDict({k: ['x', 'y']}))))
        out.append(('update(QueryDict(%r))' % k, lambda d, k=k: d.update(QueryDict.fromkeys([k], 'z'))))
        out.append(('del d[%r]' % k, lambda d, k=k: d.__delitem__(k)))
        out.append(('pop(%r)' % k, lambda d, k=k: d.pop(k)))
        out.append(('pop(%r, None)' % k, lambda d, k=k: d.pop(k, None)))
    out.append(('update(a=)', lambda d: d.update(a='x')))
    out.append(('update({}, new=)', lambda d: d.update({}, new='x')))
    out.append(('clear', lambda d: d.clear()))
    out.append(('popitem', lambda d: d.popitem()))
    return out


def snapshot(d):
    return ([(k, [copy.deepcopy(e) for e in dict.__getitem__(d, k)]) for k in list(dict.__iter__(d))], len(d), type(d).__name__,
            getattr(d, 'encoding', None))


def u_mutate(x, i, depth):
    name, make = MAKE[i]
    d = make()
    before = snapshot(d)
    ops = mutators([k for k, v in before[0]])
    for seq in product(ops, repeat=depth):
        for what, f in seq:
            o = attempt(f, d)
            if o[0] == 'ok' or not isinstance(o[2], AttributeError):
                x.fail('%s: %s gives %r instead of AttributeError' % (name, what, o))
        x.did(depth)
        if snapshot(d) != before:
            x.fail('%s: %r changes it from %r to %r' % (name, [w for w, f in seq], before, snapshot(d)))
            d = make()
        x.watch.begin = 0
    x.outcome((i, before))


def spoil(v, depth=0):
    """change whatever can be changed of a value that was handed out"""
    if isinstance(v, tuple):
        for e in v:
            spoil(e, depth + 1)
    elif isinstance(v, list):
        for e in list(v):
            if depth < 3 and isinstance(e, (list, tuple)):
                spoil(e, depth + 1)
        v.append('spoiled')
        v[:1] = ['other', 'and']
    elif type(v) is dict and depth < 3:
        for k, e in list(v.items()):
            if isinstance(e, (list, tuple)):
                spoil(e, depth + 1)
        v.clear()


OBSERVERS = [
    ('items', lambda d: list(d.items())), ('values', lambda d: list(d.values())), ('lists', lambda d: list(d.lists())), ('keys', lambda d: d.keys()),
    ('iteration', lambda d: list(d)), ('dict', lambda d: d.dict()), ('getlist', lambda d: [d.getlist(k) for k in d]), ('getlist missing', lambda d: d.getlist('zz')),
    ('getlist default', lambda d: [d.getlist(k, ['x']) for k in list(d) + ['zz']]), ('get', lambda d: (d.get('a'), d.get('zz', ['x']))),
    ('copy lists', lambda d: list(d.copy().lists())), ('copy.copy lists', lambda d: [v for k, v in copy.copy(d).lists()]),
    ('index missing', lambda d: attempt(lambda: d['zz'])[:2]), ('len', lambda d: [len(d), 'a' in d, bool(d)]), ('repr', lambda d: [repr(d)]),
    ('eq', lambda d: [d == d, d == {}, d != {}]),
]


def u_observe(x, i):
    name, make = MAKE[i]
    d = make()
    before = snapshot(d)
    for what, f in OBSERVERS + ([('urlencode', lambda d: [d.urlencode(), d.urlencode(safe='/')])] if isinstance(d, QueryDict) and 'multipart' not in name else []):
        for again in range(2):
            v = f(d)
            if what == 'values' or what == 'items' or what == 'dict' or what == 'get':
                # the values are the caller's business, the structure is not
                if type(v) is dict:
                    v.clear()
                elif type(v) is list:
                    v.append(None)
                    v[:1] = []
            else:
                spoil(v)
            x.did()
            if snapshot(d) != before:
                x.fail('%s: changing what %s gave changes it from %r to %r' % (name, what, before, snapshot(d)))
                d = make()
    x.step()


COPIES = [('copy()', lambda d: d.copy()), ('copy.copy', copy.copy), ('copy.deepcopy', copy.deepcopy)]


def u_copies(x, i):
    """the copies of a QueryDict are mutable and independent; those of another container are independent"""
    name, make = MAKE[i]
    for what, f in COPIES:
        d = make()
        before = snapshot(d)
        ops = mutators([k for k, v in before[0]])
        c = f(d)
        x.eq([(k, list(v)) for k, v in sorted(c.lists())], sorted(before[0]), '%s: contents of its %s' % (name, what))
        x.eq(type(c).__name__, before[2], '%s: type of its %s' % (name, what))
        x.eq(getattr(c, 'encoding', None), before[3], '%s: encoding of its %s' % (name, what))
        for opname, op in ops:
            c = f(d)
            o = attempt(op, c)
            if isinstance(d, QueryDict) and o[0] != 'ok' and isinstance(o[2], AttributeError):
                x.fail('%s: %s of its %s: %r' % (name, opname, what, o))
            if isinstance(d, QueryDict) and o[0] == 'ok' and 'default' not in opname and 'pop' not in opname and snapshot(c) == before and before[0] and 'clear' not in opname:
                x.fail('%s: %s of its %s changes nothing' % (name, opname, what))
            if snapshot(d) != before:
                x.fail('%s: %s of its %s changes it to %r' % (name, opname, what, snapshot(d)))
                d = make()
            # a copy of a copy
            if isinstance(d, QueryDict):
                cc = c.copy()
                s = snapshot(c)
                for k in list(cc):
                    cc.appendlist(k, 'again')
                if snapshot(c) != s:
                    x.fail('%s: a copy of a copy is not independent' % name)
            x.did()
    x.step()


LISTS = [[], [1], [1, 2, 3], ['b', 'a', 'b'], [[1], [2]], [None]]
WARNINGS = [{}, {'warning': 'no'}, {'warning': AttributeError('own')}, {'warning': ''}]


def iadd(l, v):
    l += v


def imul(l, n):
    l *= n


def setit(l, i, v):
    l[i] = v


def delit(l, i):
    del l[i]


LIST_OPS = [
    ('append', lambda l: l.append(1)), ('extend', lambda l: l.extend([1])), ('extend nothing', lambda l: l.extend([])), ('insert', lambda l: l.insert(0, 1)),
    ('pop', lambda l: l.pop()), ('pop(0)', lambda l: l.pop(0)), ('remove', lambda l: l.remove(1)), ('sort', lambda l: l.sort()),
    ('sort(key)', lambda l: l.sort(key=repr)), ('sort(reverse)', lambda l: l.sort(reverse=True)), ('reverse', lambda l: l.reverse()),
    ('[0]=', lambda l: setit(l, 0, 5)), ('[-1]=', lambda l: setit(l, -1, 5)), ('[9]=', lambda l: setit(l, 9, 5)),
    ('[0:1]=', lambda l: setit(l, slice(0, 1), [5])), ('[:]=', lambda l: setit(l, slice(None), [])), ('[::2]=', lambda l: setit(l, slice(None, None, 2), [5])),
    ('del [0]', lambda l: delit(l, 0)), ('del [:]', lambda l: delit(l, slice(None))), ('del [9]', lambda l: delit(l, 9)),
    ('+=', lambda l: iadd(l, [1])), ('+= ()', lambda l: iadd(l, (1,))), ('*= 2', lambda l: imul(l, 2)), ('*= 0', lambda l: imul(l, 0)),
]


def u_list(x, li, wi):
    src = LISTS[li]
    l = ImmutableList(src, **WARNINGS[wi])
    for seq in product(LIST_OPS, repeat=2):
        for what, f in seq:
            o = attempt(f, l)
            if o[0] == 'ok' or not isinstance(o[2], AttributeError):
                x.fail('ImmutableList(%r, %r): %s gives %r' % (src, WARNINGS[wi], what, o))
            elif 'warning' in WARNINGS[wi]:
                w = WARNINGS[wi]['warning']
                if o[2] is not w and o[2].args != ((w,) if isinstance(w, str) else w.args):
                    x.fail('ImmutableList(%r, %r): %s says %r' % (src, WARNINGS[wi], what, o[2]))
        if list(l) != src or len(l) != len(src):
            x.fail('ImmutableList(%r): %r changes it to %r' % (src, [w for w, f in seq], l))
        x.did(2)
    # and it is the list otherwise
    x.eq(tuple(l), tuple(src), 'contents')
    x.eq([l[i] for i in range(-len(src), len(src))], [src[i] for i in range(-len(src), len(src))], 'indexing')
    x.eq(list(l[1:]), src[1:], 'slices')
    x.eq([l.index(e) for e in src], [src.index(e) for e in src], 'index')
    x.eq([e in l for e in src] + [l.count(e) for e in src], [True] * len(src) + [src.count(e) for e in src], 'membership')
    t = list(l)
    t.append(7)
    x.eq(list(l), src, 'after changing a copy')
    x.eq(list(l + (1,)), src + [1], 'sum')
    x.eq(list(l), src, 'after the sum')
    x.step()


def units(x):
    for i in range(len(MAKE)):
        yield ('mutate', i, 1)
        if i < len(MAKE) - 2 * len(BODIES) or x.thorough:
            yield ('mutate', i, 2)
        if x.thorough:
            yield ('mutate', i, 3)
        yield ('observe', i)
        yield ('copies', i)
    for li in range(len(LISTS)):
        for wi in range(len(WARNINGS)):
            yield ('list', li, wi)
