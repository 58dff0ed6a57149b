# -*- coding: utf-8 -*-
"""C16: MultiValueDict and QueryDict against a plain mapping from keys to lists."""
from env import *
import copy, pickle

ORACLE = ('A plain dict of lists, on which every operation is spelled out in this module.  After each last operation of a sequence its result or exception and '
          'every observer (indexing, get, getlist, in, len, keys, iteration, items, lists, values, dict, copies) must agree; lists handed out are independent.')
BOUNDS = {'quick': 'all sequences of 3 of 40 operations and 4 of 14 from 6 contents for MultiValueDict and mutable QueryDict in 2 charsets '
                   '(keys and values as text and bytes), every state of up to 3 keys with lists of up to 3 x every operation x every observer',
          'thorough': 'sequences of 4 of 40 and 6 of 14'}
ASSUMPTIONS = ['keys are looked up as text in a QueryDict', 'QueryDict.setlist() is given a list']

E8, EL = u'\u00e9'.encode('utf-8'), u'\u00e9'.encode('latin-1')


class KeyGone(Exception):
    pass


def text(v, enc):
    return v.decode(enc, 'replace') if enc and isinstance(v, bytes) else v


# each: name, (what is done to the object), (what is done to the model)
def m_set(m, k, v):
    m[k] = [v]


def m_del(m, k):
    if k not in m:
        raise KeyError(k)
    del m[k]


def m_append(m, k, v):
    m.setdefault(k, []).append(v)


def m_setlist(m, k, v):
    m[k] = list(v)


def m_setdefault(m, k, v=None):
    if k not in m:
        m[k] = [v]
    return m[k][-1] if m[k] else []


def m_setlistdefault(m, k, v=()):
    if k not in m:
        m[k] = list(v)
    return list(m[k])


def m_update(m, pairs):
    for k, v in pairs:
        m.setdefault(k, []).append(v)


def m_extend(m, pairs):
    for k, v in pairs:
        m.setdefault(k, []).extend(v)


def m_pop(m, k, *default):
    if k not in m:
        if default:
            return default[0]
        raise KeyError(k)
    return m.pop(k)


def operations(enc):
    """(name, on the object, on the model).  Values are given as bytes and as text; the model has what a QueryDict makes of them."""
    t = lambda v: text(v, enc)
    vals = ['1', '2'] if not enc else ['1', u'\u00e9'.encode(enc), u'\u20ac']
    keys = ['a', 'b'] if not enc else ['a', u'\u00e9'.encode(enc), u'\u00e9']
    out = []

    def op(name, f, g):
        out.append((name, f, g))
    for k in keys:
        for v in vals[:2] + [None] if k == 'a' else vals[-2:]:
            op('d[%r]=%r' % (k, v), lambda d, k=k, v=v: d.__setitem__(k, v), lambda m, k=k, v=v: m_set(m, t(k), t(v)))
            op('appendlist(%r,%r)' % (k, v), lambda d, k=k, v=v: d.appendlist(k, v), lambda m, k=k, v=v: m_append(m, t(k), t(v)))
        for v in ([], [vals[0]], vals):
            op('setlist(%r,%r)' % (k, v), lambda d, k=k, v=v: d.setlist(k, list(v)), lambda m, k=k, v=v: m_setlist(m, t(k), map(t, v)))
        op('setdefault(%r,%r)' % (k, vals[1]), lambda d, k=k: d.setdefault(k, vals[1]), lambda m, k=k: m_setdefault(m, t(k), t(vals[1])))
        op('setlistdefault(%r)' % k, lambda d, k=k: list(d.setlistdefault(k)), lambda m, k=k: m_setlistdefault(m, t(k)))
        op('setlistdefault(%r,%r)' % (k, vals), lambda d, k=k: list(d.setlistdefault(k, list(vals))), lambda m, k=k: m_setlistdefault(m, t(k), map(t, vals)))
        if not enc or isinstance(k, unicode) or k == 'a':
            op('del d[%r]' % k, lambda d, k=k: d.__delitem__(k), lambda m, k=k: m_del(m, t(k)))
            op('pop(%r)' % k, lambda d, k=k: d.pop(k), lambda m, k=k: m_pop(m, t(k)))
            op('pop(%r,7)' % k, lambda d, k=k: d.pop(k, 7), lambda m, k=k: m_pop(m, t(k), 7))
    k1, k2 = keys[0], keys[-1] if not enc else keys[1]
    pairs = [(k1, vals[1]), (k2, vals[0])]
    op('setdefault(%r)' % k1, lambda d: d.setdefault(k1), lambda m: m_setdefault(m, t(k1)))
    op('update(dict)', lambda d: d.update(dict(pairs)), lambda m: m_update(m, [(t(k), t(v)) for k, v in pairs]))
    op('update(kw)', lambda d: d.update(a=vals[1], c='3'), lambda m: m_update(m, [(t('a'), t(vals[1])), (t('c'), t('3'))]))
    op('update(dict,kw)', lambda d: d.update({k2: '3'}, a='4'), lambda m: m_update(m, [(t(k2), t('3')), (t('a'), t('4'))]))
    lp = [(k1, [vals[0], vals[1]]), (k2, [])]
    op('update(MultiValueDict)', lambda d: d.update(MultiValueDict(lp)), lambda m: m_extend(m, [(t(k), map(t, v)) for k, v in lp]))
    op('update(itself)', lambda d: d.update(d), lambda m: m_extend(m, [(k, list(v)) for k, v in m.items()]))
    op('update()', lambda d: d.update(), lambda m: None)
    op('update({})', lambda d: d.update({}), lambda m: None)
    op('clear()', lambda d: d.clear(), lambda m: m.clear())
    op('popitem()', lambda d: d.popitem(), None)
    if not enc:
        op("setlist('a',None)", lambda d: d.setlist('a', None), lambda m: m_setlist(m, 'a', []))
        op("setlist('a',5)", lambda d: d.setlist('a', 5), lambda m: m_setlist(m, 'a', [5]))
        op("setlist('a','xy')", lambda d: d.setlist('a', 'xy'), lambda m: m_setlist(m, 'a', ['xy']))
        op("d['']=''", lambda d: d.__setitem__('', ''), lambda m: m_set(m, '', ''))
        op("d[5]=0", lambda d: d.__setitem__(5, 0), lambda m: m_set(m, 5, 0))
    return out


ENC = [None, 'utf-8', 'latin-1']
FEW = {None: ["d['a']='1'", "appendlist('a','2')", "appendlist('b','1')", "setlist('b',[])", "setlist('a',['1', '2'])", "del d['a']", "pop('b')", "setdefault('a','2')",
              "setlistdefault('b')", 'update(dict)', 'update(MultiValueDict)', 'clear()', 'popitem()', "setlistdefault('a',['1', '2'])"]}


def new(enc, content):
    if enc is None:
        d = MultiValueDict()
    else:
        d = QueryDict(settings(), mutable=True, encoding=enc)
    for k, v in content:
        dict.__setitem__(d, k, list(v))
    return d, dict((k, list(v)) for k, v in content)


def contents(enc):
    a, b = (u'a', u'\u00e9') if enc else ('a', 'b')
    return [(), ((a, ['1']),), ((a, ['1', '2']), (b, ['3'])), ((b, []),), ((a, []), (b, ['2', '2', '1'])), ((a, [None, '']), ('c', ['9']))]


def history(x, enc, ci, ops):
    d, m = new(enc, contents(enc)[ci])
    for i, (name, f, g) in enumerate(ops):
        got = attempt(f, d)
        if g is None:           # popitem: any item
            if got[0] == 'ok':
                if got[1][0] not in m:
                    want = ('ok', 'an item')
                else:
                    want = ('ok', (got[1][0], m.pop(got[1][0])))
            else:
                want = attempt(dict.popitem, {}) if not m else ('ok', 'an item')
        else:
            want = attempt(g, m)
        if got[0] != want[0] or got[1] != want[1] or type(got[1]) is not type(want[1]) and not isinstance(got[1], basestring):
            x.fail('%s: %r gives %r, expected %r' % (show(enc, ci), [o[0] for o in ops[:i + 1]], got, want))
            return
    x.did(len(ops))
    observe(x, enc, d, m, lambda: '%s: %r' % (show(enc, ci), [o[0] for o in ops]))
    x.outcome(sorted(m.items()))


def show(enc, ci):
    return '%s of %r' % (('QueryDict in ' + enc) if enc else 'MultiValueDict', contents(enc)[ci])


def observe(x, enc, d, m, why, full=False):
    s = sorted
    ks = m.keys()
    last = dict((k, v[-1] if v else []) for k, v in m.items())
    try:
        seen = (s(dict((k, list(v)) for k, v in d.lists()).items()), s(d.items()), s(d.values()), d.dict(), len(d), s(d), s(d.keys()))
    except Exception as e:
        x.fail('%s: an observer fails: %r' % (why(), e))
        return
    want = (s(m.items()), s(last.items()), s(last.values()), last, len(m), s(ks), s(ks))
    if seen != want:
        x.fail('%s: lists, items, values, dict, len, keys, iteration: %r, expected %r' % (why(), seen, want))
        return
    if bool(d) != bool(m):
        x.fail('%s: truth' % why())
    order = list(d)
    if list(d.keys()) != order or [k for k, v in d.items()] != order or [k for k, v in d.lists()] != order or list(d.values()) != [d[k] for k in order]:
        x.fail('%s: observers differ in the order' % why())
    for k in set(ks) | set((u'a', u'b', u'\u00e9', 'zz')):
        if k in m:
            one = (d[k], d.get(k), d.get(k, 'df'), d.getlist(k), d.getlist(k, ['df']), k in d)
            w = (last[k], last[k] if m[k] else None, last[k] if m[k] else 'df', m[k], m[k], True)
            if one != w:
                x.fail('%s: key %r: [], get, get, getlist, getlist, in: %r, expected %r' % (why(), k, one, w))
        else:
            o = attempt(lambda: d[k])
            if o[0] == 'ok' or not isinstance(o[2], MultiValueDictKeyError):
                x.fail('%s: d[%r] without that key: %r' % (why(), k, o))
            one = (d.get(k), d.get(k, 'df'), d.getlist(k), d.getlist(k, ['df']), k in d)
            if one != (None, 'df', [], ['df'], False):
                x.fail('%s: without key %r: get, get, getlist, getlist, in: %r' % (why(), k, one))
    if len(d) != len(m):
        x.fail('%s: looking up keys changed the object' % why())
    if not full:
        return
    # independence of what is handed out
    for k in ks:
        l = d.getlist(k)
        l.append('more')
        l[:1] = []
        if d.getlist(k) != m[k]:
            x.fail('%s: changing the result of getlist(%r) changes the object' % (why(), k))
    x.eq(d.getlist('zz'), [], '%s: getlist of a missing key' % why())
    d.getlist('zz').append(1)
    x.eq(d.getlist('zz'), [], '%s: getlist of a missing key' % why())
    d.dict().clear()
    for name, make in (('copy', copy.copy), ('deepcopy', copy.deepcopy), ('copy()', lambda d: d.copy()), ('pickle', lambda d: pickle.loads(pickle.dumps(d, 2)))):
        c = make(d)
        if type(c) is not type(d) or not (c == d) or sorted((k, v) for k, v in c.lists()) != s(m.items()):
            x.fail('%s: %s gives %r' % (why(), name, c))
            continue
        for k in list(c):
            c.appendlist(k, 'added')
        c['new'] = 1
        if sorted((k, list(v)) for k, v in d.lists()) != s(m.items()):
            x.fail('%s: changing its %s changes it' % (why(), name))
        x.did()


def u_seq(x, enc, ci, n, a):
    ops = operations(enc)
    if a >= len(ops):
        return
    for rest in product(ops, repeat=n - 1):
        history(x, enc, ci, (ops[a],) + rest)
        x.watch.begin = 0


def few(enc):
    ops = operations(enc)
    if enc is None:
        return [o for o in ops if o[0] in FEW[None]]
    return ops[::3]


def u_few(x, enc, ci, n, a):
    ops = few(enc)
    if a >= len(ops):
        return
    for rest in product(ops, repeat=n - 1):
        history(x, enc, ci, (ops[a],) + rest)
        x.watch.begin = 0


def u_state(x, enc, la, lb, lc):
    """a state, every observer, every operation"""
    vals = [['1', '2', ''], [u'\u00e9', '2', None], ['x', 'x', 'y']]
    a, b = (u'a', u'\u00e9') if enc else ('a', 'b')
    content = [(k, vals[i][:n]) for i, (k, n) in enumerate(((a, la), (b, lb), ('c', lc))) if n >= 0]
    d, m = new(enc, content)
    observe(x, enc, d, m, lambda: 'content %r (%s)' % (content, enc), True)
    # built by the constructor and by appending
    if enc is None:
        for src in (content, dict(content)):
            observe(x, enc, MultiValueDict(src), m, lambda: 'MultiValueDict(%r)' % (src,), True)
    for name, f, g in operations(enc):
        d, m = new(enc, content)
        o = attempt(f, d)
        if g is None:
            if o[0] == 'ok' and o[1][0] in m:
                m.pop(o[1][0])
            w = o if m or content else ('raised', 'UNDOCUMENTED KeyError')
        else:
            w = attempt(g, m)
        x.eq(o[:2], w[:2], 'content %r (%s), %s' % (content, enc, name))
        observe(x, enc, d, m, lambda: 'content %r (%s), %s' % (content, enc, name), True)
        x.did(2)
    x.step()


def u_independent(x, enc):
    """lists given to the object stay the caller's"""
    def same(what, d, k, given):
        before = [list(v) for kk, v in d.lists() if kk == k]
        given.append('later')
        if [list(v) for kk, v in d.lists() if kk == k] != before:
            x.fail('%s: %s keeps the list it was given' % (enc, what))
        d.appendlist(k, 'own')
        if given[-1] == 'own':
            x.fail('%s: %s changes the list it was given' % (enc, what))
    for n in range(3):
        g = ['1', '2'][:n]
        d, m = new(enc, ())
        d.setlist('a', g)
        same('setlist', d, 'a', g)
        g = ['1', '2'][:n]
        d, m = new(enc, ())
        d.setlistdefault('a', g)
        same('setlistdefault', d, 'a', g)
        o = MultiValueDict({'a': ['1', '2'][:n]})
        d, m = new(enc, ())
        d.update(o)
        d.appendlist('a', 'own')
        x.eq(o.getlist('a'), ['1', '2'][:n], 'the argument of update')
        x.did(3)
    e = attempt(new(enc, ())[0].update, {}, {})
    if e[0] == 'ok' or not isinstance(e[2], TypeError):
        x.fail('update with two arguments: %r' % (e,))


NESTED = [lambda: [], lambda: ['in'], lambda: {}, lambda: {'in': ['deep']}, lambda: [['deep'], {}], lambda: ('t', ['in'])]


def spoil(v):
    if isinstance(v, list):
        for e in v:
            spoil(e)
        v.append('changed')
    elif isinstance(v, dict):
        for e in v.values():
            spoil(e)
        v['changed'] = 1
    elif isinstance(v, tuple):
        for e in v:
            spoil(e)


def u_nested(x, enc):
    """a deep copy and a pickled copy have values of their own, all the way down; what an object holds twice the copy holds twice"""
    for a, b, c in product(range(-1, len(NESTED)), repeat=3):
        shared = ['shared']

        def fill(d):
            for k, i in (('k', a), ('k', b), ('l', c)):
                d.appendlist(k, shared if i < 0 else NESTED[i]())
            return d
        for kind in ('plain', 'immutable') if enc is None else ('plain',):
            def build():
                d = fill(MultiValueDict() if enc is None else QueryDict(settings(), mutable=True, encoding=enc))
                return ImmutableMultiValueDict(d) if kind == 'immutable' else d
            for name, f in (('deepcopy', copy.deepcopy), ('pickle', lambda d: pickle.loads(pickle.dumps(d, 2))), ('pickle 0', lambda d: pickle.loads(pickle.dumps(d, 0)))) + \
                    ((('copy()', lambda d: d.copy()),) if enc is not None else ()):
                d = build()
                before = repr(sorted(d.lists()))
                e = f(d)
                if repr(sorted(e.lists())) != before:
                    x.fail('%s of %s: %r' % (name, before, sorted(e.lists())))
                vals = [v for k, l in sorted(e.lists()) for v in l]
                if enc is None:
                    for i, ai in enumerate((a, b, c)):
                        for j, aj in enumerate((a, b, c)):
                            if i != j and (vals[i] is vals[j]) != (ai < 0 and aj < 0):
                                x.fail('%s of %s: values %d and %d are %s object' % (name, before, i, j, 'one' if vals[i] is vals[j] else 'no longer one'))
                for v in vals:
                    spoil(v)
                if repr(sorted(d.lists())) != before:
                    x.fail('changing values of a %s of %s: the original is %r' % (name, before, sorted(d.lists())))
                    shared[:] = ['shared']
                x.did()
    x.step()


def u_fromkeys(x):
    for keys in ([], ['a'], ['a', 'b', 'a'], 'xyx'):
        q = QueryDict.fromkeys(keys, 'v', mutable=True)
        m = {}
        for k in keys:
            m_append(m, k, 'v')
        observe(x, 'utf-8', q, m, lambda: 'fromkeys(%r)' % (keys,), True)
        q.appendlist('a', 'w')
        m_append(m, 'a', 'w')
        observe(x, 'utf-8', q, m, lambda: 'fromkeys(%r), changed' % (keys,), True)
        d = MultiValueDict.fromkeys(keys, 'v')
        observe(x, None, d, dict((k, ['v']) for k in keys), lambda: 'MultiValueDict.fromkeys(%r)' % (keys,), True)


def units(x):
    yield ('fromkeys',)
    for enc in ENC:
        yield ('nested', enc)
        yield ('independent', enc)
        n = len(operations(enc))
        for ci in range(len(contents(enc))):
            for a in range(n):
                for k in (1, 2, 3):
                    if x.thorough or k < 3 or ci in (0, 4) and enc != 'latin-1':
                        yield ('seq', enc, ci, k, a)
                if x.thorough:
                    yield ('seq', enc, ci, 4, a)
        for a in range(len(few(enc))):
            for k in (4, 5, 6) if x.thorough else (4,):
                yield ('few', enc, 2, k, a)
        for la in range(-1, 4):
            for lb in range(-1, 4):
                for lc in range(-1, 4):
                    yield ('state', enc, la, lb, lc)
