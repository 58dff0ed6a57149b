# -*- coding: utf-8 -*-
"""C24: settings."""
import shutil
from env import *

ORACLE = ('A table of the default values and of what was given; the file system is looked at before and after.  Settings made at the same time are explored by stopping one construction at every line it '
          'executes and running the other there.')
BOUNDS = {'quick': 'every combination of keys present with values of 3 to 5 each; all sequences of up to 4 of 11 actions (constructions, changes of an object or of the dictionary, use by a request); 30 kinds of '
                   'directory; a second construction, and removal or replacement of the directory, at every line of the first; a third at every pair of lines',
          'thorough': 'sequences of 5'}
ASSUMPTIONS = ['the superuser runs the check, who may write everywhere: a directory is unusable for other reasons than permissions', 'a directory whose parent is missing may be created or reported']

K = Settings.Key
D = {'FILE_UPLOAD_TEMP_DIR': None, 'MAX_HEADER_SIZE': 16, 'FILE_UPLOAD_MAX_MEMORY_SIZE': 30 * 1024 * 1024, 'DATA_UPLOAD_MAX_MEMORY_SIZE': 5 * 1024 * 1024,
     'DATA_UPLOAD_MAX_NUMBER_FIELDS': 4096, 'DEFAULT_CHARSET': 'ISO-8859-1'}
ATTR = [(K.MAX_HEADER_SIZE, 'MAX_HEADER_SIZE', [1, 0, 4096]), (K.FILE_UPLOAD_MAX_MEMORY, 'FILE_UPLOAD_MAX_MEMORY_SIZE', [0, 5, None]),
        (K.DATA_UPLOAD_MAX_MEMORY, 'DATA_UPLOAD_MAX_MEMORY_SIZE', [0, 7, None]), (K.DATA_UPLOAD_MAX_FIELDS, 'DATA_UPLOAD_MAX_NUMBER_FIELDS', [0, 3, None]),
        (K.DEFAULT_CHARSET, 'DEFAULT_CHARSET', ['utf-8', '', None])]
ABSENT = object()


def default_dir():
    return os.path.join(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')), 'request_parser', 'files', 'file_uploads')


def look(s):
    return dict((k, getattr(s, k)) for k in D)


def defaults():
    d = dict(D)
    d['FILE_UPLOAD_TEMP_DIR'] = default_dir()
    return d


def same(x, s, want, what):
    got = attempt(look, s)
    if got[0] != 'ok':
        return x.fail('%s: %r' % (what, got))
    got = got[1]
    for k in sorted(D):
        a, b = got[k], want[k]
        if k == 'FILE_UPLOAD_TEMP_DIR':
            a, b = os.path.realpath(a), os.path.realpath(b)
        if a != b or (a is None) != (b is None) or isinstance(a, bool):
            x.fail('%s: %s is %r, expected %r' % (what, k, got[k], want[k]))
    h = s.FILE_UPLOAD_HANDLERS
    if list(h) != ['request_parser.files.uploadhandler.ConvenientFileUploadHandler']:
        x.fail('%s: FILE_UPLOAD_HANDLERS is %r' % (what, h))


def u_values(x, *chosen):
    """chosen: index of the value of the first keys, None if absent"""
    d = x.dir()
    for rest in product((None, 0, 1, 2), repeat=len(ATTR) - len(chosen)):
        for with_dir in (False, True):
            given, want = {}, defaults()
            for (key, attr, values), i in zip(ATTR, chosen + rest):
                if i is not None:
                    given[key] = want[attr] = values[i]
            if with_dir:
                given[K.FILE_UPLOAD_DIR] = want['FILE_UPLOAD_TEMP_DIR'] = d
            before = dict(given)
            o = attempt(Settings, given)
            if o[0] != 'ok':
                x.fail('Settings(%r): %r' % (before, o[1:]))
                continue
            same(x, o[1], want, 'Settings(%r)' % before)
            x.eq(given, before, 'the dictionary given to Settings')
            x.did()
    x.eq(os.listdir(d), [], 'files in the upload directory')
    same(x, Settings.default(), defaults(), 'Settings.default()')
    x.step()


class Derived(dict):
    pass


def u_dicts(x):
    """kinds of dictionaries, and keys of no meaning"""
    from collections import OrderedDict
    for make in (dict, OrderedDict, Derived):
        same(x, Settings(make()), defaults(), 'Settings of an empty %s' % make.__name__)
        want = defaults()
        want['MAX_HEADER_SIZE'] = 3
        same(x, Settings(make([(K.MAX_HEADER_SIZE, 3)])), want, 'Settings of a %s' % make.__name__)
        same(x, Settings(make([(K.MAX_HEADER_SIZE, 3), ('OTHER', 5), ('FILE_UPLOAD_HANDLERS', ['x'])])), want, 'Settings of a %s with other keys' % make.__name__)
    same(x, Settings.default(), defaults(), 'Settings.default()')
    same(x, Settings.default(check_presence=False), defaults(), 'Settings.default()')
    x.did()


def u_history(x, n, *first):
    d1, d2 = x.dir(), x.dir()
    dicts = [{K.MAX_HEADER_SIZE: 3}, {K.DATA_UPLOAD_MAX_FIELDS: 0, K.DEFAULT_CHARSET: 'utf-8'}, {K.FILE_UPLOAD_DIR: d1, K.FILE_UPLOAD_MAX_MEMORY: 0}, {K.FILE_UPLOAD_DIR: d2}]
    keys = dict((key, attr) for key, attr, v in ATTR)
    keys[K.FILE_UPLOAD_DIR] = 'FILE_UPLOAD_TEMP_DIR'
    for rest in product(range(11), repeat=n):
        objs = []           # (settings, expected, dictionary)
        for a in first + rest:
            last = objs[-1] if objs else None
            if a < 4:
                g = dict(dicts[a])
                want = defaults()
                for k in g:
                    want[keys[k]] = g[k]
                objs.append((Settings(g), want, g))
            elif a == 4:
                objs.append((Settings.default(), defaults(), {}))
            elif a == 5:
                objs.append((Settings({}), defaults(), {}))
            elif last is None:
                continue
            elif a == 6:
                for _, attr, values in ATTR:
                    v = values[1] or values[0]
                    setattr(last[0], attr, v)
                    last[1][attr] = v
                last[0].FILE_UPLOAD_TEMP_DIR = last[1]['FILE_UPLOAD_TEMP_DIR'] = d2
            elif a == 7:
                last[2].clear()
                last[2][K.MAX_HEADER_SIZE] = 99
            elif a == 8:
                # an object of the same dictionary
                g, want = last[2], defaults()
                for k in g:
                    want[keys[k]] = g[k]
                objs.append((Settings(g), want, g))
            else:
                # a request does not change the settings it is given
                raw = http('a=1', FORM + '; charset=koi8-r') if a == 9 else mhttp([part('v', filename='n')])
                r = HttpRequest(BytesIO(raw), last[0])
                if a == 9:
                    r.encoding = 'utf-8'
                attempt(r.parse)
                r.encoding = 'ascii'
                r.close()
        for i, (s, want, g) in enumerate(objs):
            same(x, s, want, 'object %d of the actions %r' % (i, first + rest))
        same(x, Settings.default(), defaults(), 'Settings.default() after the actions %r' % (first + rest,))
        x.did(n + len(first))
        x.watch.begin = 0
    x.eq(os.listdir(d1) + os.listdir(d2), [], 'files in the upload directories')
    x.outcome(first)


def tree(d):
    out = []
    for top, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(top, n)
            out.append((os.path.relpath(p, d), 'link' if os.path.islink(p) else 'dir' if os.path.isdir(p) else open(p, 'rb').read()))
    return sorted(out)


def kinds(d):
    """name, (value, real directory or None if it is not usable, may it be either)"""
    pkg = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'request_parser')
    rel = os.path.relpath(d, pkg)
    for form, base in (('', d), ('relative ', rel)):
        yield form + 'existing', base + '/sub', 'sub', False
        yield form + 'with a slash', base + '/sub/', 'sub', False
        yield form + 'with dots', base + '/sub/../sub/./', 'sub', False
        yield form + 'with files', base + '/full', 'full', False
        yield form + 'link', base + '/link', 'sub', False
        yield form + 'missing', base + '/new', 'new', False
        yield form + 'missing with a slash', base + '/new/', 'new', False
        yield form + 'missing in a link', base + '/link/new', 'sub/new', False
        yield form + 'with space', base + '/a b', 'a b', False
        yield form + 'not ASCII', base + '/' + u'\u00e9'.encode('utf-8'), u'\u00e9'.encode('utf-8'), False
        yield form + 'text', unicode(base) + u'/new', 'new', False
        yield form + 'file', base + '/file', None, False
        yield form + 'below a file', base + '/file/x', None, False
        yield form + 'broken link', base + '/broken', None, True
        yield form + 'nested missing', base + '/n/m', 'n/m', True
        yield form + 'name too long', base + '/' + 'x' * 300, None, False
        yield form + 'null character', base + '/a\0b', None, False


def prepare(d):
    os.mkdir(d + '/sub')
    os.mkdir(d + '/full')
    for n in ('a', 'acdr423x.tmp', 'tmp', '.x'):
        h = open(d + '/full/' + n, 'wb')
        h.write('data of ' + n)
        h.close()
    h = open(d + '/file', 'wb')
    h.write('file')
    h.close()
    os.symlink(d + '/sub', d + '/link')
    os.symlink(d + '/nowhere', d + '/broken')
    os.mkdir(d + '/linked')


def u_dirs(x, i):
    d = x.dir()
    prepare(d)
    k = list(kinds(d))[i]
    name, value, real, either = k
    for times in (1, 2):
        before = tree(d)
        o = attempt(Settings, {K.FILE_UPLOAD_DIR: value, K.MAX_HEADER_SIZE: 5})
        after = tree(d)
        if o[0] == 'ok':
            if real is None and not either:
                x.fail('%s directory %r is accepted' % (name, value))
            got = o[1].FILE_UPLOAD_TEMP_DIR
            if real is not None and os.path.realpath(got) != os.path.realpath(os.path.join(d, real)):
                x.fail('%s directory %r: FILE_UPLOAD_TEMP_DIR is %r' % (name, value, got))
            if not os.path.isdir(got) or not os.path.isabs(got):
                x.fail('%s directory %r: %r is no directory' % (name, value, got))
            new = [e for e in after if e not in before]
            if [e for e in new if e[1] != 'dir'] or [e for e in before if e not in after] or len(new) > (2 if either else 1):
                x.fail('%s directory %r: before %r, after %r' % (name, value, before, after))
            # and it is where files go
            r = parse(mhttp([part('content', filename='n.txt')]), o[1], [TemporaryFileUploadHandler])
            p = r.FILES['f'].temporary_file_path()
            if os.path.realpath(os.path.dirname(p)) != os.path.realpath(got) or open(p, 'rb').read() != 'content':
                x.fail('%s directory %r: the file is %r' % (name, value, p))
            r.close()
            x.eq(tree(d), after, 'files after the request is closed')
        else:
            if not isinstance(o[2], InvalidDirectory):
                x.fail('%s directory %r: %r' % (name, value, o[1:]))
            elif real is not None and not either:
                x.fail('%s directory %r is not accepted: %r' % (name, value, o[2]))
            x.eq(after, before, 'files after an invalid directory')
        x.did()
    same(x, Settings.default(), defaults(), 'Settings.default()')


def u_effect(x):
    """the values are those in force"""
    for n in range(0, 5):
        s = Settings({K.DATA_UPLOAD_MAX_FIELDS: n})
        for m in range(1, 6):
            o = attempt(parse, http('&'.join('a=1' for i in range(m)), FORM), s)
            x.eq(o[0] == 'ok' or o[1], True if not n or m <= n else 'TooManyFieldsSent', '%d fields, limit %d' % (m, n))
    for n in range(1, 12):
        s = Settings({K.DATA_UPLOAD_MAX_MEMORY: n})
        o = attempt(parse, http('x' * 6, 'text/plain'), s)
        x.eq(o[0] == 'ok' or o[1], True if n >= 6 else 'RequestDataTooBig', 'body of 6 bytes, limit %d' % n)
    for n in range(0, 12):
        s = Settings({K.FILE_UPLOAD_MAX_MEMORY: n, K.FILE_UPLOAD_DIR: x.dir()})
        r = parse(mhttp([part('x' * 5, filename='n')]), s)
        k = file_view(r.FILES['f'])[0]
        if n in (0, 1, 2, 3) and k != 'disk' or n > 8 and k not in ('memory', 'disk'):
            x.fail('file of 5 bytes with %d in memory: %s' % (n, k))
        r.close()
    for cs in ('utf-8', 'koi8-r', 'iso-8859-1'):
        r = parse(http('a=%C3%A9', FORM), Settings({K.DEFAULT_CHARSET: cs}))
        x.eq(lists(r.POST), [(u'a', ['\xc3\xa9'.decode(cs)])], 'POST in ' + cs)
    for n in (1, 2, 5, 4096):
        r = parse(http('a=1', FORM), Settings({K.MAX_HEADER_SIZE: n}))
        x.eq(lists(r.POST), [(u'a', [u'1'])], 'POST with headers read by %d' % n)
    x.did()


def u_together(x, kind, second):
    """another construction, or a change of the directory, at every line"""
    base = x.dir()
    n = count_lines(lambda: Settings({K.FILE_UPLOAD_DIR: base, K.MAX_HEADER_SIZE: 7})) + 12
    for i in range(1, n):
        for j in range(i + 1, n) if second == 'third' else (None,):
            d = x.dir()
            p = d + '/up'
            if kind == 'existing':
                os.mkdir(p)
            elif kind == 'with file':
                os.mkdir(p)
                open(p + '/keep', 'wb').close()
            results = []

            def settings_():
                results.append(attempt(Settings, {K.FILE_UPLOAD_DIR: p, K.MAX_HEADER_SIZE: 5}))

            def changed():
                # another object, all of whose attributes its owner changes
                settings_()
                for s in (Settings({}), Settings({K.DEFAULT_CHARSET: 'utf-16'}), Settings.default()):
                    for k in D:
                        setattr(s, k, 'changed')
                    del s.FILE_UPLOAD_HANDLERS[:]

            def vanish():
                shutil.rmtree(p, True)

            def replace():
                shutil.rmtree(p, True)
                if not os.path.exists(p):
                    open(p, 'wb').close()
            stops = [(i, {'another': settings_, 'changed': changed, 'third': settings_, 'vanish': vanish, 'replace': replace}[second])]
            if j:
                stops.append((j, settings_))
            o = attempt(Preempt(lambda: Settings({K.FILE_UPLOAD_DIR: p, K.MAX_HEADER_SIZE: 7}), *stops).run)
            for r, size in [(o, 7)] + [(q, 5) for q in results]:
                if second in ('another', 'third', 'changed'):
                    if r[0] != 'ok':
                        x.fail('%s directory, another construction at line %r: %r' % (kind, (i, j), r[1:]))
                        continue
                elif r[0] != 'ok':
                    if not isinstance(r[2], InvalidDirectory):
                        x.fail('%s directory, %s at line %d: %r' % (kind, second, i, r[1:]))
                    continue
                want = defaults()
                want['FILE_UPLOAD_TEMP_DIR'], want['MAX_HEADER_SIZE'] = p, size
                same(x, r[1], want, '%s directory, %s at line %r' % (kind, second, (i, j)))
            if os.path.isdir(p):
                x.eq(os.listdir(p), ['keep'] if kind == 'with file' and second in ('another', 'third', 'changed') else
                     [f for f in os.listdir(p) if f == 'keep'], 'files in the directory, %s at line %r' % (second, (i, j)))
            x.did(1 + len(stops))
            x.watch.begin = 0
            shutil.rmtree(d, True)
    same(x, Settings.default(), defaults(), 'Settings.default()')
    x.outcome((kind, second, n))


def units(x):
    t = 1 if x.thorough else 0
    for a in (None, 0, 1, 2):
        for b in (None, 0, 1, 2):
            yield ('values', a, b)
    yield ('dicts',)
    for a in range(6):
        yield ('history', 0, a)
        for b in range(11):
            yield ('history', 0, a, b)
            yield ('history', 1, a, b)
            for c in range(11):
                yield ('history', 1 + t, a, b, c)
    for i in range(34):
        yield ('dirs', i)
    yield ('effect',)
    for kind in ('missing', 'existing', 'with file'):
        for second in ('another', 'changed', 'third', 'vanish', 'replace'):
            yield ('together', kind, second)
