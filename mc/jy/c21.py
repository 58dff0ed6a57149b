# -*- coding: utf-8 -*-
"""C21: is_safe_url, is_same_domain, escape_leading_slashes."""
from env import *
from request_parser.utils.http import is_safe_url, is_same_domain, escape_leading_slashes

ORACLE = ('A browser, written for this check after the URL standard: white space and control characters around the URL and tabs and line breaks inside are dropped, a backslash is a slash, '
          'any number of slashes begins an authority, a scheme of the web without slashes too unless it is that of the page.  It tells, for a page of either scheme, where a URL leads.')
BOUNDS = {'quick': 'all sequences of up to 4 of 20 tokens, 5 of 12 and 6 of 7, with allowed hosts none, one (set, string, list) and two, require_https and not, text and native; '
                   'all plain paths of up to 4 of 12 tokens; all hosts and patterns of up to 4 labels of 3; all strings of up to 6 of 5 characters for escape_leading_slashes',
          'thorough': 'one token more everywhere'}
ASSUMPTIONS = ['hosts are in lower case', 'a URL that a browser takes for invalid leads nowhere']

SPECIAL = ('http', 'https', 'ftp', 'ws', 'wss')
LETTERS = set('abcdefghijklmnopqrstuvwxyz')
SCHEME = LETTERS | set('0123456789+-.')
FORBIDDEN = set(' #/:<>?@[\\]^|%') | set(chr(c) for c in range(33)) | set('\x7f')


def browser(url, base):
    """('stay',), ('go', scheme, authority without a default port), ('other', scheme) or ('invalid',)"""
    while url and ord(url[0]) <= 32:
        url = url[1:]
    while url and ord(url[-1]) <= 32:
        url = url[:-1]
    url = ''.join(c for c in url if c not in '\t\r\n')
    i = 0
    while i < len(url) and url[i].lower() in SCHEME:
        i += 1
    scheme = None
    if i and i < len(url) and url[i] == ':' and url[0].lower() in LETTERS:
        scheme, rest = url[:i].lower(), url[i + 1:]
        if scheme not in SPECIAL:
            return ('other', scheme)
        slashes = len(rest) > 1 and rest[0] in '/\\' and rest[1] in '/\\'
        if scheme == base and not slashes and not (rest[:2] == '//'):
            return ('stay',)
    else:
        rest = url
        if not (len(rest) > 1 and rest[0] in '/\\' and rest[1] in '/\\'):
            return ('stay',)
        scheme = base
    while rest and rest[0] in '/\\':
        rest = rest[1:]
    n = 0
    while n < len(rest) and rest[n] not in '/\\?#':
        n += 1
    auth = rest[:n]
    host = auth.rpartition('@')[2]
    name, _, port = host.partition(':') if host[:1] != '[' else (host.rpartition(']')[0] + ']', ':', host.rpartition(']')[2][1:])
    if not name or [c for c in port if c not in '0123456789'] or name[:1] != '[' and [c for c in name if c in FORBIDDEN or c.isspace()]:
        return ('invalid',)
    port = port.lstrip('0')
    if port and port != {'http': '80', 'https': '443'}.get(scheme):
        name += ':' + port
    return ('go', scheme, name.lower())


HOSTSETS = [None, [], ['h'], 'h', u'h', ['h', 'e:8'], ('g',)]


def hosts(hs):
    return () if hs is None else (hs,) if isinstance(hs, basestring) else hs


def check(x, url, hs, https):
    given = set(hs) if isinstance(hs, list) and len(hs) == 1 else hs
    o = attempt(is_safe_url, url, given, require_https=https)
    if o[0] != 'ok' or o[1] not in (True, False):
        x.fail('is_safe_url(%r, %r, require_https=%r): %r' % (url, given, https, o))
        return
    if o[1]:
        # not for the empty URL
        for base in ('http', 'https'):
            to = browser(url, base)
            if to[0] == 'other' or to[0] == 'go' and (to[1] not in (('https',) if https and url.strip()[:1] not in '/\\' else ('http', 'https')) or to[2] not in hosts(hs)):
                x.fail('is_safe_url(%r, %r, require_https=%r) is true; a browser goes to %r' % (url, given, https, to))
                break
        if not url.strip():
            x.fail('is_safe_url(%r) is true' % url)
    x.did()
    return o[1]


TOK = ['/', '\\', ':', '?', '#', '@', '.', '\t', '\n', ' ', '\x00', '\x1f', 'http', 'https', 'javascript', 'h', 'e', '[', ']', '8']
TOK5 = ['/', '\\', ':', '@', '\t', ' ', 'http', 'HTTPS', 'h', 'e', '\r', ';']
TOK6 = ['/', '\\', ':', '@', 'http', 'h', 'e']
UNI = [u'/', u'\\', u':', u'\u2028', u'\u00a0', u'\u00e9', u'\uff0f', u'\u3002', u'h', u'http', u'\u0085', u'\U0001F600', u'\u180e', u'\u200b']


def u_urls(x, which, n, *first):
    toks = (TOK, TOK5, TOK6, UNI)[which]
    pre = ''.join(toks[i] for i in first)
    many = which in (0, 3)
    seen = 0
    for rest in product(toks, repeat=n):
        url = pre + ''.join(rest)
        for hs in (HOSTSETS if many and n + len(first) < 4 else [['h']]):
            for https in ((False, True) if many or n + len(first) < 5 else (False,)):
                seen += bool(check(x, url, hs, https))
    x.watch.begin = 0
    x.outcome((which, first, n, seen))


PATHTOK = ['a', 'b1', '/', '?', '#', '=', '&', '-', '.', '~', '%2F', ':']


def u_plain(x, n, a):
    """what must be accepted"""
    for rest in product(PATHTOK, repeat=n):
        t = PATHTOK[a] + ''.join(rest)
        if not t.startswith('//') and ':' not in t.split('/')[0].split('?')[0].split('#')[0]:
            for url in (t, unicode(t), ' ' + t, t + '\n'):
                for https in (False, True):
                    for hs in (None, ['h'], 'h'):
                        if check(x, url, hs, https) is not True:
                            x.fail('is_safe_url(%r, %r, require_https=%r) is not true' % (url, hs, https))
        if ':' not in t:
            for scheme in ('http', 'https', 'HTTP', 'Https', ''):
                for host in ('h', 'e:8', 'www.example.com', '[::1]'):
                    tail = t if t[0] in '/?#' else '/' + t
                    url = (scheme + ':' if scheme else '') + '//' + host + tail
                    for hs in ([host], set([host, 'other']), host, unicode(host)):
                        if is_safe_url(url, hs) is not True:
                            x.fail('is_safe_url(%r, %r) is not true' % (url, hs))
                        want = scheme.lower() == 'https'
                        if is_safe_url(url, hs, require_https=True) is not want:
                            x.fail('is_safe_url(%r, %r, require_https=True) is not %r' % (url, hs, want))
                    for hs in (None, set(), 'x' + host, host + 'x', 'other', [host + '.'], host[1:], set([host[:-1]])):
                        if is_safe_url(url, hs):
                            x.fail('is_safe_url(%r, %r) is true' % (url, hs))
                    x.did(12)
    x.watch.begin = 0


def u_empty(x):
    for u in (None, '', u'', ' ', '\t\n', u'\u2003'):
        for hs in HOSTSETS:
            x.eq(is_safe_url(u, hs), False, 'is_safe_url(%r, %r)' % (u, hs))
    # others that a page must not be sent to
    for s in ('javascript', 'data', 'ftp', 'file', 'mailto', 'vbscript', 'ws', 'JavaScript', 'view-source', 'x.y', 'a+b'):
        for tail in (':', ':x', ':/x', '://h', '://h/', ':///h', ':h', ':alert(1)//', ':?', ':#', '://h@e', ':\\\\h'):
            for pre in ('', ' ', '\t', '\x00', '\x1f', ' \n', u'\u2003'):
                for hs in HOSTSETS:
                    if is_safe_url(pre + s + tail, hs):
                        x.fail('is_safe_url(%r, %r) is true' % (pre + s + tail, hs))
            # with what browsers leave out
            for i in range(1, len(s)):
                for c in '\t\r\n':
                    u = s[:i] + c + s[i:] + tail
                    if is_safe_url(u, ['h']):
                        x.fail('is_safe_url(%r) is true' % u)
                    x.did()
    # every control character first
    for c in range(0, 256):
        for rest in ('//e', '/p', 'http://e', 'javascript:x', '\\\\e'):
            check(x, unichr(c) + rest, ['h'], False)
            check(x, unichr(c) + u' ' + rest, ['h'], False)
            check(x, rest[:1] + unichr(c) + rest[1:], ['h'], False)
            check(x, rest[:4] + unichr(c) + rest[4:], ['h'], False)


LABELS = ['a', 'b', 'ab', '']


def u_domain(x, n):
    hosts_ = set('.'.join(p) for k in range(1, 5) for p in product(LABELS[:3] if k > 2 else LABELS, repeat=k))
    for p in product(LABELS, repeat=n):
        pattern = '.'.join(p)
        for pat in (pattern, pattern.upper()):
            if pat in ('.',):
                continue
            for host in hosts_:
                want = False
                if pat:
                    low = pat.lower()
                    want = host == low
                    if low[0] == '.':
                        labels = low[1:].split('.')
                        h = host.split('.')
                        want = want or h == labels or len(h) > len(labels) and h[-len(labels):] == labels
                if bool(is_same_domain(host, pat)) != want:
                    x.fail('is_same_domain(%r, %r): %r' % (host, pat, is_same_domain(host, pat)))
                x.did()
    for host in ('', 'a'):
        for pat in ('', None):
            x.eq(bool(is_same_domain(host, pat)), False, 'is_same_domain(%r, %r)' % (host, pat))


def u_slashes(x, n):
    for t in strings(['/', 'a', '\\', '%2F', ' '], n, n):
        for u in (t, unicode(t)):
            o = attempt(escape_leading_slashes, u)
            if o[0] != 'ok' or o[1].startswith('//'):
                x.fail('escape_leading_slashes(%r): %r' % (u, o))
            elif not u.startswith('//') and o[1] != u:
                x.fail('escape_leading_slashes(%r): %r; nothing is to be escaped' % (u, o[1]))
            elif u.startswith('//') and (not o[1].startswith('/%2F') or o[1].replace('%2F', '/') != u.replace('%2F', '/')):
                x.fail('escape_leading_slashes(%r): %r is another path' % (u, o[1]))
            x.did()


def units(x):
    t = 1 if x.thorough else 0
    yield ('empty',)
    yield ('urls', 0, 0)
    for a in range(len(TOK)):
        yield ('urls', 0, 0, a)
        for b in range(len(TOK)):
            for n in range(0, 3 + t):
                yield ('urls', 0, n, a, b)
    for a in range(len(TOK5)):
        for b in range(len(TOK5)):
            yield ('urls', 1, 3 + t, a, b)
    for a in range(len(TOK6)):
        for b in range(len(TOK6)):
            yield ('urls', 2, 4 + t, a, b)
    for a in range(len(UNI)):
        yield ('urls', 3, 0, a)
        yield ('urls', 3, 1, a)
        yield ('urls', 3, 2, a)
        if t:
            yield ('urls', 3, 3, a)
    for a in range(len(PATHTOK)):
        for n in range(0, 3 + t):
            yield ('plain', n, a)
    for n in range(1, 5):
        yield ('domain', n)
    for n in range(0, 7 + t):
        yield ('slashes', n)
