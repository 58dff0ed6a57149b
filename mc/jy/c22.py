# -*- coding: utf-8 -*-
"""C22: dates, entity tags, base 36, URL-safe base64."""
from env import *
from request_parser.utils.http import (
    http_date, parse_http_date, parse_http_date_safe, int_to_base36, base36_to_int,
    urlsafe_base64_encode, urlsafe_base64_decode, parse_etags, quote_etag)

ORACLE = ('A calendar written for this check (days counted year by year), which writes the three formats of a date; a grammar of dates that is strict in everything but the names of days and '
          'the case of months; digits by division; base64 by shifting bits; the entity tags the generator put into the list.')
BOUNDS = {'quick': 'every day from 1970 to 2105 and 1 January and 1 March of every year from 1000 to 9999, with the seconds at its ends; every day, month, hour, minute and second number from 00 to 99 in each '
                   'format; every deletion, insertion and replacement of one character (of 14) in 9 dates; integers to 20000 and around every power of 36 and 2 to 13 digits; all byte strings of up to 2 bytes and '
                   '3 and 4 of 8 values; all lists of up to 4 of 15 entity tags and other elements; all strings of up to 6 of 7 characters',
          'thorough': 'two seconds more for each day, dates with two changes, byte strings of up to 5, lists of up to 5, strings of up to 7'}
ASSUMPTIONS = ['years before 1000 are not used', 'a two-digit year is one of 1970 to 2069 (the rule the library documents in its code)', 'a leap second may be rejected or not',
               'characters that are none of base64 may be ignored or rejected', 'a value with a quotation mark in it is no entity tag and is not given to quote_etag']

DAYS = ['Thursday', 'Friday', 'Saturday', 'Sunday', 'Monday', 'Tuesday', 'Wednesday']      # 1 January 1970 was a Thursday
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_days(y, m):
    return 29 if m == 1 and leap(y) else LEN[m]


_first = {}


def first(y):
    """the number of the first day of a year"""
    if not _first:
        d = 0
        for k in range(1970, 10001):
            _first[k] = d
            d += 366 if leap(k) else 365
        d = 0
        for k in range(1969, 999, -1):
            d -= 366 if leap(k) else 365
            _first[k] = d
    return _first[y]


def number(y, m, d, h, mi, s):
    n = first(y)
    for k in range(m):
        n += month_days(y, k)
    return (n + d - 1) * 86400 + h * 3600 + mi * 60 + s


def formats(y, m, d, h, mi, s):
    day = DAYS[(number(y, m, d, 0, 0, 0) // 86400) % 7]
    t = '%02d:%02d:%02d' % (h, mi, s)
    out = [('%s, %02d %s %04d %s GMT' % (day[:3], d, MON[m], y, t)), ('%s %s %2d %s %04d' % (day[:3], MON[m], d, t, y))]
    if 1970 <= y <= 2069:
        out.append('%s, %02d-%s-%02d %s GMT' % (day, d, MON[m], y % 100, t))
    return out


def rejected(x, s):
    o = attempt(parse_http_date, s)
    if o[0] == 'ok' or not isinstance(o[2], ValueError):
        x.fail('parse_http_date(%r): %r; it is not a date' % (s, o[1:]))
    o = attempt(parse_http_date_safe, s)
    if o != ('ok', None):
        x.fail('parse_http_date_safe(%r): %r; it is not a date' % (s, o[1:]))
    x.did(2)


def accepted(x, s, n):
    for f in (parse_http_date, parse_http_date_safe):
        o = attempt(f, s)
        if o != ('ok', n):
            x.fail('%s(%r): %r, expected %r' % (f.__name__, s, o[1:], n))
    x.did(2)


TIMES = [(0, 0, 0), (0, 0, 1), (9, 59, 59), (12, 0, 0), (23, 59, 59), (10, 8, 20)]


def u_days(x, y, only):
    k = 0
    for m in range(12):
        for d in range(1, month_days(y, m) + 1):
            if only and (m, d) not in ((0, 1), (2, 1), (11, 31), (1, 28), (1, 29)):
                continue
            k += 1
            for t in TIMES if only or d in (1, 28, 29, 31) else [TIMES[k % 6], TIMES[(k + 3) % 6], TIMES[(k + 4) % 6]][:3 if x.thorough else 2]:
                n = number(y, m, d, *t)
                fs = formats(y, m, d, *t)
                o = attempt(http_date, n)
                if o != ('ok', fs[0]):
                    x.fail('http_date(%r): %r, expected %r' % (n, o[1:], fs[0]))
                for f in fs:
                    accepted(x, f, n)
                x.did()
    x.step()
    x.outcome((y, k))


def u_fields(x, which):
    """every number in a field"""
    for y in (1994, 1996, 2000, 2021):
        for m in range(12) if which in ('day', 'month') else (1, 10):
            for v in range(100):
                d, h, mi, s = 6, 8, 49, 37
                ok = True
                if which == 'day':
                    d = v
                    ok = 1 <= v <= month_days(y, m)
                elif which == 'hour':
                    h = v
                    ok = v < 24
                elif which == 'minute':
                    mi = v
                    ok = v < 60
                elif which == 'second':
                    s = v
                    ok = v < 60
                elif v > 12:
                    break
                name = MON[m] if which != 'month' else (MON[v] if v < 12 else 'Abc')
                if which == 'month':
                    ok = v < 12
                t = '%02d:%02d:%02d' % (h, mi, s)
                fs = ['Sun, %02d %s %04d %s GMT' % (d, name, y, t), 'Sun %s %2d %s %04d' % (name, d, t, y), 'Sunday, %02d-%s-%02d %s GMT' % (d, name, y % 100, t)]
                if ok:
                    mm = v if which == 'month' else m
                    day = DAYS[(number(y, mm, d, 0, 0, 0) // 86400) % 7]
                    for f in fs:
                        accepted(x, f.replace('Sunday', day).replace('Sun', day[:3]), number(y, mm, d, h, mi, s))
                elif not (which == 'second' and v == 60):
                    for f in fs:
                        rejected(x, f)
        x.step()


MUT = ['0', '9', ' ', ',', '-', ':', 'a', 'N', 'G', '\n', '+', '\t', '_', u'\u0661']
BASES = [(1994, 10, 6, 8, 49, 37), (2000, 1, 29, 23, 59, 59), (2021, 11, 31, 0, 0, 0)]


def grammar(s):
    """'no', 'maybe' or the number"""
    import re
    days = 'Sun|Mon|Tue|Wed|Thu|Fri|Sat'
    for i, pat in enumerate((r'(\w{3}), ([0-9]{2}) ([A-Za-z]{3}) ([0-9]{4}) ([0-9]{2}):([0-9]{2}):([0-9]{2}) GMT', r'(\w{6,9}), ([0-9]{2})-([A-Za-z]{3})-([0-9]{2}) ([0-9]{2}):([0-9]{2}):([0-9]{2}) GMT',
                             r'(\w{3}) ([A-Za-z]{3}) ([ 0-9][0-9]) ([0-9]{2}):([0-9]{2}):([0-9]{2}) ([0-9]{4})')):
        m = re.match(pat + r'(?!.|\n)', s)
        if not m:
            continue
        g = list(m.groups())
        if i == 2:
            g = [g[0], g[2], g[1], g[6]] + g[3:6]
        mon = [j for j in range(12) if MON[j].lower() == g[2].lower()]
        y = int(g[3])
        if i == 1:
            y += 1900 if y >= 70 else 2000
            if not 1970 <= y <= 2069:
                return 'maybe'
        if y < 1000 or int(g[6]) == 60:
            return 'maybe'
        d = int(g[1])
        if not mon or not 1 <= d <= month_days(y, mon[0]) or int(g[4]) > 23 or int(g[5]) > 59 or int(g[6]) > 59:
            return 'no'
        n = number(y, mon[0], d, int(g[4]), int(g[5]), int(g[6]))
        if s in formats(y, mon[0], d, int(g[4]), int(g[5]), int(g[6])):
            return n
        return 'maybe', n
    return 'no'


def judge(x, s):
    w = grammar(s)
    if w == 'no':
        rejected(x, s)
    elif isinstance(w, tuple):
        # with another day of the week, or a month in other case: if it is a date it is this one
        o = attempt(parse_http_date, s)
        if o[0] == 'ok' and o[1] != w[1] or o[0] != 'ok' and not isinstance(o[2], ValueError):
            x.fail('parse_http_date(%r): %r, expected %r' % (s, o[1:], w[1]))
        x.did()
    elif w != 'maybe':
        accepted(x, s, w)


def mutations(s):
    for i in range(len(s) + 1):
        if i < len(s):
            yield s[:i] + s[i + 1:]
        for c in MUT:
            yield s[:i] + c + s[i:]
            if i < len(s):
                yield s[:i] + c + s[i + 1:]


def u_mutate(x, b, f, deep, lo):
    s = formats(*BASES[b])[f]
    judge(x, s)
    for k, t in enumerate(mutations(s)):
        if not deep:
            judge(x, t)
        elif k % 16 == lo:
            for u in mutations(t):
                judge(x, u)
            x.watch.begin = 0


def u_notdates(x):
    for n in (0, 1, -1, 784111777):
        for s in ('', ' ', str(n), 'GMT', 'Sun, 06 Nov 1994', '08:49:37', 'Sun, 06 Nov 1994 08:49:37', 'Sun, 06 Nov 1994 08:49:37 UTC', 'Sun, 06 Nov 1994 08:49:37 +0000', '1994-11-06T08:49:37Z',
                  'Sunday, 06 Nov 1994 08:49:37 GMT', 'Sun, 6 Nov 1994 08:49:37 GMT', 'Sun, 06 Nov 94 08:49:37 GMT', 'Sun, 06-Nov-94 08:49:37 GMT', 'Sunday, 06-Nov-1994 08:49:37 GMT'):
            rejected(x, s)
            rejected(x, unicode(s))
    for v in (None, 5):
        x.eq(parse_http_date_safe(v), None, 'parse_http_date_safe(%r)' % v)
    # fractions of a second and the present
    for k in (0, 1, 784111777):
        for frac in (0.0, 0.25, 0.5, 0.75):
            x.eq(parse_http_date(http_date(k + frac)), k, 'parse_http_date(http_date(%r))' % (k + frac))
    import time
    before = int(time.time())
    now = parse_http_date(http_date())
    if not before <= now <= int(time.time()):
        x.fail('http_date() gives %r at %r' % (now, before))
    x.did()


DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def digits(n):
    s = ''
    while True:
        s = DIGITS[n % 36] + s
        n //= 36
        if not n:
            return s


def number36(x, n):
    s = digits(n)
    o = attempt(int_to_base36, n)
    if o != ('ok', s):
        x.fail('int_to_base36(%r): %r, expected %r' % (n, o[1:], s))
    for t in (s, s.upper(), unicode(s)):
        o = attempt(base36_to_int, t)
        if len(s) <= 13 and o != ('ok', n):
            x.fail('base36_to_int(%r): %r, expected %r' % (t, o[1:], n))
        elif len(s) > 13 and (o[0] == 'ok' or not isinstance(o[2], ValueError)):
            x.fail('base36_to_int(%r): %r; it is too long' % (t, o[1:]))
    if n:
        o = attempt(int_to_base36, -n)
        if o[0] == 'ok' or not isinstance(o[2], ValueError):
            x.fail('int_to_base36(%r): %r' % (-n, o[1:]))
    x.did(5)


def u_base36(x, lo, hi):
    for n in range(lo, hi):
        number36(x, n)
    x.step()


def u_base36_edges(x):
    for b, top in ((36, 15), (2, 68), (10, 21)):
        for k in range(1, top):
            for mult in range(1, b if b == 36 else 2):
                for d in range(-3, 4):
                    if mult * b ** k + d >= 0:
                        number36(x, mult * b ** k + d)
    for c in '!.-_/:@[`{~\x00':
        for s in (c, 'a' + c, c + 'a' if c != '-' else 'a-', 'a' + c + 'b'):
            if s == '-':
                continue
            o = attempt(base36_to_int, s)
            if o[0] == 'ok' or not isinstance(o[2], ValueError):
                x.fail('base36_to_int(%r): %r' % (s, o[1:]))
    for s in ('', '0' * 14, 'z' * 14, 'z' * 100):
        o = attempt(base36_to_int, s)
        if o[0] == 'ok' or not isinstance(o[2], ValueError):
            x.fail('base36_to_int(%r): %r' % (s, o[1:]))
    x.eq(base36_to_int('z' * 13), 36 ** 13 - 1, "base36_to_int of 13 'z'")
    x.eq(base36_to_int('0' * 12 + '1'), 1, 'base36_to_int with leading zeros')


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def b64(data):
    out = ''
    for i in range(0, len(data), 3):
        g = data[i:i + 3]
        n = 0
        for c in g:
            n = n * 256 + ord(c)
        n <<= 8 * (3 - len(g))
        out += ''.join(B64[n >> s & 63] for s in (18, 12, 6, 0))[:len(g) + 1]
    return out


def base64(x, data):
    want = b64(data)
    o = attempt(urlsafe_base64_encode, data)
    if o != ('ok', want):
        x.fail('urlsafe_base64_encode(%r): %r, expected %r' % (data, o[1:], want))
    for t in (want, unicode(want), want + '=' * (-len(want) % 4)):
        o = attempt(urlsafe_base64_decode, t)
        if o != ('ok', data):
            x.fail('urlsafe_base64_decode(%r): %r, expected %r' % (t, o[1:], data))
    # a single character more than a group cannot be
    if len(want) % 4 == 0:
        o = attempt(urlsafe_base64_decode, want + 'A')
        if o[0] == 'ok' or not isinstance(o[2], ValueError):
            x.fail('urlsafe_base64_decode(%r): %r' % (want + 'A', o[1:]))
    x.did(5)


def u_base64(x, first_):
    base64(x, first_)
    for b in range(256):
        base64(x, first_ + chr(b))
    x.step()


VALUES = ['\x00', '\xff', 'a', '\xfb', '\xf0', '\x3e', '\n', '=']


def u_base64_long(x, n, *first_):
    pre = ''.join(VALUES[i] for i in first_)
    for rest in strings(VALUES, n, n):
        base64(x, pre + rest)
    x.watch.begin = 0


def u_base64_lengths(x):
    for n in range(0, 200):
        base64(x, ''.join(chr((i * 37 + n) & 255) for i in range(n)))
    for s in (u'\u00e9', u'YQ\u00e9', u'\U0001F600'):
        o = attempt(urlsafe_base64_decode, s)
        if o[0] == 'ok' or not isinstance(o[2], ValueError):
            x.fail('urlsafe_base64_decode(%r): %r' % (s, o[1:]))


TAGS = ['""', '"a"', '"A-1"', 'W/"a"', 'W/""', '"a,b"', 'W/",,"', '"a\\b"', '"*"', '"W/"', '"a=b;c"']
JUNK = ['a', '*', '', 'W/', 'w/"a"', 'a"b"', '"a"b', "'a'"]
SEP = [',', ', ', ' ,', '\t,  ']


def u_etags(x, n, *first_):
    items = TAGS + JUNK
    pre = [items[i] for i in first_]
    for k, rest in enumerate(product(items, repeat=n)):
        els = pre + list(rest)
        want = [e for e in els if e in TAGS]
        for sep in SEP if len(els) < 4 else [SEP[k % 4]]:
            for around in ('', ' '):
                s = around + sep.join(els) + around
                if s.strip() == '*':
                    want = ['*']
                o = attempt(parse_etags, s)
                if o != ('ok', want):
                    x.fail('parse_etags(%r): %r, expected %r' % (s, o[1:], want))
                x.did()
    x.watch.begin = 0
    x.outcome((n, first_))


def valid(e):
    t = e[2:] if e[:2] == 'W/' else e
    return len(t) >= 2 and t[0] == t[-1] == '"' and '"' not in t[1:-1]


def u_quote(x):
    for t in strings(['a', ',', ' ', 'W/', '\\', '*', "'"], 4):
        x.eq(quote_etag(t), '"' + t + '"', 'quote_etag(%r)' % t)
        for e in ('"' + t + '"', 'W/"' + t + '"'):
            x.eq(quote_etag(e), e, 'quote_etag(%r)' % e)
            x.eq(quote_etag(unicode(e)), e, 'quote_etag(%r)' % e)
        x.eq(parse_etags(quote_etag(t)), ['"' + t + '"'], 'parse_etags(quote_etag(%r))' % t)
        x.eq(parse_etags(' ' + quote_etag(t) + ' , "z"'), ['"' + t + '"', '"z"'], 'parse_etags of a list of quote_etag(%r) and another' % t)
        x.did(6)


def u_anything(x, n, a, b):
    toks = ['"', 'a', ',', ' ', 'W/', 'w/', '\\', '*']
    for rest in strings(toks, n):
        s = toks[a] + toks[b] + rest
        o = attempt(parse_etags, s)
        if o[0] != 'ok' or [e for e in o[1] if not (valid(e) and e in s) and (e != '*' or s.strip() != '*')]:
            x.fail('parse_etags(%r): %r' % (s, o[1:]))
        o = attempt(quote_etag, s)
        if o[0] != 'ok' or o[1] != s and o[1] != '"' + s + '"' or '"' not in s and not valid(o[1]):
            x.fail('quote_etag(%r): %r' % (s, o[1:]))
        # an entity tag before it is found
        if s[0] == ',':
            o = attempt(parse_etags, '"x,y"' + s)
            if o[0] != 'ok' or o[1][:1] != ['"x,y"']:
                x.fail('parse_etags(%r): %r' % ('"x,y"' + s, o[1:]))
        x.did(2)
    x.watch.begin = 0


def units(x):
    t = 1 if x.thorough else 0
    for y in range(1970, 2106):
        yield ('days', y, False)
    for y in range(1000, 10000):
        if t or y % 8 == 0 or y % 100 in (0, 1, 99) or y < 1010 or y > 9990:
            yield ('days', y, True)
    for w in ('day', 'month', 'hour', 'minute', 'second'):
        yield ('fields', w)
    for b in range(len(BASES)):
        for f in range(3):
            yield ('mutate', b, f, False, 0)
            if t:
                for lo in range(16):
                    yield ('mutate', b, f, True, lo)
    yield ('notdates',)
    for lo in range(0, 20000 * (1 + 9 * t), 1000):
        yield ('base36', lo, lo + 1000)
    yield ('base36_edges',)
    yield ('base64', '')
    for b in range(256):
        yield ('base64', chr(b))
    for a in range(len(VALUES)):
        yield ('base64_long', 2, a)
        for b in range(len(VALUES)):
            yield ('base64_long', 2 + t, a, b)
    yield ('base64_lengths',)
    k = len(TAGS) + len(JUNK)
    yield ('etags', 0)
    for a in range(k):
        yield ('etags', 0, a)
        yield ('etags', 1, a)
        for b in range(k):
            yield ('etags', 1, a, b)
            yield ('etags', 2, a, b)
            if t:
                yield ('etags', 3, a, b)
    yield ('quote',)
    for a in range(7):
        for b in range(7):
            yield ('anything', 4 + t, a, b)
