# -*- coding: utf-8 -*-
"""C03: malformed input terminates and fails only with a documented exception."""
from env import *
import encodings.aliases

ORACLE = ('Every execution must end within the CPU limit and either give a request all of whose attributes can be read or '
          'raise a documented exception; UnicodeError is accepted only if the body really is not valid text in its charset.')
BOUNDS = {'quick': 'all token strings up to length 3 or 4 in each syntactic slot, all single-byte deletions, truncations, duplications and '
                   '13 substitutions of 7 requests (delivered in one piece and in pieces of 1), every codec name as charset',
          'thorough': 'token strings one longer, pairs of deletions'}
ASSUMPTIONS = ['CPU limit of 25 s per unit of at most a few thousand parses of inputs below 2 KB']

OK = ('InvalidHttpRequest', 'NoHostFoundException', 'MultiPartParserError', 'TooManyFieldsSent', 'RequestDataTooBig',
      'SuspiciousMultipartForm', 'SuspiciousOperation')


def probe(x, raw, s=None, stream=None, call=None):
    holder = []

    def go():
        r = HttpRequest(stream if stream is not None else BytesIO(raw), s or settings())
        holder.append(r)
        if call == 'body':
            r.parse_request_header()
            r.body()
            repr(r)
        r.parse()
        v = view(r)
        repr(r)
        r.get_uri()
        r.get_full_path()
        return v
    o = attempt(go)
    r = holder[0] if holder else None
    x.did(5 if o[0] == 'ok' else 1)
    if o[0] == 'ok':
        x.outcome(o[1][1])
    else:
        x.outcome(o[1])
        if o[1] == 'UnicodeError' and r is not None:
            body = raw[raw.find('\r\n\r\n') + 4:]
            if r.content_type not in ('multipart/form-data', FORM):
                try:
                    body.decode(r.encoding)
                except UnicodeError:
                    pass
                else:
                    x.fail('UnicodeError though the body is valid %s' % r.encoding, raw)
            else:
                x.fail('UnicodeError from a %s body: %r' % (r.content_type, o[2]), raw)
        elif o[1] not in OK:
            x.fail('internal error %s: %r' % (o[1], o[2]), raw)
    if r is not None:
        attempt(r.close)
    return o


def body_b(disp='form-data; name="a"', content='1', more=''):
    return '--B\r\nContent-Disposition: %s\r\n%s\r\n%s\r\n--B--\r\n' % (disp, more, content)


LINE_T = ('GET', ' ', '/', '\r', '\n', ':', 'HTTP/1.1', '?', '#', ';', '//', '[', ']', '\xe9', '%', '\x00', 'http', '@', '\\')
HEAD_T = (':', ' ', '\r', '\n', 'A', 'Host', 'h', '\t', '\xff', 'Content-Type', '\x00', '\r\n', 'Content-Length', ',', '=')
CT_T = ('multipart/form-data', 'text/plain', FORM, ';', 'boundary', 'charset', '=', '"', 'B', ' ', '*', "'", '%', 'utf-8', '\\', ',', '\x00',
        'Boundary=B', '/')
DISP_T = ('form-data', ';', 'name', '=', '"', 'filename', 'x', '\r\n', ' ', '*', "utf-8''", '%ff', '\xff', '\\', "'", 'name=a', '\x00', ':')
CONT_T = ('\r', '\n', '-', '--B', 'B', 'x', '\r\n\r\n', ' ', '--B--', '\r\n--B', '\x00', ': a')
PH_T = ('Content-Disposition', ':', ' ', '\r\n', 'form-data; name=a', ';', 'Content-Type', 'text/plain', '"', '\xff', 'filename=q',
        'Content-Transfer-Encoding', 'base64', 'Content-Length', '-1', 'charset=bogus', '\r\n\r\n')
ENT_T = ('&', '#', 'x', '0', '1', '9999999999', 'F', ';', 'amp', '-', 'D800', 'eacute', 'euro', ' ')
EXT_T = ('utf-8', "'", '%', '41', 'C3', 'x', 'bogus', '"', '%E9', 'en', ';', '*', '=', '\xe9', 'hex', 'idna')
PN_T = ("'", '*', '=', 'x', '%41', '"', ' ', 'utf-8', '\xe9', ';')
B64_T = ('A', '=', ' ', '\r\n', '!', '\xff', 'QQ==', '-')
SLOTS = {
    'line': (LINE_T, lambda t: t + '\r\nHost: h\r\n\r\n'),
    'target': (LINE_T, lambda t: 'GET /' + t + ' HTTP/1.1\r\nHost: h\r\n\r\n'),
    'abs': (LINE_T, lambda t: 'GET http://' + t + '/ HTTP/1.1\r\nHost: h\r\n\r\n'),
    'head': (HEAD_T, lambda t: 'GET / HTTP/1.1\r\nHost: h\r\n' + t + '\r\n\r\nbody'),
    'host': (HEAD_T, lambda t: 'GET / HTTP/1.1\r\nHost:' + t + '\r\n\r\n'),
    'ctype': (CT_T, lambda t: http(body_b(), t)),
    'mctype': (CT_T, lambda t: http(body_b(), 'multipart/form-data' + t)),
    'bound': (CT_T, lambda t: http(body_b(), 'multipart/form-data; boundary=' + t)),
    'tctype': (CT_T, lambda t: http('a=\xe9&b=\x00', 'text/plain; charset=' + t)),
    'fctype': (CT_T, lambda t: http('a=%E9&b=\xff', FORM + '; charset=' + t)),
    'disp': (DISP_T, lambda t: http(body_b(t), mtype())),
    'disp2': (DISP_T, lambda t: http(body_b('form-data; name="a"; filename=' + t), mtype())),
    'disp3': (DISP_T, lambda t: http(body_b('form-data; name=' + t), mtype())),
    'cont': (CONT_T, lambda t: http(body_b(content=t), mtype())),
    'rawbody': (CONT_T, lambda t: http(t, mtype())),
    'parthead': (PH_T, lambda t: http('--B\r\n' + t + '\r\n\r\n1\r\n--B--\r\n', mtype())),
    'parthead2': (PH_T, lambda t: http(body_b('form-data; name=f; filename=q', more=t + '\r\n'), mtype())),
    'entity': (ENT_T, lambda t: http(body_b('form-data; name=f; filename="' + t + '"'), mtype())),
    'entityb': (ENT_T, lambda t: http(body_b('form-data; name=f; filename="\xe9' + t + '"'), mtype())),
    'entityn': (ENT_T, lambda t: http(body_b('form-data; name="' + t + '"; filename=q', more='Content-Type: text/' + t + '\r\n'), mtype())),
    'pname': (PN_T, lambda t: http(body_b('form-data; name=a; ' + t + '=b', more='Content-Type: x/y;' + t + '=b\r\n'), mtype())),
    'cname': (PN_T, lambda t: http(body_b(), 'multipart/form-data; boundary=B; ' + t + '=b')),
    'ext': (EXT_T, lambda t: http(body_b('form-data; name=f; filename*=' + t), mtype())),
    'ext2': (EXT_T, lambda t: http(body_b('form-data; name*=' + t + '; filename=a', more='Content-Type: text/x; charset*=' + t + '\r\n'), mtype())),
    'ext3': (EXT_T, lambda t: http('abc\xe9', 'text/plain; charset*=' + t)),
    'extb': (EXT_T, lambda t: http(body_b(), 'multipart/form-data; boundary*=' + t)),
    'b64file': (B64_T, lambda t: http(body_b('form-data; name=f; filename=q', t, 'Content-Transfer-Encoding: base64\r\n'), mtype())),
    'b64field': (B64_T, lambda t: http(body_b('form-data; name=f', t, 'Content-Transfer-Encoding: base64\r\n'), mtype())),
    'query': (('&', ';', '=', '%', '+', 'a', 'C3', '\xe9', '\x00', '%zz', '%u0041'), lambda t: http(t, FORM, target='/?' + t.replace('\xe9', ''))),
    'cte': (('base64', ' ', 'quoted-printable', ';', '"', '\xff', 'BASE64', '8bit', '='),
            lambda t: http(body_b('form-data; name=f; filename=q', 'QUJD=41', 'Content-Transfer-Encoding:' + t + '\r\n') +
                           '', mtype())),
    'clen': (('1', '-', '0', ' ', '+', 'x', '.', 'e', '9' * 30, '\xef', '_', 'L'), lambda t: http(body_b(), mtype(), length=t)),
    'preamble': (CONT_T + ('Content-Disposition: form-data; name=p',), lambda t: http(t + body_b(), mtype())),
    'epilogue': (CONT_T + ('Content-Disposition: form-data; name=p',), lambda t: http(body_b() + t, mtype())),
}
DEEP = ('bound', 'disp', 'cont', 'entity', 'ext', 'b64file', 'target', 'query', 'clen', 'cte')


def u_slot(x, slot, first, n):
    toks, make = SLOTS[slot]
    for t in product(toks, repeat=n):
        raw = make(first + ''.join(t))
        o = probe(x, raw)
    x.sample((slot, raw, o[:2]))


MUT = (
    http('', None, 'http://h.x:81/p;q?a=b#c', 'GET', ['X-A: 1', 'Cookie: a=b']),
    http('a=1&b=%C3%A9+c&d', FORM + '; charset=utf-8'),
    http(u'h\xe9llo'.encode('utf-8'), 'text/plain; charset="utf-8"'),
    mhttp([part('v', 'a', ctype='text/plain; charset=x'), part('d\r\n-', 'f', 'n.txt', 'text/plain')]),
    mhttp([part('aGVsbG8gd29ybGQ=', 'f', 'n.bin', None, 'base64'), part('aGk=', 'g', None, None, 'base64')]),
    mhttp([part('x', 'a', disp="form-data; name=a; filename*=utf-8'en'%C3%A9.txt; x=\"q\\\"r\""), part('y', 'b', '&#233;&amp;.t')]),
    http(multipart([part('1', 'a'), part('2', 'b', 'c')], preamble='pre\r\n', epilogue='\r\nepi'), 'multipart/form-data; boundary="B"'),
)
SUBST = '\r\n :;"=-\x00\xff%\\\'*'


def u_mutate(x, i, at):
    raw = MUT[i]
    vs = [raw[:at], raw[:at] + raw[at + 1:], raw[:at] + raw[at] + raw[at:], raw[:at] + raw[at:at + 2] * 3 + raw[at + 2:]]
    vs += [raw[:at] + c + raw[at + 1:] for c in SUBST] + [raw[:at] + '\r\n' + raw[at:], raw[:at] + '\r\n\r\n' + raw[at:]]
    for v in vs:
        a = probe(x, v)
        b = probe(x, v, stream=Chunks(every(v, 1)))
        if a[:2] != b[:2]:
            x.fail('the outcome depends on the delivery: %r and %r' % (a[:2], b[:2]), v)
    probe(x, raw[:at] + raw[at + 1:], call='body')


def u_delete2(x, i, at):
    raw = MUT[i]
    for b in range(at, len(raw) - 1):
        v = raw[:at] + raw[at + 1:b + 1] + raw[b + 2:]
        probe(x, v)
    x.step()


def names():
    out = set(encodings.aliases.aliases.keys()) | set(encodings.aliases.aliases.values())
    out |= set(['bogus', 'hex', 'zip', 'zlib', 'bz2', 'rot13', 'rot_13', 'uu', 'punycode', 'idna', 'unicode_escape', 'raw_unicode_escape',
                'string_escape', 'unicode_internal', 'undefined', 'mbcs', 'base64', 'quopri', 'utf-8-sig', 'UTF-8', 'Latin-1', 'x', '-', '.',
                '../x', 'encodings.utf_8', 'a' * 300, 'utf-16', 'utf-32', 'utf-7', 'cp037', 'sys', 'os', 'charset', '%', '\xff', 'ascii', 'us-ascii',
                'windows-1252', 'gbk', 'big5', 'shift_jis', 'euc-jp', 'iso-2022-jp', 'koi8-r', 'test.x', 'aliases'])
    return sorted(out)


def u_charset(x, name):
    for body in ('', 'a=b', 'a=\xe9&\xff=%E9%zz', '\x00\xff\xfe', 'a=%FF%FE%00', '+AGE-&+=+', '\\x41=\\u00e9'):
        for ct in ('text/plain', FORM, 'text/html'):
            probe(x, http(body, ct + '; charset=' + name))
        m = body_b('form-data; name="a"', body) 
        probe(x, http(m, 'multipart/form-data; boundary=B; charset=' + name))
        probe(x, http(body_b('form-data; name="\xe9"; filename="\xe9"', body, 'Content-Type: text/plain; charset=%s\r\n' % name),
                      'multipart/form-data; boundary=B; charset=' + name))
        probe(x, http(body_b("form-data; name=f; filename*=%s''%%E9x" % name, body), mtype()))
        probe(x, http(body, 'text/plain; charset=' + name, target='/?a=%E9&b=%zz'))


def units(x):
    for slot in sorted(SLOTS):
        toks = SLOTS[slot][0]
        yield ('slot', slot, '', 0)
        yield ('slot', slot, '', 1)
        for t in toks:
            yield ('slot', slot, t, 1)
            yield ('slot', slot, t, 2)
    for i, raw in enumerate(MUT):
        for at in range(len(raw)):
            yield ('mutate', i, at)
    for n in names():
        yield ('charset', n)
    for slot in sorted(SLOTS):
        if slot in DEEP or x.thorough:
            toks = SLOTS[slot][0]
            for t in toks:
                for t2 in toks:
                    if x.thorough and slot in DEEP:
                        yield ('slot', slot, t + t2, 2)
                        yield ('slot', slot, t + t2, 3)
                    elif slot in ('cont', 'b64file', 'query') or x.thorough:
                        yield ('slot', slot, t + t2, 2)
    if x.thorough:
        for i, raw in enumerate(MUT):
            for at in range(len(raw)):
                yield ('delete2', i, at)
