#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Writes /verif/properties.jsonl (the texts live here so that they can be edited comfortably)."""
import json, os
R = 'request_parser/'
REQ, MPP, DS = R+'http/request.py', R+'http/multipartparser.py', R+'utils/datastructures.py'
UH, UF, BASE, TMP = R+'files/uploadhandler.py', R+'files/uploadedfile.py', R+'files/base.py', R+'files/temp.py'
UTIL, ENC, TXT, CONF = R+'utils/http.py', R+'utils/encoding.py', R+'utils/text.py', R+'conf/settings.py'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

prop('C01', 'The result of parsing does not depend on how the bytes are delivered',
 'For a given sequence of request bytes and given limits, the outcome of parsing (every attribute of the request, META, GET, POST, FILES with their content and metadata, the body, or the exception raised) is the same however the input stream splits the bytes into chunks or lines, whatever MAX_HEADER_SIZE is used to read the header, and whatever chunk_size an upload handler asks for. In particular no delimiter, header block, escape, CRLF or encoded quantum is missed, invented or damaged because it straddles a chunk edge.',
 ['schedules', 'inputs', 'configurations'],
 'every way of splitting the byte stream of a request into reads (all compositions of short windows, every 1/2/3-cut partition of a corpus), every MAX_HEADER_SIZE and handler chunk_size, for urlencoded, text and multipart bodies, including ignored parts and preambles',
 'The tests deliver each request through one BytesIO with line iteration, so a boundary or CRLFCRLF split over two reads is only met where a newline happens to be.',
 [REQ, MPP, DS],
 [('incremental search for CRLFCRLF and unget of the rest', REQ), ('rollback window kept in front of a boundary', MPP), ('LazyStream.read/unget', DS), ('re-fill of a base64 quantum', MPP)],
 ['HttpRequest attributes after parse()', 'POST/FILES of MultiPartParser.parse()', 'the exception raised'])

prop('C02', 'The request line and the headers are reported faithfully',
 'For every well-formed request, method, scheme, host, port, path (with its parameters), query string, protocol version and every header value in order are reported exactly as they were sent, for origin-form and absolute-form targets alike. The host comes from the target authority or else from the Host header, is lower-cased without a trailing dot, has the explicit port or the default one of the scheme, and an invalid host is reported as empty; the headers the parser itself interprets are recognised whatever the case of their name.',
 ['inputs'],
 'every combination of a grammar-generated request line (methods x targets x protocols) and header set (spacing, repetition, order, case, colons in values, IPv6 and port forms), and every short host string over the host alphabet',
 'The tests check a handful of captured requests; combinations of target form, port, header case and repetition are never crossed.',
 [REQ, UTIL],
 [('parse_request_line', REQ), ('parse_request_headers', REQ), ('split_domain_port', REQ), ('_urlparse', UTIL)],
 ['HttpRequest.method/scheme/host/port/path/GET/META', 'parse_request_line()', 'parse_request_headers()', 'split_domain_port()'])

prop('C03', 'Malformed input terminates and fails only with a documented exception',
 'Parsing any byte sequence terminates after work bounded by the length of the input, and either succeeds or raises one of the documented exceptions of the parser (InvalidHttpRequest, NoHostFoundException, MultiPartParserError, SuspiciousOperation and its subclasses, or UnicodeError for a text body that is not valid in its charset). No input leads to an internal error such as TypeError, KeyError, LookupError, AttributeError or an endless loop.',
 ['inputs'],
 'every short token string over the syntax-relevant alphabet in each syntactic slot (request line, headers, Content-Type, part headers, part bodies, transfer encodings, charsets, entities, extended parameters), and every single-byte deletion, truncation, duplication and substitution of a corpus of valid requests',
 'The tests use a few hand-made bad requests; an endless loop or internal error needs a particular malformed byte at a particular place.',
 [REQ, MPP, ENC, TXT],
 [('parse_request_header', REQ), ('parse_boundary_stream', MPP), ('parse_header', MPP), ('is_text_encoding', ENC), ('unget history check', DS)],
 ['exception type raised by parse()', 'CPU time of parse()'])

prop('C04', 'A multipart body yields exactly the fields and files that were sent',
 'For every well-formed multipart/form-data body, POST holds exactly the fields and FILES exactly the files that were sent, under their names, in order, with content byte-for-byte (including CR, LF, NUL and near-boundary data), size, content type, extra parameters and transfer encoding. Parts without a name, header-like content, preamble and epilogue neither add nor remove nor change any entry.',
 ['inputs'],
 'every sequence of up to three parts drawn from a catalogue of part shapes crossed with every content string up to a length bound over {CR, LF, -, boundary bytes, NUL, data}, with part counts and sizes around the internal thresholds',
 'The tests upload a few fixed files; they never put partial boundaries, empty parts, repeated names or many small parts through the splitter.',
 [MPP, REQ, DS],
 [('BoundaryIter._find_boundary and rollback', MPP), ('parse_boundary_stream', MPP), ('MultiPartParser.parse', MPP)],
 ['HttpRequest.POST', 'HttpRequest.FILES'])

prop('C05', 'A truncated multipart body never passes for a complete one',
 'When a multipart body ends early at any byte, every file in FILES is one whose closing delimiter was received, with its exact full content; the file being received is not reported. The fields reported are those of the full body in order, where only the last one may hold a prefix of its value (and of the delimiter after it), and nothing is reported that the full body does not contain.',
 ['crash_points', 'inputs'],
 'every truncation point of every body in a corpus of multipart bodies (fields, files, base64, nested header-like data, several parts), with every delivery chunking of interest and each built-in upload handler',
 'No test cuts a body; the guarantee is about each of the cut positions.',
 [MPP, UH],
 [('file_complete is deferred to the next part', MPP), ('partial file closed at the end of the input', MPP)],
 ['HttpRequest.POST/FILES of the truncated request'])

prop('C06', 'base64 parts decode to the original bytes however they are wrapped',
 'A part with Content-Transfer-Encoding: base64 yields exactly the bytes that were encoded, for every length modulo 3, every placement of line breaks and whitespace, and every chunk size. Data that is not valid base64 raises MultiPartParserError for a file and is kept raw for a field; it never hangs and never yields bytes that were not encoded.',
 ['inputs', 'schedules'],
 'every content up to a length bound, every whitespace placement, every handler chunk_size and delivery chunking; every string up to a bound over {alphabet character, =, space, CR, LF, invalid character} as encoded data',
 'The tests have one base64 file in one chunk; quantum re-assembly only happens when a chunk ends inside a quantum.',
 [MPP], [('base64 branch of MultiPartParser.parse', MPP)],
 ['content of FILES entries', "POST[...]['data']", 'exception raised'])

prop('C07', 'Request size and field-count limits are enforced exactly',
 'A request is rejected with RequestDataTooBig exactly when its in-memory data (raw or urlencoded body, or the multipart fields with names and separators, never the content of files) exceeds DATA_UPLOAD_MAX_MEMORY_SIZE, and with TooManyFieldsSent exactly when it has more than DATA_UPLOAD_MAX_NUMBER_FIELDS fields; None removes a multipart limit. One byte or field less is accepted unchanged, whichever way the body is read.',
 ['inputs', 'configurations'],
 'every limit value around every total for every combination of up to a few fields, files and encodings, over raw, text, urlencoded and multipart bodies, with values crossing the internal read sizes',
 'The tests never set these limits; exactness is a statement about the two sides of each threshold.',
 [REQ, MPP, UTIL],
 [('_read_body', REQ), ('num_bytes_read / num_post_keys', MPP), ('limited_parse_qsl', UTIL)],
 ['exception raised by parse()/body()', 'POST'])

prop('C08', 'Uploads move from memory to disk at the limit without changing content',
 'With the default handler, files are held in memory while the total received does not exceed FILE_UPLOAD_MAX_MEMORY_SIZE and the file that crosses the limit, and those after it, are stored as temporary files in the configured upload directory, with name, type, size and content unaffected by where they are kept. The memory-only and disk-only handlers give the same names, metadata and contents, and closing the request removes every temporary file.',
 ['inputs', 'configurations', 'histories'],
 'every sequence of up to three file sizes around the limit, every limit, every chunk size and delivery chunking, for each built-in handler set',
 'The tests upload one file on each side of one limit; the switch in the middle of a chunk, or with earlier files already complete, is not reached.',
 [UH, UF, TMP, BASE],
 [('ConvenientFileUploadHandler.receive_data_chunk', UH), ('MemoryFileUploadHandler.handle_raw_input', UH), ('TemporaryUploadedFile', UF), ('HttpRequest.close', REQ)],
 ['type, name, size and content of FILES entries', 'files in the upload directory before and after close()'],
 [('cumulative received size', 'bytes received in all files of one upload', UH), ('memory or disk mode', 'which of the two handlers receives data', UH)])

prop('C09', 'Upload handlers are driven by the documented protocol',
 'For every list of handlers and every behaviour of each of them, the handlers are called in order: handle_raw_input once (the first result that is not None replaces parsing), then per file new_file until one stops the chain, receive_data_chunk with each handler getting what the one before returned until None, with the offset of that data in its own stream, file_complete until one returns a file object, and finally upload_complete. SkipFile drops only the current file and StopUpload ends the upload keeping what was complete; the handlers set on a request are the ones used.',
 ['histories', 'fault_sequences', 'inputs'],
 'every assignment of behaviours (return, transform, consume, skip, stop, stop with reset, stop-future-handlers) to every callback of up to three handlers, over bodies with up to three files and every chunk size',
 'The tests use the built-in handlers only; the chain semantics depend on the combination of what several handlers do at several callbacks.',
 [MPP, UH, REQ],
 [('handler loops of MultiPartParser.parse', MPP), ('handle_file_complete', MPP), ('upload_handlers property', REQ)],
 ['the sequence of handler calls and their arguments', 'POST/FILES', 'how much of the input was consumed'])

prop('C10', 'A failed or stopped upload leaves nothing behind',
 'Whenever parsing a multipart body fails or is stopped, at whatever point and for whatever reason (I/O error, malformed data, a limit, a handler raising), no temporary file of that upload remains on disk and no file object of it stays open, except that after SkipFile or StopUpload the files already complete stay usable until the request is closed. The original error is what the caller sees.',
 ['crash_points', 'fault_sequences'],
 'an error injected at every read of the input, every handler callback of every file, every limit and every malformed position, for bodies with up to three files in memory, on disk or switching between the two',
 'No test makes an upload fail half way, let alone at each of its steps.',
 [MPP, UH, UF],
 [('cleanup on error', MPP), ('_close_files', MPP), ('TemporaryUploadedFile.close', UF)],
 ['contents of the upload directory', 'closed state of file objects', 'the exception'])

prop('C11', 'The name of an uploaded file can never be a path',
 "For every file name a client sends (quoted, escaped, entity-encoded, RFC 2231 encoded, with / or \\\\ separators, in any charset), the name reported contains no '/', is never empty, '.' or '..', is at most 255 characters, and for an ordinary name is that name. A temporary file is always created directly inside the configured upload directory under a name that can be created, and a long name keeps its extension.",
 ['inputs'],
 'every file name up to a length bound over {/, \\\\, ., .., quote, entity, percent-escape, letter, NUL, non-ASCII, space} in plain, quoted and extended form, and every name length and extension length around 255',
 'The tests use ordinary names; traversal needs a particular composition of unescaping and splitting.',
 [MPP, UF, TXT],
 [('IE_sanitize', MPP), ('unescape_entities', TXT), ('UploadedFile.name', UF), ('suffix of the temporary file', UF)],
 ['UploadedFile.name', 'path of the temporary file', 'contents of the directories around the upload directory'])

prop('C12', 'An I/O error of the input is always reported, never swallowed',
 'If reading the input stream fails at any point of parsing or of reading the body, the caller gets an IOError (UnreadablePostError where the body is read through the request) and not a result built from the data received so far. A later attempt on a new stream is unaffected by the failure.',
 ['fault_sequences', 'crash_points'],
 'an IOError injected at every read of the input stream for every request of a corpus, every delivery chunking, every handler set and every reading API',
 'The tests never use a failing stream.',
 [REQ, MPP, DS],
 [('HttpRequest.read/readline', REQ), ('_read_body', REQ), ('LazyStream.next', DS), ('ChunkIter.next', DS)],
 ['exception raised', 'state of the request afterwards'])

prop('C13', 'The request life cycle is consistent under any order of operations',
 'For every sequence of parse_request_header, parse_request_body, parse, body, setting a new stream or body stream, and setting the encoding, the observable request is what the same bytes give in a fresh request parsed with those settings: repeating a call changes nothing, body() does not take the body away from parse_request_body(), a replaced stream leaves nothing of the previous request behind, and a failed parse is not taken for a successful one. Calls in a wrong order raise the documented exceptions (RequestHeaderParseException, RawPostDataException).',
 ['histories'],
 'every sequence of these operations up to a depth bound over a set of requests of each body kind, valid and invalid, explored breadth-first',
 'The tests call each operation once in the natural order.',
 [REQ],
 [('parsed flags', REQ), ('stream and body_stream setters', REQ), ('encoding setter', REQ), ('body()', REQ)],
 ['all public attributes of the request after each operation', 'exceptions'],
 [('header parsed', 'the header of the current stream was parsed', REQ), ('body parsed', 'the body of the current stream was parsed', REQ), ('body cache', 'bytes read by body()', REQ)])

prop('C14', 'Requests do not influence each other',
 'Any interleaving of operations on several request objects gives each of them the outcome it has alone, even when they share one Settings object, charset and handler configuration, and when one of them fails. Parsing does not change the Settings object it was given, nor the defaults that later requests see, and no container or metadata object is shared between requests.',
 ['schedules', 'histories'],
 'every interleaving of the operation sequences of two and three requests of different kinds and charsets over shared and default settings',
 'The tests parse one request at a time.',
 [REQ, CONF, MPP],
 [('settings copied per request', REQ), ('charset of the request', REQ), ('default arguments and class attributes', DS)],
 ['outcome of each request', 'attributes of the shared Settings'])

prop('C15', 'LazyStream is a faithful byte queue with push-back',
 'Under every sequence of read, next, iteration, unget, tell and close, a LazyStream returns exactly the bytes of its producer in order with pushed-back bytes first, read(n) returns n bytes unless the stream ends, tell() is the number of bytes consumed, and close() makes only the remaining buffered data available. Only ungetting the same amount over and over without progress is reported as SuspiciousMultipartForm.',
 ['histories', 'schedules'],
 'every operation sequence up to a depth bound with every small argument over every chunking of the producer',
 'The tests reach the class only through a few parses.',
 [DS], [('LazyStream', DS), ('ChunkIter', DS)],
 ['return values of read/next/tell', 'SuspiciousMultipartForm'],
 [('leftover', 'bytes pushed back', DS), ('position', 'what tell() reports', DS)])

prop('C16', 'MultiValueDict and QueryDict behave as a dictionary of lists',
 'Under every sequence of operations, a MultiValueDict (and a mutable QueryDict) agrees with a plain mapping from keys to lists: indexing and get give the last value (an empty list or the default for a key without values), getlist gives all in order as an independent list, setlist/appendlist/setdefault/setlistdefault/update/pop/popitem/clear/delete change exactly the key concerned, and a missing key raises MultiValueDictKeyError. items, values, lists, dict and length are always mutually consistent.',
 ['histories'],
 'every operation sequence up to a depth bound over two keys and a small value domain, explored breadth-first over reachable states, with every observer evaluated in every state',
 'The tests exercise the class incidentally.',
 [DS, REQ], [('MultiValueDict', DS), ('QueryDict', REQ)],
 ['all observers of the mapping'])

prop('C17', 'Immutable containers never change',
 'Every mutating operation on a parsed query string or form (immutable QueryDict), on the request headers (ImmutableMultiValueDict) or on an ImmutableList raises AttributeError and leaves the container exactly as it was. copy() of an immutable QueryDict is mutable and independent, and no list handed out by an observer gives access to the contents of the container.',
 ['histories'],
 'every mutator with every small argument, applied in every sequence up to a depth bound to every small container, including containers obtained from parsing, copying and unpickling',
 'The tests do not try to change parsed data.',
 [DS, REQ], [('_assert_mutable', REQ), ('ImmutableMultiValueDict', DS), ('ImmutableList', DS)],
 ['AttributeError', 'contents of the container'])

prop('C18', 'Urlencoded data round-trips through QueryDict',
 'QueryDict and urlencoded bodies parse every application/x-www-form-urlencoded string into the pairs it denotes, in order, with + and percent-escapes decoded in the charset, blank values kept and both & and ; separating, without failing on undecodable data. urlencode() of any QueryDict parses back to an equal one for every safe set that contains no delimiter, and copy, deepcopy and pickling give equal, independent objects of the same encoding.',
 ['inputs', 'histories'],
 'every query string up to a length bound over the syntactic alphabet, every short list of pairs over a value alphabet including delimiters, percent signs and non-ASCII text, each charset, each pickle protocol',
 'The tests check a few parsed strings and never the inverse direction.',
 [REQ, UTIL], [('QueryDict', REQ), ('limited_parse_qsl', UTIL), ('urlencode', UTIL)],
 ['QueryDict contents', 'urlencode() output', 'copies'])

prop('C19', 'Header parameters are parsed without loss or confusion',
 'For every header value with parameters (Content-Type, Content-Disposition and the like), the main value is lower-cased and every parameter is found under its lower-cased name with its value, where semicolons and equals signs inside quoted strings belong to the value, quoted pairs are unescaped, spaces around names and values are ignored and extended (name*=charset\'\'value) parameters are decoded. An undecodable extended parameter is left out and never changes the others.',
 ['inputs'],
 'every parameter list built from a grammar (up to three parameters x value forms x spacing) and every string up to a length bound over {;, =, quote, backslash, *, apostrophe, %, letter, space}',
 'The tests parse a few ordinary values.',
 [MPP], [('parse_header', MPP), ('_parse_header_params', MPP)],
 ['parse_header()', 'content_type / content-type-extra of parsed parts'])

prop('C20', 'URI functions keep the meaning of a URI and always give ASCII',
 'iri_to_uri and the path and URI accessors of a request give ASCII-only text for every input, leave an already encoded URI unchanged (idempotence), escape exactly the characters that may not appear, and uri_to_iri undoes the percent-encoding of text. get_uri() of a parsed absolute-form request gives back its scheme, host, explicit port, path and query, and set_path followed by get_path and get_full_path keeps the path.',
 ['inputs'],
 'every string up to a length bound over {reserved, unreserved, %, hex digit, space, quote, non-ASCII, astral} for each function, and every combination of target parts for the accessors',
 'The tests check two paths.',
 [ENC, REQ], [('iri_to_uri', ENC), ('uri_to_iri', ENC), ('escape_uri_path', ENC), ('get_full_path/get_uri/set_path', REQ)],
 ['return values'])

prop('C21', 'is_safe_url never accepts a URL that leaves the allowed hosts',
 'is_safe_url accepts a URL only if a browser (treating a backslash as a slash, extra slashes as an authority and ignoring surrounding whitespace and tabs or line breaks inside) would stay on the current host or go to an allowed host with an allowed scheme, and it accepts every plain relative path and every well-formed http(s) URL of an allowed host. is_same_domain accepts exactly the host itself or, for a pattern with a leading dot, the domain and its subdomains, and escape_leading_slashes never gives a URL that starts with two slashes.',
 ['inputs'],
 'every string up to a length bound over {/, \\\\, :, ?, #, @, ., control character, space, scheme and host tokens} with every allowed-host set and require_https',
 'There are no tests of these functions.',
 [UTIL], [('is_safe_url', UTIL), ('is_same_domain', UTIL), ('escape_leading_slashes', UTIL)],
 ['return values'])

prop('C22', 'Date, ETag, base36 and URL-safe base64 helpers are exact inverses',
 'Every second of the supported range formatted by http_date is parsed back to the same number by parse_http_date, in all three HTTP formats, and an impossible or malformed date raises ValueError (None from the safe variant); int_to_base36/base36_to_int and urlsafe_base64_encode/decode are inverses and reject what they cannot represent with ValueError. parse_etags returns exactly the valid entity tags of a list in order, and quote_etag always gives a valid one and leaves a valid one alone.',
 ['inputs'],
 'every day of the range with boundary seconds, every field value in and just out of range, every integer around each digit boundary, every byte string up to a length bound, every ETag list up to a length bound over the token alphabet',
 'There are no tests of these functions.',
 [UTIL], [('http_date/parse_http_date', UTIL), ('int_to_base36/base36_to_int', UTIL), ('urlsafe_base64_encode/decode', UTIL), ('parse_etags/quote_etag', UTIL)],
 ['return values', 'exceptions'])

prop('C23', 'An uploaded file can be read in any way and always gives its content',
 'For every uploaded file, in memory or on disk, and every sequence of read, seek, chunks, line iteration and open, the data obtained is that of the content: chunks(n) from any position gives the whole content in pieces of n bytes for any n, iterating gives exactly the lines for CR, LF and CRLF endings whatever the chunk edges, and size and length agree with the content. multiple_chunks tells whether chunks gives more than one piece for a file on disk and is false for one in memory. A closed file never gives data of another file.',
 ['inputs', 'histories'],
 'every content up to a length bound over {CR, LF, data}, every chunk size, every operation sequence up to a depth bound, for each uploaded-file class and those produced by parsing',
 'The tests read each file once from the start.',
 [BASE, UF], [('File.chunks', BASE), ('File.__iter__', BASE), ('InMemoryUploadedFile', UF), ('SimpleUploadedFile', UF)],
 ['data returned by the file interface'])

prop('C24', 'Settings override exactly what they name',
 'A Settings object built from any dictionary has the given value for every key in it and the default for every other, whatever the combination and order of earlier Settings objects; building or changing one never changes another or the defaults, also when several are built at the same time. An upload directory that cannot be used is reported as InvalidDirectory, a missing one is created, and the check leaves no file in it and removes none.',
 ['configurations', 'histories', 'schedules'],
 'every subset of the keys with every value of a small domain (including falsy values), every sequence of constructions up to a depth bound, and every kind of directory (missing, file, relative, nested missing, unusable)',
 'The tests build three Settings objects.',
 [CONF], [('Settings.__init__', CONF), ('Settings.default', CONF), ('_check_upload_dir', CONF)],
 ['attributes of Settings', 'InvalidDirectory', 'directory contents', 'effect on parsing'])

prop('C25', 'Exactly the upload handlers in force serve an upload, each only one',
 'An upload is served by the handlers assigned to the request or put into its list, in their order, and otherwise by new objects of the classes that its settings name at that time, made for that request. Assigned handlers stay in force over requests without an upload; once they served an upload a new stream or body gets new ones, whatever order the operations came in. Handlers can be exchanged until a body was parsed, not after (AttributeError), and again for a new stream or body. A name that does not lead to a class is an ImportError, and no handler is called then.',
 ['histories', 'configurations'],
 'every sequence of assignments, changes of the list, changes of the names in the settings, parsing operations and new streams or bodies up to a depth bound, for requests with and without uploads',
 'The tests set handlers once, before the only upload of a request.',
 [REQ, UH, R+'utils/module_loading.py'], [('upload_handlers', REQ), ('_reset_body_data', REQ), ('load_handler', UH), ('import_string', R+'utils/module_loading.py')],
 ['calls of the handlers', 'upload_handlers', 'exceptions', 'FILES'])

prop('C26', 'File and ContentFile behave as the file they wrap',
 'A File gives what the object it wraps gives: for every sequence of reading, seeking, writing, pieces, lines, closing and opening again, the data, the position and the state of being closed are those of the wrapped object. size and len() tell its size wherever the position is and do not move it, chunks(n) and lines give the whole content whatever the position and the piece size, and readable, writable and seekable tell what can be done in its mode. A File has the name it was given, otherwise that of what it wraps, and is true exactly when it has one (a ContentFile always). open() of a closed file opens it by its name in its mode or the given one and is a ValueError when it is not there; leaving a with block closes the file (a ContentFile stays open) and lets exceptions through.',
 ['inputs', 'histories'],
 'every operation sequence up to a depth bound for every kind of wrapped object (memory, text, disk, temporary, nested, with and without name, size, mode), every size and position up to a bound, every mode and name of a small domain',
 'There are no tests of these classes.',
 [BASE, R+'files/utils.py'], [('File', BASE), ('ContentFile', BASE), ('FileProxyMixin', R+'files/utils.py')],
 ['data, positions, size, names and flags of the file interface', 'the wrapped object', 'exceptions'])

prop('C27', 'A request is a file of its body',
 'Once its header is parsed, a request is a file that stands at the first byte of its body: read, readline, iteration, readlines and xreadlines, in any order and number, give exactly the bytes after the header, in their order, nothing lost, repeated or altered, however the bytes are delivered and whatever MAX_HEADER_SIZE. body() gives what is left and leaves it there; parse_request_body() parses precisely what was not read, and then nothing is left: of a form or multipart body body() is a RawPostDataException from then on, of any other it is the text in its charset. Before the header is parsed the same operations give the request from its first byte, and what was read is no part of the request that is parsed then.',
 ['inputs', 'histories', 'schedules'],
 'every sequence of reading, body() and parsing operations up to a depth bound on bodies of every kind (empty, text, raw, form, multipart; around 64 KB and 128 KB) for every delivery of a set and every cutting of short bodies',
 'The tests never read a body themselves; a byte lost or repeated needs a particular order of operations and a particular delivery.',
 [REQ, DS], [('read/readline/__iter__/xreadlines/readlines', REQ), ('body/_read_body', REQ), ('parse_request_body', REQ), ('read/readline/unget', DS)],
 ['what the reading operations return', 'body()', 'POST and FILES', 'exceptions'])

prop('C28', 'The charset a request declares, and no other, decodes its text',
 'A charset parameter of the Content-Type that names a character set of text, in whatever spelling, case, quoting or position and also in extended form, is the charset of that request whatever was set before: encoding reports it, and it decodes the names and values of the query string and of a form, the names of multipart fields and a body of any other type. A name that is unknown or is no character set of text, or no name, leaves the charset set on the request in force, otherwise that of the settings. Undecodable bytes in a query string, form or name become U+FFFD, and those of a body are a UnicodeError. A declared charset ends with its request, one that was set stays for the following ones.',
 ['inputs', 'configurations', 'histories'],
 'every name and alias of a codec of the platform in several spellings, every way of declaring x charset x default x kind of request, every byte and pairs of bytes in each charset, every sequence of requests, settings and parsing steps up to a depth bound on one object',
 'The tests use a few charsets, one per request, and never one that is unknown or no charset.',
 [REQ, ENC, UTIL], [('_set_charset and the charset in parse_request_header', REQ), ('is_text_encoding', ENC), ('limited_parse_qsl', UTIL), ('QueryDict decoding', REQ)],
 ['encoding', 'GET and POST', 'body()', 'exceptions'])

prop('C29', 'The multipart parser by itself finds in any stream what was sent',
 'MultiPartParser, given headers (any mapping of theirs), a stream that has read, upload handlers and settings, returns the fields as a POST dictionary that is immutable and the files as FILES, as they were sent, whatever the stream, the mapping and the handlers. Names are decoded in the encoding it is given, otherwise in that of the settings. Its constructor refuses with MultiPartParserError exactly what has no multipart Content-Type, no valid boundary (1 to 201 printable characters of which the last is no blank) or a negative length, and touches neither the stream nor the handlers; a length that is missing, zero or no number is a body of no length. The headers and the settings stay as they were, and parsers that work at the same time do not disturb one another.',
 ['inputs', 'configurations', 'schedules'],
 'every body of up to three parts of a set x kinds of streams, mappings, encodings and handlers; content types x lengths; every boundary of up to two ASCII characters and every length up to 210; two parsers interleaved at every read',
 'One test uses the parser directly, with one body.',
 [MPP, DS], [('MultiPartParser.__init__', MPP), ('MultiPartParser.parse/_parse', MPP), ('ChunkIter', DS)],
 ['what parse() returns', 'exceptions of the constructor', 'reads of the stream and calls of the handlers'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
