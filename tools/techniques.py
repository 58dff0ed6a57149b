WHAT = {
 'C01': ('all deliveries (every composition of small requests, every 1- and 2-cut of larger ones, every chunk and header size) of a family of requests',
         'Every delivery within the bounds is executed; the reference is the outcome of the unsplit delivery, which is itself checked against the layout of the request in C02, C04 and C18. Trusts the scripted input stream.'),
 'C02': ('request lines and header blocks generated from a grammar', 'All sentences of the grammar within the bounds; expected values are computed by the generator, not by the code.'),
 'C03': ('byte strings over token alphabets in every region of a request', 'All token strings up to the bound in 20 slots; termination is a CPU-time bound per request plus a bound on delivered chunks read.'),
 'C04': ('well-formed multipart bodies over alphabets of parts, contents and deliveries', 'All bodies within the bounds; expected fields and files are computed by the generator.'),
 'C05': ('truncation points (crash points of the sender) of multipart bodies, times handlers, times deliveries', 'Every truncation point of every body in the family.'),
 'C06': ('base64 data, layouts (line breaks, whitespace), invalid data and chunk sizes', 'All layouts within the bounds against an independent decoder.'),
 'C07': ('limit values around every computed size, times bodies, times ways of reading', 'Every limit from 0 to beyond the size of each body; expected verdict computed from the documented measure.'),
 'C08': ('sequences of file sizes, limits, handlers and chunk sizes', 'All sequences within the bounds; the file system effects are observed in a scratch directory.'),
 'C09': ('handler lists and behaviour scripts, as an explicit-state protocol model replayed on the code', 'Every script within the bounds; the call history is compared with the protocol model call by call.'),
 'C10': ('failure points (I/O error, malformed data, limits, handler exceptions) of uploads', 'Every failure point within the bounds; open files and directory contents are observed afterwards.'),
 'C11': ('file names over hostile alphabets, times encodings of the header parameter', 'All names within the bounds.'),
 'C12': ('I/O fault points of parsing and reading', 'Every chunk of every delivery is a fault point for every kind of access.'),
 'C13': ('histories of operations on one request up to a depth', 'Breadth-first over all operation sequences to the depth; the reference is a small state machine over fresh parses.'),
 'C14': ('interleavings of several requests, at operations, input chunks, handler calls and lines of code', 'All interleavings of the operation lists of two and three requests within the bounds, and one preemption at every line of the code under test.'),
 'C15': ('operation sequences on LazyStream over all producers of small size', 'All sequences to the depth against a byte-queue model.'),
 'C16': ('operation sequences on MultiValueDict and QueryDict up to a depth', 'All sequences to the depth against a plain dictionary of lists.'),
 'C17': ('mutators and observers on immutable containers', 'Every mutator with every argument of the alphabet on every container, including those of parsed requests.'),
 'C18': ('urlencoded strings and dictionaries over alphabets', 'All strings within the bounds against an independent decoder.'),
 'C19': ('header values generated from a grammar', 'All sentences within the bounds, and all token strings for the robustness part.'),
 'C20': ('URI strings over an alphabet of all character classes', 'All strings within the bounds.'),
 'C21': ('URLs over a hostile alphabet against a model of a browser', 'All strings within the bounds.'),
 'C22': ('dates, integers, byte strings and entity tags', 'Complete ranges where finite, all strings within the bounds elsewhere.'),
 'C23': ('operation sequences on uploaded files', 'All sequences to the depth against a string with a position.'),
 'C24': ('dictionaries of settings, sequences of constructions and their interleavings at lines of code', 'All subsets of keys and sequences within the bounds; two constructions interleaved at every line, three at every pair of lines.'),
 'C25': ('histories of assignments, settings and uploads on one request, as an explicit-state model replayed on the code', 'All histories within the bounds; the objects called in an upload are compared with those of the model.'),
 'C26': ('operation sequences on files of every kind, as a model (content, position, closed) replayed on the code', 'All sequences to the depth; what is wrapped is read at the end and compared with the model.'),
 'C27': ('operation sequences on requests as files of their bodies, against a string', 'All sequences to the depth for every body and delivery of the set.'),
 'C28': ('charset names, ways of declaring them, bytes and histories of one request object', 'All names the platform knows and all combinations within the bounds, against what the codec itself makes of the bytes.'),
 'C29': ('multipart bodies, streams, headers and boundaries given to the parser itself, and interleavings of two parsers', 'All combinations within the bounds (the product of all of them in the thorough tier); two parsers are interleaved at every read of the first.'),
}
