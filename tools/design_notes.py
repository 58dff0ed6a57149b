WHY = {
 'C01': 'The interesting executions need a chunk edge inside a delimiter, a header block, an escape or a quantum. The first 1024 bytes of a part always arrive as one chunk, so the check pads part headers to move the edges into the content.',
 'C03': 'Termination is decided by CPU time per unit, which is generous by two orders of magnitude; work bounded by the length of the input is additionally observed as the number of chunks asked for.',
 'C05': 'The crash point is the byte after which the sender is gone. A body cut inside its last delimiter line may be reported or rejected.',
 'C09': 'The protocol automaton (class Model) is the model in the sense of the task; every call the code makes is a transition that the automaton must allow, and all scripts of the handlers are its nondeterminism.',
 'C14': 'Besides all interleavings of operations, one request is run to its end at every chunk, every handler call and at the first and last execution of every line (every execution for selected pairs) of the code that handles another one.',
 'C25': 'The handlers are instrumented subclasses; identity, not equality, decides which object was called.',
 'C29': 'The oracle is the list of parts a body is made of; a recording stream shows that the constructor reads nothing.',
 'C28': 'Which names are character sets is a table of those that are not, and the codec registry for the rest; in histories the model is the pair of what was set and what is declared.',
 'C27': 'The model is the string of what is left, independent of the stream classes; only what is left of a multipart body that was read into is parsed by a new request instead.',
 'C26': 'The model is a content, a position and a flag; the wrapped object is looked at behind the back of the File at the end of every history.',
 'C24': 'Two constructions of Settings for the same directory are interleaved at every line of the first, and three at every pair of lines.',
}
FALSE_ALARMS = [
 'C29 expected a boundary that ends with a line feed to be refused (cgi.valid_boundary of the standard library lets it through, and it works); left open.',
 'C28 expected a quoted pair of an ordinary character to be unescaped, and an extended parameter without quotes to be no parameter (C19 leaves both as they are).',
 'C08 expected non-ASCII file names as text; they are reported as bytes.',
 'C09 took an empty list of upload handlers for "no handlers"; it stands for the default ones.',
 'C09/C10 counted the call of file_complete that ConvenientFileUploadHandler makes of itself.',
 'C11 declared names as utf-16 with a truncated surrogate: the decoder of Jython itself fails.',
 'C12 demanded UnreadablePostError while the header is still being read (the error of the stream itself is right there), and compared where a later parse stores its files.',
 'C14 took files other programs left in the temporary directory for leaked ones.',
 'C15 demanded that a loop of unget and read is detected; only ungetting "over and over" without progress is.',
 'C17 took an assignment of an equal value for a change.',
 'C19 expected the blanks around field names; they are stripped. An extended value without any escape is a plain value.',
 'C20 expected a trailing ";" with nothing after it.',
 'C21 took white space inside a host for part of the host; a browser does not open such a URL.',
 'C24 gave a charset that does not exist and expected it to be usable.',
 'C04 used duplicate Content-Disposition headers in one part, about which nothing is promised.',
]
