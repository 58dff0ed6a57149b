"""The repairs made in /repo: (subject of the commit after 'fix: ', properties)."""
FIXES = [
 ('keep uploaded files that are empty', 'C04 C08', 'an uploaded file of 0 bytes was missing from FILES'),
 ('do not loop forever on a base64 file part of truncated length', 'C03 C06', 'a base64 file part whose length is no multiple of 4 looped forever'),
 ('raise the intended exception instead of a TypeError', 'C06 C12 C22', 'six.raise_from was called with a message, which raised TypeError'),
 ('fall back to the raw data of a base64 field that does not decode', 'C06', 'a base64 field that does not decode raised TypeError'),
 ('report a missing multipart boundary as MultiPartParserError', 'C03', 'a multipart Content-Type without boundary raised AttributeError/TypeError'),
 ('make QueryDict copies and fromkeys() work', 'C18', 'QueryDict.copy(), __deepcopy__ and fromkeys() raised'),
 ('make MultiValueDict and its subclasses picklable', 'C18', 'pickling a QueryDict raised'),
 ('accept extended (RFC 2231) parameters that are not ASCII', 'C03 C19', "filename*=UTF-8''%C3%A9 raised UnicodeError"),
 ('unescape any numeric entity in a file name without an error', 'C03 C11', 'a file name with &#1114112; or the like raised ValueError'),
 ('store an upload in a temporary file whatever its extension', 'C11 C08', 'an extension with NUL or of more than the permitted length made the creation of the temporary file fail'),
 ('use up the content of a multipart part that is ignored', 'C01 C04', 'content of an ignored part was scanned as a part of its own, depending on the chunks'),
 ("do not accept '.' and '..' as the name of an uploaded file", 'C11', "the names '.' and '..' were reported"),
 ('reject a request target or header that is not ASCII with InvalidHttpRequest', 'C03', 'UnicodeDecodeError'),
 ('ignore an unknown charset in the Content-Type of a request', 'C03', 'LookupError'),
 ('accept a urlencoded body that is not valid in the charset, as QueryDict does', 'C18 C03', 'UnicodeDecodeError from parse()'),
 ('make ImmutableMultiValueDict refuse pop(), popitem() and clear()', 'C17', 'these changed request headers'),
 ('make a closed LazyStream readable', 'C15', 'read() after close() raised AttributeError'),
 ('make is_safe_url() work with native strings, and with one unicode host', 'C21', 'a unicode host was taken for a set of characters'),
 ('report invalid padding in urlsafe_base64_decode() as ValueError', 'C22', 'TypeError'),
 ('make iri_to_uri() work with unicode', 'C20', 'KeyError for text that is not ASCII'),
 ('make QueryDict.urlencode() work with text that is not ASCII', 'C18', 'KeyError'),
 ('make urlencode() treat unicode values as strings', 'C18 C22', 'a unicode value was taken for a sequence of characters'),
 ("do not take Python's own encodings for a charset of a request", 'C03', 'charset=idna, string-escape, zip ... raised internal errors'),
 ('do not accept a newline at the end of a host', 'C02', "'h\\n' was accepted as a host"),
 ('use the upload handlers that were set on the request', 'C09', 'the handlers set on the request were ignored'),
 ('do not take over the body of the previous request when a new stream is set', 'C13', 'body() of the second request gave the body of the first'),
 ('keep the charset of one request out of others', 'C14', 'the charset of one request was written into the shared Settings'),
 ('keep GET and the body available when the encoding of a request is set', 'C13', 'GET raised AttributeError after setting encoding'),
 ('leave the body available to parse_request_body() after body()', 'C13', 'POST was empty after body()'),
 ('make is_ajax() look at the X-Requested-With header', 'C02', 'is_ajax() raised'),
 ('return the stream from the stream and body_stream properties', 'C13', 'the getters returned None'),
 ('do not take a request header that failed to parse for a parsed one', 'C13', 'after a failed parse the request claimed to be parsed'),
 ('recognize headers whatever the case of their name', 'C02', "'content-type: ...' was ignored"),
 ('keep the port in get_uri()', 'C20', 'the port was lost'),
 ('keep the path parameters in the path of a request', 'C02', "';p=1' was lost from the path"),
 ('close the partial files of a failed upload, and only those of a skipped one', 'C10 C05', 'temporary files were left behind'),
 ('create the upload directory when a file is stored in it', 'C08', 'IOError when the directory did not exist'),
 ('report a directory that cannot be created as InvalidDirectory', 'C24', 'OSError'),
 ('do not read the body that is left after an upload was stopped', 'C09', 'StopUpload(connection_reset=True) did not stop reading'),
 ('do not limit the size of a body when DATA_UPLOAD_MAX_MEMORY_SIZE is None', 'C07', 'every body was rejected'),
 ('make the readline() interface of a request work', 'C12 C15', 'readline(), readlines() and iteration raised'),
 ('decode the names of multipart fields in the charset of the request', 'C04', 'names were decoded differently from values'),
 ('take the media type of a multipart body whatever its case', 'C04', "'Multipart/Form-Data' was not parsed"),
 ('do not take an escaped quote for the end of a header parameter', 'C19', 'a parameter after an escaped quotation mark was lost'),
 ('base64 data that is not valid is rejected wherever it is cut into chunks', 'C06 C01', 'acceptance depended on chunk edges'),
 ('close the temporary file when moving an upload to disk fails', 'C10', 'the temporary file was left behind'),
 ('QueryDict.update() and setlistdefault() keep the values of keys given as bytes', 'C16 C18', 'values already there were lost'),
 ('Settings of an empty or derived dictionary are complete', 'C24', 'Settings({}) lacked attributes'),
 ('lists() does not give access to the lists of an immutable container', 'C17', 'GET could be changed through lists()'),
 ('do not take apostrophes in the name of a header parameter for an extended value', 'C19 C03', 'the value was cut, or an internal error'),
 ('uri_to_iri() of text with characters beyond the basic plane', 'C20', 'UnicodeError'),
 ('do not accept unsafe URLs with tabs or line breaks inside in is_safe_url()', 'C21', "'/\\t/evil' was taken for safe"),
 ('parse_http_date() does not accept a line break after the date', 'C22', 'a date with a line feed at the end was accepted'),
 ('parse_etags() keeps ETags that contain a comma', 'C22', 'an ETag with a comma was lost'),
 ('do not open another file when a closed uploaded file is opened again', 'C23', 'open() of a closed upload opened the file of that name in the working directory'),
 ('check the upload directory with a file of its own', 'C24', 'constructing Settings overwrote and removed a user file of that name'),
 ('keep an uploaded file whose field has an empty name', 'C04 C08', 'the file was lost and its temporary file left behind'),
 ('give every Settings object its own list of upload handlers', 'C24', 'adding a handler to one Settings object added it to all'),
 ("changing a request's list of handlers does not change the Settings it was given", 'C14', 'adding a handler to the settings of one request added it to all that share the Settings'),
 ('what precedes the first boundary or follows the final one is not a part', 'C04', 'a preamble or epilogue that looks like a part gave entries'),
 ('a boundary starts a line; elsewhere it is data', 'C04', 'content with the delimiter inside a line was cut there'),
 ('File.size is the size of the file, not a method', 'C26', 'len(), multiple_chunks() and size of a File failed or compared a method with a number'),
 ('make ContentFile work', 'C26', 'no ContentFile could be made (super() without arguments)'),
 ('a File is true when it has a name, also when it is empty', 'C26', 'the truth of a File was that of its length'),
 ('a File is closed when its file is, whatever the truth of its file', 'C26', 'a File of a File without a name said that it is closed'),
 ('a File says whether its file can be read and written in its mode', 'C26', 'a file opened for appending or for reading and writing was not writable, one opened for writing readable'),
]
