"""The properties (source of properties.jsonl).  Q(id, title, statement, over, quantifier text, why tests can't, files, mechanisms)"""
PROPERTIES = []
def Q(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title)); assert id not in [p["id"] for p in PROPERTIES]
    PROPERTIES.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over.split(), "text": " ".join(qtext.split())},
                       "why_tests_cant": " ".join(why.split()), "anchors": {"files": files.split(), "mechanism": [{"name": a, "where": b} for a, b in mech]}})

Q("C01", "Binary AnyValue encoding round-trips every value",
  """Encoding any value tree (null, boolean, integers of every size and sign, double, string of arbitrary bytes, arrays, objects with keys of up to 255 bytes, arbitrarily
  nested) and decoding the bytes gives back a tree of the same shape with the same content: equal numbers, equal bytes, same array order and same object keys.
  Decoding replaces whatever the receiving value held before; encoding appends to the given buffer and does not change the value.""",
  "inputs", "every value of every scalar type, every string content, every nesting of containers", 
  "The smoke programs encode a couple of hand-written messages; the integer-width boundaries, signs, empty containers and embedded NULs are a product no test list covers.",
  "include/CAnyValue.h", [("variable-length tag+integer encoding", "include/CAnyValue.h: encode_* / decode_*")])
Q("C02", "Binary AnyValue decoding of hostile bytes is contained",
  """Decoding arbitrary bytes as a binary value either yields exactly the value the bytes describe or is rejected with an exception; it never reads outside the given bytes, and it
  never accepts an encoding whose declared content is cut short or whose type is unknown.  A few hostile bytes must not make the decoder crash, exhaust the stack or reserve memory out of proportion to the input.""",
  "inputs", "every byte string offered as a message, including every truncation of a valid one",
  "Tests only decode what the encoder just produced.", "include/CAnyValue.h include/CAnyPackage.h",
  [("bounds tests of decode_head/decode_string/decode_vector/decode_map", "include/CAnyValue.h"), ("package header check", "include/CAnyValue.h: CAnyValuePackage::decode")])
Q("C03", "JSON output of a value reads back as the same value",
  """Rendering any value tree as JSON and parsing that text gives back an equivalent tree: the same object keys and array elements in order, the same string
  content including quotes, backslashes and control characters, the same integers over the full signed and unsigned 64-bit ranges, fractions of up to 16 digits, booleans and null.""",
  "inputs", "every value tree, every string content, every integer", "One sample document is converted by the tests.",
  "include/CAnyValue.h", [("JSON writer and escaping", "include/CAnyValue.h: encode_json*"), ("JSON reader", "include/CAnyValue.h: decode_json*")])
Q("C04", "JSON parsing of arbitrary text is safe and rejects malformed documents",
  """Parsing arbitrary bytes as JSON always terminates, never touches memory outside the given bytes (which need not be NUL-terminated), and either produces a value or is rejected with an
  exception, however deeply the text nests.  A document whose outermost array, object or string is never closed is rejected.  Valid documents are accepted with whatever whitespace; all string escapes,
  including \\u escapes and surrogate pairs, stand for their characters in UTF-8, and numbers with a fraction or an exponent are read as that number.""",
  "inputs", "every byte string offered as JSON", "Tests parse three well-formed files.", "include/CAnyValue.h",
  [("JSON reader", "include/CAnyValue.h: decode_json*, CAnyValue::decodeJSON")])
Q("C05", "AnyValue copies are deep and assignment is complete",
  """After copying or assigning a value, both sides hold the same content and are independent: changing or destroying one never changes the other.
  Assigning replaces the previous content whatever the two types were, including assigning a value to itself, one of its own children, or null, and no memory
  is lost or freed twice.""",
  "histories inputs", "every pair of value types and every sequence of construct / copy / assign / modify / destroy steps", "The tests build a value once and never mutate a copy.",
  "include/CAnyValue.h", [("type-tagged storage and assign()", "include/CAnyValue.h: CAnyValue::assign, copy constructor, destructor")])
Q("C06", "AnyValue accessors return exactly what was stored",
  """Reading a stored number through an accessor whose type can represent it returns that number exactly, and reading a string, element or member returns what was stored there; array
  push/pop (pop of an empty array does nothing) and object insert/erase keep every other element, a member is found, read and erased under the name, of whatever length, it was stored under, and keys() lists exactly the members.  Reading through an accessor of the wrong type or a
  missing key gives zero, empty text or a null value; an index outside the array, an index into something that is not an array, or a member written into something that is not an object, is refused with an exception.""",
  "inputs histories", "every stored value, accessor, key and index", "Tests read back a few small constants.", "include/CAnyValue.h",
  [("asInt/asUInt64/... accessors", "include/CAnyValue.h"), ("container operators", "include/CAnyValue.h: operator[], push, pop, erase")])
Q("C07", "Binary frame extraction loses, splits or merges no message",
  """For the length-prefixed framings, a stream of messages cut into arbitrary pieces is recovered as exactly the original payloads in order: an incomplete frame waits
  for more, a complete frame yields its exact payload and length, and a frame with wrong marks or an impossible length is rejected.
  No byte outside the received data is ever examined.  The raw framing passes every non-empty chunk through unchanged.""",
  "inputs", "every received byte string, every split of a valid stream, every declared length", "The echo tests send one whole frame at a time.",
  "include/CH2T3PackageFilter.h include/CH2ShortT3PackageFilter.h include/CRawPackageFilter.h", [("isWholePkg length/mark tests", "include/CH2T3PackageFilter.h, include/CH2ShortT3PackageFilter.h")])
Q("C08", "HTTP message framing is correct for every split of the stream",
  """A stream of HTTP requests (header block, blank line, body of the declared Content-Length) is divided into exactly the original messages wherever the chunks are cut,
  and an incomplete message always waits for more.  No byte outside the received data is examined, and an invalid or negative declared length never yields a message boundary
  that is non-positive or beyond the data received.""",
  "inputs", "every received byte string and every split of a valid stream", "The tests send complete requests over loopback.", "include/CHttpPackageFilter.h",
  [("header end and Content-Length search", "include/CHttpPackageFilter.h: isWholePkg")])
Q("C09", "Socket buffer is a lossless byte FIFO",
  """A socket buffer returns exactly the bytes added to it, in order, across any interleaving of adding data, growing in place, consuming part of it, and resetting;
  the amount reported as pending is always what was added minus what was consumed.  No operation writes or reads outside the buffer's storage.""",
  "histories inputs", "every sequence of append / direct-fill / consume / reset operations, every size", "Exercised only indirectly with one small message.", "include/CSocketBuf.h",
  [("begin/end offsets and growth", "include/CSocketBuf.h: addData, resize, addBeginPos")])
Q("C10", "Typed package fields read back exactly and in order",
  """Any sequence of fields written to a package (integers of every width, length-prefixed and terminated strings, raw bytes) is read back in order with identical values, also
  after the bytes are transferred to another package.  Reading beyond the end of the package, or a string whose declared length exceeds what is there, is refused
  without touching memory outside it.""",
  "inputs histories", "every field sequence, value, string content and length, every truncation", "No test uses the package classes directly with varied content.",
  "include/CPackage.h", [("read/write cursor and length checks", "include/CPackage.h")])
Q("C11", "Application packages carry header and body through the wire unchanged",
  """A package built with any header values (command, uid, sequence, client address, result and so on) and body decodes, in the receiver, to the same header values and body.
  A header field reads back whatever was set, over its full range; bytes shorter than a header, or whose body is malformed, are rejected without reading outside them.""",
  "inputs", "every header field value, every body, every truncation", "The worker-pool tests use one fixed message.", "include/CAnyPackage.h include/CAnyValue.h",
  [("header byte-order conversion", "include/CAnyPackage.h: AnyHeader get*/set*"), ("head + body decode", "include/CAnyPackage.h, include/CAnyValue.h: CAnyValuePackage")])
Q("C12", "Byte ring buffer queue is FIFO with exact contents at every wrap",
  """The ring-buffer message queue returns every message it accepted exactly once, in order, with identical bytes and length, at every position of wrap-around.
  A message that does not fit is refused without disturbing what is queued; the reported element count matches, and no access leaves the caller's region.""",
  "histories inputs", "every sequence of push / pop with every message size and every buffer size", "One fixed fill/drain sequence is run.", "include/CBufferQueue.h",
  [("begin/end indices with reserved gap", "include/CBufferQueue.h: push, pop")])
Q("C13", "Fixed-capacity circular queue is FIFO at every wrap",
  """The circular queue returns pushed elements in order, exactly once, up to its stated capacity; pushing into a full queue and popping or peeking an empty one are refused and
  change nothing; the reported size, empty and full states always match the contents.""",
  "histories", "every sequence of push / pop / front / clear for every capacity", "One fixed sequence is run.", "include/CCircleQueue.h", [("begin/end indices", "include/CCircleQueue.h")])
Q("C14", "Blocking queue hands each element to one consumer, in order, without hanging",
  """Under any interleaving of producers and consumers every element put into the blocking queue is taken exactly once and each producer's elements come out in the order put in;
  the capacity is never exceeded.  A blocked push proceeds once room is made and a blocked pop once an element arrives; a timed pop on an empty queue gives up at its deadline.""",
  "schedules histories", "every interleaving of concurrent pushes, pops, clears", "A test run samples one schedule.", "include/CBlockQueue.h include/CLock.h",
  [("mutex + two condition variables", "include/CBlockQueue.h: push, pop")])
Q("C15", "LRU cache returns the latest value and evicts only least-recently-used entries",
  """A cache lookup returns the value most recently stored under that key, or a miss after erase, clear or expiry; it never returns another key's value.
  Exceeding the capacity evicts entries in least-recently-used order and never the entry just stored; the number of entries stays within the configured maximum.""",
  "histories inputs", "every sequence of set / get / erase / clear over any keys, any capacity, any clock", "One fixed sequence of inserts is run.", "include/CLruCache.h",
  [("hash map plus intrusive list", "include/CLruCache.h")])
Q("C16", "Bitmap cells of every width are independent and within bounds",
  """Setting an element of a bitmap of any supported cell width makes a read of that element return the value set and leaves every other element unchanged, for every index and every
  value that fits the width.  Indexes beyond the declared range are refused, and no access leaves the allocated segment, also when one object is set up again on another
  segment or in another size, after a failed setup, or on a segment whose creator died before setting it up.""",
  "inputs histories", "every index, value and cell width, every map size", "The test sets a handful of one-bit positions.", "include/CBitMap.h include/CShm.h",
  [("per-width shift and mask", "include/CBitMap.h: CBitmap<N>::set/get")])
Q("C17", "Shared-memory array stores elements independently",
  """Each element written to the shared-memory array reads back as written and leaves the others unchanged, through every attachment.
  Attaching again to the same segment shows the same contents, and creation fails cleanly when the segment cannot be obtained; setting one object up again moves it to the
  new segment, and a segment whose creator failed or died halfway is set up anew.""",
  "inputs histories", "every index and value, every array size, with and without an existing segment", "No test runs it.", "include/CShmArray.h include/CShm.h",
  [("header + element layout", "include/CShmArray.h"), ("attach/create", "include/CShm.h")])
Q("C18", "URL form encoding and decoding are inverse for every byte string",
  """Decoding the encoding of any byte string returns that string, and the encoded text contains only unreserved characters, plus signs and percent escapes.
  Decoding arbitrary text, including stray or truncated percent signs, never fails or reads outside the text.""",
  "inputs", "every byte string", "No test covers escapes.", "src/Utils.cpp include/Utils.h", [("FormUrlEncode / FormUrlDecode", "src/Utils.cpp")])
Q("C19", "HTTP requests are parsed into exactly what the client sent",
  """For a well-formed request the method, URI, query string, headers, cookies, form fields, uploaded files and keep-alive choice presented to the application are exactly those on the wire,
  for GET queries, form posts and multipart posts: URL escapes are decoded in query strings, posted forms and cookies, while multipart contents come through byte for byte.""",
  "inputs", "every method, parameter name and value, header set, body", "The tests send one fixed GET.", "src/CHttpReader.cpp include/CHttpReader.h",
  [("request line, header, parameter parsing", "src/CHttpReader.cpp")])
Q("C20", "HTTP parsing of hostile requests is contained and leaves nothing behind",
  """Parsing arbitrary bytes as an HTTP request terminates without crashing, throwing or reading outside the message.  When the same parser object handles the next request,
  nothing of the previous request (parameters, headers, cookies, files) is visible.""",
  "inputs histories", "every byte string, every pair of consecutive requests", "Tests only send well-formed requests.", "src/CHttpReader.cpp include/CHttpReader.h",
  [("offset arithmetic on find() results", "src/CHttpReader.cpp"), ("reset/clear", "include/CHttpReader.h")])
Q("C21", "HTTP responses carry the declared status, headers and whole body",
  """An encoded response is one status line with the chosen code, every header and cookie that was set exactly once and with the value set last, a Content-Length equal to the body size (or the length set explicitly), a blank line and
  the exact body, whatever the sizes and contents set.  Reusing the writer for the next response leaks nothing from the previous one.""",
  "inputs histories", "every status, header/cookie value and length, body content and size", "Tests send one small fixed body.", "src/CHttpWriter.cpp include/CHttpWriter.h",
  [("header formatting", "src/CHttpWriter.cpp: encode"), ("begin()", "include/CHttpWriter.h")])
Q("C22", "Date conversions are correct and inverse over the supported range",
  """Converting any supported time to an HTTP/GMT date text and back gives the same second, in the RFC 1123, asctime and dashed forms, including leap years
  and month ends.  Malformed date text never causes a crash.""",
  "inputs", "every second from 1970 to 2039, every text", "The tests print one date.", "src/Utils.cpp include/Utils.h", [("Gmt2Time / GetGmtDate", "src/Utils.cpp")])
Q("C23", "Configuration files yield exactly their entries",
  """Loading a configuration file gives, for each section and key written, exactly the written value (trimmed), the last writer winning; comments and blank lines add nothing and lines that are
  not assignments create no entries.  Typed reads convert the text or fall back to the default, and any file content loads without a crash.""",
  "inputs", "every file content, section, key, value", "No test loads a config file.", "src/CConfig.cpp include/CConfig.h", [("line parser", "src/CConfig.cpp: loadConfig")])
Q("C24", "String helpers split, join, trim and replace losslessly",
  """Splitting a text by any non-empty separator returns exactly the pieces between separators, so joining them with it restores the text; trimming removes exactly the surrounding whitespace;
  replacing substitutes every non-overlapping occurrence and nothing else; number/text and hex conversions are inverse.  Every helper terminates on every input.""",
  "inputs", "every text, separator and pattern", "The test prints a few samples.", "include/StringHelper.h src/Utils.cpp include/Utils.h", [("split/trim/replace", "include/StringHelper.h, src/Utils.cpp")])
Q("C25", "Timers fire once per registration, not early, not after cancellation",
  """Each registered timer is delivered exactly once, to its own handler with its own data, not before its due time and at the first loop turn after it; timers due at different times fire in due
  order.  A cancelled timer never fires, and handlers may register or cancel timers from within a callback.""",
  "histories inputs", "every set of timers, delays, cancellations and clock readings", "One timer is run in real time.", "src/CEvent.cpp include/CEvent.h", [("timer map and wait-time computation", "src/CEvent.cpp")])
Q("C26", "Messages posted to an event loop are delivered exactly once, in order",
  """Every message posted to the event loop from any thread is delivered exactly once in the loop's thread, in posting order per thread, with its type and data intact, however the wake-up
  notifications are coalesced and however many are outstanding.  Stopping the loop from any thread ends it.""",
  "schedules histories", "every interleaving of posting threads and the loop", "A test run samples one schedule.", "src/CEvent.cpp include/CEvent.h", [("message list + wake-up pipe", "src/CEvent.cpp: addMessage, onMessage")])
Q("C27", "Descriptor event registrations match what is armed and dispatched",
  """After any sequence of registrations and removals, the set of events armed in the kernel for a descriptor is exactly those registered and not removed, each event is dispatched to the handler and data
  registered for it, and removed or one-shot events are not delivered again.""",
  "histories", "every sequence of register / unregister / ready events", "Only the simple read/write path is exercised.", "src/CEvent.cpp include/CEvent.h", [("fd table and epoll_ctl calls", "src/CEvent.cpp: addFdEvent, delFdEvent")])
Q("C28", "Server writes reach the peer complete, in order, exactly once",
  """Every byte the application writes to a connection is sent exactly once and in order whatever partial sends and would-block results the socket gives, as long as the connection stays up;
  a connection marked to close after writing closes only once everything was sent.  A write that fails at once is refused to
  the caller; a failure while sending buffered data ends the connection and is reported once.""",
  "fault_sequences histories", "every sequence of writes and every short-write / would-block / error result of send", "Loopback sends complete at once.", "src/CCommMgr.cpp include/CCommMgr.h include/CSocketBuf.h",
  [("direct send, then buffered remainder", "src/CCommMgr.cpp: write, onWrite")])
Q("C29", "Server reads deliver each complete message once and nothing else",
  """Whatever the chunking of received data, each complete message is delivered to the owning service's handler exactly once, in order, with exact bytes and session; incomplete data is kept for
  later and a malformed stream closes that connection only.  Peer close is reported exactly once. A datagram's message is delivered whole, with its sender; one that is longer than the service's buffer
  limit or holds no message is reported, never delivered in part.""",
  "fault_sequences inputs histories", "every chunking of the stream and every recv result", "Loopback reads arrive whole.", "src/CCommMgr.cpp include/CCommMgr.h", [("read buffer and filter loop", "src/CCommMgr.cpp: onRead")])
Q("C30", "Connection slots are never shared, leaked or exceeded",
  """Accepted connections get their own session state, refused ones are closed, closing releases the descriptor exactly once, and a descriptor number reused by a new connection never sees the previous
  connection's data, session or pending output.  The configured connection limit is respected, and a session whose connection has ended is rejected while its descriptor is free.""",
  "histories fault_sequences", "every sequence of accept / close / write with descriptor reuse", "Tests open one connection.", "src/CCommMgr.cpp include/CCommMgr.h", [("client table indexed by descriptor", "src/CCommMgr.cpp")])
Q("C31", "Network worker sends client output complete, in order, exactly once",
  """A worker-owned connection delivers every byte written to it exactly once and in order under any partial-send behaviour; a write that
  fails at once is refused to the caller, a later failure closes the connection and is reported once.""",
  "fault_sequences histories", "every sequence of writes and send results", "Loopback sends complete at once.", "src/CNetWorker.cpp include/CNetWorker.h", [("write and onWrite", "src/CNetWorker.cpp")])
Q("C32", "Network worker reads and hands over connections faithfully",
  """A connection handed to a worker is served with its own session, each complete message delivered once in order with exact bytes whatever the chunking; closes are reported once and a reused descriptor
  sees nothing of its predecessor.""",
  "fault_sequences histories", "every chunking, hand-over and close sequence", "One connection is served.", "src/CNetWorker.cpp include/CNetWorker.h include/CNetWorkerMgr.h", [("hand-over message and onRead", "src/CNetWorker.cpp")])
Q("C33", "TCP connector transfers exactly the requested bytes or reports failure",
  """A blocking write sends all bytes in order or reports failure; a read returns bytes actually received, in order; connecting succeeds only when the connection is really established, and a failed or timed
  out operation is reported, never mistaken for success.""",
  "fault_sequences inputs", "every sequence of connect / select / send / recv results", "Loopback never fails or splits.", "src/CTcpConnector.cpp include/CTcpConnector.h", [("non-blocking connect and select loops", "src/CTcpConnector.cpp")])
Q("C34", "UDP connector sends and receives whole datagrams or reports failure",
  """A datagram is sent whole to the configured peer or the call reports failure; a receive returns a received datagram's bytes or reports timeout/error and never claims bytes that did not arrive.""",
  "fault_sequences inputs", "every sequence of socket call results", "Not tested.", "src/CUdpConnector.cpp include/CUdpConnector.h", [("sendto/recvfrom/select", "src/CUdpConnector.cpp")])
Q("C35", "Thread pool runs each accepted task exactly once",
  """Every task the pool accepts is run exactly once by one worker with its own data, under any interleaving of dispatchers and workers, in acceptance order of start; a refused task is never run and the
  queue bound is respected.  Stopping the pool ends its threads without deadlock.""",
  "schedules", "every interleaving of dispatching and worker threads", "A test run samples one schedule.", "src/CTask.cpp include/CTask.h src/CThread.cpp", [("queue under mutex/condition", "src/CTask.cpp")])
Q("C36", "Worker pool answers go to the connection that asked",
  """Each request accepted by a worker pool produces its handler call exactly once with the request's own message and session, and its response is written, complete, to the connection that sent it and never to a later connection that got the same descriptor; when a request
  cannot be queued its memory is released and the error hook, if any, is told.""",
  "histories schedules", "every sequence of requests, queue states and responses", "Tests use one client and one outstanding request.",
  "include/CAnyWorkerPool.h include/CHttpWorkerPool.h include/CRawWorkerPool.h include/CAnyWorker.h include/CHttpWorker.h include/CRawWorker.h", [("request object dispatched to workers, response posted as message", "include/C*WorkerPool.h")])
Q("C37", "Asynchronous log writes every accepted line exactly once, in order",
  """Every line accepted by the asynchronous logger reaches the file exactly once, complete, and in order per thread, under any interleaving of writers and the flushing thread, including when the buffer
  fills and at shutdown.""",
  "schedules histories", "every interleaving of writers and flusher, every fill level", "A test run samples one schedule with tiny output.", "src/CAsyncLog.cpp include/CAsyncLog.h include/CLogBuffer.h", [("double buffer swap", "src/CAsyncLog.cpp")])
Q("C38", "Log rotation keeps the newest data and the configured number of files",
  """A log file is rotated when its size or day limit is reached; rotation renames older files by one, never discards the most recent ones, and keeps no more than the configured number.
  Every line written appears complete in exactly one of the retained files, in order.""",
  "histories configurations", "every sequence of writes, limits, existing files and clock readings", "Tests never rotate.", "src/CFileLog.cpp include/CFileLog.h src/CAsyncLog.cpp", [("shiftFiles", "src/CFileLog.cpp, src/CAsyncLog.cpp")])
Q("C39", "Locks exclude, guards release, and timed waits respect their deadline",
  """At most one thread is inside a mutex-protected section and writers exclude readers, under any interleaving; guards release on every exit including exceptions.
  A condition wait returns after a notification, and a timed wait returns by its deadline for every timeout value.""",
  "schedules inputs", "every interleaving, every timeout", "A test run samples one schedule.", "include/CLock.h", [("pthread wrappers", "include/CLock.h")])
Q("C40", "MySQL results present each row and column exactly as fetched",
  """Query results give, row by row, exactly the values and lengths the client library returned, rows by number and columns by name (NULL reads as empty text), and the number of affected rows as reported;
  results can be copied or assigned (also to themselves) safely and are freed once.  A query that is reported as successful ran, as given, in the database and character set chosen last, also after an
  earlier failure or lost connection; a closed handle is never used.  Escaped text never overruns, and failures are reported.""",
  "inputs histories fault_sequences", "every result set shape and content, every failure of the client library", "Needs a database server; no test runs.", "src/CMysql.cpp include/CMysql.h", [("row/field wrappers", "src/CMysql.cpp")])
if __name__ == "__main__":
    import json, os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in PROPERTIES: f.write(json.dumps(p) + "\n")
    print(len(PROPERTIES))

Q("C41", "XML text presents a value tree exactly and cannot be broken out of",
  """The XML written for a value tree (alone, with head, or as a package body, for either encoding name) is well formed and presents exactly the tree: each array element in order, each member under its name, numbers, booleans and null
  as text, and every string, whatever it contains (markup, the end mark of a section), as character data that reads back as that string. Writing appends to the buffer given, and leaves the value and the package header alone.""",
  "inputs", "every tree with XML names as member names", "Tests never write XML.", "include/CAnyValue.h include/CAnyPackage.h", [("writer", "include/CAnyValue.h: encodeXML, encodeXMLWithHead; CAnyValuePackage::encodeXML")])
Q("C42", "The log facade writes one line per enabled call and nothing else",
  """Each call of the logging facade whose level is enabled by the configured mask puts exactly one line into the log, with the time, the level's name, the given file and line when places are
  asked for, and the text as printf formats it (up to 3999 bytes are kept whole); percent signs in arguments are plain text. Calls with a disabled level, calls before initialisation, and a second initialisation, have no effect.""",
  "inputs configurations histories", "every mask, level, text and place", "No test uses the facade with a mask or checks the file.", "include/CLog.h src/CLog.cpp src/CAsyncLog.cpp", [("level mask and tags", "include/CLog.h: CLog::log")])
Q("C43", "A singleton is constructed once and only seen when complete",
  """However many threads ask for a singleton (CSingleton, CCommMgr) at the same time, exactly one object is constructed, every caller gets that object, and none gets it before its construction has completed, without data races.
  A constructor that throws leaves the singleton absent and usable: a later call constructs it.""",
  "schedules faults", "every interleaving of first uses", "Tests call it from one thread.", "include/CSingleton.h include/CCommMgr.h", [("lazy creation", "include/CSingleton.h: getInstance, include/CCommMgr.h: getInstance")])

Q("C44", "Timers, messages and signals reach the handler they were meant for",
  """A timer, message or signal set through the communication manager or sent to a network worker is handled exactly once (a signal: once per delivery) by the processor it names, with its identifier, type and data;
  messages keep their order, a timer set again or cancelled does not fire in its old form, and requests without a processor are refused.""",
  "histories", "every history of timer, message and signal operations, also from within handlers", "No test checks who is called with what.", "src/CCommMgr.cpp include/CCommMgr.h src/CNetWorker.cpp include/CNetWorker.h src/CEvent.cpp", [("routing", "src/CCommMgr.cpp: addTimer, sendMessage, addSigHandler, onSignal; src/CNetWorker.cpp")])
Q("C45", "Services are set up completely or not at all, and only existing ones are used",
  """Creating a service either yields a new number and a bound, non-blocking socket watched by the loop, or fails and leaves nothing open, whatever step fails. Numbers that do not name a service of the right kind are
  refused by every call. Arrivals are announced once, to the processor their service has at that time, under that service's number; removing a service releases its descriptors. An event loop that cannot get all it needs is not reported as initialised, and leaves nothing open when it is destroyed.""",
  "histories faults", "every history of service calls with every failing step", "Tests set up one service that works.", "src/CCommMgr.cpp include/CCommMgr.h src/CEvent.cpp", [("service table", "src/CCommMgr.cpp: createSrv, createClient, setProcessor, rmSrv, connect, writeTo"), ("loop set-up", "src/CEvent.cpp: init")])
Q("C46", "Thread objects run once per start, report failure, touch only their own thread",
  """A thread object runs its body once per successful start, on a thread of its own; join returns after the body; a stop is seen by the body. A start that fails is reported by the thread, and by the pool, the asynchronous log and the worker
  manager that needed it; what could be started keeps working, and lines a log accepted still reach the file. No call, and no destructor, ever acts on a thread handle that is not the object's own any more (never started, already joined,
  or ended after being detached), so that threads of others are never cancelled or detached.""",
  "histories faults schedules", "every history of calls on a thread object and every failing start", "Tests start threads that can be started and never destroy pools.", "include/CThread.h src/CThread.cpp src/CTask.cpp src/CAsyncLog.cpp include/CNetWorkerMgr.h", [("handle life time", "src/CThread.cpp: start, detach, join, stop, ~CThread"), ("reporting", "src/CTask.cpp: run; src/CAsyncLog.cpp: init; include/CNetWorkerMgr.h: start")])
Q("C47", "A log reports what it could not write, loses nothing else, and recovers",
  """While log files cannot be opened, written, renamed or removed (disk full, permissions, a missing directory), a call on the synchronous log returns true exactly if its line is in the file, and once the fault is over every further line is
  written again. The asynchronous log keeps the lines it accepted while its files cannot be opened or rotated and writes them, once and in order, when they can be; lines being flushed while the write itself fails may be lost, never doubled or
  torn, and lines accepted afterwards are written. Lines already in the files stay.""",
  "faults histories inputs", "every placement of file faults over every history of log calls", "Tests log to a healthy disk.", "src/CFileLog.cpp src/CAsyncLog.cpp include/CLogBuffer.h", [("synchronous", "src/CFileLog.cpp: writeFile, shiftFiles"), ("asynchronous", "src/CAsyncLog.cpp: writeFile, flush")])
Q("C48", "A service cuts what it receives by the framing it was set up with",
  """Every service, outgoing connection and datagram service of the communication manager, a network worker and the worker manager delivers exactly the messages of its own framing - raw, HTTP, STX/ETX with a short or long length, or the
  filter the caller supplied last - whatever the bytes, the chunking, the order of the set-up calls and the framings of other services. Bytes that cannot be a message, and a service with no filter, end the connection with one report of the matching kind.""",
  "inputs histories", "every framing on every stream cut anywhere", "Tests use two framings, each with well-formed messages that arrive whole.", "src/CCommMgr.cpp src/CNetWorker.cpp include/CNetWorkerMgr.h include/Define.h", [("framing chosen", "src/CCommMgr.cpp: setProcessor, setPkgFilter; src/CNetWorker.cpp: createClient, setPkgFilter; include/CNetWorkerMgr.h: createSrv, setPkgFilter"), ("framing applied", "src/CCommMgr.cpp: onTcpRead, onUdpRead; src/CNetWorker.cpp: onTcpRead")])
Q("C49", "A worker manager hands over or refuses every arrival, and is set up whole or not",
  """Initialising a worker manager and creating its services succeeds exactly if every step did; a failure leaves nothing open that is not needed, and initialising again works. Each arrival is handed over once, to one worker's own thread, under
  its service's number and on its own non-blocking descriptor, or, at the limit, closed and reported to the error handler, if there is one. Interrupted accepts, connections that are gone before they are accepted and a lack of descriptors delay arrivals but lose none.""",
  "faults histories", "every placement of failing steps over set-up and arrivals", "Tests set up one service and connect once.", "include/CNetWorkerMgr.h src/CNetWorker.cpp src/CEvent.cpp", [("set-up", "include/CNetWorkerMgr.h: init, createSrv"), ("arrivals", "include/CNetWorkerMgr.h: onAccept; src/CNetWorker.cpp: watch, onEvent")])
