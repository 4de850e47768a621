SRC = "src/viriatum_commons/"
prop("C01", "A linked list behaves as an ordered sequence under every operation sequence",
     "After any sequence of insertions, removals, pops, moves between lists, clears and sorts, a linked list holds exactly the values an ordered sequence would hold, in that order, in both directions, and its size, peeks, indexed reads, iterators and sequence copies agree with it. Deleting the list releases everything it allocated.",
     ["histories"], "all sequences of 15 operations up to a depth, over lists of up to 5 elements, equal states merged",
     "The tests append and remove a few fixed values; the links only go wrong in particular orders of operations (a removal next to an end, re-use of a popped node, a clear followed by a read).",
     [SRC + "structures/linked_list.c"], [("relinking on insertion and removal", SRC + "structures/linked_list.c"), ("iterator over the chain", SRC + "structures/linked_list.c")],
     [("first/last/size", "ends and length of the chain", SRC + "structures/linked_list.h")], ["the list after every operation"],
     "explicit-state exploration of operation sequences on the real code", LIBNOTE)
prop("C02", "Maps return the last value set for every key, whatever the collisions and growth",
     "After any sequence of sets, a map returns for every key the value last set for it and nothing for a key never set, reports the number of distinct keys, iterates over each key exactly once, and keeps its own copy of string keys. The ordered map iterates in the order in which keys were first set. Deleting a map releases what it allocated.",
     ["histories"], "all sequences of sets over colliding integer and string keys, from initial capacities 1 to 5, through several growths, up to a depth",
     "The tests set a handful of keys in a table of the default size, so collisions, wrap-around and growth with colliding keys are not met.",
     [SRC + "structures/hash_map.c", SRC + "structures/sort_map.c"], [("open addressing and growth", SRC + "structures/hash_map.c"), ("key order list", SRC + "structures/sort_map.c")],
     [("elements buffer, size, maximum size", "slots and load of the table", SRC + "structures/hash_map.h")], ["lookups, size and iterators after every set"],
     "explicit-state exploration of operation sequences on the real code", LIBNOTE)
prop("C03", "Sorting sorts and priority queues pop in priority order",
     "Sorting any sequence, or any part of one, leaves exactly the same elements in non-decreasing order and does not touch the rest. A priority queue pops the smallest element first, equal elements in the order they were pushed, reports its size, and gives nothing when empty, under any interleaving of pushes and pops.",
     ["inputs", "histories"], "all sequences up to a length over few values with distinguishable equals, all permutations and sub-ranges, all push/pop sequences up to a depth",
     "The tests sort one fixed sequence and push a few values; ordering errors depend on the arrangement of the input.",
     [SRC + "sorting/quicksort.c", SRC + "structures/priority_queue.c", SRC + "structures/linked_list.c"], [("partition", SRC + "sorting/quicksort.c"), ("ordered insertion", SRC + "structures/priority_queue.c")],
     [], ["output sequence"], "exhaustive enumeration of inputs and operation sequences on the real code", LIBNOTE)
prop("C04", "Buffers yield exactly the concatenation of what was appended",
     "Joining a string or linked buffer gives exactly the bytes of the appended pieces in order, as often as it is asked, with the reported length, whatever the pieces contain; owned pieces are released with the buffer. An array list returns for every index inside its capacity the element last stored there.",
     ["histories"], "all sequences of appends of 6 pieces (empty, embedded zeros, long) in every ownership mode up to a depth; all write sequences inside the capacity for 6 element sizes",
     "The tests join two or three plain strings.",
     [SRC + "structures/string_buffer.c", SRC + "structures/linked_buffer.c", SRC + "structures/array_list.c"], [("piece list and join", SRC + "structures/string_buffer.c")],
     [], ["joined bytes"], "exhaustive enumeration of operation sequences on the real code", LIBNOTE)
SRVNOTE = ("Exhaustive up to the bounds stated in the evidence file: every choice sequence was executed by the whole real "
           "server (event loop, protocol parser, handlers, compiled from the working tree with AddressSanitizer and "
           "assertions) against a simulated network that owns every decision of the environment. Trusts gcc, ASan, the "
           "simulation of epoll and sockets, and the reference written for the check; says nothing beyond the bounds.")
V = "src/viriatum/"
H = V + "http/http_parser.c"
ST = V + "stream/stream_http.c"
SIO = V + "stream/stream_io.c"
prop("H01", "The answer does not depend on how the bytes of the requests are cut",
     "The bytes sent to a client, and whether its connection is then closed or kept, are a function of the bytes the client sent: cutting them into any sequence of deliveries, or reading them in pieces of any size, changes nothing. This holds for valid, pipelined, chunked, upgraded and malformed requests and for fields longer than any internal buffer.",
     ["schedules", "inputs"], "13 request streams under every cut, every pair of cuts, triples on a grid and every fixed piece size and read size, and long requests crossing every buffer limit",
     "A test sends a request in one piece; the parser keeps marks into a buffer that moves and grows between deliveries, so errors need a cut at a particular byte.",
     [H, ST, SIO], [("state machine resumed between deliveries", H), ("buffer growth and mark relocation", ST), ("read loop", SIO)],
     [("parser state and marks", "where a partially received token starts", H)], ["bytes sent and state of the connection when the server is idle"],
     "stateless exploration of every delivery schedule within bounds on the real server", SRVNOTE)
prop("H02", "A request ends exactly where its framing says; a body is never taken for one",
     "The bytes of a body are never interpreted as a request, and the bytes after it always are: the end of every request is exactly the one its length or its chunks announce, for bodies of any size and any number of requests. A request whose end is ambiguous or malformed (contradictory or unusable length, unknown transfer coding, bad chunk size, missing delimiter) is rejected by closing the connection, so that nothing behind it is interpreted.",
     ["inputs"], "every sequence of 2 (thorough: 3) framing header lines out of 67 over 8 bodies; every sequence of 2 (3) chunks out of 24 size lines, 6 terminators, 12 endings; bodies around 13 limits; up to 24000 requests at once",
     "A test sends well formed requests; request smuggling needs a combination of framing fields on which two readers disagree.",
     [H, ST], [("framing states of the parser", H), ("content length and chunk size arithmetic", H)],
     [("content_length, flags", "what remains of the body", V + "http/http_parser.h")], ["which requests are answered on the connection"],
     "exhaustive enumeration of framings on the real server against an independent reading of the framing", SRVNOTE)
prop("H03", "Pipelined requests are answered in order, each exactly once",
     "Every request sent on a persistent connection is answered exactly once and in the order in which the requests were sent, with the answer it would have got alone, however the requests are grouped into deliveries. Nothing is answered after the request whose answer ends the connection.",
     ["schedules", "histories"], "every pipeline of 2 and 3 (thorough: 4) requests out of an alphabet of request shapes, delivered in every grouping",
     "The tests never open a connection.",
     [ST, V + "handlers/handler_file.c", V + "handlers/handler_dispatch.c", SIO], [("lock on the connection while a request is being answered", ST), ("resuming the pending bytes", ST)],
     [], ["sequence of answers on the connection"], "stateless exploration of request sequences and groupings on the real server", SRVNOTE)
prop("H04", "A response says truthfully whether the connection persists and where it ends",
     "Every response is a well formed, self delimited message whose announced length matches its contents, announces whether the connection persists, and the connection is closed or kept accordingly; a request for closing, or one of the older version without a keep alive request, is honoured, and a kept connection serves the next request normally. A response to a head request carries the headers only.",
     ["inputs", "configurations"], "version x method x connection header x path x extra headers x configuration, each followed by a second request",
     "The tests never open a connection; the combination of handler, error path and connection header decides the flag.",
     [ST, V + "http/http_util.c", V + "handlers/handler_file.c", V + "handlers/handler_default.c", V + "handlers/handler_dispatch.c"], [("persistence flags of the request", H), ("header writers", V + "http/http_util.c")],
     [], ["announced persistence against the state of the connection"], "exhaustive enumeration of requests and configurations on the real server", SRVNOTE)
prop("H05", "No input makes the server crash, hang, leak or disturb another client",
     "Whatever bytes a client sends, the server stays memory safe, keeps answering other clients correctly, answers with well formed responses or closes the connection, and releases everything the connection used once it is gone. This holds for every single and double corruption of a request, every truncation, and every field of every length.",
     ["inputs"], "4 request streams with every byte replaced, inserted, removed, truncated, pairs replaced, and 16 fields of every length around 17 internal sizes",
     "The input space is adversarial; overruns appear only at exact lengths and in states that well formed requests never reach.",
     [H, ST, V + "handlers/handler_file.c", V + "handlers/handler_dispatch.c", "src/viriatum_commons/formats/url.c"], [("parser errors close the connection", ST), ("bounds of the fields of a request", V + "handlers/handler_file.c")],
     [], ["responses, other client, live allocations after the run"], "exhaustive enumeration of corruptions within bounds on the real server under AddressSanitizer", SRVNOTE)
prop("H06", "Short, refused and broken transport operations never corrupt or lose output",
     "When sends are short or refused and reads are short or empty, at any calls, clients receive exactly the bytes they would have received over a perfect transport. When the transport breaks, or the client leaves, at any point, what was sent before is a prefix of that, the connection is released completely and other clients are served.",
     ["fault_sequences", "schedules"], "6 request streams, every placement of up to 2 (thorough: 3) transport faults over all send and receive calls, and every point of departure of the client combined with faults",
     "The kernel accepts small writes whole in tests; partial writes depend on timing and socket buffers.",
     [SIO, ST, V + "handlers/handler_file.c"], [("write queue and partial writes", SIO), ("data callbacks continuing a transfer", V + "handlers/handler_file.c")],
     [("write queue", "pending writes of the connection", SIO)], ["bytes received by the client, live allocations after the run"],
     "exhaustive fault injection at every send and receive of the real server", SRVNOTE)
prop("H07", "A request means the same however its header is written",
     "The answer to a request, and what is then done with the connection and with the bytes that follow, do not depend on the letter case of the names of its header fields, on the spaces and tabs around their values, on the order of the fields, nor on whether a line ends with a carriage return. A field whose name is not exactly that of a known one has no effect.",
     ["inputs"], "5 requests over the 8 fields that the server interprets: every letter (pairs of letters; thorough: every pattern) of every name in the other case, every form of the space around each value, every order of the fields, every subset of the line ends, and every name one letter away from a known one at every place",
     "Tests, and most clients, write the header in one way; another client, or a proxy, writes another one, and the field is silently ignored or taken for another.",
     [H, V + "handlers/handler_file.c", ST], [("states of the header in the parser", H), ("fields of a request for a file", V + "handlers/handler_file.c")],
     [], ["the bytes answered, and the state of the connection, against those for the usual form of the request"], "exhaustive enumeration of the ways to write a request on the real server, against the answer to the usual one", SRVNOTE)
FH = V + "handlers/handler_file.c"
DH = V + "handlers/handler_dispatch.c"
U = V + "http/http_util.c"
EX = "exhaustive enumeration of requests and files within bounds on the real server"
prop("D08", "Request parameters are joined so that every reader gets the same pairs",
     "The parameters of a request, given as names and values of any bytes, are joined to a query from which a reader of forms gets exactly these pairs, each once, the last value given for a repeated name. When the space for the query is too small it is refused and nothing is written past it; nothing stays allocated and the values given are not needed afterwards.",
     ["inputs"], "every list of up to 3 pairs of 5 names and 13 values; every pair of bytes as a value; every space from 4 bytes too small to 4 bytes too large for values of 0 to 39 (thorough: 129) bytes, escaped or not; every number of parameters up to 80 (250) in maps of 3 initial sizes",
     "No test joins parameters; the faults need a separator inside a value, a value that is not text, or a space that is one byte too small.",
     [V + "http/http_util.c", "src/viriatum_commons/encoding/percent.c", "src/viriatum_commons/structures/string_buffer.c"],
     [("joining the pairs of a map, and of a list of arguments", V + "http/http_util.c"), ("escapes", "src/viriatum_commons/encoding/percent.c")],
     None, ["the query, error, allocations"],
     "exhaustive enumeration of lists of pairs and spaces on the real functions, against an independent reader of forms", LIBNOTE)
prop("F01", "A file is served whole, unaltered and with the type of its extension",
     "The body of the response for a file is exactly the contents of the file at the time of the request, whatever its size, bytes and name, with the type that its extension designates in any case. When the file changes or disappears while it is sent, the response is either completed to its announced length or cut by closing the connection, never followed by other bytes, and other requests are served.",
     ["inputs", "histories", "schedules"], "35 sizes around every internal buffer, every byte in a name, 40 extensions in 3 cases, versions replaced between requests, and every change of the file before every send",
     "The tests serve no file; errors depend on sizes at the limits of the chunks and on changes between two sends.",
     [FH, "src/viriatum_commons/io/file.c", V + "system/service.c"], [("chunks of the file", FH), ("table of types", V + "system/service.c")],
     [("file and limits of the transfer", "position in the file being sent", V + "handlers/handler_file.h")], ["headers and body of the response"], EX, SRVNOTE)
prop("F02", "A byte range request gives exactly the bytes it designates, or the whole file",
     "For a valid range the response carries exactly the designated bytes, clipped to the end of the file, with the partial status, their position and the total size; suffix and open forms are honoured. A range that is malformed, of another unit, or outside the file is ignored and the whole contents are served.",
     ["inputs"], "every pair of limits up to a bound in 3 forms over 4 files, 17 edges squared over a file of several chunks, every short string of symbols as the value",
     "A test samples a range or two; the limits interact with the size of the file, the chunks and the overflow of numbers.",
     [FH, U], [("limits of the range", U), ("seek and length of the transfer", FH)], [], ["status, position header and body"], EX, SRVNOTE)
prop("F03", "A revalidation is answered as not modified exactly when the file did not change",
     "A request carrying the entity tag last given for a file is answered as not modified, without contents, as long as the file was not written again, and with the current contents once it was; any other tag gives the contents. Conditions of one request never affect the next one on the connection.",
     ["inputs", "histories"], "18 time differences x 5 dates x 4 request forms, every tag one character away from the current one, sequences of conditional requests on one connection",
     "The tests never revalidate; a stale answer shows only for particular time differences and orders of requests.",
     [FH, "src/viriatum_commons/checksum/crc_32.c", "src/viriatum_commons/io/file.c"], [("tag from the time of writing", FH), ("header state reset", FH)], [], ["status and body"], EX, SRVNOTE)
prop("F04", "No request reaches a file outside the configured directories",
     "Whatever the spelling of the path (dot segments, percent escapes at any depth, repeated or trailing separators, back slashes, encoded zeros), the server opens only files inside the contents directory, or the base directory of the location that matches, and serves exactly the file that the resolved path designates there, or reports that it is missing.",
     ["inputs", "configurations"], "every path of up to 3 (thorough: 4) segments out of 27 spellings, with and without a final separator, in 3 configurations",
     "Escapes are found by combinations of encodings that nobody lists in a test.",
     [FH, DH, "src/viriatum_commons/encoding/percent.c"], [("canonical path before the dispatch", DH), ("containment of the decoded path", FH)],
     [], ["paths opened by the server, body of the response"], EX, SRVNOTE)
prop("F05", "A protected location serves nobody without a valid user and password",
     "Contents of a location with authentication are served when the request carries the credentials of a user of its password file, and only then, whatever the method, the spelling of the path, the previous requests on the connection, and the state of the password file; a request without them gets a challenge and none of the contents.",
     ["inputs", "histories", "configurations"], "users x passwords x schemes x methods, every one character corruption of valid credentials, every password file of up to 2 (thorough: 3) lines, every path spelling of up to 3 (thorough: 4) segments, every sequence of 3 (thorough: 4) requests",
     "A test tries the right and a wrong password; bypasses are in the spellings, in partial matches and in state left by an earlier request.",
     [U, FH, DH, "src/viriatum_commons/formats/passwd.c", "src/viriatum_commons/encoding/base_64.c"], [("comparison with the password file", U), ("authentication before contents", FH), ("location of a path", DH)],
     [], ["status and body"], EX, SRVNOTE)
prop("F06", "Directories are redirected, indexed or listed completely, missing paths reported",
     "A directory asked for without a final separator is redirected to the path with it; with it, the first existing index file is served or else a listing that names each of its entries exactly once; a path that does not exist is reported as missing with the configured error page.",
     ["inputs", "configurations"], "every subset of 8 entries, 15 paths x 5 configurations x 2 methods x 2 connection headers",
     "The tests open no connection.",
     [FH, DH, "src/viriatum_commons/io/file.c", "src/viriatum_commons/template/handler.c"], [("index resolution", DH), ("listing", FH)], [], ["status, location and body"], EX, SRVNOTE)
prop("R01", "The first configured location whose pattern matches handles the request",
     "A request is handled according to the first location, in the order of the configuration file, whose pattern matches its resolved path (that of the index file when a directory is resolved to one), with that location's handler, base directory and protection; without a match the default file handling applies, and an unknown handler gives an error response.",
     ["configurations", "inputs"], "every list of up to 2 (thorough: 3) locations out of 9 patterns x 5 handlers, x 16 request paths",
     "Precedence errors need particular pairs of overlapping locations.",
     [DH, FH, V + "system/service.c", "src/viriatum_commons/ini/ini.c"], [("ordered matching", DH), ("locations from the configuration", V + "system/service.c")], [], ["status and body against a reference resolver"], EX, SRVNOTE)
PH = V + "handlers/handler_proxy.c"
IO = V + "stream/stream_io.c"
XP = "exhaustive enumeration of exchanges, cuts, failures and interleavings within bounds, client and backend simulated, on the real server"
prop("X01", "The proxy relays requests and responses without changing their meaning",
     "For a location with the proxy handler the backend receives the request of the client: method, the rest of the path after the pattern with its query, version, header fields in order and contents; the client receives the response of the backend: status, header fields in order and contents. This holds for every way of delimiting and cutting them, for interim responses, and for every exchange of a connection; only the field that names the proxy is added.",
     ["inputs", "schedules", "histories"], "24 methods and 9000 strings that look like one; request forms (7 methods x 10 targets x 2 versions x 10 header sets x 6 bodies), 14 response forms x 3 requests, every cut (quick: one, thorough: two), pieces of 1 to 60 bytes, bodies and headers around every buffer size, short writes, sequences of 2 and 3 exchanges, 14 forms of the address of the backend",
     "The tests never run the proxy; errors need particular cuts, sizes and orders of exchanges.",
     [PH, PH.replace(".c", ".h"), V + "http/http_parser.c", "src/viriatum_commons/formats/url.c"], [("request and response rebuilt from the parser callbacks", PH), ("accumulation of the headers of the response", PH)],
     [("context of the exchange", "buffers, pending state and parser of the backend", PH.replace(".c", ".h"))], ["bytes at the backend and at the client, as parsed by a reference parser"], XP, SRVNOTE)
prop("X02", "A failing backend gives its client an error or a cut, and harms nobody else",
     "When the backend can not be reached, ends or resets at any byte, sends a malformed response or a transfer fails, its client gets a complete 502 response, or, when a part of the response was relayed, exactly that part followed by the end of the connection; never something that reads as another complete response. The next requests of that client and the other clients are served, and a client that leaves takes its backend connection with it.",
     ["fault_sequences", "crash_points"], "14 responses truncated at every byte by end or reset, 24 malformed responses cut at every byte, unreachable backends in 5 forms, the client leaving at every byte of request and response, each of the first 6 (thorough: 20) transfers failing in 4 ways",
     "Needs a backend that fails at a chosen byte.",
     [PH, V + "system/service.c", V + "system/client.c", IO], [("close of the backend connection", PH), ("end of the response by the end of the connection", PH)],
     [("connections of client and backend", "maps between both", PH.replace(".c", ".h"))], ["bytes at the client, state of the connections"], XP, SRVNOTE)
prop("X03", "Proxied clients never get each other's responses, nor those of another location",
     "Every client gets exactly the responses to its own requests in order, whatever the interleaving of clients and backends; a backend connection is only used for the client and the location it was opened for, bytes a backend sends without being asked never reach a client, and a client or backend that leaves does not disturb the others.",
     ["schedules", "histories"], "two clients with one or two requests each out of 4, under every interleaving with up to 2 to 4 (thorough: 3 to 7) deviations from the default order, pipelined requests cut at every byte, unsolicited bytes cut at every byte",
     "Mixing responses needs a particular interleaving of two clients and two backends.",
     [PH, V + "system/service.c"], [("reuse of the backend connection", PH), ("lock of the connection during an exchange", V + "stream/stream_http.c")],
     [("connections_map, reverse_map, pass_map", "who is connected to whom", PH.replace(".c", ".h"))], ["responses of every client, requests of every backend connection"], XP, SRVNOTE)
prop("X04", "A slow client does not make the proxy hold a whole response in memory",
     "While a client reads slower than the backend sends, the part of the response held by the server stays below 4 MB whatever the size of the response; the transfer is resumed, nothing is lost or repeated, and both connections are closed when either side leaves.",
     ["schedules", "inputs"], "responses of up to 16 MB in 3 framings, 3 pieces and 4 reading speeds; client or backend leaving after each of the first 40 (thorough: 120) sends",
     "Needs a slow reader of a large response.",
     [PH, IO, V + "polling/polling_epoll.c"], [("pause and resume of the reading from the backend", PH), ("read loop", IO)],
     [("pending_write, read_registered", "bytes queued to the client, reading allowed", PH.replace(".c", ".h"))], ["bytes taken from the backend less bytes taken by the client"], XP, SRVNOTE)
EP = V + "polling/polling_epoll.c"
SV = V + "system/service.c"
prop("S01", "Clients do not influence each other, and a slow one holds nobody back",
     "Every client receives exactly the bytes it would receive if it were alone, whatever other clients ask for at the same time, however their deliveries and the short writes to them interleave, and whatever was asked before on its connection. A client that stops reading, or that never stops sending, delays only itself.",
     ["schedules", "histories", "inputs"], "every pair (triple) of 14 requests under every interleaving with up to 2 (thorough: 4) deviations and 4 write sizes; every pair with one client blocked after 9 amounts of output; a client that sends without end in 10 ways and pieces of 3 sizes, with another one that asks at 4 moments; every sequence of 2 requests on 2 connections",
     "The tests never open a connection; interference needs two connections in particular states at once.",
     [V + "stream/stream_http.c", IO, EP, DH, FH], [("per connection parser, handler and queue", V + "stream/stream_http.c"), ("event loop", EP)],
     [("context of the request", "one per connection, allocated for the handler", FH)], ["output of every client against a solo run"],
     "exhaustive enumeration of request pairs and bounded deviation exploration of their interleavings on the real server", SRVNOTE)
prop("S02", "The server returns everything it acquires, over its life and when told to stop",
     "After any number of requests or connections, however they ended, the memory, connections and descriptors held are those held after two; when the server is told to stop, by call or by signal, at any moment, it closes every socket once and frees all memory before it returns.",
     ["histories", "crash_points"], "14 kinds of requests repeated on one connection or on many with two endings; two clients with every pair of requests and a stop at each of the first 12 (thorough: 60) waits in 2 forms",
     "Leaks and double releases appear only over time or when stopped in the middle of a transfer.",
     [SV, IO, EP, V + "stream/stream_http.c"], [("closing of the connections", SV), ("removal of closed connections at the end of the cycle", EP)], [], ["allocations and sockets at idle and after the stop"],
     "exhaustive enumeration of histories and stop points on the real server with allocation accounting", SRVNOTE)
prop("S03", "A failing system call costs at most its own request, never the service",
     "When opening a file or directory fails, accepting a connection fails, or a wait is interrupted, at any point, the request concerned gets its answer, a complete error or a cut, never other contents; all other clients, and those still to be accepted, are served as if nothing happened.",
     ["fault_sequences"], "14 requests x 2 configurations x the n-th open failing with 3 errors; 3 errors at each of the first 4 accepts for 2 and 3 clients under interleavings; every pair of requests with the wait interrupted at each of the first 8 (thorough: 40) waits",
     "Needs the operating system to refuse at a chosen call.",
     [IO, EP, FH, "src/viriatum_commons/io/file.c"], [("accept loop", IO), ("interrupted wait", EP), ("error answer of the handler", FH)], [], ["output of the clients, clients never accepted"],
     "exhaustive injection of failures at every call of the kinds listed, on the real server", SRVNOTE)
prop("S04", "Thousands of simultaneous clients are all served, whatever they do at once",
     "The number of connections that are open, ready, closing or reset at the same moment is not limited by the size of any internal table: every client is accepted and answered as if alone, and a mass departure or a stop of the server releases all of them.",
     ["inputs", "schedules"], "14 requests x 10 numbers of clients around multiples of the events of a cycle, up to 2047 (thorough: 8000), x 6 simultaneous events (served, half closed, reset, halves, mixed, stop)",
     "A test would need thousands of sockets acting within one cycle of the loop.",
     [EP, SV, "src/viriatum_commons/structures/linked_list.c"], [("tables of pending and removed connections", EP)], [], ["output of every client, memory errors, allocations after the stop"],
     "exhaustive enumeration of crowd sizes and simultaneous events on the real server", SRVNOTE)
prop("R02", "The service runs with the settings of its file, overridden by its command line",
     "The configuration file is read section by section and entry by entry, whatever its line endings, comments, lengths and order; the service takes address, ports, documents and lists from it, a setting given on the command line prevails over the file, one given nowhere keeps its default, and it listens exactly where those settings say. Locations and index files keep the order in which they are written.",
     ["configurations", "inputs"], "every text of up to 6 (thorough: 7) characters over 9; every sequence of up to 3 (thorough: 4) of 14 lines with 4 line endings; lengths around 5 limits; every sequence of up to 3 (thorough: 4) of 20 arguments; every pair (thorough: triple) of settings in file and command line; lists around the sizes of their tables",
     "The tests never read a configuration; errors need particular texts, or settings given in two places.",
     [V + "system/service.c", V + "viriatum.c", "src/viriatum_commons/ini/ini.c", "src/viriatum_commons/util/arguments_util.c"], [("reading of the file", "src/viriatum_commons/ini/ini.c"), ("precedence of the settings", V + "system/service.c")], [("options of the service", "filled from defaults, file and arguments", V + "system/service.h")], ["entries read, options in use, addresses bound"],
     "exhaustive enumeration of configuration texts, arguments and their combinations on the real reader and server against a reference", SRVNOTE)
prop("S05", "A service that can not start says so, holds nothing and may be started again",
     "When a call the start depends on fails, or a setting can not be used, the start reports an error, no socket remains open and no byte outside its buffers is touched; once the cause is gone the same configuration starts and serves. A start that reports success is listening.",
     ["fault_sequences", "configurations"], "the n-th call of socket, option, bind and listen failing with 4 errors, with one and two addresses; unusable settings in 5 forms with addresses of every length up to 90 (thorough: 130)",
     "Needs the operating system to refuse at a chosen call of the start.",
     [SV], [("error paths of the start", SV), ("release of the service", SV)], [("service_socket_handle, service_socket6_handle", "open listening sockets", V + "system/service.h")], ["result of the start, open sockets, a request served afterwards"],
     "exhaustive injection of failures at every call of the start, on the real server", SRVNOTE)
TP = "src/viriatum_commons/thread/thread_pool.c"
prop("T01", "Every task given to a thread pool runs exactly once, under every schedule",
     "Whatever the interleaving of the threads, every task inserted in a pool with at least one thread is run exactly once, inserting never blocks for ever, and as many tasks as there are threads can run at the same time. Deleting the pool waits for the tasks it was given, ends all of its threads and releases everything; the threads never access shared memory without order between them.",
     ["schedules", "fault_sequences"], "every schedule of 1 to 2 (thorough: 3) workers with up to 2 (3) tasks; with 1 (2) other inserting threads, tasks that insert tasks, wakeups without reason, thread creations that fail, tasks that wait for each other; pool kept or deleted",
     "The outcome depends on the scheduling of the threads, which a test does not control; the test of the pool is not even run.",
     [TP, "src/viriatum_commons/thread/thread_pool.h", "src/viriatum_commons/system/thread.h"], [("insertion and signal", TP), ("loop of the worker", TP), ("end of the pool", TP)],
     [("task_queue, stopped", "shared between the threads, under the task condition lock", "src/viriatum_commons/thread/thread_pool.h")], ["runs of every task, threads at rest, memory accesses"],
     "exhaustive exploration of the schedules of the real code under a controlled scheduler, with happens-before race detection on every one", LIBNOTE)
EN = "exhaustive enumeration of inputs within bounds on the real code against a reference"
prop("D01", "Digests, the checksum and the cipher do not depend on how the data is cut",
     "The digest of a message, by either of the two digest algorithms, is the one their definition gives, whatever its length and however it is cut into pieces, and computing it does not change the message. The checksum is the one its definition gives; the stream cipher gives the same bytes however the data is cut and whether or not it works in place, and ciphering twice gives the data back.",
     ["inputs", "histories"], "digests of every length up to 300 (thorough: 1100) in pieces of every size up to 130, and of lengths up to 140 (200) cut at every pair of positions, messages around half a gigabyte given at once (the limits of the 32 bit counters); the checksum of every string of up to 2 (3) bytes; the cipher with 13 key lengths over data cut everywhere",
     "The tests digest three fixed strings in one piece; errors need a length next to the end of a block or a cut inside one.",
     [SRC + "checksum/md5.c", SRC + "checksum/sha1.c", SRC + "crypto/rc4.c", SRC + "checksum/crc_32.c"], [("carry of the incomplete block", SRC + "checksum/md5.c"), ("padding", SRC + "checksum/sha1.c"), ("key schedule", SRC + "crypto/rc4.c")],
     [("context", "incomplete block and number of bits", SRC + "checksum/md5.h")], ["digest, checksum, ciphered bytes"], EN, LIBNOTE)
prop("D06", "Addresses are split in exactly their parts",
     "For any text that follows the generic syntax, the scheme, user, password, host, port, path, query and fragment reported are the ones the syntax gives, whichever are present, and a text with no scheme is refused. Nothing outside the text is read, and with parts of limited size one that does not fit is an error, never a truncated or overflowing one.",
     ["inputs"], "7 beginnings followed by every sequence of up to 5 (thorough: 7) tokens out of 12, each part at every length around its room, ports of up to 300 digits",
     "The tests parse two complete addresses; parts that are absent, empty or in an unusual place are never met.",
     [SRC + "formats/url.c", SRC + "formats/url.h"], [("state machine over the delimiters", SRC + "formats/url.c"), ("copy in the parts of limited size", SRC + "formats/url.c")], [], ["parts, error, memory accesses"], EN, LIBNOTE)
prop("D07", "Templates produce exactly what they designate",
     "The result of a template is its text with every value in the place of its tag, loops repeated for every element in order, with the values of that element, and conditional parts present exactly when their condition holds, for any nesting. Whatever the template, well formed or not, rendering ends, touches nothing outside of its buffers and releases everything; one that can not be opened is an error.",
     ["inputs"], "every well nested sequence of up to 5 (thorough: 6) pieces out of two sets of 18 and 15; 6 beginnings followed by every string of up to 5 (6) of 11 characters; every sequence of up to 4 (5) tags, closed or not; texts, names and literals of every length up to 200 (400)",
     "The test renders one template; nesting, absent values and text that looks like a tag need particular sequences.",
     [SRC + "template/engine.c", SRC + "template/handler.c"], [("state machine of the tags", SRC + "template/engine.c"), ("tree of nodes and its traversal", SRC + "template/handler.c")],
     [("nodes and names", "tree built from the text, values by name", SRC + "template/handler.h")], ["text produced, error, allocations"], EN, LIBNOTE)
prop("S06", "A secure connection carries the same answers, and its failures stay its own",
     "Over its secure listener the service gives every client that completes the handshake exactly the answers the plain listener gives, whatever the cutting of the bytes, the records and the changes of keys, and whatever sends are blocked or short, in the handshake as well as later; an end decided by the service is announced. A client that leaves, stops or sends damaged bytes at any place gets nothing wrong and never disturbs another connection.",
     ["fault_sequences", "crash_points", "schedules"], "two versions of the protocol; every cut (thorough: every pair of cuts) of the bytes of the client, 9 record sizes x 9 read sizes, any two (three) of the first 14 sends blocked or short, sends always slow; a client ended, reset or damaged at every byte while another is in 4 stages; 6 answers of a backend to 4 requests, with the faults above and with the client leaving at each of its last 60 bytes; two clients in every order with up to 3 (4) deviations",
     "Needs sends of the operating system to block at a chosen point of the handshake, or another connection to fail at a chosen byte.",
     [SIO, EP, SV], [("handshake resumed by the events", SIO), ("reads and writes of the secure connection", SIO), ("dispatch of the events", EP)],
     [("status, read_blocked, ssl_handle", "stage of the secure connection", V + "system/service.h")], ["answers decrypted by a real client, end of the connections"],
     "exhaustive enumeration of cuts, faults and event orders on the real server and the real cryptographic library, over a simulated network", SRVNOTE)
prop("S07", "What one peer can make the server hold in memory is bounded",
     "Whatever a client or a backend sends, however much of it, and whether or not the client takes its answers, the memory held for that exchange stays below a fixed bound (bodies meant for a backend are a recorded exception), and the other clients are answered. Requests that arrive while nothing can be sent are all answered, in order, once it can; heads of hundreds of kilobytes are still served.",
     ["inputs", "histories", "schedules"], "40 ways for a client and 16 for a backend to send without end, after a request or at once, x 6 amounts the client reads (thorough: x 3 sizes of the pieces), 24 MB each; pipelined requests of 3.5 MB that wait: 7 kinds in pairs x 3 (5) sizes x 3 rates of reading x 3 moments x 3 endings x 2 cuts; the same over a secure connection with 6 sizes of the records and 42 totals around the threshold; heads of 7 sizes up to 900000 bytes in 6 forms",
     "Unbounded growth shows only with input that never ends, and resuming only when reading was paused at the right byte.",
     [V + "stream/stream_http.c", V + "http/http_parser.c", IO, PH], [("limit of the head", V + "http/http_parser.c"), ("reading paused while an answer is sent", V + "stream/stream_http.c"), ("pace of the backend", PH)],
     [("buffer, buffer_offset, read_offset, lock", "what was received and not processed", V + "stream/stream_http.h")], ["allocations of the server at every read, answers at the client"],
     "exhaustive enumeration of endless inputs, paces and sizes on the real server with allocation accounting", SRVNOTE)
prop("D02", "Text encodings are inverted exactly, and malformed escapes are refused",
     "Encoding any bytes in base 64 or with percent escapes gives the text their definition gives, of the announced length, and decoding that text gives the bytes back. Decoding arbitrary text never reads outside it nor stores more than it reports, gives what the text designates when it is well formed, and an escape cut by the end of the text is an error.",
     ["inputs"], "every string of up to 3 bytes, lengths up to 700 (thorough: 3000) in 4 patterns, every string of up to 5 (7) characters over 9 as the encoded text",
     "The tests encode one or two strings of letters.",
     [SRC + "encoding/base_64.c", SRC + "encoding/percent.c"], [("groups and padding", SRC + "encoding/base_64.c"), ("escapes", SRC + "encoding/percent.c")], [], ["encoded and decoded bytes"], EN, LIBNOTE)
prop("D03", "Streams behave as an array of bytes, or of bits, with a position",
     "After any sequence of writes, reads, moves, flushes and openings, a memory or file stream holds exactly the bytes written at their positions, and reports its size and position. Bits written in groups of any size are stored in order, padded to a byte at the end, and are read back in groups of any size, from any position moved back to, whatever the limits of the internal buffers.",
     ["histories"], "every sequence of up to 6 (thorough: 9) operations of 4 sizes on memory streams, 5 (7) on file streams, of writes of 22 bit groups, and of reads and steps back from 7 positions around the limits of the buffer, equal states merged",
     "The tests write and read one short sequence inside one buffer.",
     [SRC + "stream/memory_stream.c", SRC + "stream/file_stream.c", SRC + "stream/bit_stream.c"], [("growth of the buffer", SRC + "stream/memory_stream.c"), ("bit buffer and position", SRC + "stream/bit_stream.c")],
     [("position and size", "where the next operation applies", SRC + "stream/memory_stream.h")], ["bytes, bits, size and position after every operation"], "explicit-state exploration of operation sequences on the real code", LIBNOTE)
prop("D04", "Entropy coding is lossless and as short as possible for any data",
     "Any sequence of bytes is coded in the smallest number of bits a code with one word for each byte value allows, and decoding, by walking the tree or by the table of prefixes, gives exactly the sequence back, for any distribution of values and any length, including none and a single value.",
     ["inputs"], "every string of up to 7 (thorough: 9) symbols over 4, every multiset of up to 5 (8) frequencies out of 10 in 3 orders, trees of every depth up to 20, lengths around every buffer limit with 1 to 256 symbols, and inputs of up to 560 KB with skewed distributions",
     "The test codes one file with a common distribution; deep trees, a single symbol or the end of a buffer are not met.",
     [SRC + "compression/huffman.c", SRC + "stream/bit_stream.c", SRC + "structures/priority_queue.c"], [("tree and codes", SRC + "compression/huffman.c")], [], ["number of bits, decoded bytes"], EN, LIBNOTE)
prop("D05", "Structured values survive encoding, and malformed encodings are refused",
     "Decoding the bencoding of any value gives an equal value; the encoding of integers, strings, lists and ordered maps is the canonical one. Decoding a text that is not exactly one complete value is an error, whatever the text, without reading outside of it and without leaving memory allocated.",
     ["inputs"], "every string of up to 6 (thorough: 7) characters over 11, every sequence of up to 6 (7) tokens out of 10 with every truncation, every value of up to 4 (6) nodes below 3 levels",
     "The test decodes well formed samples; truncation and nesting errors need particular positions.",
     [SRC + "encoding/bencoding.c", SRC + "structures/type.c"], [("recursive decoding with a cursor", SRC + "encoding/bencoding.c")], [], ["decoded tree, error, allocations"], EN, LIBNOTE)
prop("M01", "Modules that load are started, used and stopped once; the others are left out",
     "Every file of the modules directory that is named as a module is asked what it is, started once and named by the service, and is stopped and closed once at the end, whatever the modules beside it. A module with no library, with no entry, that can not tell what it is or that can not start is closed, never used and never stopped, and the service and the other modules work as without it.",
     ["configurations", "fault_sequences"], "every sequence of up to 4 modules of 7 kinds of working and failing, the service run to its end or stopped early; 30 names of files, alone and beside a working module",
     "No test loads a module; the failures need libraries that break at one stage and others beside them.",
     [V + "module/loading.c", SV], [("loading, describing and starting in stages", V + "module/loading.c"), ("scan of the directory, unloading at the end", SV)],
     [("modules_list, http_handlers_map", "modules in use", V + "system/service.h")], ["calls of the loader and of the modules, answers of their locations, names reported, allocations"],
     "exhaustive enumeration of module sets and failures on the real server over a simulated loader and network", SRVNOTE)
prop("P01", "Built for systems without epoll, the server serves every client just as well",
     "Built for systems that offer only the portable way of waiting for many sockets, the server gives every client exactly the answers it gives otherwise: whatever the order of arrivals, partial transfers, interruptions, and slow, leaving or hostile peers, over plain, proxied and encrypted connections. It never uses a connection after it was released and never spins while a peer keeps it waiting. When more clients arrive than can be watched, those beyond are closed at once and all the others are served.",
     ["schedules", "inputs", "fault_sequences"], "the scenarios of the isolation of clients, transfer faults, interruptions, stops, proxied exchanges, encrypted connections and held memory, repeated with that build at their quick bounds; up to 8000 clients at once with descriptors that are given again, 14 requests, 6 ways of leaving",
     "The tests run no server, and the build they use does not contain this code at all; its faults need a connection that ends while work is outstanding, a full buffer in a handshake, or a thousand clients.",
     [V + "polling/polling_select.c", V + "polling/polling_select.h", V + "system/service.c", V + "stream/stream_io.c"],
     [("sets of sockets, outstanding work and removal", V + "polling/polling_select.c"), ("reading, writing, handshakes", V + "stream/stream_io.c")],
     [("read_outstanding, write_outstanding, remove_connections", "work for connections and the released ones", V + "polling/polling_select.h")], ["bytes at the clients, end of the connections, descriptors used, number of waits, memory"],
     "exhaustive enumeration of requests, faults and event orders on the real server, built without epoll, over a simulated network with a level triggered select", SRVNOTE)
prop("P02", "Built without the optional libraries, the server serves files just as well",
     "Built where there are no libraries for encryption and regular expressions, and no second version of the internet protocol, the server still starts and gives the answers it gives otherwise to every request that needs none of them: framing, pipelines, persistence, ranges, revalidation, listings and the confinement to the served directory do not change.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "the scenarios of framing, pipelines, persistence, hostile input, transfer faults, whole files, ranges, revalidation, confinement and listings, repeated with that build at their quick bounds",
     "The tests run no server, and the build they use takes the other branch of every such condition.",
     ["src/viriatum_commons/stdafx.h", V + "handlers/handler_dispatch.c", V + "system/service.c", V + "stream/stream_io.c"],
     [("what is left of a feature that is not built in", V + "handlers/handler_dispatch.c"), ("start of the service", V + "system/service.c")],
     None, ["bytes at the clients, end of the connections, memory; the compilation itself"],
     "exhaustive enumeration of requests, faults and deliveries on the real server, built without OpenSSL, PCRE, epoll and IP6, over a simulated network", SRVNOTE)
prop("M02", "A request handled by a module gets the one answer of that module",
     "Each request for the picture, the diagnostics or the script gets exactly one complete answer, of that module, with the framing its method and connection ask for, in order among the other requests of any client. A script may write its answer in parts; one that fails before it wrote anything is answered as an error, and no script, however often it fails, disturbs later requests, other clients or the memory of the service.",
     ["histories", "schedules", "fault_sequences"], "every sequence of up to 3 (thorough: 4) requests over 4 locations and 3 methods in 4 deliveries, the module as location or as handler of the whole service; 41 scripts that fail, write in parts, too much or nothing, with every request after them; any result of the first 4 (8) sends and 4 endings; clients in every order of events; 14000 (60000) failures in a row",
     "No test reaches a module; the errors need a script that fails, a pipelined request or a short send at one place.",
     ["modules/mod_lua/src/viriatum_mod_lua/module/handler.c", "modules/mod_gif/src/viriatum_mod_gif/module/handler.c", "modules/mod_diag/src/viriatum_mod_diag/module/handler.c", V + "handlers/handler_dispatch.c"],
     [("the script, its errors and its writes", "modules/mod_lua/src/viriatum_mod_lua/module/handler.c"), ("lock of the connection while an answer is sent", V + "stream/stream_http.c")],
     [("lua_state, file_dirty, write_queue", "what the script left and what is to be sent", V + "system/service.h")], ["answers at the clients, end of the connections, allocations"],
     "exhaustive enumeration of requests, scripts, faults and event orders on the real server and the real modules over a simulated network", SRVNOTE)
