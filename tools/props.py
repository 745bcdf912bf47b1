"""Source of /verif/properties.jsonl (python3-vt tools/props.py rewrites it)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "Message framing is independent of how the byte stream is fragmented",
     "The protocol message buffer turns the bytes received from a server into exactly the messages they contain, in order, with "
     "none lost, repeated or altered, no matter how the bytes are cut into writes and how many messages are asked for per read. "
     "An incomplete message is withheld until its last byte arrives, and the bytes not yet delivered as messages can always be "
     "retrieved intact. The accelerated and the pure-Python buffer behave the same.",
     ["inputs", "schedules"],
     "every stream of message types, lengths and contents; every way to cut it into writes; every interleaving of reads (with or without a count) between the writes",
     "tests feed a few hand-written messages with a few cuts; the boundary cases are the product of cut position, header position and read pattern",
     ["postgresql/protocol/pbuffer.py", "postgresql/port/_optimized/buffer.c", "postgresql/protocol/buffer.py"],
     [("pq_message_stream", "postgresql/protocol/pbuffer.py"), ("pq_message_stream (C)", "postgresql/port/_optimized/buffer.c")],
     state=[("chunk list + offset", "bytes written and not yet consumed", "postgresql/port/_optimized/buffer.c")],
     observe=["write", "read", "next_message", "has_message", "getvalue", "len"])

prop("P02", "No bytes from the server can corrupt memory or be mistaken for a message",
     "Whatever bytes arrive, the accelerated protocol code never touches memory outside the data it was given, and never reports "
     "success while an error is pending or fails without one. A frame whose declared length is impossible is reported as an "
     "error, and any message type byte, including those above 127, is delivered as that byte.",
     ["inputs", "schedules"],
     "every byte content of the received data and every fragmentation of it, every declared length (32-bit, signed) and every type byte",
     "tests only send well-formed frames with ASCII message types; memory errors in C only show on specific values",
     ["postgresql/port/_optimized/buffer.c", "postgresql/port/_optimized/wirestate.c", "postgresql/port/_optimized/element3.c",
      "postgresql/port/_optimized/functools.c", "postgresql/port/_optimized/structlib.c"],
     [("pl_message_length / p_memcpy / p_build_tuple", "postgresql/port/_optimized/buffer.c"), ("ws_update", "postgresql/port/_optimized/wirestate.c"),
      ("_unpack_tuple_data", "postgresql/port/_optimized/element3.c")])

prop("P03", "COPY wire tracking finds every message boundary under any fragmentation",
     "While COPY data is passed through without being parsed, the tracker that follows the wire knows after every chunk exactly "
     "where message boundaries fall: how many bytes of the current message are missing, and where the first message that is not "
     "COPY data begins. The result depends only on the bytes seen so far, not on how they were cut into chunks, and is the same "
     "in the accelerated and the pure-Python tracker.",
     ["inputs", "schedules"],
     "every byte stream of COPY-data and other messages with any lengths, cut into any chunks",
     "the tests use a handful of fixed buffers; errors appear only when a header is split at a particular byte",
     ["postgresql/copyman.py", "postgresql/port/_optimized/wirestate.c"],
     [("WireState", "postgresql/copyman.py"), ("WireState (C)", "postgresql/port/_optimized/wirestate.c")],
     state=[("remaining_bytes, size_fragment, final_view", "position relative to message boundaries", "postgresql/copyman.py")],
     observe=["WireState.update", "WireState.remaining_bytes", "WireState.final_view"])

prop("P04", "Every protocol message has its specified wire form and parses back to itself",
     "Each message the client can send is encoded as its type byte, a four byte length that counts itself and the content, and the "
     "content laid out as the PostgreSQL 3.0 protocol specifies. For every backend message, parsing the bytes a server would send "
     "recovers exactly the fields that were sent, and serializing a parsed message reproduces those bytes.",
     ["inputs"],
     "all field contents (within the stated sizes), all field counts, all integers within each field's width",
     "tests serialize a couple of samples per message type; field widths, signedness, terminators and separators matter for the rest",
     ["postgresql/protocol/element3.py", "postgresql/protocol/version.py"],
     [("Message.bytes and the serialize/parse pair of each message class", "postgresql/protocol/element3.py")],
     observe=["Message.bytes", "serialize", "parse"])

prop("P05", "Row and parameter data survive the wire exactly, NULLs and empty values included",
     "Packing a sequence of attribute values into row or parameter data and unpacking it gives back the same values, with NULL, "
     "the empty value and the number of attributes all distinguished. Data whose sizes do not add up (too short, too long, "
     "impossible sizes) is rejected with an error rather than misread. The accelerated and the pure-Python versions agree.",
     ["inputs"],
     "all attribute counts and contents within the bound; all byte strings within the bound as malformed data",
     "tests use a few tuples; only a solver covers every combination of sizes, including negative and overrunning ones",
     ["postgresql/protocol/element3.py", "postgresql/port/_optimized/element3.c"],
     [("pack_tuple_data, TupleMessage.parse", "postgresql/protocol/element3.py"), ("_pack_tuple_data, parse_tuple_message, consume_tuple_messages", "postgresql/port/_optimized/element3.c")])

prop("P06", "Sending a batch of messages is the same as sending each of them in order",
     "The bytes produced for a queue of outgoing messages are the concatenation of the wire forms of its messages, in order, "
     "whatever mixture of row data, COPY data and other messages it holds and however the fast paths group them. The accelerated "
     "and the pure-Python versions produce the same bytes.",
     ["inputs"],
     "every sequence (within the bound) of messages of the kinds the client queues, with arbitrary contents",
     "tests try a few fixed mixtures; the grouping loops have boundaries at every change of kind",
     ["postgresql/protocol/element3.py", "postgresql/port/_optimized/element3.c"],
     [("cat_messages", "postgresql/protocol/element3.py"), ("cat_messages (C)", "postgresql/port/_optimized/element3.c")])

prop("P07", "Binary integer and float conversions are exact; out-of-range values are refused",
     "Every integer in range of a 2, 4 or 8 byte (signed or unsigned) type is encoded as its big-endian representation and decodes "
     "to itself, every out-of-range integer is refused with an error rather than truncated, and data that is too short is "
     "refused. The accelerated and the struct based versions agree; booleans and floating point values are carried bit for bit.",
     ["inputs"],
     "all integers (mathematical) and all byte strings of each width",
     "a 64-bit space cannot be sampled at every boundary; tests use powers of two only",
     ["postgresql/python/structlib.py", "postgresql/port/_optimized/structlib.c", "postgresql/types/io/lib.py"],
     [("mk_pack", "postgresql/python/structlib.py"), ("int2_pack ... swap_uint8_unpack", "postgresql/port/_optimized/structlib.c")])

prop("P08", "NUMERIC values are transferred without loss",
     "Encoding a decimal number as a PostgreSQL numeric and decoding it again gives a number equal to the original with the same "
     "number of fractional digits, and NaN stays NaN. What is sent is a well-formed numeric: base-10000 digits, weight, sign and "
     "display scale that denote that very value; and any well-formed numeric a server sends decodes to the value it denotes.",
     ["inputs"],
     "every sign, digit string (within the bound), exponent and scale; every numeric wire value within the digit bound",
     "tests have a list of literals; the digit-group alignment has sixteen cases per exponent sign that only show on particular digits",
     ["postgresql/types/io/stdlib_decimal.py"],
     [("numeric_pack, numeric_unpack", "postgresql/types/io/stdlib_decimal.py")])

prop("P09", "Dates, times, timestamps and intervals keep their value to the microsecond",
     "Encoding a date, time, timestamp or interval and decoding it gives back an equal value, microseconds included, and what is "
     "sent is the offset PostgreSQL defines (days or microseconds from 2000-01-01, months/days/time for intervals), for both the "
     "integer and the floating point server formats where the value is representable. Time zone aware values denote the same "
     "instant after the trip.",
     ["inputs"],
     "every representable date, time of day, timestamp, UTC offset and interval",
     "tests use a few dates; carries across midnight, epoch and sign changes need particular values",
     ["postgresql/types/io/stdlib_datetime.py", "postgresql/types/io/lib.py", "postgresql/python/datetime.py"],
     [("date/time/timestamp/interval pack and unpack", "postgresql/types/io/stdlib_datetime.py"), ("time_io, time_noday_io", "postgresql/types/io/lib.py")])

prop("P10", "Arrays and composites are transferred element for element",
     "An array or row value encoded for the server and decoded again has the same dimensions, bounds, element order, NULL positions "
     "and element bytes, and the encoding names the right element types and counts. Malformed or truncated array and composite "
     "data is refused with an error instead of yielding a shorter or shifted value.",
     ["inputs"],
     "all dimension vectors, lower bounds, NULL patterns and element contents within the bound; all malformed byte strings within the bound",
     "tests exercise a dozen arrays; off-by-one errors in flattening depend on the dimension vector",
     ["postgresql/types/io/lib.py", "postgresql/driver/pq3.py", "postgresql/types/__init__.py"],
     [("array_pack, array_unpack, record_pack, record_unpack", "postgresql/types/io/lib.py"), ("TypeIO.array_io_factory, record_io_factory", "postgresql/driver/pq3.py")])

prop("P11", "Array objects index, nest and flatten consistently",
     "Building an array from nested lists and converting it back gives the same nested lists, its elements in order are the "
     "flattened lists, and its dimensions match. Indexing with any valid index, positive or negative, addresses the element or "
     "sub-array that the same index addresses in the nested lists, and any invalid index raises IndexError; ragged nestings are refused.",
     ["inputs"],
     "all nesting shapes up to the bound and all integer indexes",
     "tests check a few shapes and mostly positive in-range indexes",
     ["postgresql/types/__init__.py"],
     [("Array", "postgresql/types/__init__.py")],
     observe=["Array.from_nest", "Array.nest", "Array.elements", "Array.__getitem__", "Array.get_element"])

prop("P12", "Bit strings, network addresses, hstore and geometry survive the wire",
     "A bit string, inet/cidr/macaddr address, hstore mapping, UUID, OID or integer vector, or point, line segment, box or circle sent to the server "
     "and read back is the value that was sent, and the bytes are those the type's PostgreSQL binary format defines. "
     "Bit strings keep every bit and their length, and indexing and concatenating them agrees with their text form.",
     ["inputs"],
     "all values within the size bound",
     "tests use one or two samples per type",
     ["postgresql/types/io/builtins.py", "postgresql/types/io/lib.py", "postgresql/types/bitwise.py", "postgresql/types/io/pg_network.py",
      "postgresql/types/io/pg_bitwise.py", "postgresql/types/io/contrib_hstore.py", "postgresql/types/io/pg_geometry.py", "postgresql/types/io/pg_system.py"],
     [("varbit_pack, net_pack, macaddr_pack, hstore io", "postgresql/types/io/lib.py"), ("Varbit", "postgresql/types/bitwise.py")])

prop("P13", "The textual bytea codec is lossless and never misreads escapes",
     "Every byte string encoded to the textual bytea form and decoded again is unchanged, the text form consists of printable "
     "characters and escapes PostgreSQL accepts, and every valid escaped text decodes to the bytes PostgreSQL would read.",
     ["inputs"],
     "all byte strings and all escaped texts up to the length bound",
     "tests try single bytes; escapes next to digits, backslashes and the end of text need combinations",
     ["postgresql/encodings/bytea.py"],
     [("encode, decode", "postgresql/encodings/bytea.py")])

prop("P14", "A request completes exactly when the server's answer to it is complete",
     "For every sequence of commands sent and every conforming server answer, cut into any batches, the request is reported "
     "complete when and only when the last message of the answer has been processed, every message is handed to the command it "
     "answers, in order and exactly once, and messages after the answer are left alone. How the answer is cut into batches does "
     "not change the outcome.",
     ["histories", "schedules", "inputs"],
     "all command sequences within the bound, all conforming answers to each, all cuts of the answer into batches",
     "tests use a live server, where the batching is whatever the network delivers",
     ["postgresql/protocol/xact3.py"],
     [("Instruction.state_machine, standard_put, put_copydata, put_tupledata", "postgresql/protocol/xact3.py")],
     state=[("state, last, completed, hook", "progress through the commands and their answers", "postgresql/protocol/xact3.py")],
     observe=["Instruction.messages_received", "Instruction.state", "Instruction.completed", "Instruction.error_message"])

prop("P15", "Errors and unexpected messages leave the protocol synchronized or declared dead",
     "When the server reports an error, everything up to its ready-for-query is skipped, the error is kept for the caller and the "
     "connection can be used again at that point and not before. A message that is illegal at its position, or a fatal error, "
     "marks the exchange failed for good; nothing that follows can turn it into a success.",
     ["histories", "fault_sequences"],
     "every position of an error or an illegal message in every answer within the bound, in every batch cut",
     "tests provoke a few SQL errors; an error at each protocol step and a violation by the server cannot be provoked with a live server",
     ["postgresql/protocol/xact3.py"],
     [("Instruction.standard_put, put_* error branches, Negotiation.state_machine", "postgresql/protocol/xact3.py")],
     observe=["Transaction.fatal", "Transaction.error_message", "Transaction.state"])

prop("P16", "Notices, parameter changes and notifications are never lost or repeated",
     "An asynchronous message (notice, notification, parameter status) arriving at any point of any exchange is delivered exactly "
     "once, in arrival order, and does not disturb the exchange it interrupts. Identical notifications are separate events.",
     ["histories", "schedules"],
     "every position of asynchronous messages in every answer within the bound, and every batch cut",
     "asynchronous messages arrive when the server chooses; tests cannot place them between any two messages",
     ["postgresql/protocol/xact3.py", "postgresql/driver/pq3.py"],
     [("asynchook / message_filter", "postgresql/protocol/xact3.py"), ("Connection._receive_async", "postgresql/driver/pq3.py")])

prop("P17", "Authentication reveals the password only as the server's request allows",
     "During connection start-up nothing derived from the password is sent before the server asks for it, and what is sent has the "
     "form that request defines (plain text only for the clear-text method, salted MD5 for the MD5 method). Unsupported methods, "
     "errors and out-of-order messages end the attempt as failed; it succeeds only after authentication is accepted and the server "
     "is ready, and the cancel key of the session is the one the server gave.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of server messages within the bound, with every authentication code and salt, and every password within the bound",
     "the test server offers one or two methods and never misbehaves",
     ["postgresql/protocol/xact3.py", "postgresql/protocol/element3.py"],
     [("Negotiation", "postgresql/protocol/xact3.py"), ("Authentication, Password, KillInformation", "postgresql/protocol/element3.py")],
     observe=["Negotiation.messages", "Negotiation.state", "Negotiation.fatal"])

prop("P18", "Outgoing bytes reach the socket once and in order; lost connections are reported",
     "Whatever the socket does on each call (accepts part of the data, would block, is interrupted, fails, closes), the bytes the "
     "socket accepted are exactly a prefix of the bytes queued, nothing sent twice or skipped, and data read is passed on complete "
     "and in order. A failed or closed socket ends the exchange as a connection failure and is never reported as success.",
     ["schedules", "fault_sequences", "crash_points"],
     "every sequence of partial sends, short reads, would-block, interrupt, error and end-of-file outcomes within the bound",
     "tests run on a local socket that accepts everything at once",
     ["postgresql/protocol/client3.py", "postgresql/python/socket.py"],
     [("Connection.write_messages, send_message_data, read_into, step, complete", "postgresql/protocol/client3.py")],
     state=[("message_data, read_data", "bytes accepted for sending and not yet sent; bytes received", "postgresql/protocol/client3.py")])

prop("P19", "The sslmode policy is honoured against every server behaviour",
     "With sslmode 'require' no start-up data is ever sent over an unencrypted socket, and with 'disable' encryption is never "
     "negotiated; 'prefer' tries encryption first and 'allow' tries it last, falling back only as those modes permit. For every "
     "combination of addresses and server reactions the attempts made follow that policy, and the connection either opens on an "
     "attempt the policy allows or raises an error with every failed attempt reported.",
     ["configurations", "fault_sequences", "histories"],
     "each sslmode, each list of addresses within the bound, each reaction of the server at each step",
     "the tests need one server per SSL configuration and cannot make it misbehave mid-handshake",
     ["postgresql/driver/pq3.py", "postgresql/protocol/client3.py"],
     [("Connection._establish / connect", "postgresql/driver/pq3.py"), ("Connection.connect, negotiate_ssl", "postgresql/protocol/client3.py")])

prop("P20", "Transaction blocks and savepoints always issue the matching statement",
     "For every way of starting, nesting, entering, leaving, committing and rolling back transaction objects, the statements sent "
     "open and close blocks and savepoints in properly nested order: a block left normally is committed or released, a block left "
     "by an exception is rolled back, and the exception is not swallowed. Misuse (finishing what was not started, restarting what was "
     "finished) raises without sending anything, and repeating what was done already sends nothing.",
     ["histories"],
     "every sequence of operations within the bound on nested transaction objects, with every outcome of the body and server state",
     "tests try about a dozen histories; nested error paths multiply",
     ["postgresql/driver/pq3.py"],
     [("Transaction", "postgresql/driver/pq3.py")],
     observe=["Connection.execute", "Transaction.state"])

prop("P21", "Reading a result in any pieces yields every row once and in order",
     "Whatever the chunk sizes the server delivers and whichever interface is used to read (rows, chunks, first, column, cursor "
     "reads, DB-API fetches of any size), the rows obtained are the rows of the result, complete, in order and without repetition, and the "
     "end of the result is reported exactly when it is reached.",
     ["inputs", "schedules"],
     "every result size, every chunking of it, and every sequence of fetch sizes within the bound",
     "tests use small results with the default chunk size; boundaries between chunks and fetches are rarely hit",
     ["postgresql/driver/pq3.py", "postgresql/driver/dbapi20.py", "postgresql/python/itertools.py"],
     [("Output, Chunks, FetchAll, StreamingChunks, Rows", "postgresql/driver/pq3.py"), ("Portal", "postgresql/driver/dbapi20.py"), ("chunk", "postgresql/python/itertools.py")])

prop("P22", "Cursor movement commands move the server-side cursor where the API says",
     "For every direction of the cursor and every combination of seek, read and direction changes, the FETCH and MOVE commands sent "
     "leave the server-side cursor at the position a file-like seek from the start, the current position or the end of the result denotes, and reads "
     "return rows in the cursor's direction from that position on. A cursor whose direction is backward acts as a forward cursor over the reversed result would.",
     ["histories", "inputs"],
     "every sequence of operations within the bound, all offsets (not negative from the start or the end), both directions and any result size",
     "tests script a few movements; sign and direction combine multiplicatively",
     ["postgresql/driver/pq3.py"],
     [("Cursor._which_way, seek, read, __next__", "postgresql/driver/pq3.py")])

prop("P23", "Quoted literals and identifiers can never break out of their quotes",
     "A string quoted as a literal or as an identifier is read by a standard SQL lexer as one token whose value is the original "
     "string, for every string. A qualified name built from parts splits back into exactly those parts, and identifiers are quoted "
     "whenever leaving them bare would change their meaning.",
     ["inputs"],
     "all strings up to the length bound over all code points",
     "injection cases depend on quote and backslash placement that tests only sample",
     ["postgresql/string.py", "postgresql/driver/pq3.py"],
     [("quote_literal, quote_ident, quote_ident_if_needed, qname, split_qname", "postgresql/string.py"), ("Connection.listen/unlisten, Transaction savepoint names", "postgresql/driver/pq3.py")])

prop("P24", "SQL inside quotes survives splitting and parameter replacement",
     "Splitting SQL text at quotes or statement separators and joining the parts again reproduces the text exactly; separators and "
     "parameter markers inside literals, quoted identifiers and dollar quotes are left alone. Replacing DB-API parameter "
     "markers numbers every marker consistently and changes nothing else.",
     ["inputs"],
     "all texts up to the length bound over the characters that matter to the lexer plus arbitrary others",
     "the tokenizer's interplay of quote kinds needs combinations that tests do not enumerate",
     ["postgresql/string.py", "postgresql/driver/dbapi20.py"],
     [("split, unsplit, split_sql", "postgresql/string.py"), ("Cursor._convert_query, percent_parameters, convert_keywords", "postgresql/driver/dbapi20.py")])

prop("P25", "Connection IRIs mean the same after being written and read",
     "Writing connection parameters as an IRI and parsing it gives back the same user, password, host, port, database, driver "
     "parameters and settings, whatever characters they contain (a password needs a user, and a port a host). Components that were percent-escaped are decoded exactly once, "
     "and a password is only written when asked for.",
     ["inputs"],
     "all parameter combinations with all contents up to the length bound",
     "tests list sample IRIs; delimiters inside components are the failing inputs",
     ["postgresql/iri.py", "postgresql/resolved/riparse.py"],
     [("structure, construct, parse, serialize", "postgresql/iri.py"), ("split, unsplit, parse, serialize, split_netloc", "postgresql/resolved/riparse.py")])

prop("P26", "Password file lookup selects the first matching entry and its exact password",
     "Looking up a password returns the password of the first line whose host, port, database and user fields all equal the "
     "connection's or are '*', with backslash escapes of ':' and '\\\\' undone, and nothing when no line matches. Comments and malformed lines "
     "never supply a password.",
     ["inputs"],
     "all files (lines and contents within the bound) and all connection parameters",
     "tests use one sample file",
     ["postgresql/pgpassfile.py"],
     [("parse, lookup_password, lookup_pgpass", "postgresql/pgpassfile.py")])

prop("P27", "Connection parameter sources override each other in a fixed order",
     "Explicit options override environment variables, which override given parameters, which override defaults; a later "
     "occurrence overrides an earlier one key by key, and settings are merged rather than replaced. Service and IRI sources expand in place "
     "of where they occur.",
     ["inputs", "configurations"],
     "every assignment of values to the parameter sources within the bound",
     "tests do not cover combinations of sources",
     ["postgresql/clientparameters.py"],
     [("collect, extrapolate, normalize, envvars, denormalize_parameters", "postgresql/clientparameters.py")])

prop("P28", "Editing a configuration file changes the requested settings and nothing else",
     "After settings are altered in a configuration file, reading it gives the new value of every altered setting, a setting altered "
     "to nothing is no longer set, and every other setting, comment and line is preserved. Values with quotes, hashes and spaces are "
     "written so that they read back exactly.",
     ["inputs"],
     "all files within the bound (lines of any characters) and all values within the bound",
     "tests cover some thirty fixed files",
     ["postgresql/configfile.py"],
     [("alter_config, read_config, parse_line, unquote", "postgresql/configfile.py")])

prop("P29", "The notification loop delivers every notification exactly once, in order",
     "Iterating a notification manager over any set of connections yields every notification received on each connection exactly "
     "once and in the order received on it, never an idle event while collected notifications are undelivered, and puts failed connections aside without "
     "losing the notifications of others.",
     ["histories", "schedules", "fault_sequences"],
     "every arrival pattern over connections and iterations within the bound, every timeout setting and clock, connection failures at any point",
     "arrival times cannot be controlled with a live server",
     ["postgresql/notifyman.py"],
     [("NotificationManager", "postgresql/notifyman.py")])

prop("P30", "Advisory lock objects hold all their locks or none, and release what they hold",
     "A non-blocking acquisition that cannot get every identifier releases exactly those it did get and reports failure; after a "
     "success, the locks stay held until the matching number of releases, at which point exactly the acquired locks are "
     "released. Releasing an unacquired lock raises.",
     ["histories", "schedules"],
     "every sequence of acquire and release within the bound, every identifier list, every pattern of contention",
     "contention patterns need other sessions; tests try two or three",
     ["postgresql/alock.py"],
     [("ALock.acquire, release, _split_lock_identifiers", "postgresql/alock.py")])

prop("P31", "Server error codes always map to the right exception class and survive reporting",
     "Every five character error code is raised as the exception class declared for that code, else as the class declared for the "
     "code's class, else as the generic error; warnings likewise. All fields of the server's message reach the exception, and its "
     "fatality follows its severity.",
     ["inputs"],
     "all five-character codes and all field contents within the bound",
     "tests look up a few codes",
     ["postgresql/exceptions.py", "postgresql/message.py", "postgresql/driver/pq3.py"],
     [("ErrorLookup, WarningLookup, map_errors_and_warnings", "postgresql/exceptions.py"), ("TypeIO.raise_error, TypeIO.emit_message, TypeIO.decode_notice", "postgresql/driver/pq3.py")])

prop("P32", "Row objects give the same value by index, name and mapping, for any columns",
     "A result row accessed by position, by column name, as a mapping or by iteration gives the same values, names that do not "
     "exist raise, and conversions between rows, sequences and mappings and column transformations keep every other value in place.",
     ["inputs"],
     "all numbers of columns, names, values and indexes within the bound",
     "tests use a few fixed rows",
     ["postgresql/types/__init__.py", "postgresql/types/namedtuple.py"],
     [("Row", "postgresql/types/__init__.py"), ("namedtuple.NamedTuple", "postgresql/types/namedtuple.py")])

prop("P33", "COPY transfers move every row whole to every receiver, failures included",
     "A COPY between a producer and receivers passes every row to every receiver that stays healthy, exactly once, in order and "
     "unaltered, at whatever points the data is cut. When a receiver or the producer fails at any byte, the remaining connections "
     "are brought back to a message boundary and the fault is reported with the parties concerned. A transfer that does not run "
     "to the end of its data is reported as failed, never as complete.",
     ["schedules", "fault_sequences", "inputs"],
     "every cut of the byte stream and every position and kind of failure within the bound",
     "tests inject failures at a few places",
     ["postgresql/copyman.py"],
     [("CopyManager, Producer and Receiver classes", "postgresql/copyman.py")])

prop("P34", "Server-side statements and cursors are closed once and never while in use",
     "When a statement or cursor object is closed or discarded, its server-side counterpart is closed by exactly one later close "
     "request on the same connection, and no close request names an object that is still in use or was not created by this client. Close "
     "requests queued while a request is in progress are sent with a later request.",
     ["histories", "schedules"],
     "every history of preparing, declaring, closing and discarding within the bound",
     "the server hides missed or doubled closes; tests do not look at the wire",
     ["postgresql/driver/pq3.py"],
     [("Statement.close/__del__, Output.close, Connection._pq_push garbage handling", "postgresql/driver/pq3.py")])

prop("P35", "A SQL library file yields exactly the symbols it defines",
     "Parsing a library file gives one symbol per section with its declared name, type and execution method, and source text equal "
     "to the section's text with leading comments taken as documentation and references replaced by the referenced source.",
     ["inputs"],
     "all library texts within the line and length bounds",
     "tests use one sample library",
     ["postgresql/lib/__init__.py"],
     [("ILF.from_lines, SymbolCollection", "postgresql/lib/__init__.py")])

prop("P36", "Server version strings are parsed and compared as numbers",
     "Parsing a server version string recovers its numeric components and state, writing it back gives the same string, and "
     "normalized versions order as the versions do.",
     ["inputs"],
     "all version strings of the documented forms up to the digit bound",
     "tests list a few versions",
     ["postgresql/versionstring.py"],
     [("split, unsplit, normalize", "postgresql/versionstring.py")])

prop("P37", "Starting, stopping and initializing a cluster leaves it in the reported state",
     "After a cluster is initialized, started, stopped, restarted or dropped, the server processes and data directory are in the "
     "state the call reports, whatever the timing of the server's own start and exit.",
     ["schedules", "crash_points"],
     "every timing of the server process relative to the control calls",
     "tests run one timing per run",
     ["postgresql/cluster.py", "postgresql/installation.py"],
     [("Cluster", "postgresql/cluster.py")])

prop("P38", "Values decode to what the server means by them",
     "For every server version and every value the server can produce for a supported type, the decoded Python value is the one the "
     "server's own text output denotes.",
     ["inputs", "configurations"],
     "all server versions and values",
     "the test server is one version",
     ["postgresql/types/io/__init__.py"],
     [("type I/O tables", "postgresql/types/io/__init__.py")])

prop("P39", "Connections used from several threads stay consistent",
     "A connection used from several threads never mixes up the requests and answers of different threads.",
     ["schedules"],
     "all interleavings of threads at the bytecode level",
     "thread schedules are not controlled by the tests",
     ["postgresql/driver/pq3.py"],
     [("documented as not thread safe", "postgresql/notifyman.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
