#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that the statements stay reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                  "mechanism": [dict(name=n, where=w) for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "End-to-end: exactly once, in order, byte-identical",
  "Every message a sender accepts before End is called is returned by a receiver listening with the same transport exactly once, with exactly the bytes of its encoding, in sending order per producer, and nothing that was not sent is ever returned. This holds over TCP, unix stream and unix datagram sockets, for all three framings (for the LF and NUL framings: messages whose encoding does not contain the terminator), whatever the message sizes (up to hundreds of KiB on streams, up to 200 KB - what a socket sends by default - in datagrams), the number of concurrent producers and senders, and the way the network cuts the byte stream.",
  ["inputs", "schedules", "histories"],
  "all sequences of messages (any size mix, with and without structured data and text), all interleavings of producers, flush ticks and reads, all three networks and framings",
  "TestBurst sends one constant 80-byte message from one goroutine; no test mixes sizes, uses structured data over a socket, or has two producers, so buffer boundaries, frame scanning across messages and ordering are never exercised",
  ["connector.go", "transport.go", "message.go", "message-immutable.go", "listener.go", "listener-tcp.go", "listener-unix.go", "listener-unixdgram.go"],
  [("queue + flushQueue", "connector.go"), ("Encode / PrefixStrip / SuffixStrip", "transport.go"), ("Parse", "message-immutable.go"), ("tokenize", "listener.go"), ("fakeConn.Read", "listener-unixdgram.go")],
  ["Sender.Send / Channel.Log call and return", "Receiver.Receive results"],
  [("Sender.queue", "frames accepted and not yet written", "connector.go"), ("tokenize buffer", "bytes received and not yet decoded", "listener.go")])

p("C02", "Sender writes every accepted message once, whole, in FIFO order",
  "Whatever the interleaving of concurrent sends, flush ticks and End, the bytes a sender writes to a healthy connection are exactly the frames of the accepted messages, each once, in an order that respects real time (a send that returned before another began comes first), and when End returns all of them have been written and the connection has then been closed once. A send that races with or follows End either has its message written or returns an error. On the connection of a custom connector each Write call carries exactly one frame, so that a datagram is one message.",
  ["schedules", "histories", "inputs"],
  "all interleavings of senders, ticker events and End, any number of messages between flushes (below and above the queue's initial capacity), any encodable message",
  "the tests never compare what reached the connection with what was accepted under concurrent producers, never race a send with End, and never look at Write boundaries",
  ["connector.go", "dialer.go", "channel.go"],
  [("lock around queue append and flush", "connector.go"), ("runQueue final drain", "connector.go"), ("unixgram wrapper without writev", "connector-local.go")],
  ["calls to the WriteCloser returned by a monitoring Connector", "Send / End call and return events"],
  [("Sender.queue", "accepted frames in order", "connector.go")])

p("C03", "No accepted message is lost or torn when connections fail",
  "If connecting fails any number of times, or a connection fails after any byte of any frame, then once a working connection is obtained every accepted message not completely written before is written whole on a later connection, in order; the bytes put on each connection are whole frames from its first byte (only the last frame of a failed connection may be cut) and a frame completely written is not written again. Transient buffer exhaustion (ENOBUFS) keeps the connection and resumes where it stopped; any other failure is reported on the error channel and the failed connection is closed.",
  ["fault_sequences", "crash_points", "schedules"],
  "every fault position: k-th connect, every byte offset of every frame, several faults in a row, reported as plain errors, net.OpError, ENOBUFS, with or without partial writes, with one or many frames queued",
  "no test injects a connection or write failure",
  ["connector.go"],
  [("reconnect on error and resume", "connector.go"), ("ENOBUFS special case", "connector.go")],
  ["Connect, Write and Close calls at a fault-injecting Connector", "the error channel"],
  [("Sender.output", "current connection or none", "connector.go"), ("Sender.queue", "frames not yet completely written", "connector.go")])

p("C04", "Logging stays live: no panic, no wedge, delivery within a flush period",
  "Sending, flushing and ending never panic and never deadlock, whether or not anything was ever sent or connected, whether or not anybody reads the error channel, and however many connection or write errors have happened before. With a healthy destination a message is delivered no later than the next flush tick without End being called; once a failing destination recovers everything accepted is delivered by the following ticks or by End, which then returns. A message the destination can never take (a datagram above the size limit) is reported and does not stop the messages after it.",
  ["fault_sequences", "schedules", "histories"],
  "all sequences of send / tick / failure / recovery / End, with the error channel read, read late, or never read",
  "tests run with a healthy server, always send something, and read at most one error; virtual-time liveness is not measurable by them",
  ["connector.go", "dialer.go"],
  [("runQueue select loop and final drain", "connector.go"), ("error channel of capacity 1", "connector.go"), ("FlushDelay ticker", "dialer.go")],
  ["virtual-time delivery instants at a monitoring Connector", "return of Send and End", "process crash output"])

p("C05", "The public API is free of data races",
  "Using one Syslog, its channels and sub-syslogs, one Sender, one Receiver, the structured-data registry and shared messages from any number of goroutines at once never makes the library perform unsynchronised conflicting memory accesses. In particular channels can be obtained, derived and logged to, messages decoded and re-encoded, and senders and receivers ended, all concurrently.",
  ["schedules"],
  "all interleavings of concurrent API calls on shared library objects",
  "tests are run without the race detector and use one goroutine per object",
  ["syslog.go", "channel.go", "connector.go", "listener.go", "message.go", "sdata/list.go"],
  [("Sender.lock", "connector.go"), ("registry lock", "sdata/list.go"), ("lazy channel table", "syslog.go")],
  ["Go race detector reports with a library frame"],
  [("Syslog.channels", "lazily built table of channels", "syslog.go"), ("registry.sdids", "known SD ids", "sdata/list.go")])

p("C06", "Severity routing and channel context are exact",
  "For a syslog made with minimal priority F|S, the channel for severity s logs exactly when s <= S, each message it logs carries priority F|s, the host, the process id, the configured application name and msgid, exactly the given text and structured data, and every channel with s > S logs nothing and says so with IsDevNull. Sub-syslogs and channels derived with AppName (which appends \"/name\") and Msgid, in any combination and order, keep that behaviour and change only the named field; concurrent first use gives the same channels.",
  ["inputs", "configurations", "histories", "schedules"],
  "all 24 facilities x 8 minimal severities x 8 channel severities, all derivation sequences, all names and texts, concurrent first use",
  "tests use LogDAEMON|LogWARNING with one ERR and one INFO channel and a single derivation",
  ["syslog.go", "channel.go", "helpers.go"],
  [("channel table built from minSev", "syslog.go"), ("AppName / Msgid derivation", "channel.go"), ("devnull", "channel.go")],
  ["frames at a monitoring Connector", "IsDevNull"])

p("C07", "Everything emitted is syntactically valid RFC 5424",
  "For every priority 0..191, every timestamp of years 0 to 9999 with a whole-minute zone offset and arbitrary byte strings for host, application, process id, message id, message text, structured-data names and values, given through any public constructor, setter, channel or sub-syslog, the encoding is one syntactically valid RFC 5424 message: header fields are 1 to 255/48/128/32 printable ASCII characters (\"-\" when empty), invalid octets are replaced one for one and overlong fields cut to the limit, and nothing in one field can add, remove or change another field. The text is the given text without its trailing white space.",
  ["inputs", "configurations"],
  "all byte strings in every field (lengths around every limit), all setter orders",
  "tests encode three short clean messages",
  ["message.go", "helpers.go", "channel.go", "syslog.go", "sdata/structured-data-encoder.go", "sdata/list.go"],
  [("validatorGeneric", "helpers.go"), ("Marshal5424", "message.go"), ("PrefixedWrite escaping", "sdata/structured-data-encoder.go")],
  ["Message.Marshal5424 / String", "frames at a monitoring Connector"])

p("C08", "Encode then decode gives the message back",
  "Decoding the encoding of any message yields the same priority, the same instant (to the microsecond), host, application, process id, message id, text and structured data, and turning the decoded message into a writable one and encoding it again gives identical bytes. String, WriteTo and Marshal5424 agree.",
  ["inputs"],
  "all messages the library can build: any texts (including ones with brackets, quotes, spaces, backslashes), zero or more structured-data elements of every kind, with or without text",
  "ten fixed messages are decoded; none has structured data followed by text with a bracket, an element without parameters, or empty-text combinations",
  ["message.go", "message-immutable.go", "sdata/list.go", "sdata/sd-unknown.go", "sdata/tokens.go"],
  [("Parse field index", "message-immutable.go"), ("Writable", "message-immutable.go"), ("Marshal5424", "message.go")],
  ["Parse result accessors", "Writable().Marshal5424()"])

p("C09", "Decoding arbitrary bytes never crashes and never alters input",
  "For every byte string, every transport (or none) and either end-of-input flag, decoding terminates without panic; on success every accessor, String, WriteTo, Writable and the re-encoding of the result work without panic, the decoded message is a contiguous part of the input and the returned rest is a strictly shorter suffix of it. The input bytes are never modified. The same holds for the framing functions, for decoding of structured data and of priorities.",
  ["inputs"],
  "all byte strings (truncations, bit flips and splices of valid messages, extreme length headers, exact-capacity slices)",
  "tests decode only well-formed messages",
  ["message-immutable.go", "transport.go", "priority.go", "sdata/list.go", "sdata/sd-unknown.go", "sdata/tokens.go", "sdata/sd-generic.go", "sdata/timequality/tq.go"],
  [("bounds handling in Parse", "message-immutable.go"), ("length header check", "transport.go"), ("Found prefix checks", "sdata/timequality/tq.go")],
  ["return values of Parse, accessors, PrefixStrip/SuffixStrip, sdata.Parse, Unmarshal5424", "panics"])

p("C10", "Valid third-party RFC 5424 messages are decoded exactly",
  "Every message that is valid under the RFC 5424 grammar, whoever produced it, is decoded without error and each accessor returns exactly the field the grammar assigns: priority, timestamp, host, application, process id, message id, every structured-data element in order (including elements without parameters, empty values, escapes and one-letter names) and the text. String and WriteTo give back the exact bytes, and the writable copy carries the same field values (a nil timestamp is the zero time).",
  ["inputs"],
  "all words of the RFC 5424 grammar",
  "tests decode ten examples of the RFC",
  ["message-immutable.go", "sdata/tokens.go", "sdata/sd-unknown.go", "priority.go"],
  [("Parse", "message-immutable.go"), ("structured data scanner", "message-immutable.go"), ("unknown SD decoder", "sdata/sd-unknown.go")],
  ["Parse accessors compared with the grammar derivation that generated the bytes"])

p("C11", "Framing is reversible and independent of chunking",
  "For each transport, any sequence of encoded messages concatenated into a stream is split back into exactly those messages in order however the stream is cut into reads (every cut position, one byte at a time, with the end of input announced with or after the last bytes), whatever their sizes (a receiver takes frames of up to 16 MiB) and whether or not they have text or structured data. An incomplete frame is never delivered as a complete message while more input may come. Encoding a frame never changes the message bytes given to it.",
  ["inputs", "schedules"],
  "all message sequences, all partitions of the stream into reads, all read-buffer alignments",
  "transport tests strip one or two copies of one message from a complete buffer",
  ["transport.go", "message-immutable.go", "listener.go"],
  [("PrefixStrip / SuffixStrip", "transport.go"), ("frame isolation in Parse", "message-immutable.go"), ("buffer management in tokenize", "listener.go")],
  ["Receiver.Receive results over a scripted DataReader", "Parse message/rest over prefixes"])

p("C12", "A malformed frame or hostile peer affects nobody else",
  "A malformed message inside a delimited frame produces exactly one error result for that frame and no effect on the frames before and after it on the same connection. A stream whose framing itself is broken (invalid RFC 5425 length header) gets its error reported and its connection closed; whatever one connection sends, the process does not crash and the messages of all other connections are delivered exactly once, unchanged. A datagram longer than what the receiver accepts is an error, and no part of it is returned as a message. A peer that sends a frame without end, or frames faster than they are received, does not make the receiver hold an unbounded amount of memory.",
  ["inputs", "fault_sequences", "schedules"],
  "all byte streams sent by hostile peers, all mixes of malformed and valid frames, all numbers of concurrent connections",
  "no test sends a malformed frame or uses two connections",
  ["listener.go", "message-immutable.go", "transport.go"],
  [("per-connection goroutine", "listener.go"), ("frame isolation", "message-immutable.go"), ("header validation", "transport.go")],
  ["sequence of Receive results per connection", "Close calls on the DataReader", "process crash output"])

p("C13", "A connection's end loses no complete message and leaks nothing",
  "However a receiving connection ends (EOF alone or with data, EOF inside a frame, a read error with or without data), all complete frames read before are delivered, an unterminated last frame is delivered as a message for the NUL framing and reported as incomplete for the LF and RFC 5425 framings, a read error is reported on the error channel, and the connection is closed without further reading. Failures to accept a connection are reported and do not stop or crash the receiver, even when nobody reads the error channel.",
  ["fault_sequences", "inputs"],
  "every end position in the stream, every kind of end, sequences of accept failures, error channel read or not",
  "tests end every connection cleanly after a complete frame and stop looking there",
  ["listener.go", "transport.go"],
  [("EOF and error handling in tokenize", "listener.go"), ("accept loop", "listener.go")],
  ["Read/Close calls on scripted DataReaders", "Receive results", "error channel"])

p("C14", "Ending a receiver is complete, safe and bounded",
  "After End, at any moment and with any number of open, idle or busy connections and blocked producers, the listener and all accepted connections are closed, results already queued can still be received in order, then Receive reports that the receiver is finished, and every goroutine of the receiver terminates. No panic occurs, nothing is delivered twice, and End does not put errors on the error channel.",
  ["schedules", "histories"],
  "all states of the receiver at End: no connection, idle connections, connections in mid-frame, full queue, concurrent new connections, each listener type",
  "tests call End as their last action and never look at what happens afterwards",
  ["listener.go", "listener-tcp.go", "listener-unix.go", "listener-unixdgram.go"],
  [("end channel and pipeline close", "listener.go"), ("Close", "listener-unixdgram.go")],
  ["Receive results after End", "Close calls", "goroutine census"])

p("C15", "Go values are encoded as faithful, well-formed structured data",
  "Encoding a struct or string-keyed map through the generic structured data gives one element with its id and one parameter per present value: struct fields in declaration order under their field or tag name (\"-\" and unexported fields skipped), map keys sorted and named by the characters of the string, nil pointers and nil interfaces and (in structs) empty strings omitted, slices and arrays repeated, pointers and interfaces followed, every value unescaping to its printed form. A value of unsupported type, or a missing mandatory field, gives an error, never a panic and never partial or unescaped output; encoding is deterministic.",
  ["inputs", "programs"],
  "all Go types in the supported fragment and all values, including hostile strings in keys and values",
  "tests encode three maps of strings",
  ["sdata/structured-data-encoder.go", "sdata/structured-data.go", "sdata/sd-generic.go", "sdata/list.go"],
  [("PrefixedWrite", "sdata/structured-data-encoder.go"), ("reflect encoders", "sdata/structured-data-encoder.go"), ("getName / tags", "sdata/structured-data-encoder.go")],
  ["GenericSD(x).Marshal5424 output decoded by an independent reader"])

p("C16", "Structured-data elements of unknown type survive decoding unchanged",
  "Every valid structured-data element that no registered type claims is decoded to an element whose encoding is byte-identical to the original (name, parameter order, duplicates, escapes, empty values, no parameters); elements whose brackets, quotes or parameter syntax are wrong are refused. An element claimed by a registered type is decoded by that type whatever else is registered, registering the same id twice keeps the first, and registration has no effect on other elements.",
  ["inputs", "configurations", "schedules"],
  "all valid elements and all malformed variants, all registration orders",
  "two malformed elements and none of the valid unknown ones are decoded by tests directly",
  ["sdata/sd-unknown.go", "sdata/tokens.go", "sdata/list.go"],
  [("NextHeader/NextNonSpace/NextSDName/NextSDValue", "sdata/tokens.go"), ("registry.Found", "sdata/list.go")],
  ["sdata.Parse result and its Marshal5424"],
  [("registry.sdids", "known SD ids", "sdata/list.go")])

p("C17", "timeQuality is decoded and encoded according to its definition",
  "A timeQuality element is recognised exactly when its parameters are tzKnown and isSynced with values 0 or 1 and an integer syncAccuracy, and its meaning is consistent (isSynced requires tzKnown, syncAccuracy requires isSynced). For every consistent value, including accuracy 0, large and negative integers, encoding never panics and decodes to the same value; every inconsistent value is refused by the encoder with an error, and other elements are never taken for timeQuality.",
  ["inputs"],
  "all parameter sets and orders, all int values of syncAccuracy, all other element names (prefixes, extensions, short names)",
  "25 fixed cases with one accuracy value",
  ["sdata/timequality/tq.go"],
  [("Found", "sdata/timequality/tq.go"), ("IsValid / Marshal5424", "sdata/timequality/tq.go")],
  ["timequality.TQ.Found, sdata.Parse, TimeQuality.Marshal5424"])

p("C18", "Priority text and wire codecs are exact inverses",
  "For every facility and severity, setting a priority from \"facility.severity\" and printing it are inverse, and the wire form \"<N>1\" and its decoder are inverse for N in 0..255. Every text that is not a known facility, a dot and a known severity, and every wire form that is not \"<\", one to three digits of a number up to 255, \">1\", is refused without changing the target; no priority value makes printing panic, and Facility and Severity recombine to the value for 0..255.",
  ["inputs"],
  "all strings for Set and Unmarshal5424, all priorities 0..191, all ints for printing",
  "two valid and three invalid names; the decoder is never tested",
  ["priority.go"],
  [("Set / String tables", "priority.go"), ("Marshal5424 / Unmarshal5424", "priority.go")],
  ["Priority.Set, String, Marshal5424, Unmarshal5424"])

p("C19", "Messages, lists and decoded messages are immutable values",
  "Deriving a message, a structured-data list or a channel from another one never changes the original or anything else derived from it, in any order and from any number of goroutines. A decoded message keeps its bytes and fields forever, whatever the receiver, the connection it came from or other messages do later.",
  ["histories", "schedules"],
  "all trees of derivations (any fan-out, any number of structured data elements), all later activity of the receiver",
  "no test derives two messages from one base or keeps a received message",
  ["message.go", "message-immutable.go", "sdata/list.go", "listener.go", "channel.go"],
  [("value receivers", "message.go"), ("List.Add", "sdata/list.go"), ("buffer replacement in tokenize", "listener.go")],
  ["re-encoding of every earlier value after every later operation"])

p("C20", "Listeners replace only stale sockets",
  "Creating a unix or unixgram listener on a path where a stale socket was left replaces it and works; on a path occupied by anything else (regular file, directory, symbolic link, socket in use) it returns an error, leaves the object untouched, and always returns. GuessListener gives for each network name the listener of that network and an error for every other name.",
  ["configurations", "inputs", "fault_sequences"],
  "all kinds of filesystem objects at the address, all network names",
  "tests only listen on absent paths",
  ["listener-unix.go", "listener-unixdgram.go", "listener-guess.go", "listener-tcp.go"],
  [("retry loop removing the path", "listener-unix.go"), ("retry loop removing the path", "listener-unixdgram.go")],
  ["listener constructor results", "inode and content of the path before and after"])

p("C21", "Dialing honours network, address, transport and flush delay",
  "Dial uses for each network name its documented default transport (LF for stdio and TCP, NUL for local, unix and unixgram) or the given one, connects to exactly the given address (tcp4 and tcp6 only with their address family, default port 514, first reachable of several addresses, \"local\" by trying stream then datagram, without an address on /var/run/syslog, /var/run/log and /dev/log in that order), and uses datagrams one message each on unixgram. A standard stream belongs to the process: it is never closed, so another sender or the program itself can go on using it, also after a failed write. A Dialer sends what is queued at each FlushDelay; with one of at most 1 ms, only End sends. Unknown networks and invalid addresses give errors from Dial, Connect or the error channel, never a nil or dead connection presented as a success.",
  ["configurations", "inputs", "fault_sequences"],
  "all network names, valid and invalid addresses, reachable and unreachable destinations, all transports",
  "tests dial unix, unixgram and tcp once each with a reachable server",
  ["dialer.go", "connector-fd.go", "connector-local.go", "connector-local_unix.go", "connector-tcp.go", "connector-invalid.go"],
  [("network switch", "dialer.go"), ("address filtering and dial loop", "connector-tcp.go"), ("socket guessing", "connector-local_unix.go")],
  ["bytes arriving at independent plain sockets", "Connect results"])

p("C22", "Timestamps keep the instant they were given",
  "Whatever setter gave it (Time, Epoch, Delta, Timestamp, Now, the channel clock), the emitted timestamp is valid RFC 3339 with at most six fraction digits and denotes the instant given truncated to the microsecond, for all years 0 to 9999 and whole-minute zones. A traditional stamp without year keeps its month, day and time and gets the current year, or the previous one for December read in January.",
  ["inputs"],
  "all instants, zones, epoch and boot-delta strings, all calendar stamps",
  "all tests use whole-second instants in UTC or +01:00 and no test uses the setters",
  ["message.go", "channel.go"],
  [("RFC5424TimeStamp format", "message.go"), ("stampToTs / epochToTs / deltaBootToTs", "message.go")],
  ["timestamp field of the encoding, parsed by an independent RFC 3339 reader"])

p("C23", "log.Logger integration: one print, one message",
  "Each print through a channel's log.Logger becomes exactly one message whose text is the prefix followed by the printed text without trailing white space (with file and line of the caller on DEBUG channels), the writer always reports all bytes as written, and a print on a disabled channel produces nothing. Concurrent prints through any number of loggers are never merged, split or interleaved.",
  ["inputs", "schedules"],
  "all prefixes and texts (empty, multi-line, very long, non-ASCII), all severities, all numbers of goroutines and loggers",
  "tests print constant one-line texts from one goroutine",
  ["channel.go", "message.go", "syslog.go"],
  [("msgChannel.Write and Logger", "channel.go"), ("forgeMessage trimming", "message.go")],
  ["frames at a monitoring Connector", "Write return values"])

p("C24", "What was taken is given back, and costs stay in proportion to the data",
  "Senders, receivers, listeners, and failed or probing attempts give back every goroutine and file descriptor they took once they are ended, accepted connections included. A running sender, receiver, channel, decoder or registry keeps no memory of messages, connections and values which are delivered or gone. Decoding, encoding, framing and queueing take time and memory in proportion to the size of the data, whatever its content.",
  ["histories", "inputs", "fault_sequences"],
  "all numbers of connections, messages and derived values over a process life, all hostile contents of all sizes",
  "tests make one sender and one receiver and never look at descriptors, goroutines, memory or time",
  ["syslog.go", "connector.go", "listener.go", "listener-unix.go", "listener-unixdgram.go", "connector-tcp.go", "connector-local_unix.go", "message-immutable.go", "transport.go", "sdata/sd-unknown.go"],
  [("end of the sender", "connector.go"), ("end of the receiver and its connections", "listener.go"), ("probe of a socket path", "listener-unix.go"), ("unknown element encoding", "sdata/sd-unknown.go")],
  ["descriptors of the process", "goroutines of the library", "live memory and allocations", "time taken"])

p("C25", "Transports, connectors and listeners of the user work like the built-in ones",
  "A Transport (counted, terminated, prefixed, escaping, compressing), Connector or Listener (TLS, pipes, files, filters, sockets) written by the user gets the guarantees of the built-in ones: every accepted message is delivered exactly once, in order and identical, however reads are cut and writes fail; errors of the transport reach the caller of Receive and concern their connection only. A datagram socket returned by a Connector carries one frame per datagram, and the Write of the returned value gets every octet.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all well-behaved implementations of the public interfaces, all cuts, faults and messages",
  "the tests only use built-in transports, connectors and listeners with healthy sockets",
  ["transport.go", "connector.go", "listener.go", "message-immutable.go", "dialer.go"],
  [("stripFrame", "message-immutable.go"), ("writeQueue / frameWriter", "connector.go"), ("tokenize / deliver", "listener.go")],
  ["results of Receive", "octets and calls at the connections of the user"])

p("C26", "The tools for authors of structured data tell right from wrong",
  "The exported test helpers return nil exactly for a codec that is right: TestValid when the text is found, the value is equal and its encoding identical, TestInvalidUnmarshal when the text is refused, TestInvalidMarshal when the very error is returned. UnmarshalSD refuses every destination that is not a non-nil pointer with an InvalidUnmarshalError naming its type. No error value of the library panics or loses its cause when printed, and the package errors stay distinct.",
  ["inputs"],
  "all codecs, texts, values and destinations",
  "tests use the helpers with right codecs only, so a helper which accepts everything passes them all",
  ["sdata/exported-testing.go", "sdata/structured-data-decoder.go", "sdata/errors.go", "errors.go"],
  [("DoTest", "sdata/exported-testing.go"), ("UnmarshalSD", "sdata/structured-data-decoder.go")],
  ["DoTest results", "errors and their texts"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
