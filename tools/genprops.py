#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- log store
p("C01", "A logged object reads back intact at the position its append returned",
  "Every non-negative position returned by an append to a log file is the start of exactly the object that was appended: reading there at any later time, as a graph or in binary form, through the same handle or another handle on the same file, and after closing and reopening, yields an equal object together with the position of the next one. Walking from position 0 therefore yields every appended object, in append order, and then reports the end of the log. The same appends on a log without a file (the zero Log) return the positions they have in the concatenation of their binary forms, which is what Bytes returns.",
  ["histories", "schedules", "inputs"],
  "All sequences of Add, AddBinary, Get, GetBinary, Sync, Close and OpenLog over one file by one or several handles, all graphs whose node contents are text or bytes (any byte values, any depth), with reads of the file returning any legal short counts.",
  "TestLog makes three appends of one small graph and reads them once, in order, through one handle; it never checks the position GetBinary returns, binary content, deep graphs, reads between appends, reopening or short reads.",
  ["log.go", "binary.go"],
  [("append at end of file", "log.go Log.Add/AddBinary"), ("self-delimiting binary objects", "binary.go Binary/binParser"), ("byte counting for the next position", "binary.go binParser.read")],
  [("file offset", "shared by reads and appends through one handle", "log.go Log.f")],
  ["Log.Add", "Log.AddBinary", "Log.Get", "Log.GetBinary"])
p("C02", "An acknowledged durable append survives any crash",
  "Once an append returns with synchronous mode on (the default), or once an explicit Sync has returned after it, a crash at any later instant, losing or tearing whatever the disk had not yet made durable, does not lose or alter that object: after reopening it is read back intact at its position, walking from 0 still yields it in order, and appends made after the restart are stored, returned and protected in the same way.",
  ["crash_points", "histories", "schedules"],
  "All append/sync/reopen histories, a crash before, inside or after any file operation, any subset and any tearing of the writes not yet synced, repeated over several restarts.",
  "No test crashes, reopens or even looks at whether Sync was called; a missing or misplaced fsync is invisible to every test that runs on a live kernel.",
  ["log.go"],
  [("fsync after every append when autoSync", "log.go Log.Add/AddBinary"), ("explicit Sync", "log.go Log.Sync"), ("append position from end of file", "log.go Seek(0,2)")],
  [("autoSync", "whether an append is durable on return", "log.go Log.autoSync")],
  ["Log.Add return", "file contents after crash"])
p("C03", "A failed append is reported and leaves the log usable",
  "When the file system refuses, shortens or fails a write or a sync during an append, the append returns a negative position instead of a position that looks valid, every object appended before is still returned intact, and no remains of the failed object are left in front of later ones: later successful appends are found at their positions and by walking from the start.",
  ["fault_sequences", "histories"],
  "All sequences of appends in which any write fails or is short (disk full, I/O error), any sync fails, or the log has been closed, followed by further appends once the fault is gone.",
  "Tests only run on a healthy disk; no test can make write or fsync fail.",
  ["log.go"],
  [("error check and roll back of the file end", "log.go Log.Add/AddBinary")],
  [], ["Log.Add return", "Log.Get", "Log.GetBinary"])
p("C04", "A log cut short at any byte never yields a partial object",
  "If the log file ends in the middle of an object, because an append was torn by a crash, all whole objects before the cut are returned intact and the incomplete one is never returned as an object, neither as a graph nor in binary form; reading at the cut, at the end or beyond it always terminates, and neither panics nor consumes unbounded memory.",
  ["crash_points", "inputs"],
  "All logs of any objects and every byte position at which the file can end; reads at every position returned by a read, and through a bufio reader over the file.",
  "Tests only read complete logs; the cut positions that matter (inside a multi-byte level, inside a text, inside a binary chunk, before the final terminator) are never exercised.",
  ["log.go", "binary.go"],
  [("end-of-stream detection in the binary parser", "binary.go line/read/varInt")],
  [], ["Log.Get", "Log.GetBinary", "FromBinaryBufioReader"])
p("C05", "A follower of a growing log sees only whole objects, in order",
  "A reader that follows a log through its own handle while another handle is appending to it only ever obtains a prefix of the appended objects, each intact and in order: an object whose bytes are still being written is reported as not there, never as a truncated or merged object, and is obtained once the append has completed.",
  ["schedules", "histories"],
  "All interleavings of one appending handle, whose writes reach the file in pieces, with any number of following handles that read as graph or as binary and retry where they stopped.",
  "The only log test is single threaded; it can not observe a half-written object.",
  ["log.go", "binary.go"],
  [("one write per object", "log.go"), ("terminated objects", "binary.go")],
  [], ["Log.Get", "Log.GetBinary"])

# ---------------------------------------------------------------- streams
p("C33", "A failed read of the log is an error, never the end of the log",
  "When the file system fails a read or a seek while an object is being read from a log, the read either still returns exactly the stored object and the position of the next one, or returns an error; it never returns a different or shortened object and never reports the end of the log where an object is stored. Once the fault is gone the same handle reads every object and appends at the end of the log as before, so that a walk that repeats failed reads sees every object, in order.",
  ["fault_sequences", "histories"],
  "All histories of appends, reads of single objects and walks over a log through one or several handles, with reads and seeks failing at any point of any read, and reads through handles that have been closed.",
  "No test makes a read fail; in TestLog the end of the log and a read error cannot be told apart.",
  ["log.go", "binary.go"],
  [("errors of the stream are told from its end", "binary.go binParser.read"), ("error results", "log.go Log.Get/GetBinary")],
  [("err", "the error of the stream, if other than its end", "binary.go binParser.err")], ["Log.Get", "Log.GetBinary"])
p("C06", "Parsing from a reader depends on the bytes, not on how they arrive",
  "The graph obtained by reading OGDL text (with or without type conversion), a path, an expression or a template through an io.Reader is the one denoted by the whole byte sequence, for any length of the input and any way of delivering it: pieces of any size, empty reads in between, or the last piece arriving together with the end-of-file indication. Bytes and characters read and un-read through the lexer are likewise those of the stream.",
  ["schedules", "inputs"],
  "All texts (including ones longer than any internal buffer, with multi-byte characters, quoted strings, blocks and comments at any offset) and all delivery schedules a correct io.Reader may produce (up to the usual limit of 100 consecutive empty reads).",
  "Every test feeds a short literal in a single Read, so the buffer is never refilled: neither refill, nor un-read across a refill, nor a short read is ever executed.",
  ["lexer.go", "parser.go", "block.go", "flow.go", "template.go"],
  [("half-buffer refill that keeps data for un-read", "lexer.go Lexer.fill"), ("end of stream position", "lexer.go Lexer.lastByte")],
  [("buffer, position, last byte", "window over the stream", "lexer.go Lexer")],
  ["FromReader", "NewParser + Ogdl/OgdlTypes/Path/Expression/Template", "Lexer.Byte/UnreadByte/Rune/UnreadRune"])
p("C07", "A failing text source ends the parse, with the prefix and the error",
  "If the reader given to a text parser returns an error, or stops making progress, after any number of bytes, parsing terminates within a bounded number of further reads without panic, the resulting graph is the one denoted by exactly the bytes delivered before the failure (nothing invented, repeated or dropped), and the failure is reported by the parser's Error method.",
  ["fault_sequences", "inputs", "schedules"],
  "All texts, every byte position of the failure, errors returned alone or together with data, transient and persistent errors, readers that return zero bytes forever, all delivery schedules before the failure.",
  "No test uses a reader that fails.",
  ["lexer.go", "parser.go"],
  [("error retention", "lexer.go Lexer.err, Lexer.Error"), ("bounded empty reads", "lexer.go maxConsecutiveEmptyReads")],
  [], ["NewParser + Ogdl + Graph + Error", "FromReader"])
p("C08", "Binary OGDL decodes identically however the bytes are delivered",
  "Decoding a stream of well-formed binary OGDL objects, text nodes and binary nodes alike, gives exactly the encoded trees whatever the sizes of the pieces in which the stream arrives; and reading repeatedly from one buffered reader returns the consecutive objects of the stream one by one, each consuming exactly its own bytes, and then nil.",
  ["schedules", "inputs", "histories"],
  "All sequences of trees (any depth, any byte content, binary nodes in any chunking, empty nodes), encoded by Graph.Binary or by any encoder that follows the published grammar, and all delivery schedules.",
  "Four fixed byte strings of at most ten bytes are decoded from memory; the single binary-node test has nothing behind the node, so over-reading is not seen.",
  ["binary.go"],
  [("binary parser over bufio.Reader", "binary.go binParser"), ("binary encoder", "binary.go Binary")],
  [], ["FromBinary", "FromBinaryReader", "FromBinaryBufioReader", "Graph.Binary"])
p("C09", "A truncated or failing binary stream never yields an object",
  "If a binary OGDL stream ends or fails (with any error, once or persistently) before the terminator of an object, decoding that object returns nil in bounded time and memory, never a partial or invented tree; objects completed before that point are unaffected.",
  ["fault_sequences", "inputs", "schedules"],
  "All encoded objects, every cut or failure position, end-of-file or any other error, transient or persistent, under all delivery schedules.",
  "No test truncates a stream or injects a read error; the behaviour on errors other than EOF is never executed.",
  ["binary.go"],
  [("end-of-stream handling", "binary.go read/line/parse")],
  [], ["FromBinary", "FromBinaryReader", "FromBinaryBufioReader"])
p("C10", "Loading a file yields the whole content or nil",
  "Loading a text or binary OGDL file returns either the graph of the complete file content or nil: opening and reading errors, empty and missing files give nil, short reads make no difference, and a partial graph is never returned; files are closed again in all cases.",
  ["fault_sequences", "inputs"],
  "All file contents and sizes, all open/read/stat errors at any operation, all short-read schedules.",
  "No test loads a file with FromFile or FromBinaryFile, let alone under I/O errors.",
  ["parser.go", "binary.go"],
  [("read everything, then parse", "parser.go FromFile; binary.go newFileBinParser")],
  [], ["FromFile", "FromBinaryFile"])
p("C11", "Command line tools depend on their input's bytes, not on its delivery",
  "The output of gpath, gtemplate, json2ogdl and xml2ogdl is a function of their arguments and of the bytes of standard input and input files only: any split of standard input or file reads into pieces gives the same output, equal to what the library functions give for the complete input.",
  ["schedules", "inputs"],
  "All inputs (up to many times any internal buffer) and all sizes of the pieces in which stdin or a file returns them.",
  "The commands have no tests.",
  ["cmd/gpath/main.go", "cmd/gtemplate/main.go", "cmd/json2ogdl/main.go", "cmd/xml2ogdl/main.go", "lexer.go"],
  [("read loops on stdin", "cmd/json2ogdl/main.go, ogdl.FromReader")],
  [], ["process stdout"])

# ---------------------------------------------------------------- remote functions
p("C12", "A successful remote call returns the answer to its own request",
  "Whenever a remote call reports success, the graph it returns is exactly the one the server's handler for that path (or the not-found answer) produced for this very request: never the answer to an earlier, timed-out or concurrent request, never a truncated or merged one, whatever delays, timeouts, resets, reconnections and server restarts occur, in both protocol versions.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of several clients making sequences of calls to one server, any fragmentation, any delay (also beyond the timeouts), connection resets, refused or hanging dials, partitions, server crash and restart, slow handlers.",
  "ogdlrf has no tests; a stale answer needs a timeout followed by a late answer and a further call.",
  ["ogdlrf/client.go", "ogdlrf/server.go", "binary.go"],
  [("one outstanding request per connection, connection dropped after an error", "ogdlrf/client.go Call"), ("length-prefixed messages", "ogdlrf callV2/process"), ("self-delimiting messages", "ogdlrf callV1/process1"), ("routing on the first child", "ogdlrf/server.go router")],
  [("conn", "the client's current connection", "ogdlrf/client.go Client.conn")],
  ["Client.Call return"])
p("C13", "Handlers are given only whole requests that were actually sent",
  "Every graph passed to a handler is exactly one request that some client sent for that handler's path, complete and unmixed; a message cut off by a timeout, reset, crash or disconnect, or mangled by garbage in front of it, is discarded without invoking any handler.",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings, fragmentations, resets, disconnects and read timeouts at any byte of a message, both protocol versions.",
  "ogdlrf has no tests; a truncated message needs a connection failing at a particular byte.",
  ["ogdlrf/server.go", "binary.go"],
  [("full-message read before decoding", "ogdlrf/server.go process"), ("terminator check", "binary.go parse")],
  [], ["Function arguments"])
p("C14", "Segmentation and delay below the timeouts are invisible to callers",
  "While connections stay up and each message arrives within the configured timeout, every call succeeds with the right answer and its handler runs exactly once, however the network splits and delays the bytes of requests and answers, for messages of any size and any number of concurrent clients, including clients that were idle long enough for the server to drop their connection.",
  ["schedules", "inputs"],
  "All segmentations of both directions, down to single bytes, all delays below the timeouts, message sizes from one node to far more than one read buffer, both protocol versions.",
  "ogdlrf has no tests, and over loopback a small message nearly always arrives in one piece.",
  ["ogdlrf/client.go", "ogdlrf/server.go"],
  [("reading until the announced length", "ogdlrf callV2/process"), ("reading until the terminator", "ogdlrf callV1/process1, binary.go")],
  [], ["Client.Call return", "handler invocation count"])
p("C15", "A remote call always ends in time, and service resumes after faults",
  "Whatever the network or the server does (silence, partition, partial answers, resets, crash), a call returns within a small fixed multiple of the client's timeout (ten seconds in protocol version 1) after its dials have completed, and executes the handler at most three times; and once the faults have stopped and the server is up, the next call of every client succeeds.",
  ["fault_sequences", "schedules"],
  "All fault sequences on all connections and at all moments of a call; bound measured in simulated time; recovery measured as success of the first call after the faults end.",
  "Needs timeouts, stalls at particular bytes and restarts; there are no tests at all.",
  ["ogdlrf/client.go", "ogdlrf/server.go", "binary.go"],
  [("deadline per attempt", "ogdlrf/client.go SetDeadline"), ("at most two retries with reconnection", "ogdlrf/client.go Call")],
  [], ["Client.Call duration and result"])
p("C16", "A misbehaving connection affects neither the server nor its other clients",
  "Whatever bytes arrive on a connection (garbage, wrong lengths, truncated or corrupt messages), however slowly, and whatever way it is aborted, the server does not panic, hang or allocate memory out of proportion to what it received, keeps accepting, also after transient accept errors, and other clients are served as if that connection did not exist, even while handlers of other connections are slow.",
  ["schedules", "fault_sequences", "inputs"],
  "All byte sequences and timings on any number of hostile connections, accept errors, slow handlers, running concurrently with well-behaved clients, both protocol versions.",
  "ogdlrf has no tests.",
  ["ogdlrf/server.go", "binary.go"],
  [("a goroutine per connection", "ogdlrf/server.go Serve/Serve1"), ("read deadline", "ogdlrf/server.go process/process1"), ("total binary parser", "binary.go")],
  [], ["other clients' calls", "process health"])
p("C17", "Connections are not leaked",
  "A client never has more than one connection open, and none after Close or after a failed attempt that was replaced; the server closes a connection as soon as the peer has closed it and at the latest when the timeout for the next message, or for the peer to take an answer, has passed.",
  ["schedules", "fault_sequences", "histories"],
  "All histories of calls, timeouts, resets, retries, Dial and Close on the client, and of idle, half-open, stalled (neither reading nor writing) and closing peers on the server, both protocol versions.",
  "ogdlrf has no tests and leaked descriptors have no functional symptom until they run out.",
  ["ogdlrf/client.go", "ogdlrf/server.go"],
  [("Close before reconnecting", "ogdlrf/client.go Dial/Call"), ("deferred Close per connection", "ogdlrf/server.go process/process1"), ("deadlines", "ogdlrf")],
  [], ["open connections per client and per server"])

# ---------------------------------------------------------------- concurrency
p("C18", "Reading a graph is free of side effects, so a graph can be shared",
  "Operations that only read a graph (text, HTML, JSON and binary output, path lookup and typed getters, node access, search, comparison, cloning, schema check, evaluation of expressions without assignment, processing of templates without assignment or loop) neither modify it nor share hidden state: any number of goroutines may apply them to one graph at once without data races, and each obtains the result it would obtain alone.",
  ["schedules", "inputs"],
  "All graphs, all sets of read operations issued by several goroutines on the same graph or its sub-graphs, and all interleavings of their steps.",
  "Tests are single threaded; a temporary modification that is undone before returning is invisible to them.",
  ["graph.go", "gettypes.go", "encoding.go", "binary.go", "html.go", "eval.go", "flow.go", "schema.go", "template.go"],
  [("read-only traversals", "graph.go, encoding.go JSON, html.go")],
  [], ["results of concurrent calls", "graph content afterwards", "data races"])
p("C19", "Compiled templates, paths and expressions can be shared",
  "A parsed template, path or expression is not modified by processing or evaluating it: any number of goroutines may use the same one at once, each on its own context graph, without data races, and every output and every resulting context is the one obtained by running alone with a freshly parsed copy, however often it has been used before.",
  ["schedules", "histories", "inputs"],
  "All templates (text, variables, if/elseif/else, for, break, assignments, function calls), paths and expressions of the language, all contexts, all interleavings and repetitions.",
  "Each test processes a template once or twice in one goroutine.",
  ["template.go", "eval.go", "flow.go", "expression.go", "function.go", "graph.go"],
  [("evaluation writes only to the context", "eval.go assign/evalPath, template.go process")],
  [], ["Graph.Process output", "Graph.Eval result", "context afterwards", "template afterwards"])
p("C20", "Independent graphs, parsers and templates never interfere",
  "Work done in one goroutine on its own objects (parsing text, binary, JSON, XML, paths, expressions and templates, building, modifying, sorting, merging and cloning graphs, evaluating, and every output format) has the same result whatever other goroutines do with theirs; a clone or copy and its original are independent in this sense.",
  ["schedules", "inputs", "histories"],
  "All programs of library calls per goroutine on objects that are not shared between goroutines, and all interleavings of their steps.",
  "Tests are single threaded; hidden shared state (caches, buffers, pools, shared slices) only shows under particular interleavings.",
  ["graph.go", "parser.go", "lexer.go", "binary.go", "encoding.go", "eval.go", "flow.go", "template.go", "sort.go", "event.go", "io/gxml/xml.go"],
  [("no package-level mutable state", "whole package"), ("fresh nodes in Clone and Copy", "graph.go Clone/Copy")],
  [], ["results of concurrent programs", "data races"])
p("C21", "Importing a document is reproducible",
  "Converting the same JSON or XML document always gives the same graph, in content and order, whatever order the runtime iterates over maps in and whatever was converted before; and the order of list elements and repeated elements is that of the document.",
  ["schedules", "inputs", "histories"],
  "All documents and all map iteration orders, every one of which the runtime may pick at random on each run.",
  "The tests have no JSON import at all; a test asserting an order would fail at random, which is the defect.",
  ["encoding.go", "io/gxml/xml.go", "cmd/json2ogdl/main.go", "cmd/xml2ogdl/main.go"],
  [("conversion of decoded objects", "encoding.go toGraph")],
  [], ["FromJSON", "gxml.FromXML"])
p("C22", "A remote append acknowledged to the client is durable",
  "With a server whose handler appends each request to a log and answers with the position, any append acknowledged to a client is still there, intact, at that position after the server crashes and restarts at any instant, and is returned by later remote reads; requests never acknowledged are either absent or stored whole.",
  ["schedules", "crash_points", "fault_sequences"],
  "All interleavings of several clients, all network faults of C12 and all crash points of C02, over several server incarnations.",
  "Needs the composition of network faults, retries, crash and restart with the disk model; nothing of it is tested.",
  ["ogdlrf/client.go", "ogdlrf/server.go", "log.go", "binary.go"],
  [("fsync before the answer", "log.go Add"), ("answer matches request", "ogdlrf")],
  [], ["Client.Call return", "log content after restart"])

# ---------------------------------------------------------------- pure functions (not a simulation target)
def pure(id, title, statement, text, why, files, mech):
    p(id, title, statement, ["inputs"], text, why, files, mech)
pure("C23", "Emitted text parses back to the same graph",
  "For every graph whose node contents are plain text, parsing the text it is emitted as yields an equal graph.",
  "All graphs, in particular contents with quotes, backslashes, line breaks, leading spaces, commas and hash marks, at level 0 and below, leaf and non-leaf.",
  "A dozen literals are tried.", ["graph.go", "parser.go", "block.go", "lexer.go"], [("quoting rules", "graph.go _text"), ("quoted scalars", "lexer.go Quoted")])
pure("C24", "Path lookup follows the structure of the graph",
  "Getting a path returns the sub-graph reached by following tokens, indices and selectors one by one, a missing element gives a nil graph, and chained lookups equal the lookup of the combined path.",
  "All graphs and all paths.", "Fewer than twenty path/graph pairs are tried.", ["eval.go", "flow.go", "graph.go"], [("path interpreter", "eval.go getPath/evalPath")])
pure("C25", "Expressions evaluate by the documented precedence and types",
  "An expression evaluates to the value given by the operator precedences of Go and the documented numeric and string conversions, and never panics.",
  "All expressions over all contexts.", "About thirty expressions are tried, none nested beyond two operators.", ["expression.go", "eval.go"], [("precedence climbing on the flat list", "expression.go _ast"), ("calc/compare/logic", "eval.go")])
pure("C26", "Templates expand text, variables, conditions and loops as documented",
  "Processing a template yields its text with variables replaced, exactly the chosen branch of each condition, and one copy of each loop body per element up to a break.",
  "All templates and contexts.", "Ten short templates are tried, without nesting of loops and conditions with breaks.", ["template.go"], [("nesting of directives", "template.go flow"), ("interpretation", "template.go process")])
pure("C27", "JSON import and export preserve structure and values",
  "Importing a JSON document keeps all its keys, values and nesting, and exporting a graph gives valid JSON with the same content.",
  "All JSON documents and all graphs.", "Two tests print JSON without checking it.", ["encoding.go"], [("toGraph", "encoding.go"), ("json/writeValue", "encoding.go")])
pure("C28", "XML import preserves elements, attributes and text",
  "Importing an XML document yields its elements, attributes and text in document order with the documented key normalisation.",
  "All XML documents.", "There are no tests.", ["io/gxml/xml.go", "cmd/xml2ogdl/main.go"], [("token loop", "io/gxml/xml.go FromXML")])
pure("C29", "Schema check accepts exactly the conforming graphs",
  "Checking a graph against a schema returns true exactly if its structure and value types match the schema, and never panics.",
  "All schema/graph pairs.", "One positive example.", ["schema.go"], [("Check/checkNode", "schema.go")])
pure("C30", "Graph editing operations behave like operations on ordered trees",
  "Add, Set, Create, Delete, DeleteAt, Substitute, Merge, AddNodes, Copy and Sort change exactly the nodes they name and leave the order of all others alone.",
  "All graphs and all sequences of editing operations by one goroutine.", "A handful of single operations is tried.", ["graph.go", "sort.go"], [("slice editing", "graph.go"), ("set", "graph.go set")])
pure("C31", "Typed getters convert or fall back to the default",
  "A typed getter returns the converted value if the node holds one, and otherwise the given default or the documented zero value or error, never a panic.",
  "All node contents, types and paths.", "One value per getter is tried.", ["gettypes.go"], [("conversions", "gettypes.go _int64f/_float64f/_boolf")])
pure("C32", "Malformed input never crashes the in-memory parsers",
  "No text, path, expression, template, JSON or XML input, however malformed, makes its parser panic or loop forever.",
  "All byte strings.", "Only well-formed literals are parsed.", ["parser.go", "block.go", "lexer.go", "flow.go", "expression.go", "template.go", "encoding.go", "io/gxml/xml.go"], [("recursive descent parsers", "block.go, flow.go, template.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        assert r["statement"].count(". ") <= 2, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P))
