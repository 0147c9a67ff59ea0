#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                  "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Typed values survive encoding followed by decoding",
  "Any value of a supported shape (fixed-width integers, floats, strings, byte strings, slices, arrays, nested structs and pointers carrying a size or count prefix, with the documented field tags) that is encoded and then decoded into a fresh variable of the same type yields an equal value, consumes exactly the encoded bytes and reports no error. The same holds for tail fields, which are written without a count and read until the input ends.",
  ["inputs"], "every value of each supported shape, for every tag combination that changes the layout",
  "marshal tests encode and decode a handful of literal structs; the size/count variants, widths and boundary lengths are never exercised together",
  ["marshal/writer.go", "marshal/writer_reflect.go", "marshal/writer_any.go", "marshal/reader.go", "marshal/reader_reflect.go", "marshal/reader_any.go", "marshal/marshal.go"],
  [("typed writer tables", "marshal/writer_reflect.go TWriter.Fill/FillStruct/WithSize"), ("typed reader tables", "marshal/reader_reflect.go TReader.Fill/FillStruct/ReadAuto/ReadTail")],
  observe=["marshal.Write", "marshal.Read", "marshal.ReadTail"])
prop("C02", "Encoded bytes follow the IPROTO wire layout exactly",
  "Encoding writes integers and floats little-endian at their declared width, variable-length integers in minimal big-endian base-128 form, and strings, slices and maps of fields preceded by a count of the declared width that equals the number of elements (or bytes, for a size prefix) actually written. Nothing else is written between or after the fields.",
  ["inputs"], "every value of each supported shape and tag, compared byte for byte with an independently written reference layout",
  "tests compare a few literals; boundaries of the variable-length form, wide prefixes and large element types are not reached",
  ["marshal/writer.go", "marshal/writer_reflect.go", "marshal/writer_any.go"],
  [("primitive emitters", "marshal/writer.go"), ("size and count prefixes", "marshal/writer_reflect.go")],
  observe=["marshal.Write", "marshal.Writer.Written"])
prop("C03", "Decoding arbitrary bytes never crashes or reads past the input",
  "Decoding any byte string into any supported destination terminates without panicking, never reads or returns bytes outside the input, and never allocates more elements than the input could possibly hold. Whenever the bytes do not contain a complete value, an error is reported instead.",
  ["inputs"], "every input byte string up to the stated bound, for every supported destination shape and every primitive read operation",
  "tests only decode well-formed literals; malformed prefixes, negative sizes and truncated inputs are never fed in",
  ["marshal/reader.go", "marshal/reader_reflect.go", "marshal/reader_any.go"],
  [("length checks before every read", "marshal/reader.go"), ("count-limited allocation", "marshal/reader_reflect.go")],
  observe=["marshal.Read", "marshal.ReadTail", "marshal.Reader.Err"])
prop("C04", "Decode errors are sticky and sized fields consume exactly their size",
  "Once a decode step fails, the reader keeps reporting the first error and later reads of primitive values from it deliver only zero values. A field introduced by a byte size consumes exactly that many bytes or reports an error, so a field that follows it is always decoded from the right position.",
  ["inputs"], "every input byte string up to the stated bound and every sequence of primitive reads up to the stated length",
  "no test decodes a short or mis-sized field followed by another one",
  ["marshal/reader.go", "marshal/reader_reflect.go"],
  [("first-error latch", "marshal/reader.go Reader.Err"), ("sized reads", "marshal/reader_reflect.go TReader.SzSet / ReadWithSize")],
  observe=["marshal.Reader.Err", "marshal.Reader.Body"])
prop("C05", "Bytes already taken from a writer never change",
  "A byte slice obtained from an encoder keeps its contents whatever is encoded with that encoder afterwards, and each slice holds exactly what was written since the previous one was taken.",
  ["inputs", "histories"], "every sequence of writes and takes up to the stated length, with buffer growth at any point",
  "needs several writes around an internal growth boundary; tests take the result of one write",
  ["marshal/writer.go", "generator.go"],
  [("buffer hand-over", "marshal/writer.go Writer.Written / ensure")],
  observe=["marshal.Writer.Written"])
prop("C06", "Protocol frames survive any fragmentation of the stream",
  "Every request, response and ping written to a connection is read back by the peer with the same type, id, return code (within the configured return-code width) and body, in order, however the underlying stream splits or merges the bytes. Pings carry no return code and an empty body in both directions.",
  ["inputs", "schedules"], "all header fields, codes, return-code widths, body contents up to the bound, and every way of splitting the byte stream",
  "the net package has no tests",
  ["net/header.go", "net/buf_writer.go", "net/slice_reader.go"],
  [("frame writer", "net/header.go HeaderWriter"), ("frame reader", "net/header.go HeaderReader")],
  observe=["HeaderWriter.WriteRequest/WriteResponse/Ping", "HeaderReader.ReadRequest/ReadResponse/ReadPing"])
prop("C07", "Buffered output is byte-transparent",
  "The concatenation of the bytes delivered to the underlying connection after a flush is exactly the concatenation of everything written, in order, for any mixture of byte, word and block writes. After the underlying connection fails, the error is returned to the caller.",
  ["inputs", "fault_sequences"], "every starting fill level of the buffer and every block length and content, with write faults at any call",
  "the net package has no tests; the interesting cases sit at the edges of a 4096-byte buffer",
  ["net/buf_writer.go"], [("copy, flush or write-through decision", "net/buf_writer.go BufWriter.Write")],
  observe=["io.Writer below the buffer"])
prop("C08", "The stream reader delivers exactly the stream and never reuses a slice",
  "Successive reads return consecutive, non-overlapping parts of the byte stream with exactly the requested length, whatever chunk sizes the connection returns, and previously returned slices are never overwritten by later reads. A stream that ends or fails before the requested length yields an error, never a short or stale result without one.",
  ["inputs", "fault_sequences"], "every sequence of requested lengths and chunk sizes up to the bound, with EOF or an error at any read",
  "the net package has no tests",
  ["net/slice_reader.go"], [("buffer hand-over and refill", "net/slice_reader.go SliceReader.Read")],
  observe=["SliceReader.Read", "SliceReader.ReadByte"])
prop("C09", "Internal return codes never leave the server",
  "A response whose code is of the internal kind is sent to the client with a non-internal code: the configured non-zero replacement when there is one, otherwise the same code with its kind changed to fatal. Every other code reaches the client unchanged, and a server refuses a configuration that would map an internal code to another internal code.",
  ["inputs", "configurations"], "every 32-bit return code and every replacement table",
  "no server tests exist; internal codes appear only on timeouts, cancellation and shutdown",
  ["net/server/connection.go", "net/server/server.go", "response.go"],
  [("code translation", "net/server/connection.go Connection.Respond"), ("configuration check", "net/server/server.go Config.NewServer")],
  observe=["bytes sent on the connection"])
prop("C10", "Every request completes at most once, with the first completion",
  "However answers, cancellations, timeouts, I/O failures and shutdowns race, the responder of a request is invoked exactly once as soon as any effective completion happens, with the code and body of that completion and the request's own id and type. Later completions change nothing.",
  ["schedules", "inputs"], "every interleaving of the competing operations up to the stated number of threads, and every code",
  "no test runs two completions concurrently",
  ["request.go", "response.go"],
  [("state machine under the request lock", "request.go RespondBytes/RespondFail/chainResponse")],
  state=[("state", "life-cycle phase of the request", "request.go Request.state")],
  observe=["Responder.Respond"])
prop("C11", "A request is taken for execution at most once and only while pending",
  "At most one worker ever succeeds in taking a request, it can succeed only after the request was sent and before it was completed, and an ordinary answer takes effect only after that. A failed attempt leaves the request untouched.",
  ["schedules"], "every interleaving of takers, senders and completions up to the stated number of threads",
  "no test races two workers for one request",
  ["request.go", "service.go"],
  [("pending to in-flight transition", "request.go SetInFly / SetPending")],
  state=[("state", "life-cycle phase of the request", "request.go Request.state")],
  observe=["Request.SetInFly", "Request.SetPending"])
prop("C12", "Completion observers run once each, newest first, before the responder",
  "Observers attached to a request are each notified exactly once on completion, most recently attached first, and before the final responder. An observer that puts the request back for a retry stops the notification at that point, and the retried request then completes normally and exactly once.",
  ["schedules", "inputs", "histories"], "every number of observers up to the bound, every retry position, every race between attachment and completion",
  "no test attaches more than one observer or retries from one",
  ["request.go", "response.go"],
  [("observer chain", "request.go chainResponse / ChainBookmark, response.go Bookmark")],
  observe=["RequestBookmark.Respond"])
prop("C13", "Timeouts fire exactly once, never early, and none is lost",
  "A timer that is armed and not stopped fires exactly once, not before its deadline, and as soon as its deadline has passed, without waiting for timers with later deadlines. One that is stopped before its deadline never fires (an expiry which has already started when it is stopped may complete). Arming, stopping or re-arming other timers in any order does not affect this.",
  ["schedules", "histories", "inputs"], "every sequence of arm, stop and clock steps up to the bound, for all deadlines, and every interleaving with the timer goroutine",
  "no timer tests exist; the structure goes wrong only for particular orders of several deadlines",
  ["custom_timer.go", "epoch.go", "request.go"],
  [("four-way heap of deadlines", "custom_timer.go tHeap"), ("timer goroutine", "custom_timer.go tHeap.loop")],
  state=[("heap nodes", "armed timers", "custom_timer.go tHeap.h")],
  observe=["Expirator.Expire"])
prop("C14", "The request queue neither loses, duplicates nor reorders requests",
  "Every request accepted by a running end point is handed to its workers exactly once, unless it was completed while still queued, in which case it is never handed over as pending. Requests sent by one goroutine are handed over in the order they were sent, also when the queue overflows its channel.",
  ["schedules", "histories"], "every interleaving of producers, the queue goroutine and a consumer up to the bound, and every pattern of completed-while-queued requests",
  "no test overflows the channel or completes queued requests",
  ["buffer.go", "service.go"],
  [("overflow ring of bookmarks", "buffer.go Buffer.push / loop")],
  observe=["EndPoint receive channel"])
prop("C15", "Cancelling a context fails everything started from it",
  "When a context is cancelled or expires, every unfinished request and child context started from it, before or concurrently, is cancelled, and anything started from it later is cancelled immediately. A child task runs exactly once on a live context, and waiting for the context's children returns once, and only once, all of them have finished.",
  ["schedules", "histories"], "every interleaving of starting, finishing, cancelling and waiting up to the bound",
  "no context tests exist",
  ["context.go", "request.go"],
  [("canceler registry", "context.go AddCanceler / RemoveCanceler / cancelAll")],
  observe=["Context.Alive", "Response.Code of outstanding requests"])
prop("C16", "A multi-request delivers exactly one response per sub-request",
  "Collecting the results of a group of requests, as a list or as a stream, yields exactly one response for each request of the group, whatever the order and timing of the answers, and then ends. Cancelling the group or its time-out fails exactly the members that have not been answered yet.",
  ["schedules", "histories"], "every interleaving of answers, collection and cancellation up to the bound",
  "no test covers groups; the failures need an answer to arrive while collection starts",
  ["wait_group.go"],
  [("response collection", "wait_group.go MultiRequest.Respond / Each / Results")],
  observe=["MultiRequest.Each", "MultiRequest.Results"])
prop("C17", "A worker pool bounds concurrency and answers every request once",
  "A pool of N workers never runs more than N handlers at a time, runs the handler at most once per request, and answers every request it accepted exactly once: with the handler's result, with an internal error if the handler panics, or with a shutdown code if the pool is stopped first. A panicking handler does not reduce the capacity of the pool.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of handlers, senders and stop up to the bound, and every panic pattern",
  "no pool tests exist",
  ["parallel_service.go", "request.go", "context.go"],
  [("semaphore of N tokens", "parallel_service.go ParallelService.Loop / inc")],
  observe=["Responder.Respond", "handler invocations"])
prop("C18", "Multiplexed responses reach the request they belong to",
  "Requests in flight on one client connection carry distinct wire ids, never the reserved zero or ping id, and a response is delivered to exactly the request whose id it carries, in whatever order responses arrive. A response with an id that is not in flight is ignored and disturbs nothing. This holds as long as no request stays in flight while the 32-bit id counter goes all the way round.",
  ["inputs", "histories"], "every position of the id counter including wrap-around, and every order of responses, duplicates and unknown ids up to the bound",
  "no client tests exist; id reuse needs billions of requests to occur naturally",
  ["net/client/connection/request_holder.go", "net/client/connection/connection.go"],
  [("id table in rows of 256", "net/client/connection/request_holder.go RequestHolder")],
  observe=["wire ids of written requests", "Responder.Respond"])
prop("C19", "Losing a client connection fails every request in flight exactly once",
  "When a client connection ends, for whatever reason and at whatever byte, each request written on it that has not been answered completes exactly once with an I/O error or shutdown code, and requests already answered keep their answer. The connection's goroutines terminate and its loss is reported.",
  ["schedules", "fault_sequences", "crash_points"], "every point of failure in the exchange up to the bound, read or write side first",
  "no client tests exist",
  ["net/client/connection/connection.go", "net/client/connection/request_holder.go"],
  [("in-flight table flush", "net/client/connection/connection.go flushInFly / controlLoop")],
  observe=["Responder.Respond", "ConnErr channel"])
prop("C20", "A server connection answers each request once and shuts down cleanly",
  "Each request read from a server connection is passed to the service once and answered with at most one frame carrying its id (clients keep ids in flight distinct), answers are sent exactly once in the order they were produced, and each ping is answered with a ping, which may overtake answers. When the client stops sending, every outstanding request is still answered before the connection is closed, the connection always terminates, and nothing panics or deadlocks however many answers are pending.",
  ["schedules", "fault_sequences"], "every interleaving of the connection's goroutines and answering goroutines up to the bound, including more pending answers than the outgoing queue holds",
  "no server tests exist",
  ["net/server/connection.go", "net/server/server.go"],
  [("in-flight map and outgoing queue", "net/server/connection.go Respond / writeLoop / cleanBuffer"), ("connection state machine", "net/server/connection.go controlLoop")],
  observe=["frames on the connection", "connection close", "connClosed notification"])
prop("C21", "Database tuples survive writing and reading",
  "A value written as a tuple is read back equal as a value of the same type, with the tuple's field count and each field's length prefix matching what follows. This includes optional tails, repeated tail groups, nested slices and arrays, and every scalar width.",
  ["inputs"], "every value of each supported tuple shape",
  "sbox tests round-trip three literal structs without tails",
  ["sbox/writer.go", "sbox/reader.go", "sbox/sbox.go"],
  [("tuple writer", "sbox/writer.go TWriter"), ("tuple reader", "sbox/reader.go TReader")],
  observe=["sbox.WriteTuple", "sbox.ReadRawTuple", "sbox.ReadSizedTuple"])
prop("C22", "Database request bodies have the documented layout and exact counts",
  "Select, insert, delete, update and call requests are encoded with the documented header words followed by tuples, and every announced count equals the number of keys, operations or arguments actually encoded. The encoded body depends only on the request's contents, not on which of the accepted Go types carries them.",
  ["inputs"], "every field value, key list length up to the bound and accepted key type",
  "sbox tests check one select layout",
  ["sbox/select.go", "sbox/modify.go", "sbox/rpc.go", "sbox/writer.go"],
  [("request encoders", "sbox/select.go, sbox/modify.go, sbox/rpc.go")],
  observe=["marshal.Write of the request"])
prop("C23", "Reading database results is total and its counts are truthful",
  "Reading a result body made of arbitrary bytes into any supported destination never panics or reads past the body. The number of tuples reported as read never exceeds the announced total and equals the number of destination elements filled. A truncated body is reported as an error, and so is a malformed tuple which is read alone; among several it does not affect the tuples after it.",
  ["inputs"], "every body up to the bound for every supported destination kind",
  "sbox tests read two well-formed bodies",
  ["sbox/result.go", "sbox/reader.go"],
  [("result dispatch by destination kind", "sbox/result.go ReadMany / ReadFirst")],
  observe=["sbox.ReadMany", "sbox.ReadFirst"])
prop("C24", "Service adapters run a handler at most once and only for live requests",
  "A function used as a service is called exactly once for a request that is still live when it is sent, and never for one that has already been taken or completed. Wrapping a service for statistics neither loses nor duplicates the response and reports each request exactly once with a non-negative duration.",
  ["schedules", "inputs"], "every request state at sending time, and every race with cancellation up to the bound",
  "no service tests exist",
  ["service.go", "stat.go", "balancer.go"],
  [("function adapters", "service.go Route / SF"), ("statistics wrapper", "stat.go StatService")],
  observe=["handler invocations", "Responder.Respond"])
prop("C25", "A client keeps one pool per address and the wanted number of connections",
  "Asking for the same address from any number of goroutines yields the same client for that address and exactly one is created. A client dials its configured address, brings its connections to the requested number and keeps them there when connections are lost or refused. A request accepted meanwhile waits and is written by one of its connections; it fails when the last connection is lost or refused before that, and not while others are left. Once stopped, it closes all of them, ends, and every request it has accepted and not answered fails.",
  ["schedules", "fault_sequences"], "every interleaving of lookups and every order of connection events",
  "no client tests exist",
  ["net/client/auto.go", "net/client/server.go"],
  [("copy-on-write address table", "net/client/auto.go Auto.Get"), ("connection accounting", "net/client/server.go fixConnections / onConnError")],
  observe=["Auto.Get", "dialled connections"])
prop("C26", "Deadline arithmetic is consistent with wall-clock time",
  "Converting a time to the library's epoch and back is the identity for representable times, comparison and differences agree with those of the original times, and remaining plus elapsed time of a deadline cancel out.",
  ["inputs"], "every pair of representable instants and durations",
  "no test covers it",
  ["epoch.go"], [("epoch conversion", "epoch.go")], observe=["Epoch methods"])
prop("C27", "Encoding and decoding are safe from any number of goroutines",
  "Values, tuples, results and request bodies encoded and decoded by several goroutines at the same time come out exactly as if each goroutine were alone, including when the goroutines use a type for the first time, or types which contain each other, and when one of them decodes malformed input.",
  ["schedules", "inputs"], "every interleaving of two or three goroutines up to the stated number of preemptions, and all values",
  "no test uses the codecs from two goroutines; the tables of type descriptions and the pooled readers and writers go wrong only in a narrow window",
  ["marshal/marshal.go", "marshal/reader_reflect.go", "marshal/writer_reflect.go", "sbox/reader.go", "sbox/writer.go", "sbox/result.go"],
  [("copy-on-write tables of type readers and writers", "marshal ReaderFor / WriterFor, sbox reader / writer"), ("pooled readers and writers", "marshal.Read / Write, sbox.ReadFirst / ReadMany")],
  state=[("rs, ws", "published type tables", "marshal/reader_reflect.go, marshal/writer_reflect.go, sbox/reader.go, sbox/writer.go"), ("readerCache", "cached pair of readers", "sbox/result.go")],
  observe=["marshal.Write", "marshal.Read", "sbox.WriteTuple", "sbox.ReadMany", "sbox.ReadFirst"])
prop("C28", "Waiting for the network is bounded by the configured time-outs",
  "With a read (write) time-out configured, every read from (write to) a connection of a client or server starts under a deadline that far in the future, whatever happened on the connection before; without one, or on a connection which has no deadlines, nothing is limited. A client dials with its dial time-out, five seconds by default, and sends a ping every configured interval, one second by default and never for a negative one.",
  ["inputs", "histories"], "every time-out and every sequence of reads and writes within the bounds",
  "no test configures a time-out; a deadline which is missing or stale shows only when the far end stalls",
  ["net/buf_writer.go", "net/slice_reader.go", "net/header.go", "net/client/config.go", "net/client/connection/connection.go", "net/server/connection.go"],
  [("deadline before each operation", "net/buf_writer.go write, net/slice_reader.go read"), ("configured time-outs reach the connections", "net/client/server.go NewServer, net/client/connection Loop, net/server readLoop / writeLoop"), ("defaults", "net/client/config.go SetDefaults")],
  observe=["SetReadDeadline / SetWriteDeadline calls", "net.Dialer.Timeout", "pings on the wire"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
