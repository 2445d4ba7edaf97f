#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json
S = "source/postcard-rpc/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every message header survives the wire and has the documented byte layout",
  "Encoding any header produces exactly the documented layout: one discriminant byte carrying key length, sequence length and version 0, then the key bytes, then the little-endian sequence number; decoding those bytes followed by any payload gives back the same key, key length, sequence number and sequence length, and exactly that payload. The heap-allocating and the in-place encoder produce identical bytes. The in-place encoder reports failure exactly when the buffer is shorter than the encoded header, and never touches bytes beyond the header.",
  ["inputs"], "all keys of all four lengths, all sequence numbers of all three lengths, all payloads and all output buffer sizes",
  "Existing tests encode about a dozen hand-picked headers; a swapped length code, byte order or boundary error for one of the 12 length combinations can slip through.",
  ["header.rs"], [("VarHeader::write_to_slice / write_to_vec / take_from_slice", "header.rs"), ("RpcFrame::to_bytes", "host_client/mod.rs")],
  ["bytes returned by the encoders", "value and remainder returned by the decoder"])
p("C02", "Decoding untrusted bytes as a header is total, exact and canonical",
  "For every byte string, header decoding terminates without panicking; it succeeds exactly when the version is 0, the sequence length code is valid and enough bytes are present for the announced key and sequence number. On success the remainder is exactly the unread suffix, and re-encoding the decoded header reproduces exactly the consumed bytes.",
  ["inputs"], "all byte strings",
  "Tests only feed a few malformed prefixes; acceptance of a reserved code, an off-by-one at a truncated header or a panic needs one particular discriminant and length.",
  ["header.rs"], [("VarHeader::take_from_slice", "header.rs")], ["decoder result on arbitrary input"])
p("C03", "Key shortening is consistent no matter which route or comparison is used",
  "Shortening a key to a given length gives the same result whichever intermediate lengths it passes through, equals the documented XOR folding, and never lengthens a key. Two keys of possibly different lengths compare equal exactly when they agree after shortening the longer to the length of the shorter. Converting a received key to a required length succeeds exactly when the received key is at least that long, and the endpoint and topic key constants at every length are the folded full key.",
  ["inputs"], "all 8-byte keys, all pairs of keys at all pairs of lengths",
  "Equality and shrinking have 16 and 16 length combinations; the tests sample few of them with few values.",
  ["lib.rs", "header.rs"], [("Key1/Key2/Key4 from_key*/try_from_varkey", "lib.rs"), ("VarKey::eq / shrink_to / kind", "header.rs"), ("Endpoint/Topic derived key consts", "lib.rs")],
  ["key bytes", "equality result", "conversion result"])
p("C04", "Sequence numbers keep their value across widths and truncate only as documented",
  "Widening a sequence number preserves its value and narrowing keeps exactly the low-order bytes; conversions to and from plain integers agree with that. Two sequence numbers compare equal exactly when their numeric values are equal, regardless of width, and two headers compare equal exactly when both their sequence numbers and their keys do.",
  ["inputs"], "all sequence number values and all pairs of widths",
  "Only sampled values are tested; wrong sign/zero extension or a wrong truncation shows only for particular widths and values.",
  ["header.rs"], [("VarSeq::resize / From / Into / PartialEq", "header.rs"), ("VarHeader PartialEq", "header.rs")],
  ["resized value", "equality result"])
p("C05", "The chosen key length is the shortest one free of collisions",
  "For any lists of distinct keys, the computed key length is the smallest of 1, 2, 4 and 8 bytes at which no two keys of the lists fold to the same short key, and identical full keys are rejected rather than silently accepted. A generated dispatcher uses a length that is collision-free among everything it receives and among everything it sends - replies, outgoing topics and the protocol error key included - and reports that length consistently.",
  ["inputs", "programs"], "all lists of keys (bounded number and size of lists); dispatchers with colliding and non-colliding key sets in each direction",
  "Tests cover two keys at a time with fixed values; collisions across lists, at the list ends, or only in the outgoing direction are never exercised.",
  ["server/mod.rs", "server/dispatch_macro.rs"], [("min_key_needed", "server/mod.rs"), ("define_dispatch! sizer", "server/dispatch_macro.rs")],
  ["returned length", "Dispatch::min_key_len", "DeviceMap.min_key_len"])
p("C06", "Stream framing recovers every frame however the bytes are chunked",
  "However an incoming byte stream is split into chunks, the frame accumulator yields exactly the frames the stream contains, in order, one per delimiter, provided each encoded frame fits the buffer; it never panics and never returns bytes that were not in the frame. A corrupt frame, or a frame too long for the buffer, never prevents a well-formed frame after the next delimiter from being delivered, and the reported unread remainder is always the exact rest of the chunk.",
  ["inputs", "schedules"], "all byte streams and all ways of chunking them, within stated lengths",
  "The accumulator has no tests; the interesting cases are chunk boundaries falling before, on or after the delimiter and frames of exactly the buffer size.",
  ["accumulator.rs"], [("CobsAccumulator::feed / feed_ref", "accumulator.rs")], ["feed results"],
  [{"name": "buf/idx", "meaning": "bytes of the frame under construction", "where": S + "accumulator.rs"}])
p("C07", "Each request runs exactly its own handler and is answered exactly once",
  "For every incoming frame the dispatcher runs at most one handler, the one whose key matches at the dispatcher's key length, with the decoded payload and the frame's header. An endpoint request gets exactly one answer carrying the request's sequence number and the endpoint's response key: the handler's reply, or the protocol error naming the reason (key too short, unknown key, payload does not decode, reply could not be sent, task could not be spawned), in which case the handler's effects are as specified; a topic message never gets an answer from the dispatcher. Ping echoes its number.",
  ["inputs", "fault_sequences", "configurations"], "all headers (every key, key length, sequence number), all payload bytes, every send failure and spawn failure, dispatchers of each key length and each handler flavour",
  "Tests send a few valid requests at one key length; colliding short keys, undersized keys, malformed bodies, failing sends and failing spawns across 4 lengths x 3 flavours are not enumerated.",
  ["server/dispatch_macro.rs", "server/mod.rs"], [("define_dispatch! matcher/ep_arm/tp_arm", "server/dispatch_macro.rs"), ("Sender::reply/error", "server/mod.rs")],
  ["handler invocations", "frames handed to the transport", "result of handle"])
p("C08", "The server loop survives bad input and stops only on fatal transport errors",
  "The server handles received frames in order, one dispatch per well-formed frame with that frame's header and payload; frames with a malformed header, oversized frames and other non-fatal receive or send errors are skipped without losing any later frame. It returns exactly when the receive side reports a closed connection, or sending reports closed or timed out, with the corresponding error.",
  ["fault_sequences", "inputs", "histories"], "all sequences of received frames, receive errors and handler outcomes up to a stated length",
  "Tests run only the happy path; the error-kind mapping and continuation after an error are not exercised.",
  ["server/mod.rs"], [("Server::run", "server/mod.rs")], ["dispatch calls", "value returned by run"])
p("C09", "Schema streaming reports everything exactly once with truthful totals",
  "A schema request makes the server send every type, endpoint, outgoing topic and incoming topic of its map (in that order) exactly once, each with its own path, keys and direction, numbered consecutively from zero, and then one reply to the requester with the totals per category and the exact number of items that failed to send. Failure to send an item never stops the remaining items or the final reply; failure of the final reply is reported to the caller.",
  ["fault_sequences", "inputs"], "all subsets of failing sends, all request sequence numbers and key lengths, maps of bounded size with arbitrary keys",
  "Tests never inject send failures into the stream.",
  ["server/mod.rs", "standard_icd.rs"], [("Sender::send_all_schemas", "server/mod.rs")], ["messages handed to the transport", "SchemaTotals reply"])
p("C10", "A client request completes only with the response or error meant for it",
  "A pending request completes with a reply exactly when a frame arrives carrying that request's sequence number and the endpoint's response key, or with the device's error when that frame carries the error key; the caller gets that frame's payload, unchanged. Frames with another sequence number or another key, malformed frames and late or duplicate frames never complete it, and never disturb other pending requests. Requests issued by one client carry distinct consecutive sequence numbers and exactly the bytes of header plus serialised request go to the transport.",
  ["schedules", "inputs", "histories"], "all contents and orders of incoming frames relative to up to two concurrent requests, all key lengths",
  "Tests exchange correct replies in order; mismatched, aliased, reordered and duplicate replies need specific headers.",
  ["host_client/mod.rs", "host_client/util.rs"], [("HostClient::send_resp / send_resp_raw", "host_client/mod.rs"), ("HostContext::process_did_wake", "host_client/mod.rs"), ("in_worker / out_worker", "host_client/util.rs")],
  ["result of send_resp", "frames handed to the transport"])
p("C11", "The client adopts the server's key length and the configured sequence width",
  "A client starts with full-length keys; after a reply or error whose key has some length, every later request and published message uses that key length and still matches replies at that length. Requests are numbered with the sequence width the client was configured with.",
  ["histories", "inputs", "configurations"], "all reply key lengths, all orders of requests, publishes and replies up to a stated length, all three sequence widths",
  "Tests use one key length throughout and never check the width on the wire.",
  ["host_client/mod.rs"], [("kkind tracking in send_resp_raw / publish_raw", "host_client/mod.rs"), ("seq_kind", "host_client/mod.rs")], ["frames handed to the transport"])
p("C12", "Topic messages reach every live subscriber of that topic, in order, none else",
  "Each received topic message is delivered once, in arrival order, to every live broadcast subscription and to the exclusive subscription of that topic, also when the device uses short keys; no subscription ever sees a message of another topic. A second exclusive subscription is refused while the first is alive and allowed after it is dropped; the replacing kind closes the previous one. A full exclusive queue drops only the newest message, a lagging broadcast subscriber is told how many it lost, and undecodable payloads are skipped.",
  ["schedules", "inputs", "histories"], "all topic keys and frames, subscription kinds, queue depths and interleavings of subscribe, receive, drop and delivery up to a stated length",
  "Tests use one topic, deep queues and no dropped receivers.",
  ["host_client/mod.rs", "host_client/util.rs"], [("subscribe_* inner fns", "host_client/mod.rs"), ("in_worker_inner", "host_client/util.rs")], ["values returned by recv and subscribe"])
p("C13", "After close or transport failure nothing hangs and every call reports closed",
  "Once the client is closed, or its transport fails in either direction, or every handle is dropped, both workers terminate, every pending and future request, publish and subscribe returns the closed error, live subscriptions drain and then report closed, and waiting for closure completes. Before that point the client never reports itself closed, and no malformed frame closes it.",
  ["schedules", "fault_sequences", "crash_points"], "closing or failing at every point relative to pending requests, publishes and subscriptions, all task interleavings at await points up to a stated length",
  "Tests close an idle client only; a hang needs the stop to land between two particular steps.",
  ["host_client/mod.rs", "host_client/util.rs"], [("Stopper", "host_client/util.rs"), ("in_worker / out_worker", "host_client/util.rs"), ("close / is_closed / wait_closed", "host_client/mod.rs")], ["task completion", "results of pending and later calls"])
p("C14", "Collected type lists are complete, duplicate-free and contain no primitives",
  "For any type description, the collected list contains every non-primitive type reachable from it at any nesting depth and through every kind of composite, contains no primitive and nothing unreachable, and contains no two equal entries; merging lists keeps exactly the union without duplicates. The computed capacity bound always suffices.",
  ["programs", "inputs"], "all type descriptions up to a stated depth and width, including equal and nearly equal sibling types",
  "Tests check a few hand-written types; each composite kind has its own copy of the collection loop.",
  ["uniques.rs", "macros.rs"], [("type_chewer_nty / unique_types_nty_upper", "uniques.rs"), ("merge_nty_lists / cruncher / combine_with_copy", "uniques.rs")], ["returned lists"])
p("C15", "Device USB sends deliver each frame intact and delimited, even after failures",
  "A frame sent by the USB device is written as full-size packets followed by exactly one short packet (empty when the length is a multiple of the packet size), so that the host reassembles exactly the header and payload bytes. If an earlier send was cut off by an error or timeout, the next send first terminates the unfinished transfer, so the frame that follows arrives intact. Success is reported only when the whole frame was written; a frame that does not fit the buffer is refused without writing anything; a closed endpoint and a timeout are reported as such, the time allowed being the configured time per packet times the number of packets.",
  ["inputs", "fault_sequences"], "all frame contents and lengths up to a stated bound, every write failing or stalling at every packet, sequences of sends",
  "No test exists for the USB device transport; boundary lengths and interrupted sends are the hard cases.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("send_all / WireTx for EUsbWireTx", "server/impls/embassy_usb_v0_4.rs")], ["packets written to the bulk endpoint", "result of send"],
  [{"name": "pending_frame", "meaning": "an earlier transfer was left unterminated", "where": S + "server/impls/embassy_usb_v0_4.rs"}])
p("C16", "Device USB receive reassembles each frame exactly and resynchronises",
  "For any sequence of packets, the USB device receiver returns, for each transfer that fits the receive buffer, exactly the concatenation of its packets; a longer transfer is reported as too large and consumed to its end, so the next transfer is received intact. A disabled endpoint is reported as a closed connection.",
  ["inputs", "fault_sequences"], "all packet length sequences and contents up to a stated bound, receive buffers that are a multiple of the packet size, endpoint errors at every read",
  "No test exists for the USB device transport; exact-fit, empty and oversized transfers are the hard cases.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("WireRx for EUsbWireRx", "server/impls/embassy_usb_v0_4.rs")], ["result of receive"])
p("C17", "Device log messages never crash the device and always decode on the host",
  "Sending a log message, plain or formatted, of any length with any buffer size either reports an error or emits one frame whose header is the logging topic at the requested key length with consecutive sequence numbers and whose payload decodes as text. A formatted message that fits is delivered verbatim; one that does not fit is cut to a prefix ending in dots. It never panics.",
  ["inputs", "configurations"], "all message lengths and buffer sizes up to a stated bound (including the length-field size boundaries), all key lengths, multi-byte characters at the cut",
  "No test exists; failures need messages or buffers near the length-field boundaries or an overflow.",
  ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"], [("send_log_str / send_log_fmt / SliceWriter / varint helpers", "server/impls/embassy_usb_v0_4.rs")], ["packets written to the bulk endpoint", "result of the log call"])
p("C18", "The serial client transport carries every frame intact in both directions",
  "Every frame given to the serial transport is written as one delimited encoding that decodes to exactly that frame, and every complete encoded frame arriving on the port, however split into reads, is delivered exactly once and in order to the client, whatever its length within the buffer; garbage between frames is skipped without losing later frames. A port error or end of stream closes the client.",
  ["inputs", "schedules", "fault_sequences"], "all frames up to a stated length, all read and write split points, errors at every step",
  "No test exists for the serial transport.",
  ["host_client/serial.rs", "accumulator.rs"], [("SerialWireTx / SerialWireRx", "host_client/serial.rs")], ["bytes written to the port", "frames reaching the client"])
p("C19", "The USB client transport delimits transfers and recovers from stalls",
  "Each frame sent over host USB is submitted whole and, when its length is a multiple of the packet size, followed by an empty transfer, so the device sees exactly one frame. Received transfers are delivered complete and in order; a bounded run of transient receive errors is recovered from by clearing the stall without losing or duplicating other transfers, while a persistent error closes the client.",
  ["inputs", "fault_sequences"], "all frame lengths up to a stated bound, all completion and error sequences up to a stated length",
  "No test exists for the host USB transport.",
  ["host_client/raw_nusb.rs"], [("NusbWireTx / NusbWireRx", "host_client/raw_nusb.rs")], ["transfers submitted", "frames reaching the client"])
p("C20", "Server-originated messages carry the right key, length and sequence number",
  "Whatever a server sends through its sender - replies, keyed replies, published topics, errors - carries exactly the caller's sequence number (value and width), the message's own key folded to the sender's key length, and exactly the caller's value; transport errors are handed back unchanged and nothing is sent twice.",
  ["inputs", "configurations", "fault_sequences"], "all keys, sequence numbers and widths, key lengths, payload values and transport outcomes",
  "Tests use one key length and one sequence width.",
  ["server/mod.rs"], [("Sender::reply / reply_keyed / publish / error", "server/mod.rs")], ["frames handed to the transport"])
p("C21", "The host's schema report reflects exactly what the device streamed",
  "A schema report is returned only when the number of endpoints and topics received per direction equals the device's totals and no send errors were reported; otherwise an error is returned. Every reported endpoint and topic has the path, keys and types the device sent.",
  ["schedules", "fault_sequences"], "all losses of streamed items",
  "Tests only run the lossless case.",
  ["host_client/mod.rs"], [("HostClient::get_schema_report / SchemaReport::add_*", "host_client/mod.rs")], ["returned report"])
p("C22", "The browser USB client transport delimits transfers and recovers from stalls",
  "The browser transport sends each frame as one delimited transfer and delivers each received transfer once and in order, recovering from stalls.",
  ["inputs", "fault_sequences"], "all frames and completion sequences",
  "It only builds for the browser target and is never tested.",
  ["host_client/webusb.rs"], [("WebUsbWire", "host_client/webusb.rs")], ["transfers submitted", "frames reaching the client"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
