#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

CODEC = ["spop/src/data/varint.rs", "spop/src/data/buf.rs", "spop/src/frame/encode.rs", "spop/src/frame/decode.rs"]
CONN = ["spoa/src/conn.rs", "spoa/src/state/state.rs", "spoa/src/state/connect.rs", "spoa/src/state/process.rs"]

p("C01", "Integers and lengths survive the wire in SPOP variable-length form",
  "Every 64-bit integer the protocol carries (stream and frame identifiers, the four integer value types, string and binary lengths) is written in the SPOP/Peers variable-length form documented for the crate, and reading those bytes yields exactly the same integer and consumes exactly the bytes written. The metadata size a frame reports equals the number of metadata bytes it occupies on the wire.",
  ["inputs"], "all 2^64 integer values at every place an integer is carried",
  "test_varint samples 12 integers (11 interval ends); a defect confined to one byte pattern, sign or length class of the 2^64 values is never sampled",
  ["spop/src/data/varint.rs", "spop/src/data/buf.rs", "spop/src/frame/metadata.rs"],
  [("varint::put / varint::get / varint::size_of", "spop/src/data/varint.rs"), ("Metadata::size", "spop/src/frame/metadata.rs")],
  ["bytes written by Framer::write_frame", "frame returned by Framer::read_frame"])

p("C02", "Typed values round-trip with their type and content intact",
  "Any typed value (null, boolean, signed or unsigned 32/64-bit integer, IPv4, IPv6, string, binary) placed in a message argument or in a set-variable action is read back as a value of the same type with equal content, and its bytes are those of the SPOP typed-data layout (type in the low four bits, boolean flag in bit 4, network-order addresses, length-prefixed strings and binaries).",
  ["inputs"], "all values of the fixed-size types; strings and binaries of every content up to the stated length plus the length-prefix boundary lengths",
  "test_typed_data samples 11 values with small non-negative integers only",
  ["spop/src/data/buf.rs", "spop/src/data/typed.rs", "spop/src/data/ty.rs"],
  [("put_typed / typed_data", "spop/src/data/buf.rs")],
  ["bytes written by Framer::write_frame", "frame returned by Framer::read_frame"])

p("C03", "Every representable frame round-trips through write and read",
  "Writing any valid frame (hello, notify, ack or disconnect, from either side) and reading the bytes back yields an equal frame: same kind, identifiers, fragment and abort flags, messages with their arguments in order, actions in order, versions, capabilities (including an empty list), sizes, optional items and texts. Reading consumes exactly the bytes that were written, so that frames written back to back are read back one by one. A message with more arguments than the wire format can count (255) is refused, never written with a wrong count.",
  ["inputs", "programs"], "all valid frames within the stated numbers of messages, arguments, actions, list items and string lengths",
  "test_frame round-trips seven hand-written frames; it never varies identifiers, counts, flags, optional fields or content",
  ["spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/frame/kv.rs", "spop/src/frame/framer.rs", "spop/src/frame/frames.rs"],
  [("encode::frame / decode::frame", "spop/src/frame"), ("Framer", "spop/src/frame/framer.rs")],
  ["Framer::write_frame", "Framer::read_frame"])

p("C04", "Encoded frames have the byte layout of the SPOP specification",
  "The bytes written for a frame are exactly those of the SPOP specification: big-endian 32-bit length of the rest, frame type code, big-endian 32-bit flags with FIN and ABORT in bits 0 and 1, variable-length stream and frame identifiers, then the key-value list, message list or action list in order with the specified key names, counts, action and scope codes. Hello and disconnect frames always carry stream and frame identifier 0 and the FIN flag.",
  ["inputs"], "all valid frames within the stated sizes, compared with an independent encoder",
  "the tests build the expected bytes with the same encoder they test, so a symmetric mistake in encoder and decoder goes unseen",
  ["spop/src/frame/encode.rs", "spop/src/frame/kv.rs", "spop/src/frame/ty.rs", "spop/src/action.rs", "spop/src/frame/metadata.rs"],
  [("encode::frame, metadata, action", "spop/src/frame/encode.rs"), ("key names", "spop/src/frame/kv.rs")],
  ["bytes written by Framer::write_frame"])

p("C05", "Reading arbitrary bytes never panics, hangs or over-allocates",
  "Whatever bytes a peer sends, reading a frame ends with a frame or an error after consuming no more than the declared frame: it never panics, never loops without end, never reads past the declared length and never requests memory out of proportion to the configured maximum frame size.",
  ["inputs"], "all byte strings up to the stated frame length, for every frame type and content",
  "the tests feed only bytes the crate itself produced; nothing malformed, truncated or hostile is ever read",
  ["spop/src/frame/framer.rs"] + CODEC,
  [("bounds checks in get_bytes, get_u8, metadata, varint::get", "spop/src/data/buf.rs, spop/src/frame/decode.rs")],
  ["Framer::read_frame"])

p("C06", "Malformed or truncated payloads are rejected, never half-decoded",
  "A frame whose payload is not entirely well formed (a string, value, count, message or action that is truncated, has an unknown type or code, is not valid text, or whose variable-length integer is unterminated or does not fit in 64 bits) is refused with an error. It is never accepted with some of its content missing, altered or re-interpreted.",
  ["inputs"], "all byte strings up to the stated length, compared with an independent decoder of the specification",
  "no test reads a malformed frame",
  ["spop/src/frame/decode.rs", "spop/src/data/buf.rs", "spop/src/data/varint.rs"],
  [("decode::frame and the list parsers", "spop/src/frame/decode.rs")],
  ["Framer::read_frame"])

p("C07", "Well-formed frames decode to exactly the content on the wire",
  "Every well-formed frame that a SPOP peer may send, including ones this crate never produces (any key order, unknown keys, any integer type for integer items, reserved flag bits set, zero-length lists), is accepted and decodes to exactly the content on the wire. Frames with an unknown type code, a non-zero identifier on hello or disconnect, or a zero frame identifier on notify or ack are refused.",
  ["inputs"], "all frame headers; all well-formed payloads up to the stated length, compared with an independent decoder",
  "the tests read only frames in the exact form the encoder writes them",
  ["spop/src/frame/decode.rs", "spop/src/frame/ty.rs", "spop/src/frame/metadata.rs", "spop/src/data/buf.rs"],
  [("decode::frame", "spop/src/frame/decode.rs")],
  ["Framer::read_frame"])

p("C08", "Frames longer than the limit are refused before their payload is read",
  "A reader configured with a maximum frame size accepts every frame whose declared length is at most that size and refuses every longer one with the bad-frame-size error, having consumed only the four length bytes.",
  ["inputs", "configurations"], "all 2^32 declared lengths against every configured maximum",
  "no test calls the framer at all",
  ["spop/src/frame/framer.rs"], [("Framer::read_frame length check", "spop/src/frame/framer.rs")],
  ["Framer::read_frame"])

p("C09", "No frame larger than the limit is ever sent",
  "A writer configured with a maximum frame size never puts a frame longer than that size on the wire: such a frame is refused with the frame-too-big error and nothing of it is written, and every frame that fits is written whole. Within a connection the limit for frames the agent sends is the one negotiated in the hello exchange.",
  ["inputs", "configurations"], "all frames within the stated sizes against every configured or negotiated maximum",
  "no test writes through the framer or near a size limit",
  ["spop/src/frame/framer.rs", "spop/src/frame/codec.rs", "spoa/src/conn.rs", "spoa/src/state/handshake.rs"],
  [("Framer::write_frame", "spop/src/frame/framer.rs")],
  ["bytes written by Framer::write_frame and Connection"])

p("C10", "How bytes are split across reads and writes never changes the frames",
  "A sequence of frames delivered in any pieces (single bytes, several frames at once, with arbitrary pauses between pieces) is read as the same sequence of frames, and frames written to a transport that accepts any number of bytes at a time arrive complete and in order. If the stream ends before a frame is complete the read fails with the I/O error instead of returning a frame.",
  ["schedules", "inputs", "fault_sequences"], "every way of splitting the stated byte streams into pieces and pauses, and every end-of-stream position",
  "no test performs any asynchronous I/O",
  ["spop/src/frame/framer.rs", "spop/src/frame/codec.rs"],
  [("Framer::read_frame, write_frame; BufCodec", "spop/src/frame/framer.rs, codec.rs")],
  ["Framer, Codec and BufCodec over a scripted transport"])

p("C11", "Hello items are interpreted independently of order, spacing and extras",
  "A hello frame is understood the same whatever the order of its items, with blanks around the entries of its comma-separated version and capability lists ignored, an empty capability list meaning none, and unrecognised items ignored. A hello frame that lacks its version, maximum frame size or capabilities item, or whose version text is not two small decimal numbers separated by a dot, is refused.",
  ["inputs"], "all orders of the items, presence or absence of each, all placements of blanks and all short version texts",
  "the tests decode one HAProxy hello and one agent hello in a single fixed order",
  ["spop/src/frame/decode.rs", "spop/src/version.rs", "spop/src/caps.rs", "spop/src/frame/kv.rs"],
  [("KVList", "spop/src/frame/decode.rs"), ("Version and Capability text forms", "spop/src/version.rs, caps.rs")],
  ["Framer::read_frame"])

p("C12", "The handshake picks the highest version both sides support",
  "When the peer's hello names at least one version the agent supports, the agent answers with an agent-hello naming the highest version supported by both, whatever the order or repetition in either list. When there is none, it answers with an agent-disconnect carrying a non-zero status, never with an agent-hello, and the connection ends without any service being used.",
  ["inputs", "configurations"], "all version lists up to the stated length on both sides",
  "the agent crate has no tests at all",
  ["spoa/src/state/handshake.rs", "spoa/src/state/connect.rs", "spoa/src/runtime/builder.rs"],
  [("negotiate", "spoa/src/state/handshake.rs")], ["frames written by Connection::serve"])

p("C13", "The handshake never exceeds what either side offered",
  "The agent-hello announces a maximum frame size that is the smaller of the peer's and the agent's, and exactly the capabilities offered by both, each once. A capability not announced by both sides is never acted upon.",
  ["inputs", "configurations"], "all frame sizes on both sides and all subsets (with repetition and order) of capabilities on both sides",
  "the agent crate has no tests at all",
  ["spoa/src/state/handshake.rs", "spoa/src/state/connect.rs", "spoa/src/runtime/builder.rs"],
  [("negotiate, Negotiated", "spoa/src/state/handshake.rs")], ["frames written by Connection::serve"])

p("C14", "A health check is answered and closed without touching the service",
  "A hello frame that sets the health-check item is answered with the same agent-hello a normal one would get, after which the connection ends by itself without creating a service or processing any further frame. A hello whose health-check item is absent or false is followed by normal processing.",
  ["inputs", "histories"], "all hello contents within bounds followed by any further frame",
  "the agent crate has no tests at all",
  ["spoa/src/state/connect.rs", "spoa/src/conn.rs"], [("Connecting::handshake", "spoa/src/state/connect.rs")],
  ["frames written by Connection::serve", "service factory calls"])

p("C15", "Frames out of protocol order end the connection with an error",
  "A connection accepts a HAProxy hello first and only first, and afterwards only notify and HAProxy-disconnect frames. Any other frame at any point is answered with an agent-disconnect carrying the invalid-frame status, nothing is sent after it, no service sees any of its content, and the connection ends.",
  ["histories", "inputs"], "all sequences of frames of every kind up to the stated length",
  "the agent crate has no tests at all",
  CONN, [("State machine", "spoa/src/state")], ["frames written by Connection::serve", "service calls"])

p("C16", "Each notify gets exactly one ack, with its ids and the service's actions",
  "Once the handshake is done, every complete notify is handed to the service exactly once, with exactly its messages in order, and is answered by exactly one final, non-aborted ack carrying the same stream and frame identifiers and exactly the actions the service returned, in order. Notifies are processed and acknowledged in the order received, and nothing else is sent.",
  ["histories", "inputs"], "all sequences of notifies up to the stated length with any identifiers, messages and service results within bounds",
  "the agent crate has no tests at all",
  CONN + ["spop/src/frame/frames.rs"], [("Processing::handle_frame", "spoa/src/state/process.rs")],
  ["frames written by Connection::serve", "service calls"])

p("C17", "Fragments of a notify are joined per stream and frame, in order, once",
  "With fragmentation negotiated, the messages of all fragments with one stream and frame identifier pair are handed to the service together, in order of arrival, exactly when the final fragment arrives, followed by one ack; non-final fragments cause no reply. Fragments of different identifier pairs never mix, however they interleave, and a finished pair leaves nothing behind for a later notify that reuses it. The same joining offered to users as a frame handler (Reassembly) behaves likewise for fragments handed over as frames, refuses frames of other kinds as invalid, and treats a disconnect as the normal end.",
  ["histories", "inputs"], "all interleavings of fragments over the stated number of frames with arbitrary identifiers",
  "no test exercises reassembly",
  ["spop/src/frame/fragment.rs", "spoa/src/state/process.rs"], [("Reassembly", "spop/src/frame/fragment.rs")],
  ["frames written by Connection::serve", "service calls", "Reassembly::reassemble"])

p("C18", "Fragments are refused when fragmentation was not negotiated",
  "On a connection where the fragmentation capability was not agreed in the hello exchange, a non-final notify is answered with an agent-disconnect carrying the fragmentation-not-supported status and ends the connection. It is never handed to the service nor acknowledged.",
  ["histories", "configurations"], "all capability sets on both sides and all notify frames within bounds",
  "the agent crate has no tests at all",
  ["spoa/src/state/process.rs"], [("Processing::handle_frame", "spoa/src/state/process.rs")],
  ["frames written by Connection::serve", "service calls"])

p("C19", "A failing or overlong service call ends in a disconnect, never an ack",
  "If the service fails for a notify, the agent sends an agent-disconnect with the unknown-error status and the failure's text; if it does not finish within the configured processing time, one with the timeout status. In both cases, and when the service cannot be created, no ack is sent for that notify, nothing follows the disconnect (whose text may be left out where the agreed frame size has no room for it, the disconnect itself may not), and the connection ends.",
  ["fault_sequences", "histories"], "failure, success or stall of the service at every point of the stated sequences of notifies",
  "the agent crate has no tests at all",
  ["spoa/src/state/process.rs", "spoa/src/conn.rs", "spoa/src/error.rs", "spoa/src/state/connect.rs"],
  [("Processing::handle_frame, Connection::serve error path", "spoa/src/state/process.rs, spoa/src/conn.rs")],
  ["frames written by Connection::serve"])

p("C20", "A peer disconnect is answered with a normal disconnect and the end",
  "After the handshake, a HAProxy-disconnect with any status and text is answered by exactly one agent-disconnect carrying the normal status (0), nothing is sent or processed after it, and the connection ends.",
  ["histories", "inputs"], "all status codes and texts within bounds, after any stated sequence of notifies, followed by any further frame",
  "the agent crate has no tests at all",
  CONN, [("Processing::handle_frame", "spoa/src/state/process.rs")], ["frames written by Connection::serve"])

p("C21", "Unreadable input on a connection is answered with a disconnect",
  "If what a peer sends cannot be read as a frame (malformed or longer than the maximum), the agent sends one agent-disconnect with the corresponding non-zero status before ending the connection, and processes nothing that follows. If the peer closes the stream or it fails, the connection ends without anything further being sent, and without panicking.",
  ["inputs", "fault_sequences"], "all byte strings up to the stated length in place of a frame, before and after the handshake",
  "the agent crate has no tests at all",
  ["spoa/src/conn.rs", "spop/src/frame/framer.rs"], [("Connection::serve", "spoa/src/conn.rs")],
  ["bytes written by Connection::serve"])

p("C22", "Shutdown ends a connection cleanly at any moment",
  "When shutdown is requested, at any moment, a connection that is waiting for a frame ends promptly without further input, and one that is processing a notify finishes it first. The bytes it has sent are always a whole number of frames, each notify it took up is either fully acknowledged or was never started, and no error is reported.",
  ["schedules"], "the shutdown request at every step of the stated conversations",
  "the agent crate has no tests at all",
  ["spoa/src/conn.rs", "spoa/src/agent.rs"], [("select in Connection::serve", "spoa/src/conn.rs")],
  ["bytes written by Connection::serve", "its result"])

p("C23", "Connections of one agent do not disturb each other",
  "Connections sharing one agent runtime behave exactly as if each were alone: an error, disconnect, fragment, negotiated parameter or identifier on one never changes what another sends, receives or hands to its service, and never ends another.",
  ["schedules", "histories"], "all interleavings of two conversations within the stated bounds, including ones that fail",
  "the agent crate has no tests at all",
  ["spoa/src/conn.rs", "spoa/src/agent.rs", "spoa/src/runtime/runtime.rs", "spoa/src/state/connect.rs"],
  [("per-connection state and child cancellation token", "spoa/src/conn.rs, spoa/src/agent.rs")],
  ["frames written by each Connection::serve"])

p("C24", "Status codes and error texts are carried faithfully",
  "Every protocol error has the status number the SPOP specification gives it, in both directions; numbers outside the specification are treated as unknown. An agent error turned into a disconnect keeps the protocol status found anywhere in its chain of causes together with the outermost explanation, and falls back to the unknown status only when there is none.",
  ["inputs"], "all 2^32 status numbers, every protocol error, every nesting of error contexts up to the stated depth",
  "the tests sample one status value; error conversion is untested",
  ["spop/src/error.rs", "spop/src/frame/disconnect.rs", "spoa/src/error.rs"],
  [("Error numbering", "spop/src/error.rs"), ("From<Error> for Disconnect, Error::status", "spoa/src/error.rs")],
  ["public conversions", "disconnect written by Connection::serve"])

p("C25", "Dispatched notifies yield one message stream and one ack channel each",
  "Each distinct notify given to the dispatcher produces exactly one unit of work whose message stream yields exactly the messages of its fragments in order and ends after the final one, while notifies with other identifiers never mix with it; only its first fragment yields an ack channel. Once nobody takes up work any more, every fragment of a notify that was not dispatched before is refused with an error.",
  ["histories"], "all interleavings of fragments over the stated number of notifies with arbitrary identifiers",
  "the agent crate has no tests at all",
  ["spoa/src/runtime/dispatch.rs", "spoa/src/runtime/processor.rs"],
  [("Dispatcher::recieve_messages", "spoa/src/runtime/dispatch.rs"), ("Processor, Messages", "spoa/src/runtime/processor.rs")],
  ["Dispatcher, Processor and Messages"])

p("C26", "An acker delivers exactly one ack, whatever happens to it",
  "However an acker is used (variables set or unset in any order, then completed, aborted or simply dropped, possibly more than once, or dropped while its holder panics) its receiver gets exactly one ack with the identifiers it was created for, the recorded actions in order, and the aborted mark exactly when it was aborted first; later calls report that it is closed and change nothing.",
  ["histories"], "all sequences of operations up to the stated length with arbitrary identifiers",
  "the agent crate has no tests at all",
  ["spoa/src/runtime/acker.rs"], [("Acker", "spoa/src/runtime/acker.rs")], ["receiver of the acker"])

p("C27", "A consumer waiting for work or messages is always woken",
  "A task waiting on the stream of dispatched work, or on the messages of a unit of work, is woken when an item arrives or the stream ends; it is never left asleep while something is available.",
  ["schedules"], "all orders of waiting, sending and closing up to the stated number of steps",
  "the agent crate has no tests at all",
  ["spoa/src/runtime/processor.rs"], [("Processor::poll_next, Messages::poll_next", "spoa/src/runtime/processor.rs")],
  ["wake-ups of the waiting task"])

p("C28", "Binary header blocks decode to exactly the headers they contain",
  "A binary header block in HAProxy's form (length-prefixed name and value pairs with SPOP variable-length lengths, ended by an empty pair) decodes to exactly those headers, keeping every value of repeated names in order. A block with a name or value that HTTP does not allow, or cut inside a name, value or length, is refused, and no block of bytes makes the decoder panic.",
  ["inputs"], "all byte blocks up to the stated length, and value lengths across the length-prefix boundaries",
  "nothing tests header decoding",
  ["spoa/src/req.rs"], [("hdrs_bin", "spoa/src/req.rs")], ["req::hdrs_bin"])

p("C29", "An agent offers exactly what it was configured with",
  "Whatever combination of versions, capabilities, maximum frame size and processing time is given to the runtime builder, in any order and with repetitions, the resulting agent supports exactly those versions (version 2.0 if none), exactly those capabilities, that frame size (16384 if none) and that processing time (15 seconds if none).",
  ["configurations"], "all sequences of builder calls up to the stated length with arbitrary arguments",
  "the agent crate has no tests at all",
  ["spoa/src/runtime/builder.rs", "spoa/src/runtime/runtime.rs"], [("Builder::make_service", "spoa/src/runtime/builder.rs")],
  ["public fields of Runtime", "agent-hello written by Connection::serve"])

p("C30", "The accept loop survives failed accepts and drains on shutdown",
  "An agent keeps accepting new connections after an accept fails, never holds up its thread while no connection is waiting (whatever mode its listener was handed over in), serves each accepted connection independently, and on shutdown stops accepting and returns only after every open connection has ended, from every accept loop if there are several.",
  ["fault_sequences", "schedules"], "all sequences of accept results and shutdown requests",
  "the agent crate has no tests at all",
  ["spoa/src/agent.rs"], [("Agent::serve", "spoa/src/agent.rs")], ["accepted connections", "result of Agent::serve"])

p("C31", "Constructors and conversions keep exactly what they are given",
  "A typed value, message, action, argument list or frame built through the public constructors and conversions holds exactly what was given: the type and content of each value (and the accessors of a value return its content for the matching type only), names and arguments in order, the scope, name and value of each action, and the identifiers, flags, items and lists of each frame. Conversions never change a value to fit.",
  ["inputs"], "all values of the fixed-size types and short texts and lists of every content within bounds, through every public constructor and conversion",
  "the tests build a handful of values by hand and compare them with themselves",
  ["spop/src/data/typed.rs", "spop/src/data/value.rs", "spop/src/frame/msg.rs", "spop/src/action.rs", "spop/src/frame/frames.rs", "spop/src/frame/agent.rs", "spop/src/frame/haproxy.rs"],
  [("From conversions and accessors of Typed", "spop/src/data/typed.rs"), ("Message, Action, Notify, Ack constructors", "spop/src")],
  ["public fields and accessors"])

p("C32", "Versions and capabilities have one order and exact text forms",
  "The text form of every version and capability reads back as the same version or capability, and no other text is accepted as a capability. Versions are ordered by major number, then minor number, numerically (2.10 is above 2.9), and equal exactly when both numbers are equal.",
  ["inputs"], "all versions (both numbers over their whole range) and all texts up to the stated length",
  "the tests parse a few versions and never compare two",
  ["spop/src/version.rs", "spop/src/caps.rs"],
  [("Version: FromStr, Display, Ord", "spop/src/version.rs"), ("Capability: FromStr, Display", "spop/src/caps.rs")],
  ["public conversions", "hello frames on the wire"])

p("C33", "A service is only called once it has said it is ready",
  "A connection asks a service whether it is ready before every call and hands it messages only after it has said so, and asks the maker of services likewise before each service it makes. A service that fails instead of becoming ready is treated like a failed call (a disconnect with the unknown-error status and the failure's text, no ack, the end), one that does not become ready within the processing time like an overlong one, and a maker that fails instead like a service that cannot be made.",
  ["fault_sequences", "schedules", "histories"], "readiness at once, late, never or failing before every call of the stated sequences of notifies",
  "the agent crate has no tests at all; with services that are always ready the difference cannot be seen",
  ["spoa/src/state/process.rs", "spoa/src/state/connect.rs", "spoa/src/runtime/runtime.rs"],
  [("Processing::handle_frame", "spoa/src/state/process.rs"), ("ServiceMaker", "spoa/src/runtime/runtime.rs")],
  ["calls of the service and the maker", "frames written by Connection::serve"])

p("C34", "A frame that was written has been flushed to the peer",
  "When writing a frame reports success, the whole frame has been handed to the transport and the transport has been flushed: nothing of it remains behind in a buffer, however few bytes the transport takes at a time and however often it is pending. A connection never waits for its peer, nor ends, while one of its own replies has not been passed on. When the transport fails to flush, writing the frame fails with an I/O error.",
  ["fault_sequences", "schedules", "all_inputs"], "frames, connections, health checks and disconnects over transports that pass bytes on only when flushed, at once, late or never",
  "plain TCP passes bytes on without a flush; a buffered or encrypting transport does not",
  ["spop/src/frame/framer.rs", "spop/src/codec.rs", "spoa/src/conn.rs"],
  [("Framer::write_frame", "spop/src/frame/framer.rs"), ("Connection::serve", "spoa/src/conn.rs")],
  ["bytes that reached the peer", "result of write_frame"])

p("C35", "A panicking service ends only its own connection",
  "When a service, the future of one of its calls, or the maker of services panics while an agent serves a connection, that connection is closed and no ack is sent for the call; the agent goes on accepting, connections that were open before or are accepted later are served in full, and shutdown still waits for the open ones and then returns without an error.",
  ["fault_sequences", "schedules"], "panics at every stated point of the maker and the service, with other connections before and after",
  "the agent crate has no tests at all",
  ["spoa/src/agent.rs", "spoa/src/conn.rs", "spoa/src/runtime/runtime.rs"], [("Agent::serve", "spoa/src/agent.rs")],
  ["frames each peer gets", "closed connections", "result of Agent::serve"])

p("C36", "Tracing changes nothing about what is sent, read or called",
  "With a subscriber that records every span and event in full, reading and writing frames, serving connections and running an agent give the same frames, results and service calls as without one, and nothing that is traced panics, whatever the peer sends.",
  ["all_inputs", "histories"], "the stated conversations, malformed and empty frames included, with and without a subscriber",
  "the tests run without a subscriber, so what is traced is never evaluated",
  ["spop/src/frame/framer.rs", "spop/src/frame/codec.rs", "spoa/src/conn.rs", "spoa/src/state/process.rs", "spoa/src/agent.rs"],
  [("Framer::read_frame", "spop/src/frame/framer.rs"), ("Connection::serve", "spoa/src/conn.rs")],
  ["frames written and read", "service calls"])

if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        print(json.dumps(x, ensure_ascii=False))
