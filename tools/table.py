"""Which entries decide which property, and within which bounds."""
import json, os

_covers = {}
_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "covers.json")
if os.path.exists(_p):
    _covers = json.load(open(_p))
RECORDED_ON = _covers.get("_tree")


def E(entry, what, tier="quick", **kw):
    return dict(entry=entry, what=what, tier=tier, covers=_covers.get(entry, []), **kw)


def T(entry, what, **kw):
    return E(entry, what, tier="thorough", **kw)


TABLE, BOUNDS, OUTSIDE = {}, {}, {}


def P(prop, bounds, outside, *entries):
    TABLE[prop] = list(entries)
    BOUNDS[prop] = bounds
    OUTSIDE[prop] = outside


P("C01", "every 64-bit integer; both identifiers of a frame over all 64 bits (thorough: together); every integer value; "
  "lengths 0..300 and around 2287/2288 and (thorough) 264432 with arbitrary first and last byte",
  "lengths beyond those; frames of more than one message in the identifier entries",
  E("c01_varint", "put, get and size_of for any u64"),
  E("c01_ids", "identifiers of notify and ack, metadata size, one over all 64 bits"),
  E("c01_ints", "any value of the four integer types in arguments and actions"),
  E("c01_lengths", "lengths around 240 in every place a length is written"),
  E("c01_long", "lengths around 2288"),
  E("c01_every_length", "every length up to 300"),
  E("c01_very_long", "lengths of three and four varint bytes"),
  T("c01_all_ids", "both identifiers over all 64 bits"))

P("C02", "every value of the fixed-size types; strings of up to 4 (thorough 12) arbitrary ASCII bytes, of any single Unicode "
  "character (thorough: two); binaries of the same lengths; any typed value of up to 8 (thorough 11) wire bytes",
  "longer texts, other than the lengths of C01",
  E("c02_values", "a value of every type, written, compared with the layout, read back"),
  E("c02_unicode", "text of any Unicode character"),
  E("c02_wire", "arbitrary wire bytes of a value, decoded or refused like the specification says"),
  E("c02_values_12", "longer texts"), E("c02_unicode_2", "two characters"), T("c02_wire_11", "longer wire bytes", deadline=900))

P("C03", "frames of every kind with up to 2 messages of 2 arguments or 3 actions (counts up to 300 in c03_many), texts of up "
  "to 3 arbitrary characters, any identifiers of one byte and the varint boundaries, up to 3 versions",
  "longer combinations",
  E("c03_haproxy_hello", "HAProxy hello"), E("c03_agent_hello", "agent hello"), E("c03_disconnect", "disconnects"),
  E("c03_notify", "notify"), E("c03_args", "arguments of every type"), E("c03_ack", "ack"), E("c03_acks", "several actions"),
  E("c03_many", "many arguments, messages, actions"), E("c03_lengths", "long texts in every place"),
  E("c03_unicode", "any character in every text"), E("c03_too_many", "too many arguments are refused"),
  E("c03_sequence", "frames back to back"))

P("C04", "as C03", "as C03",
  E("c04_haproxy_hello", "HAProxy hello"), E("c04_agent_hello", "agent hello"), E("c04_disconnect", "disconnects"),
  E("c04_notify", "notify"), E("c04_args", "arguments of every type"), E("c04_ack", "ack"), E("c04_acks", "several actions"),
  E("c04_many", "many arguments, messages, actions"), E("c04_lengths", "long texts in every place"),
  E("c04_unicode", "any character in every text"),
  E("c04_envelope", "flags, types and identifiers"), E("c04_unset", "the unset frame"))

P("C05", "any 16 (thorough 20) bytes on the wire with any declared length; every frame with 2 arbitrary bytes anywhere, "
  "cut anywhere, or with 2 bytes inserted anywhere; a memory request above 16 KiB + 64 times the bytes given is an alarm",
  "more than 2 arbitrary bytes in frames longer than that",
  E("c05_raw", "arbitrary bytes"),
  E("c06_window_messages", "arbitrary bytes in a frame"), E("c06_window_items", "the same, key-value lists"),
  E("c06_cut", "truncated frames"), E("c06_inserted", "inserted bytes"),
  E("c06_varints", "oversized and unterminated integers in all places"),
  E("c08_starved", "long declared lengths"),
  T("c05_raw_20", "more bytes", deadline=1500), T("c06_window_3", "3 arbitrary bytes"))

P("C06", "payloads of up to 8 to 10 (thorough 12/13) arbitrary bytes of every frame kind; every example frame with 2 (3) "
  "arbitrary bytes anywhere, cut anywhere, or with 2 arbitrary bytes inserted; 10 arbitrary varint bytes in every place",
  "payloads further from a well-formed one than that",
  E("c06_notify", "arbitrary notify payloads"), E("c06_ack", "arbitrary ack payloads"), E("c06_hello", "arbitrary hello payloads"),
  E("c06_disconnect", "arbitrary disconnect payloads"), E("c06_window_messages", "arbitrary bytes in messages and actions"),
  E("c06_window_items", "arbitrary bytes in key-value lists"), E("c06_cut", "truncated frames"),
  E("c06_inserted", "inserted bytes"), E("c06_varints", "integers unterminated or too large, in every place"),
  T("c06_notify_12", "more bytes", deadline=900), T("c06_ack_13", "more bytes", deadline=900),
  E("c06_window_3", "three arbitrary bytes"), T("c06_window_items_2", "two arbitrary bytes in key-value lists"),
  T("c06_all_varints", "longer integers"))

P("C07", "all 32 flag bits, all type codes, all identifiers; integer items of all four types with any value; payloads as in C06",
  "see C06",
  E("c07_envelope", "type, flags and identifiers"), E("c07_identifiers", "identifiers of several bytes"),
  E("c07_many", "many arguments, messages, actions"), E("c07_lengths", "long texts in every place"),
  E("c07_unicode", "any character in every text"),
  E("c07_integer_items", "integer items of any type"), E("c02_wire", "any value, well-formed or not"),
  E("c06_window_items", "key-value lists with arbitrary bytes: what is well-formed decodes to its content"),
  E("c06_window_messages", "messages and actions with arbitrary bytes"))

P("C08", "every declared length against limits of 0 to 24 bytes; frames around and beyond limits of up to 48 bytes and of 255 to 70000", "other limits (the comparison is over all lengths)",
  E("c08_length", "any declared length"), E("c08_frames", "whole frames around the limit"),
  E("c08_starved", "nothing but the length is needed"), E("c08_large", "larger limits"))

P("C09", "frames of every kind around any limit up to 70 bytes; the limit negotiated on a connection", "larger frames",
  E("c09_frames", "frames against any limit"), E("c09_kinds", "every kind of frame"), E("c09_large", "larger limits"),
  E("c09_negotiated", "acks around the size agreed in the hello exchange"),
  E("c09_default", "frames around the default limit, 16384"))

P("C10", "three frames in pieces of any size with pauses, of at most n bytes at a time, ends and failures at any byte, "
  "writes of any size; frames of 8170 to 16384 bytes in pieces of several sizes, with one arbitrary character", "longer sequences",
  E("c10_pieces", "arbitrary pieces"), E("c10_trickle", "few bytes at a time"), E("c10_end", "the stream ends or fails"),
  E("c10_writes", "partial writes"), E("c10_write_fails", "failing writes"),
  E("c10_large", "frames longer than the buffers in between"))

P("C11", "all orders of the items of both hellos; up to two unrecognised items anywhere, with names of up to 2 arbitrary "
  "characters and values of any type; blanks at any of the places; any subset of the items; version texts of up to 4 (thorough "
  "6) arbitrary characters and of up to 4 arbitrary digits a side",
  "longer names and texts",
  E("c11_order", "every order of the items"), E("c11_extras", "unrecognised items anywhere"),
  E("c11_blanks", "blanks in the lists"), E("c11_blanks_agent", "the same in the agent's hello"),
  E("c11_no_caps", "empty capability lists"), E("c11_missing", "missing items"),
  E("c11_version_text", "any short text as a version"), E("c11_version_any", "a version with one arbitrary character"),
  E("c11_version_numbers", "numbers too large for a version"),
  T("c11_version_text_6", "longer texts", deadline=900))

P("C12", "lists of up to 2 (thorough 3) versions out of 4 on both sides, in any order and with repetitions; versions of "
  "arbitrary one- and two-digit numbers; 12 versions spread over both lists with any one or two, or none, in common",
  "longer lists in arbitrary orders",
  E("c12_digits_2", "versions of arbitrary digits"), E("c12_lists", "lists in any order, with repetitions"), E("c12_long", "long lists"),
  T("c12_digits", "more arbitrary digits", deadline=900), T("c12_lists_3", "longer lists", deadline=900))

P("C13", "all 32-bit frame sizes of the peer and all of the agent; all lists of up to 3 capabilities on both sides", "longer lists",
  E("c13_sizes", "frame sizes of any value on both sides", alloc=9000000000),
  E("c13_caps", "any capabilities on both sides"), E("c13_acted", "what only one side announced is not acted upon"))

P("C14", "hellos with the item true, false, absent or of another type, in two orders, followed by any frame of several kinds",
  "longer histories", E("c14_healthcheck", "health checks and normal hellos, with anything after them"))

P("C15", "every kind of frame first, and after up to two notifies", "longer histories",
  E("c15_first", "the first frame is not a hello"), E("c15_later", "a frame out of order after up to two notifies"),
  E("c21_tight", "little room for the explanation"))

P("C16", "identifiers of any value (one varied at a time); up to 2 messages and 2 actions of arbitrary content; up to 3 "
  "notifies, delivered in pieces, with services that take up to 2 turns; 40 and 300 notifies with fixed content",
  "longer conversations with arbitrary content",
  E("c16_ids", "any identifiers"), E("c16_messages", "any messages"), E("c16_actions", "any actions"),
  E("c16_order", "several notifies"), E("c16_at_once", "acks are sent at once"), E("c16_long", "many notifies"), E("c16_hundreds", "hundreds of notifies"),
  T("c16_both", "messages and actions together", deadline=900))

P("C17", "up to 3 (thorough 4) fragments of two notifies of any one-byte identifiers, interleaved in any way, on a "
  "connection; 4 fragments of any identifiers and 5 to 7 of menus of them, in the table itself; 40 notifies open at once and one of "
  "30 fragments, with fixed content",
  "longer histories",
  E("c17_fragments", "three fragments, interleaved"), E("c17_any", "the same with any identifiers"),
  E("c17_pairs", "identifiers of which only parts differ"), E("c17_table", "the table by itself"),
  E("c17_table_7", "more steps"), E("c17_table_ids", "identifiers of which only parts differ"),
  E("c17_table_any", "any identifiers"), E("c17_handlers", "fragments given to the table as frames"), E("c17_many", "many notifies open at once"),
  T("c17_fragments_4", "four fragments", deadline=900), T("c17_pairs_3", "three fragments of several notifies"))

P("C18", "all sets of capabilities on both sides without fragmentation in both; any one-byte identifiers; up to 2 notifies before",
  "longer histories", E("c18_refused", "a fragment on a connection without fragmentation"))

P("C19", "a failure with a text of up to 3 arbitrary characters (or up to 800 with one or two arbitrary ones), or a call of several lengths against several limits, after "
  "up to 2 good calls; a service that cannot be made; agreed frame sizes from 31 bytes, the shortest disconnect, to 80", "longer histories",
  E("c19_fails", "the service fails"), E("c19_long", "the service fails with a long text"), E("c19_time", "calls that take some time against some limits"),
  E("c19_make", "the service cannot be made"), E("c19_tight", "little room for the explanation"))

P("C20", "any status and text of up to 3 arbitrary characters, after up to 2 notifies and open fragments, before any further frame",
  "longer histories", E("c20_disconnect", "a disconnect after any number of notifies and open fragments"))

P("C21", "notifies with arbitrary first bytes; any type, flags and identifiers; any declared length; an end or failure at any byte",
  "arbitrary bytes beyond those (C05 and C06 have them for the reader)",
  E("c21_notify", "malformed notifies"), E("c21_envelope", "type, flags and identifiers of no frame"),
  E("c21_too_long", "a length beyond the maximum"), E("c21_end", "the stream ends or fails anywhere"),
  E("c21_deaf", "writes fail after any number of bytes"),
  E("c21_tight", "little room for the explanation"))

P("C22", "shutdown before and after every poll of conversations of up to 2 (thorough 3) notifies, with every seed of "
  "select's order out of 4; while any part of a frame has come; while the service is busy",
  "more than two connections at once; threads",
  E("c22_polls", "shutdown at any poll"), E("c22_polls_seeds", "the same with different orders of select"),
  E("c22_waiting", "shutdown while part of a frame has come"), E("c22_busy", "shutdown of a busy connection"),
  E("c22_agent", "a whole agent with two connections, shut down at any turn of the scheduler"),
  T("c22_agent_seeds", "the same with more orders of select"),
  T("c22_polls_3", "longer conversations"))

P("C23", "two connections of one runtime, one of them failing in any of several ways at any of its steps; both talking with "
  "the same identifiers in any order of their parts; three connections of which one ends in between", "more connections",
  E("c23_neighbours", "one fails while the other talks"), E("c23_neighbours_polled", "the same, poll by poll"),
  E("c23_making", "a service slow to make"), E("c23_three", "three connections"), E("c23_both", "both talk in earnest"),
  E("c23_agent", "two connections, and a later third, of a whole agent"),
  E("c23_agent_orders", "the same in any order of their parts"))

P("C24", "all 2^32 numbers; every status with texts of up to 3 arbitrary characters, or up to 2288 with one arbitrary one; chains of up to 3 contexts around every kind of error",
  "longer chains", E("c24_numbers", "every number, as a status and on the wire"),
  E("c24_frames", "every status in both kinds of disconnect"), E("c24_long", "every status with a long text"),
  E("c24_chain", "statuses in chains of causes"))

P("C25", "up to 3 (thorough 4) fragments of two notifies of any identifiers, work taken up and read at any time",
  "longer histories, other than 20 notifies open at once", E("c25_fragments", "three fragments, read at any time"),
  E("c25_many", "many notifies open at once"), E("c25_any", "any identifiers"),
  E("c25_pairs", "identifiers of which only parts differ"), E("c25_given_up", "a consumer that gives up"),
  E("c25_closed", "nobody takes up work any more"),
  T("c25_fragments_4", "four fragments"))

P("C26", "all sequences of up to 2 (thorough 3) operations with arbitrary identifiers and contents, and longer ones of fixed content; a holder that panics after up to 2 variables",
  "longer sequences of arbitrary content", E("c26_operations", "any two operations"), E("c26_operations_3", "any three"),
  E("c26_long", "longer sequences"), E("c26_unwinds", "a holder that panics"))

P("C27", "all orders of up to 5 (6) steps of waiting, sending and closing", "longer histories; real threads",
  E("c27_work", "waiting for work"), E("c27_messages", "waiting for messages"), E("c27_work_6", "more steps"),
  E("c27_messages_5", "more steps"))

P("C28", "blocks of up to 4 (5) arbitrary bytes; blocks of up to 2 headers with names out of a menu and arbitrary values, cut "
  "anywhere, in up to two pieces; four values of two names; 60, 130 or 300 headers of fixed names; long names and values of 239 to 2289 bytes; any declared length",
  "arbitrary names longer than that",
  E("c28_bytes", "arbitrary bytes"), E("c28_bytes_5", "five arbitrary bytes"), E("c28_names", "headers with arbitrary values"),
  E("c28_repeated", "several values of one name"), E("c28_many", "many headers"), E("c28_long", "long values and names"),
  E("c28_lengths", "declared lengths of any size"))

P("C29", "all sequences of up to 2 (3) calls of the builder with arbitrary arguments", "longer sequences",
  E("c29_calls", "any two calls"), E("c29_calls_3", "any three calls"), E("c29_hello", "what the agent then says and does"))

P("C30", "up to 2 accepts that succeed or fail with any error number (4 with four error numbers), with or without pauses; 200 "
  "failures in a row; a listener handed over in blocking mode with up to 2 connections; up to 150 connections open at once; two accept loops with 3 connections; shutdown with two connections in any of 8 states each, and with one that is accepted at that moment",
  "more connections; threads; the kernel's sockets, which are modelled (accept, readiness, reads and writes)",
  E("c30_accepts", "accepts that fail or not"), E("c30_failing", "accepts that go on failing"),
  E("c30_shutdown", "shutdown with connections in any state"), E("c30_idle", "shutdown of an agent that does nothing"),
  E("c30_twice", "two accept loops of one agent"), E("c30_many", "many connections at once"), E("c30_listener", "a listener in blocking mode"), E("c30_accepts_4", "four accepts"))

P("C31", "all values of the fixed-size types; texts and binaries of up to 3 arbitrary characters; messages of two arguments; "
  "all identifiers and flags", "longer texts and lists",
  E("c31_values", "values made from anything and taken out again"),
  E("c31_constructors", "frames, messages and actions from the constructors"))

P("C32", "the order of all pairs of versions; the text of 120 versions; capability texts with 2 arbitrary characters; version "
  "texts of up to 4 arbitrary characters and any digits", "the text of other versions",
  E("c32_order", "versions order by their numbers"), E("c32_text", "the text of versions"),
  E("c32_caps", "the text of capabilities"), E("c11_version_numbers", "numbers of any digits"),
  E("c12_digits_2", "the order as it is used in the handshake"))

P("C33", "up to 2 good calls and one for which the service is ready at once, after 1 or 3 polls, after 99 or 101 ms of a limit of "
  "100 ms, or never, or fails with a text of up to 3 arbitrary characters; the same for the maker; two connections",
  "longer histories",
  E("c33_service", "a service that is not ready at once"), E("c33_maker", "a maker that is not ready at once"),
  E("c33_two", "two connections whose services are not ready at once"))

P("C34", "three frames in a row, by the framer or through either codec, over a transport that takes all or 9 bytes at a time; up to "
  "2 notifies and the connection's end for any of four reasons; the flush succeeds at once, after a pending poll, or fails",
  "other kinds of transport; longer histories",
  E("c34_frames", "frames over a transport that needs a flush"), E("c34_connection", "a peer that waits for each reply"),
  E("c34_check", "a health check and a disconnect"))

P("C35", "one or two panics, at any of 8 points in the maker or service (readiness, call, future; at once or 20 ms later; before or "
  "after good calls), next to one connection that was open before and one that is accepted later",
  "panics in drops; panics that abort the process; longer histories",
  E("c35_panics", "a service or maker that panics"))

P("C36", "5 ways to begin a conversation and 9 to go on, with one arbitrary character; frames of 6 kinds by the framer or either "
  "codec under two limits, and some bytes that are no frame; an agent with two connections and a failed accept",
  "other frames; subscribers that filter or fail",
  E("c36_connection", "a conversation, traced or not"), E("c36_frames", "frames, traced or not"), E("c36_agent", "an agent, traced"))

NOT_APPLICABLE = {}
