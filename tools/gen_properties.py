#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SAMPLES = "the tests parse four well-formed sample files and a handful of literals"
PAR, DS, MB, FM, TK, EN, MO, DI, BU, FH, MU, MA = ("core/src/parser.rs", "core/src/datastream.rs", "core/src/message_buf.rs",
  "core/src/formats.rs", "core/src/tokenizer.rs", "core/src/encode.rs", "core/src/model.rs", "core/src/display.rs",
  "core/src/builder.rs", "core/src/field_helpers.rs", "core/src/macro_utils.rs", "macros/src/lib.rs")
NEXT = "items returned by iterating a parser"

p("C01", "Parsing never panics, whatever the bytes",
  "For every byte sequence a reader can deliver, with any reader error at any point and any combination of parser options, building a parser and pulling items from it until it ends never panics: no failed unwrap, out-of-range index or slice, arithmetic overflow, capacity overflow or explicit panic is reachable. Malformed input is reported as an error item instead.",
  ["inputs", "fault_sequences", "configurations"], "all byte streams, reader faults and builder options",
  SAMPLES + "; a panic needs one particular malformed byte pattern, and no malformed log is ever parsed", [PAR, TK, FM, MB, DS, FH],
  [("bounds-checked cursor", MB + " advance"), ("token-level error returns", FM), ("tokenizer", TK)], [NEXT])
p("C02", "Memory and recursion per message are bounded by the bytes it carries",
  "Decoding a message never recurses without bound through self-referential or mutually recursive type definitions, and never allocates for, or iterates over, more array elements than the remaining bytes of that message can hold. A definition or array size that asks for more is reported as an error item.",
  ["inputs"], "all format definitions (including cyclic ones) and all declared array sizes",
  SAMPLES + "; none has a cyclic type or an oversized array", [PAR, FH, FM],
  [("nested decode", PAR + " parse_data_message_sub"), ("array decode", FH + " parse_array")], [NEXT])
p("C03", "A truncated stream is reported, never decoded as data",
  "If the stream ends inside the file header or inside a message (after at least one byte of its size and type prefix was consumed as a complete size field), the parser yields an error item; it never yields a header or message built from bytes the reader did not deliver. Every byte a yielded message was decoded from was delivered by a read that succeeded.",
  ["inputs", "crash_points"], "every prefix of every log",
  "every test input is a complete file; a log cut off by power loss is never parsed", [PAR, DS],
  [("end-of-file flag", DS + " read_exact"), ("body read", PAR + " read_message")], [NEXT],
  [("eof flag", "the reader reported end of file", DS)])
p("C04", "Reader and decode failures always surface as error items",
  "When the underlying reader fails with anything other than end of file, or when any part of a message cannot be decoded, the same pull returns an error item. A failure is never swallowed, replaced by a default value, turned into a message, or turned into a normal end of stream.",
  ["inputs", "fault_sequences"], "all reader error sequences and all malformed messages",
  "the tests never inject a reader error and never feed a malformed message through the iterator", [PAR, DS, FM, FH, MB],
  [("error propagation", PAR + " next_sub"), ("io error mapping", DS + " read_exact")], [NEXT])
p("C05", "End of stream only at a message boundary or data limit, and it is final",
  "The iterator returns None only when the reader reports end of file before the size field of the next message is complete, when the appended-data limit has been reached, or after it has already ended. Once it has returned None it returns None on every later pull, without reading further.",
  ["inputs", "histories"], "all streams and all sequences of pulls",
  "the tests stop at the first None and only see complete files", [PAR],
  [("state machine", PAR + " next_sub")], [NEXT], [("state", "parser phase", PAR)])
p("C06", "Nothing is yielded from a stream without a valid file header",
  "A message is only ever yielded after the sixteen-byte file header was read completely and its seven magic bytes matched. After a bad header the parser reports an invalid header, and never yields a message on any later pull.",
  ["inputs", "histories"], "all streams, all pulls after a header failure",
  "no test feeds a stream with a bad or short header", [PAR, MO],
  [("magic check", PAR + " read_file_header"), ("error state", PAR + " next_sub")], [NEXT], [("state", "parser phase", PAR)])
p("C07", "Each message consumes exactly its own framed bytes",
  "Each message takes exactly three prefix bytes (little-endian 16-bit size, then type byte) plus the declared number of body bytes from the reader, whatever its type, whether it is wanted, and whether it decodes. Decoding one message never reads bytes of the next, so one malformed message never shifts the messages after it.",
  ["inputs"], "all message sequences, malformed ones included",
  SAMPLES + "; resynchronisation after a malformed message is never exercised", [PAR, DS, MB],
  [("prefix read", PAR + " read_message_header"), ("body read", PAR + " read_message")], [NEXT])
p("C08", "Fixed-layout messages are decoded from the bytes the ULog spec assigns",
  "The file header, flag bits, subscription, removal, logged string, tagged logged string, dropout, parameter, default parameter, info, multi-info and data prefixes are decoded field by field from the offsets, widths, signedness and little-endian order of the ULog specification, and each yields the message kind of its type byte. No field takes its value from another field's bytes.",
  ["inputs"], "all message bodies of every kind",
  "the round-trip test compares bytes only for the kinds present in four files; swapped or mis-sized fields that re-encode the same way, and kinds that never occur (tagged strings, removals, default parameters), pass", [PAR, MB, MO],
  [("per-kind decode", PAR + " parse_data / parse_definition and helpers")], [NEXT])
p("C09", "Every declared field type decodes to its own type, width and byte order",
  "Each of the twelve built-in types, as a scalar and as an array, decodes to the value variant of that type using that type's width, signedness and little-endian order, arrays have exactly the declared number of elements in stream order, and nested types are decoded by the definition they name. Fields are decoded in declaration order, each starting where the previous one ended.",
  ["inputs", "programs"], "all format definitions and bodies",
  "the sample files use a subset of types, and re-encoding hides a wrong variant of equal width", [PAR, FH, MB],
  [("type dispatch", PAR + " parse_field_value / parse_array_field"), ("width table", FH)], [NEXT, "MessageBuf"])
p("C10", "Re-encoding a parsed message reproduces its bytes",
  "For every message kind the parser yields with timestamps and padding included, encoding the yielded message writes that message's own type byte and the same field bytes in the same order, width and byte order they were decoded from (given canonical text spelling and 0/1 booleans). No decoded field is dropped, duplicated or reordered by encoding.",
  ["inputs"], "all well-formed messages of every kind and every value type",
  "the round-trip test covers only the kinds and value types in four files", [PAR, EN, MO, FM, DI],
  [("encode per kind", EN), ("decode per kind", PAR)], ["Encode::encode output against parser input"])
p("C11", "An encoded message's length prefixes are exact, or encoding fails",
  "Every non-header message is written as a two-byte little-endian size, its type byte and exactly that many body bytes, and every embedded key as a one-byte length and exactly that many key bytes; a body or key too long for its prefix is an error, never a wrapped length. Any error from the writer is returned, and an ignored-message placeholder, which has no body to write, is never written as an empty frame.",
  ["inputs", "fault_sequences"], "all message values and writer faults",
  "no test encodes an oversized body or key, an ignored message, or to a failing writer", [EN],
  [("frame writer", EN + " Encode for UlogMessage"), ("key writer", EN)], ["Encode::encode output and result"])
p("C12", "Messages the parser does not interpret pass through with all their bytes",
  "A message whose type is unknown, or is not interpreted in the current section, is yielded as an unhandled message carrying its own type byte and its complete body, including removal messages. Encoding it writes back the same type byte and body.",
  ["inputs"], "all message types (256 type bytes) in both sections",
  "the sample files contain few uninterpreted kinds, and none that the parser also acts on", [PAR, EN],
  [("fallback arms", PAR + " parse_data / parse_definition")], [NEXT])
p("C13", "Data is decoded only with its own current subscription and format",
  "A data message is decoded with the format named by the most recent subscription of its id, an id with no current subscription (never added, or removed since) yields an error item, and a subscription naming an undefined format is rejected with an error and leaves the known subscriptions unchanged. Subscriptions are recorded identically whether they arrive first, ending the definitions section, or later.",
  ["inputs", "histories"], "all interleavings of definitions, subscriptions, removals and data",
  "the sample files never reuse or remove an id and never reference an undefined format", [PAR],
  [("subscription table", PAR + " next_sub"), ("lookup", PAR + " parse_data")], [NEXT],
  [("subscriptions", "id to subscription", PAR), ("formats", "name to definition", PAR)])
p("C14", "The allow list selects exactly the listed names, one item per data message",
  "With an allow list that is given before reading starts, a data message is returned decoded if and only if the current subscription of its id has a listed name, and otherwise as an ignored item with its type byte; without one, every data message is decoded. Other message kinds are unaffected by the list, and an id re-subscribed under an unlisted name is no longer decoded.",
  ["inputs", "histories", "configurations"], "all allow lists and subscription histories",
  "the tests use one list and one file, and ids are never re-used", [PAR, BU],
  [("filter", PAR + " SubscriptionFilter"), ("builder", BU)], [NEXT], [("allowed ids", "ids whose current name is listed", PAR)])
p("C15", "Multi-instance data is labelled with its own instance index",
  "A decoded data message carries the instance index of the subscription it arrived under exactly when some subscription seen so far with the same name has a non-zero index; otherwise it carries none. The index is never taken from another subscription.",
  ["inputs", "histories"], "all subscription histories",
  "no test asserts the instance index of a yielded message", [PAR],
  [("multi-id set", PAR + " next_sub / parse_data_message")], ["instance index of yielded data messages"])
p("C16", "A data message's timestamp is its own top-level timestamp field",
  "The timestamp reported for a data message is the value of the unsigned 64-bit field named timestamp at the top level of its format, never one nested in a member. A format with no such field yields a missing-timestamp error instead of data.",
  ["inputs"], "all formats, with nested timestamps or none",
  "the samples all have one leading top-level timestamp", [PAR],
  [("timestamp extraction", PAR + " parse_data_message(_sub)")], [NEXT])
p("C17", "Include options change only what they name, and default to off",
  "The header item, the top-level timestamp field and padding fields appear in the output exactly when the corresponding option is on; each is off unless set. Every other field is returned unchanged and in order, padding bytes are consumed whether or not they are returned, and each option controls only its own effect. Padding that a definition ends with and the data leaves out or cuts short is not reported.",
  ["inputs", "configurations"], "all eight option combinations and all formats",
  "the tests use two of the eight combinations and never inspect the fields kept", [PAR, BU],
  [("field filter", PAR + " filter_fields"), ("padding", PAR + " parse_padding"), ("builder", BU)], [NEXT])
p("C18", "Incompatible logs are refused and appended data is never parsed",
  "A flag-bits message with any incompatible flag set other than the data-appended bit, in any of the eight bytes, yields an error. When the data-appended bit is set, no message starting at or after the first non-zero appended offset is ever read or yielded; when it is clear the offsets are ignored.",
  ["inputs"], "all flag-bits messages",
  "no sample has appended data or an incompatible flag", [PAR, MO],
  [("flag check", PAR + " parse_flag_bits"), ("read limit", PAR + " next_sub")], [NEXT], [("read limit", "offset where appended data starts", PAR)])
p("C19", "Log levels map one-to-one to their wire bytes and names",
  "Each of the eight level bytes '0' to '7' decodes to its own level (emergency, alert, critical, error, warning, notice, info, debug) and any other byte is an error. Encoding a level writes back the byte it was decoded from, and its text is the name of that same level.",
  ["inputs"], "all 256 level bytes",
  "no test asserts a level mapping", [MO, EN, DI], [("level table", MO + " TryFrom<u8>"), ("names", DI)], ["LogLevel conversions, encoding and text"])
p("C20", "Format and key text is accepted exactly by the grammar, and re-emitted as read",
  "A format definition is a name, a colon, and fields each ending in a semicolon; a field or key is a type name, an optional bracketed size and a name, in that order, with nothing left over; any other token sequence is an error, never partly accepted. The twelve built-in type names map one-to-one to the built-in types, any other name is a reference to a defined type, and writing a definition or type back yields the same names, sizes and order.",
  ["inputs"], "all definition and key texts",
  "the tests parse three well-formed definitions and no malformed one", [FM, TK, DI, EN, PAR],
  [("token grammar", FM), ("type names", FM + " from_string, " + DI)], ["format definitions, infos and parameters yielded; errors"])
p("C21", "The library has no side effects beyond its reader, writer and logger",
  "Parsing, encoding, formatting and derived streams never write to standard output or standard error, never touch files, environment, processes, threads, clocks or the network, and keep no mutable global state. All input comes from the reader given and all output goes to the writer given or through the logging facade.",
  ["inputs", "programs"], "all call paths from the public API",
  "tests capture and ignore standard output", [PAR, DS, EN, DI, MO, FM, TK, MU],
  [("effect freedom", "core/src")], ["process-level effects"])
p("C22", "Parser memory does not grow with the number of data messages",
  "Reading any number of data, string, dropout, info, parameter or unhandled messages leaves no trace in the parser beyond its current position and end flags: only format definitions, subscriptions and removals change its retained tables. At most one message body is buffered at a time, and the stream is never read ahead as a whole.",
  ["inputs", "histories"], "all message sequences of any length",
  "the largest sample is under one megabyte and no test measures retained state", [PAR, DS],
  [("streaming state", PAR + " ULogParser")], ["parser state between pulls"])
p("C23", "With thread_safe, every model type and the parser can cross threads",
  "With the thread-safety feature enabled, every public data type of the message model and the error type is Send and Sync, and a parser or derived stream over a Send reader is Send. Without the feature the same API compiles.",
  ["configurations", "programs"], "all public types, both feature settings",
  "the test lists types by hand, so a type added later, the error type, the parser itself and derived streams are not covered", [MO, PAR, "core/src/errors.rs"],
  [("shared pointer alias", MO)], ["Send and Sync of public types"])
p("C24", "Unsafe code only reinterprets character slices as the bytes they are",
  "The only unsafe operations are views of a character slice as bytes that use the pointer and the length of that same slice, of an element type that is a transparent one-byte wrapper. No other unsafe operation, unsafe trait implementation or aliasing of mutable state exists.",
  ["inputs", "programs"], "all slices and all unsafe sites",
  "tests cannot observe an over-long view that happens to read mapped memory", [MO, EN],
  [("byte views", MO + " CCharSlice, " + EN)], ["unsafe blocks"])
p("C25", "Derived structs take each field from the log field it names",
  "A struct deriving the data mapping reads each member from the log field whose name is the member's name or its override, in whatever position the definition puts it, from the subscription named by the struct's snake-case name or override. A required member missing from the definition is an error that names it, an optional member is None exactly when the definition lacks it, and a value whose type differs is a type error.",
  ["programs", "inputs"], "all derivable structs and all definitions",
  "the tests derive a few structs against one file, where member and log order mostly agree", [MA, MU, "macros/src/utils.rs"],
  [("generated accessor", MA + " derive_logged_struct")], ["values returned by derived accessors"])
p("C26", "Typed extraction accepts only a value of exactly the requested type",
  "Extracting a log value as a Rust type succeeds only when the value is of the corresponding log type (scalar to scalar, array to vector, nested to struct, nested array to vector of structs) and returns that very value; any other combination is a type-mismatch error, with no conversion, truncation or default. Vectors keep length and order.",
  ["inputs", "programs"], "all value variants against all extractable types",
  "the tests extract five of the twenty-six types and never a mismatched one", [MU],
  [("FromField impls", MU)], ["FromField::from_field"])
p("C27", "Derived streams route each message to its own variant, losing none",
  "A derived stream yields a data message as the variant whose struct matches the name and instance of the current subscription of its id; other data messages, and all other message kinds, go to the catch-all variant unchanged if there is one and are skipped otherwise; subscriptions are handled internally and forwarded only on request when not mapped. Every parser or mapping error is yielded as an error item, and re-subscribing an id replaces its previous mapping.",
  ["inputs", "histories", "programs"], "all derivable enums and message histories",
  "the tests never re-use an id, never inject an error mid-stream, and use one enum and catch-all name", [MA],
  [("generated iterator", MA + " derive_logged_enum")], ["items of a derived stream"])
p("C28", "Derived builder options are honoured or refused, never ignored",
  "Extra subscriptions given to a derived builder are allowed in addition to the mapped names, and forwarding is on exactly when requested. Asking for either on an enum without a catch-all variant is a configuration error; a plain stream allows exactly the mapped names.",
  ["programs", "configurations"], "all builder call sequences",
  "the tests make single calls on one enum", [MA], [("generated builder", MA + " derive_logged_enum")], ["builder results and stream contents"])
p("C29", "The derives compile for every supported shape and name, and reject the rest",
  "The derive macros accept any non-generic struct with named fields and any non-generic enum of single-struct variants, whatever their visibility and whatever the type, variant, field and catch-all names, as long as no type takes a name that the standard prelude or the derives themselves define. Generic or unnamed-field structs, non-structs, generic enums, non-enums, variants that are not a single unnamed struct and more than one catch-all are rejected at compile time.",
  ["programs"], "all derive inputs",
  "the compile tests always use the enum name LoggedMessages and variant name Other", [MA, "macros/src/utils.rs"],
  [("shape checks", MA)], ["compilation of derived code"])
p("C30", "The message cursor returns the next bytes in order or fails without moving",
  "Each take, advance or skip on the message buffer returns the next bytes in little-endian order with the exact width of its type and moves the position by exactly that width; if too few bytes remain, for any requested size, it returns an error and leaves the position unchanged. Remaining length and remaining bytes always describe exactly the bytes not yet taken.",
  ["inputs", "histories"], "all buffers, sizes and call sequences",
  "the only example takes three values in bounds", [MB], [("cursor", MB)], ["MessageBuf API"], [("position", "bytes already taken", MB)])
p("C31", "The data stream reads exact widths and counts every byte it takes",
  "Each typed read takes exactly its type's width from the reader and decodes it little-endian; the byte count advances by the bytes requested; end of file sets the end flag and every other reader error is returned. Skipping n bytes consumes at most n and reports how many it consumed.",
  ["inputs", "fault_sequences"], "all readers",
  "the tests read from a complete file only", [DS], [("typed reads", DS)], ["DataStream API"], [("byte count", "bytes requested so far", DS)])
p("C32", "Array splitting and flattening keep type, order and every element",
  "Splitting an array value into scalars yields, for each of the thirteen array kinds, the scalar kind of the same type for every element in order, and nothing for a scalar. Flattening visits every field, element and nested field exactly once in order, under a path that names it: field names, and the zero-based index for an element of an array.",
  ["inputs"], "all values",
  "no test calls either", [MO], [("to_scalars / flatten", MO)], ["to_scalars, flatten"])
p("C33", "Text rendering shows the value's own content for every type",
  "The text of each value shows that value's own content for all twenty-six kinds, and info and multi-info messages render the same value identically after their key. Built-in type names are rendered as the names the parser accepts, and parameter defaults list exactly the default kinds whose bits are set, each by its own name and apart from the other.",
  ["inputs"], "all values of all kinds",
  "no test compares rendered text", [DI, MO], [("Display impls", DI)], ["Display output"])
p("C34", "Restricting to mapped messages is faster than decoding everything",
  "Listing only the required subscriptions reduces parsing time compared with decoding every data message, and the thread-safety feature costs about two percent.",
  ["inputs", "configurations"], "all logs and machines",
  "tests measure no time", [PAR, BU], [("early return for filtered ids", PAR + " parse_data")], ["wall-clock time"])
p("C35", "Re-encoding the items of a log in order reproduces the log",
  "When a log of well-formed messages in canonical spelling is read from its first byte, with the header, timestamps and padding included and every message decoded, the encodings of the returned items, written one after the other, are the bytes that were read: the header item is the first sixteen bytes, each other item reproduces exactly the stretch of its own message, each stretch begins where the previous one ended, and no message is left out, merged with another or returned twice.",
  ["inputs", "histories"], "all logs of well-formed messages",
  "the round-trip test compares four files", [PAR, EN], [("round trip", "core/src/roundtrip_test.rs")], ["file bytes"])
p("C36", "Messages render as text with each of their own parts",
  "The text of a logged string shows its level's name, its tag when it has one, its timestamp and its message; that of a subscription its name and id; of a dropout its duration; of a format definition every field's type, array size and name in declaration order; of a decoded format its name and, when its name has several instances, its instance index. Each part is shown once, complete and in that order, apart from fixed text only.",
  ["inputs"], "all messages and all field values",
  "no test compares rendered text", ["core/src/display.rs"], [("Display impls of the messages", "core/src/display.rs")], ["Display output"])
p("C37", "Accessors report what the parser, the message or the text holds",
  "Looking up a format by name or a subscription by id on the parser returns exactly the entry registered under that key, and an error only when there is none. The flag accessors report their own bit, the default kinds theirs. For a sequence of characters the byte view is all its bytes, the text is that of all its bytes, trimming yields the longest prefix that does not end in a NUL, and the trimmed text is the text without the NULs at its end; a single character reports its byte, and as a char itself when ASCII and the replacement character otherwise.",
  ["inputs"], "all receivers and all keys",
  "no test calls them on more than one value", [PAR, "core/src/model.rs"], [("lookups", "core/src/parser.rs get_format, get_subscription"), ("character data", "core/src/model.rs CChar, CCharSlice")], ["return values"])
p("C38", "Well-formed messages are never refused",
  "In either section and after any history, a pull that meets a well-formed message yields an item, never an error, unless the source fails or ends inside it. Well-formed are: flag bits of 40 bytes with no incompatible bit but the appended-data one; an information, multi-information, parameter or default parameter message whose key is valid text of the key grammar (any length up to 255) with a built-in type (parameters: int32_t or float, no array) and at least as many value bytes after it as the type needs, whatever those bytes are; a subscription of any ids to a format that is defined; a (tagged) logged string with a level digit 0 to 7 and valid text of any length; a dropout of 2 bytes; a removal of at least 2; and any message of an unknown type. Field and array values hold any bit pattern, and bytes left over after a value are no reason to refuse it.",
  ["inputs", "histories"], "all contents of each of these messages, from every parser state",
  "the tests pull a few recorded logs", [PAR], [("message parsers", "core/src/parser.rs parse_definition, parse_data"), ("level", "core/src/model.rs LogLevel::try_from"), ("taking values", "core/src/message_buf.rs")], ["iterator items"])
p("C39", "The same bytes and options give the same items, everywhere",
  "What the parser yields, what encoding writes and what rendering shows are a function of the bytes, the options and the values alone. They do not depend on the order of a hash table or a random seed, on addresses, or on the byte order of the machine, so that two runs over one log, on any machine, cannot differ. (Global state, clocks and the environment are C21's, the chunks a source delivers C31's.)",
  ["inputs", "programs", "environments"], "all call sites reachable from the public API and from derived code",
  "the tests run each log once, on one machine", [PAR, "core/src/builder.rs", "core/src/encode.rs", "core/src/message_buf.rs", "core/src/datastream.rs", "macros/src/lib.rs"], [("hash tables", "core/src/parser.rs formats, subscriptions, allow lists"), ("byte order", "core/src/message_buf.rs, encode.rs")], ["items, bytes and text of two runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
