#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "property-based testing"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique, built=True, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, technique=technique, built=built, observe=observe or [], state=state or []))

A, E, S = "asn1/", "embertree/", "socket/"
ENC, DEC = A+"encode.go", A+"decode.go"

prop("C01", "Primitive values survive a write/read round trip",
 "Any sequence of integers (32 and 64 bit), booleans, reals, strings, byte buffers, NULLs, OIDs and relative OIDs written with the BER writer is read back by the BER reader as exactly the same values in the same order, with nothing left over. This holds for every value in the type's range (all finite reals including subnormals, both zeros up to sign, infinities and NaN; strings and buffers of any length, across every length-form boundary). Values read stay what they are whatever becomes of the bytes they were read from.",
 ["inputs"], "every finite sequence of primitive values, every length",
 "The tests write one or two constants per type; the defects sit at length-form, sign and exponent boundaries that only a search over values meets.",
 [ENC, DEC], [("length forms", ENC), ("two's complement integers", ENC), ("binary reals", ENC), ("base-128 components", ENC)],
 "Generated values, crowded around powers of two, plus enumerations of every boundary; the oracle is equality.", "round-trip property-based testing with boundary enumeration")
prop("C02", "Primitives are written as the BER bytes the standard prescribes",
 "What the BER writer emits for a primitive is well-formed BER with the right tag, a shortest-form length, shortest two's-complement integers, shortest exponents of reals and shortest base-128 OID components, and an independent BER decoder reads it as the value written. Application, context and universal tag helpers yield the tag octets of X.690.",
 ["inputs"], "every primitive value and every tag number the helpers accept",
 "Round trips inside the library hide errors made symmetrically by writer and reader; interoperability needs an independent decoder over the whole value range.",
 [ENC], [("length and tag writing", ENC), ("real normalisation", ENC)],
 "Differential against a BER codec written from X.690 for this purpose; generated values and enumerated boundaries.", "differential property-based testing against an independent BER decoder")
prop("C03", "Every legal spelling of a primitive decodes to the same value",
 "The BER reader decodes any legal BER spelling of a primitive - padded long-form lengths, integers with redundant sign octets that fit 64 bits, any non-zero octet as true, binary reals (base 2, no scale factor, the mantissa read as Ember+ does, its first one bit being the integral digit) with exponents of one to three octets and padded or unnormalised mantissas - to the value that spelling stands for, and leaves exactly the bytes that follow unread.",
 ["inputs"], "every value crossed with every legal spelling",
 "Tests only decode what the library itself writes; peers are free to choose other spellings.",
 [DEC], [("length parsing", DEC), ("real decoding", DEC)],
 "An independent encoder spells each generated value in a drawn legal way; the oracle is the drawn value.", "differential property-based testing with a spelling generator")
prop("C04", "Malformed primitives are reported as errors, never misread",
 "Reading a primitive from data that is truncated, carries another tag, announces more content than there is, or has contents illegal for its type (empty integer, wrong-size boolean, unfinished or oversized OID component, impossible real) returns an error; it does not panic, loop, read past the value, or return a made-up value. For arbitrary bytes, each reader returns either an error or the value the standard assigns.",
 ["inputs"], "every byte string handed to a primitive reader",
 "The space of malformed data is unbounded and the tests feed only well-formed values.",
 [DEC], [("bounds checks", DEC), ("content checks", DEC)],
 "Mutated and arbitrary byte strings against an independent strict decoder.", "fuzzing with a differential decoder oracle")
prop("C05", "Nested containers isolate their content and report where it lies",
 "Sequences opened while writing come out as properly nested containers, and while reading, the reader of a container yields exactly that container's content: after its end is read the enclosing reader continues with the next value, for definite, padded and indefinite lengths nested in any way. Offsets reported by readers are the absolute position in the message, and a missing or spoilt end marker of an indefinite-length container, and opening a container that starts with another tag, is an error. Raw data and strings of indefinite length are read as the octets up to the two zero octets that end them.",
 ["inputs", "programs"], "every tree of containers and primitives in every mix of length forms",
 "Existing tests nest two or three fixed levels in one form.",
 [ENC, DEC, A+"stack.go"], [("sequence stack", ENC), ("sub-readers", DEC), ("end markers", DEC)],
 "Random container trees written by the library or by the independent encoder, read back by a generic walker.", "structured-generation property-based testing")
prop("C06", "An Ember element survives being encoded and decoded",
 "Any node, parameter, matrix, function or command (plain or qualified) built through the public setters and encoded, alone or as a message, decodes to an element with the same kind, number, path, contents, children, targets, sources and connections. The same holds for labels, signals, connections, tuple descriptions and invocations on their own; encoding takes nothing away, so encoding again gives the same; an element message carries the element and its children, and descendants of a child that itself has contents are not part of it.",
 ["inputs"], "every element tree reachable through the public setters",
 "Tests cover a handful of constant elements with one or two fields set; interactions between optional fields, empty lists and boundary values are untested.",
 [E+"element.go", E+"elementFactory.go", E+"node.go", E+"parameter.go", E+"matrix.go", E+"function.go", E+"connection.go", E+"label.go", E+"signal.go", E+"invocation.go", E+"command.go"],
 [("Encode/Decode of each element", E)], "Generated element trees; the oracle is the drawn model, compared through every public getter and by re-encoding.", "model-based round-trip property-based testing")
prop("C07", "Encoded elements conform to the Glow schema",
 "What the library encodes for any element, list or message is well-formed BER that follows the Glow schema - right application and context tags, value types, field numbers, SET/SEQUENCE kinds - and an independent Glow decoder reads from it exactly the element that was built. Command constants, field-flag constants and enumerations have the numbers the Ember+ specification assigns.",
 ["inputs"], "every element tree reachable through the public setters",
 "A symmetric mistake in encoder and decoder passes every round-trip test and still breaks interoperation with real providers.",
 [E+"element.go", E+"root.go", E+"node.go", E+"parameter.go", E+"matrix.go", E+"matrix_element.go", E+"function.go", E+"command.go"],
 [("Encode of each element", E)], "An independently written Glow decoder parses the output strictly; canonical forms are compared.", "differential property-based testing against an independent Glow decoder")
prop("C08", "Any legal encoding of a Glow message decodes to what it says",
 "Decoding a legal Glow message gives the tree it describes whatever legal spelling the sender chose: definite, padded or indefinite lengths at every level, SET fields in any order, optional fields and lists absent, empty or present, plain or qualified elements. Fields of value types the library supports are all preserved, also when the bytes of the message are used for other things afterwards.",
 ["inputs"], "every Glow message over the supported types crossed with every legal BER spelling",
 "Tests decode a few captured messages from one provider, which uses one spelling.",
 [E+"elementFactory.go", E+"root.go", E+"node.go", E+"parameter.go", E+"matrix.go", E+"matrix_element.go", E+"function.go", E+"connection.go", E+"content_parameter.go"],
 [("Decode of each element", E), ("end-of-container handling", DEC)], "An independent Glow encoder with a drawn spelling produces the bytes; the decoded tree is compared with the drawn model through getters and re-encoding.", "differential property-based testing with a spelling generator")
prop("C09", "No input bytes crash, hang or exhaust the decoders",
 "Decoding any byte string as a message, an element, or any of their parts terminates promptly with a result or an error: it does not panic, loop forever, or allocate memory out of proportion to the input. A tree that rejected a message stays usable.",
 ["inputs"], "every byte string up to the sizes tried",
 "Robustness against a hostile or broken peer is about the inputs nobody wrote a test for.",
 [DEC, E+"elementFactory.go", E+"root.go"], [("error checks after each read", E), ("loop progress", E)],
 "Arbitrary, grammar-aware mutated and spliced messages under CPU, wall and allocation limits.", "structure-aware mutation fuzzing")
prop("C10", "Incomplete or schema-violating messages are rejected",
 "A message cut short, or whose structure contradicts the Glow schema - a missing or mistyped number or path, an unknown element kind, an unknown field outside the contents, a container or list entry under the wrong tag, a value of impossible form or an enumerated number the schema does not have, lengths that disagree with the nesting - makes decoding return an error rather than silently yield a partial or altered tree.",
 ["inputs"], "every legal message crossed with every cut point and a set of schema-breaking edits",
 "Truncation points and edits multiply with message shapes; tests try none of them.",
 [DEC, E+"elementFactory.go", E+"root.go"], [("error propagation", E)],
 "Legal generated messages, cut at every point or edited to break the schema; acceptance is the violation.", "fault-injection property-based testing")
prop("C11", "The tree after any sequence of messages is their merge",
 "After decoding any sequence of messages into one tree, the tree holds exactly the union of everything announced: each element is present once under its path with the most recent contents, target list and source list announced for it and the most recent connection announced for each target; what a message does not mention stays as it was (an empty list mentions nothing), and qualified and plain announcements of the same element are interchangeable. Qualified elements whose parent is unknown are not attached anywhere. Encoded as a message again, the tree tells a receiver what it holds (within what a message carries).",
 ["histories"], "every finite history of plain and qualified messages",
 "State after a history depends on interleavings of announcements; the tests merge one or two messages.",
 [E+"root.go", E+"element.go"], [("update of existing elements", E+"element.go"), ("placement of qualified elements", E+"root.go")],
 "Random message histories applied to the library and to a reference merge model; trees compared after every message.", "stateful model-based testing")
prop("C12", "Every element has one exact, stable, resolvable path",
 "An element's path is the sequence of numbers from the top of its tree down to it, whatever the order in which the tree was built and whenever it was asked for, and asking never changes another element's path. Looking up a path finds exactly the element with that path and its parent, and finds nothing for a path that is not in the tree.",
 ["programs", "histories"], "every sequence of tree-building and path-asking operations",
 "Aliasing and caching faults appear only for particular shapes and orders of calls.",
 [E+"qualified_element.go", E+"element.go", E+"root.go"], [("path computation", E+"qualified_element.go"), ("lookup", E+"root.go")],
 "Random build/ask sequences against a model tree.", "stateful model-based testing")
prop("C13", "Listeners hear exactly the updates of what they watch",
 "A listener on an element is called when a message (or the program itself) updates that element or attaches something to it, with that element as the message leaves it, and not for unrelated elements; root listeners are called once per decoded message. Adding a listener twice does not duplicate calls, and a removed listener is never called again.",
 ["histories"], "every history of messages, direct updates, listener additions and removals",
 "Which listeners fire is a function of history and shape; tests check none of it.",
 [E+"element.go", E+"root.go"], [("listener maps", E+"element.go"), ("notification on update", E+"root.go")],
 "Random histories with recording listeners against a model of who must hear what.", "stateful model-based testing")
prop("C14", "Directory requests name the right element and ask for everything",
 "The message built to request an element's directory addresses exactly that element - by its full path from the root, plain or qualified, with the right element kind - and carries one GetDirectory command (32) asking for all fields; the root request carries the command alone. Building it leaves the tree unchanged apart from registering the given listener.",
 ["inputs", "programs"], "every element of every tree",
 "The tests compare one or two byte dumps at depth one.",
 [E+"element.go", E+"qualified_element.go", E+"root.go", E+"command.go"], [("branch duplication", E+"element.go"), ("qualified request", E+"qualified_element.go")],
 "Requests for every element of generated trees, parsed by the independent decoder.", "differential property-based testing")
prop("C15", "Typed values keep one type and reject the others",
 "A content value remembers exactly the last value set and its type: the getter of that type returns it and every other getter fails; assigning from another value copies value and type, and is refused without effect when the types differ; its encoding and decoding preserve both.",
 ["programs", "inputs"], "every sequence of set, assign, get and encode operations",
 "Tests exercise each type once, in a fixed order.",
 [E+"content_parameter.go"], [("typed setters and getters", E+"content_parameter.go")],
 "Random operation sequences against a one-variable model.", "stateful model-based testing")
prop("C16", "Matrices accept only legal state and keep it exactly",
 "Matrix type, mode, connection operation and disposition accept exactly their legal values and refuse others without effect; counts, labels, targets, sources and connections are kept in order and exactly as set; matrix operations on anything that is not a matrix fail.",
 ["programs", "inputs"], "every sequence of matrix operations, every argument value",
 "Tests set one legal value each and never an illegal one after a legal one.",
 [E+"matrix.go", E+"matrix_element.go", E+"connection.go"], [("validation", E+"matrix.go"), ("validation", E+"connection.go")],
 "Random operation sequences against a record model.", "stateful model-based testing")
prop("C17", "Functions and invocations carry all their arguments",
 "Function descriptions keep their arguments and results (type and name) in order through encoding and decoding in any legal spelling, and an invocation is encoded with its id and all its argument values in order and decodes back to one that encodes identically.",
 ["inputs"], "every list of tuples and every argument list",
 "The only test encodes one fixed function.",
 [E+"function.go", E+"invocation.go"], [("tuple lists", E+"function.go"), ("argument lists", E+"invocation.go")],
 "Generated descriptions and invocations, against the independent codec.", "differential property-based testing")
prop("C18", "Textual renderings are total and faithful",
 "Rendering any element, tree or content value as text terminates without panicking, shows the number and path of every element it renders and the identifier, description and other set fields its kind of contents lists, and contains no formatting-error artefacts; rendering changes nothing.",
 ["inputs"], "every tree, in every mix of set and unset fields",
 "Rendering is used for logging everywhere and untested; its faults depend on which fields are set.",
 [E+"element.go", E+"node.go", E+"parameter.go", E+"matrix.go", E+"function.go", E+"command.go", E+"content_parameter.go", E+"root.go"],
 [("ToString", E)], "Generated trees with marker values; every marker must appear, and no '%!' artefact.", "property-based testing with marker values")
prop("C19", "Any payload survives S101 framing in any chunking",
 "Any payload of one byte or more framed for sending and fed to the decoder in pieces of any size is delivered exactly once, byte for byte, and payloads of successive messages are delivered in order, framed by this library or by another implementation of whatever version of S101 and Glow, also with keep-alive frames between frames of one message, which are reported as such, whatever the handlers return.",
 ["inputs", "schedules"], "every payload sequence crossed with every chunking and keep-alive placement",
 "Tests decode one captured frame in one piece.",
 [S+"frame.go"], [("escaping", S+"frame.go"), ("multi-packet assembly", S+"frame.go")],
 "Generated payloads around frame and escape boundaries, drawn chunk sizes; the oracle is the payload list.", "round-trip property-based testing with schedule generation")
prop("C20", "S101 frames follow the wire format exactly",
 "Every frame produced is delimited by BOF and EOF, contains no unescaped reserved byte between them, has the prescribed header, DTD and packet flags (single, first, middle, last), something of the payload and a correct CRC, and an independent S101 decoder recovers the payload from the frames, as often as they are asked for; keep-alive request and response frames are the prescribed ones.",
 ["inputs"], "every payload",
 "Tests compare one short frame; splitting, flags and CRC escaping depend on payload bytes and length.",
 [S+"frame.go"], [("framing", S+"frame.go"), ("CRC", S+"frame.go")],
 "Generated payloads; independent bitwise CRC and frame parser.", "differential property-based testing against an independent S101 decoder")
prop("C21", "Damaged S101 streams never deliver altered payloads",
 "Whatever bytes arrive, the decoder never panics; a frame that is corrupted or cut short is never delivered, nor is any message that lost a frame to such damage or whose first frame was not received. The first intact message after any damage is delivered unaltered, and each complete frame that fails its checks is reported to the error handler. (Whole frames that vanish without a trace from the middle of a message cannot be noticed: S101 numbers no frames.)",
 ["fault_sequences", "inputs"], "every stream of frames crossed with every sequence of damages",
 "Damage placement and its interaction with multi-packet state cannot be sampled by hand.",
 [S+"frame.go"], [("CRC validation", S+"frame.go"), ("assembly state", S+"frame.go")],
 "Streams of frames with drawn faults; the oracle knows which frames arrived intact.", "fault-injection fuzzing with ground truth")
prop("C22", "A client fetches a provider's whole tree exactly once",
 "Asking a connected client for the tree of any provider results in the listener being called exactly once, without error, with a tree that holds exactly the provider's elements and their contents, whatever the shape of the tree and however replies are delayed, reordered, split into frames and reads, or interleaved with keep-alives. Each element's directory is requested exactly once. (The provider answers each request with the element asked for, its children nested or following it, or with its children alone the first time.)",
 ["schedules", "inputs"], "every provider tree crossed with every reply schedule",
 "The only client test needs a live provider and always fails here.",
 [S+"client.go", E+"root.go", E+"element.go"], [("recursive directory requests", S+"client.go"), ("io loop", S+"client.go")],
 "A scripted provider on loopback with an independent codec serves a generated tree under a drawn schedule.", "end-to-end property-based testing against a generated fake provider")
prop("C23", "A request ends in exactly one outcome: answer or timeout",
 "With a timeout set, each directory request made with a listener ends exactly once: the listener gets the element when the first answer arrives in time, and then never the timeout error; otherwise it gets the timeout error, not before the timeout has passed, and nothing when the answer arrives late. A tree request of which any part stays unanswered ends exactly once with an error. The client stays usable for further requests either way, also from within the listener. Without a timeout the listener is not called until the answer arrives. All this holds also for requests made without a connection or whose connection is lost.",
 ["schedules", "fault_sequences"], "every schedule of answers, late answers and silences",
 "Races between timer and reply need many schedules.",
 [S+"client.go"], [("timers", S+"client.go")],
 "Drawn sequences of requests with prompt, late or no answers against a fake provider.", "schedule-generating property-based testing")
prop("C24", "Keep-alive requests are answered",
 "Each keep-alive request a connected client receives is answered with one keep-alive response, at any time and on every connection, also amid messages, damaged frames and stray bytes and split across reads, and nothing else is answered; requests made meanwhile are each sent once, intact and in order.",
 ["schedules"], "every interleaving of keep-alives and requests",
 "Needs a live peer; no test covers it.",
 [S+"client.go", S+"frame.go"], [("keep-alive handler", S+"client.go")],
 "A fake peer sends drawn interleavings and decodes everything the client sends.", "schedule-generating property-based testing")
prop("C25", "Connecting and disconnecting never crashes or wedges a client",
 "Any sequence of connects, disconnects, requests and peer hang-ups, also from listeners and from several goroutines, leaves the client working: connecting twice, disconnecting twice or connecting where nobody listens is an error that changes nothing, connection state is reported correctly (a hang-up is noticed), disconnecting closes the connection and leaves nothing running, and requests work after reconnecting, to the same address or another (IPv4, IPv6 or name). Requests made while disconnected are each sent exactly once after connecting; those cut off by a disconnect or hang-up are sent at most once. A provider that stops reading does not keep the client from being used or disconnected.",
 ["histories", "schedules"], "every sequence of lifecycle operations",
 "Life-cycle orders and their races are not sampled by any test.",
 [S+"client.go"], [("connection state", S+"client.go"), ("io loop", S+"client.go")],
 "Drawn operation sequences against a fake peer and a state model, built with the race detector.", "stateful model-based testing under the race detector")
prop("C26", "Concurrent requests are each sent exactly once, race-free",
 "Directory requests issued concurrently from any number of goroutines and from listeners are each sent exactly once and unaltered unless refused with an error because too many wait to be sent, those of one goroutine in order, and end once each, without data races, while replies and updates are being processed and while the client connects.",
 ["schedules"], "every set of concurrent request sequences and schedules",
 "Tests are single-threaded.",
 [S+"client.go", E+"element.go", E+"root.go"], [("output queue", S+"client.go"), ("listener maps", E+"element.go")],
 "Drawn request plans from several goroutines against a recording peer, built with the race detector.", "concurrent property-based testing under the race detector")
prop("C27", "Loggers print exactly what their level admits",
 "A console logger at a given level prints messages of that severity and of every higher severity, formatted as given, and nothing below; its level can be changed and read back between any two calls; the null logger never prints.",
 ["programs"], "every sequence of level changes and log calls",
 "No tests cover the logger.",
 ["logger/logger.go"], [("level gates", "logger/logger.go")],
 "Random call sequences with captured output against a model of the level order Error < Warn < Info < Debug.", "stateful model-based testing")
prop("C28", "Errors keep their message and trace; stacks are LIFO",
 "An error keeps the message it was created with and one source position per creation and update, in order; updating or wrapping nothing gives nothing. The internal stack returns pushed values in last-in first-out order and nothing when empty, for any sequence of operations.",
 ["programs"], "every sequence of operations",
 "Fixed-length tests only.",
 ["errors/errors.go", A+"stack.go"], [("stack trace accumulation", "errors/errors.go"), ("stack", A+"stack.go")],
 "Random operation sequences against a list model.", "stateful model-based testing")
prop("C29", "Loggers see what happens and change nothing",
 "A logger handed to a tree, element, frame decoder or client, whatever its level, changes no result: the same messages give the same trees, listener calls, requests and errors as without one, and handing over no logger keeps the present one. Messages are logged with formats that fit their arguments. A client reports to its logger, as an error and exactly once, each received frame that fails its checks and each message it cannot decode, and reports no error while its peer keeps to the protocol.",
 ["inputs", "histories"], "every history of messages and frames, good and faulty, with and without a logger",
 "The tests never look at what is logged, and only use one logger with a captured message.",
 [E+"root.go", E+"element.go", E+"elementFactory.go", S+"frame.go", S+"client.go"],
 [("logger of a tree", E+"root.go"), ("logger of a decoder", S+"frame.go"), ("reported errors", S+"client.go")],
 "Generated histories run twice, with and without a recording logger; a scripted peer sends good, damaged and undecodable frames and the errors reported are counted.", "differential property-based testing with a recording logger")

prop("C30", "Separate objects do not influence one another",
 "Readers, writers, elements, trees, frame decoders, errors and clients that have nothing to do with each other behave, also when used at the same time by different goroutines, exactly as each does alone: the same encodings, trees, frames, deliveries and answers, without data races.",
 ["inputs", "schedules"], "every combination of independent uses and every schedule of them",
 "The tests use one object at a time; state shared behind the scenes shows only when independent uses overlap.",
 [ENC, DEC, E+"element.go", S+"frame.go", S+"client.go"],
 [("encoding", ENC), ("decoding", DEC), ("trees", E+"root.go"), ("framing", S+"frame.go"), ("clients", S+"client.go")],
 "Generated uses, each with the oracle of its own property, run at the same time in several goroutines under the race detector; what holds alone must hold together.", "metamorphic property-based testing under the race detector")

prop("C31", "A client's tree follows its provider",
 "Whatever a provider sends to a connected client, asked for or not, ends up in the client's tree: the tree is the merge of all intact messages received so far, on this connection and those before, in order and each once - however they are split into frames and reads, and amid keep-alives, stray bytes, damaged or unfinished frames and messages that cannot be decoded. Listeners in that tree hear of each such message that concerns them, and stay in place when the client reconnects. What one connection leaves unfinished does not go on on the next.",
 ["inputs", "histories", "faults"], "every history of messages, damage, listeners and reconnections, and every way of sending it",
 "The tests decode single messages or talk to no provider at all; what survives damage, splitting and reconnection depends on the history.",
 [S+"client.go", S+"frame.go", E+"root.go"], [("receiving", S+"client.go"), ("deframing", S+"frame.go"), ("merging", E+"root.go")],
 "A scripted peer sends generated histories over loopback; after each batch, fenced by a keep-alive exchange, the client's tree and the calls of its listeners are compared with the merge model.", "stateful model-based testing against a scripted peer")

def main():
    built = set(a for a in os.environ.get("BUILT", "").split() if a) or set(open(here+"/tools/built").read().split())
    with open(here+"/properties.jsonl", "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]: anchors["state"] = p["state"]
            if p["observe"]: anchors["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": [],
         "notes": "No hooks: every check drives the public API of /repo's working tree from a separate Go module (harness/)."}
    for p in P:
        if p["id"] in built:
            m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
               "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    json.dump(m, open(here+"/MANIFEST.json", "w"), indent=1)
    open(here+"/MANIFEST.json", "a").write("\n")
main()
