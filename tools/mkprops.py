#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs), hook_needed=hook)))

RS = "cli/src/protocol/render/rust/"
TS = "cli/src/protocol/render/typescript/"
PR = "cli/src/workflow/render/producer/rust/"
CR = "cli/src/workflow/render/consumer/rust/"
PT = "cli/src/workflow/render/producer/typescript/"
CT = "cli/src/workflow/render/consumer/typescript/"

# ---- generated protocol: wire ------------------------------------------------------------------
p("W01", "Generated Rust code reads back exactly the message it wrote",
  "For every protocol the generator accepts and every value of every message type in it (all scalar bit patterns, empty and non-empty strings, arrays, nested structs, enums, present and absent optional fields), packing the value with the generated Rust code and reading the package back yields a message of the same type with an equal value, plus the sequence number it was packed with. Absent optional fields come back absent and present ones come back present.",
  ["inputs", "programs"], "every accepted protocol, every message type, every value",
  "tests/protocol/rust packs one fixed sample per message of one protocol; empty enum payloads, Some(empty), boundary numbers and other protocol shapes never occur.",
  [RS + "mod.rs", RS + "static/protocol.encode.rs", RS + "static/protocol.decode.rs", RS + "static/protocol.packing.rs", RS + "static/protocol.storage.rs"],
  [("per-field encode/decode", RS + "static/protocol.encode.rs, protocol.decode.rs"), ("enum payload extract/encode", RS + "mod.rs")],
  obs=["StructEncode::abduct / PackingStruct::pack and AvailableMessages of the generated Rust module"])
p("W02", "Generated TypeScript code reads back exactly the message it wrote",
  "For every protocol the generator accepts and every value of every message type in it, packing the value with the generated TypeScript code and reading the package back through its buffer reader yields a message of the same type with an equal value and the same sequence number. Absent optional fields come back undefined and present ones come back present.",
  ["inputs", "programs"], "every accepted protocol, every message type, every value",
  "The TypeScript output is generated by the tests but never compiled or run here; upstream it is run on one fixed sample per message.",
  [TS + "mod.rs", TS + "static/"], [("per-field encode/decode", TS + "static/"), ("class generation", TS + "mod.rs")],
  obs=["pack() / BufferReaderMessages of the generated TypeScript module"])
p("W03", "Rust and TypeScript agree on every byte of every package",
  "For every accepted protocol and every message value, the Rust and the TypeScript renderings of that protocol produce the same package apart from the timestamp, and the package has the documented layout: a 26 byte little-endian header (message id u32, protocol signature u16, sequence u32, timestamp u64, body length u64) followed by exactly that many body bytes made of id/size-tagged properties in declaration order. Hence each side reads what the other side wrote.",
  ["inputs", "programs"], "every accepted protocol, every message value, either direction",
  "Only Rust output is executed by the tests available here, and it is only compared with itself, so a symmetric change of both Rust directions, or any TypeScript change, stays unnoticed.",
  [RS + "static/", TS + "static/", RS + "mod.rs", TS + "mod.rs"],
  [("shared layout constants", RS + "static/protocol.packing.rs, " + TS + "static/")], obs=["bytes returned by pack() on both sides"])
p("W04", "Decoding does not depend on property order and ignores unknown properties",
  "In both generated languages a message body is decoded by property id: permuting the properties of a body, or inserting properties with ids the receiver does not know, yields the same value as the original body. A body that lacks a property of the message (absent optional fields are marked, not left out), or carries one that is too short for its type, is rejected with an error.",
  ["inputs"], "every message value, every permutation, every unknown insertion, every single omission",
  "Tests only decode bodies produced by the same encoder, always complete and in declaration order.",
  [RS + "static/protocol.storage.rs", RS + "static/protocol.decode.rs", TS + "static/"], [("id-keyed property storage", RS + "static/protocol.storage.rs")],
  obs=["decode result of crafted bodies"])
p("W05", "Hostile bytes are rejected with an error: no crash, no hang",
  "Whatever bytes reach the generated reader (truncated, bit-flipped, inconsistent lengths, random), in Rust or in TypeScript, each call returns normally: the reader either waits for more data, delivers a message, or reports an error; it never panics, throws out of the reader, loops forever, or allocates memory out of proportion to the bytes received. Bytes that do not form a valid body of the message are never reported as a delivered message unless a valid message is what they encode.",
  ["inputs"], "every byte string up to the bounds, in every split into chunks",
  "No test feeds malformed bytes.",
  [RS + "static/protocol.storage.rs", RS + "static/protocol.packing.rs", RS + "static/protocol.buffer.rs", TS + "static/"], [("length checks", RS + "static/protocol.storage.rs")],
  obs=["Buffer::chunk / BufferReaderMessages.chunk return values, process liveness"])
# ---- framing -----------------------------------------------------------------------------------
p("W06", "A plain object or a body becomes a TypeScript message exactly if it is one",
  "In the generated TypeScript code, Message.from(object) of a struct yields a message whose package carries exactly the values of the object when every mandatory field is there and every field holds a value of its declared type within the type's range (the whole range, including 64-bit integers as bigint; nested structs as instances, enums as an object with one variant, arrays of such values, undefined or nothing for absent optional fields); unknown properties are ignored. Every other object (a field missing, of another JavaScript type, out of range, an array with one wrong item, an enum with several variants, not an object at all) is answered with an Error, not with a message and not with an exception. Message.from(bytes), be they a Buffer, an ArrayBuffer or a Uint8Array, is the message decoding that body gives, or an Error.",
  ["inputs", "programs"], "every message type, every place in an object, every kind of value there; every body",
  "No test available here calls from(); upstream it is only called with bytes the tests wrote themselves.", [TS + "mod.rs", TS + "static/protocol.validator.ts", TS + "static/"],
  [("scheme and validators", TS + "static/protocol.validator.ts"), ("from / getValidator", TS + "mod.rs"), ("ranges", TS + "static/protocol.primitives.u64.ts")], obs=["Message.from() of the generated classes, and pack() of what it returns"])
p("F01", "Rust stream reader: delivery does not depend on how the bytes are chunked",
  "For every sequence of valid packages and every way to cut the concatenated bytes into chunks (including empty chunks, cuts inside the header, and many packages in one chunk), the generated Rust reader delivers exactly those messages, once each, in order, with their headers, and delivers each one as soon as its last byte has arrived and not earlier. After the last byte nothing is left buffered.",
  ["inputs", "schedules"], "every message sequence and every cut",
  "The tests use one fixed chunking loop on fixed samples.",
  [RS + "static/protocol.buffer.rs", RS + "static/protocol.packing.rs"], [("Buffer::chunk / next", RS + "static/protocol.buffer.rs")],
  state=[("buffer", "bytes not yet consumed", RS + "static/protocol.buffer.rs"), ("queue", "messages not yet fetched", RS + "static/protocol.buffer.rs")],
  obs=["Buffer::chunk, next, len, pending"])
p("F02", "TypeScript stream reader: delivery does not depend on how bytes are chunked",
  "For every sequence of valid packages and every way to cut the concatenated bytes into chunks, the generated TypeScript buffer reader delivers exactly those messages, once each, in order, with their headers, each as soon as its last byte has arrived and not earlier. After the last byte nothing is left buffered.",
  ["inputs", "schedules"], "every message sequence and every cut",
  "No TypeScript test runs here.", [TS + "static/"], [("BufferReader.chunk / next", TS + "static/")], obs=["BufferReaderMessages.chunk, next, len, pending"])
p("F03", "A package that is rejected does not disturb the packages around it",
  "When a package in the stream has a foreign protocol signature, an unknown message id or an undecodable body, the generated reader (Rust and TypeScript) reports an error and drops that package only: every other package of the stream is still delivered, once, in order; packages behind a rejected one are delivered in the same call or, at the latest, in the next call that is not held up by a further rejected package. No call loops forever, and no rejected package is ever delivered.",
  ["inputs", "fault_sequences"], "every position and kind of bad package in every stream, every cut",
  "The tests contain no bad package.", [RS + "static/protocol.buffer.rs", TS + "static/"],
  [("resynchronisation by body length", RS + "static/protocol.buffer.rs")], obs=["delivered messages and reported errors per chunk"])
p("F04", "The packing middleware sees every package once, and its answer counts",
  "When a program installs a packing middleware in the generated TypeScript code, packing a message calls its encode exactly once, with the body the message has without a middleware, the id of the message, the sequence number and the uuid given; the package then carries the answer as its body and the answer's size as its length. Reading calls its decode exactly once per consumed package (of the own protocol), in stream order, with the body on the wire, id, sequence number and the uuid given to the reader, and the answer is what is decoded. If encode refuses, packing throws and no package exists; if decode refuses, that package alone is dropped with an error. Messages therefore come back equal whenever decode undoes encode, whatever the sizes; once the middleware is removed or exchanged, it is not called any more and packages are as without it.",
  ["inputs", "histories"], "every history of installing, exchanging and removing middlewares, packing and reading, every cut of the stream",
  "The middleware is never run in the tests available here; upstream it only doubles and halves bodies.", [TS + "static/packing.middleware.ts", TS + "static/packing.ts", TS + "static/protocol.convertor.ts", TS + "static/protocol.primitives.enum.ts"],
  [("Convertor.pack / PackingMiddleware.encode", TS + "static/protocol.convertor.ts"), ("BufferReader.chunk / PackingMiddleware.decode", TS + "static/packing.ts")],
  state=[("installed middleware", "the instance under the global name", TS + "static/packing.middleware.ts")], obs=["calls of the middleware, bytes returned by pack(), messages delivered by BufferReaderMessages"])
# ---- protocol language -------------------------------------------------------------------------
p("L01", "The protocol grammar: well-formed sources are accepted, others rejected",
  "A protocol source is accepted exactly when it is a sequence of group, struct and enum definitions in the documented grammar with every definition closed; any whitespace layout of the same tokens is equivalent. A source that breaks the grammar (a token out of place, a definition nested where it may not be, an unclosed definition, an illegal character, a name starting with a digit) is reported as an error, and no output file is produced for it.",
  ["inputs", "programs"], "every token sequence up to the bounds and every layout of it",
  "The tests parse two well-formed protocols; no malformed protocol is ever parsed.",
  ["cli/src/protocol/parser.rs", "cli/src/protocol/store.rs"], [("expectation state machine", "cli/src/protocol/parser.rs"), ("open/close bookkeeping", "cli/src/protocol/store.rs")],
  state=[("expectation", "which tokens may follow", "cli/src/protocol/parser.rs")], obs=["last line and output files of the clibri binary"])
p("L02", "A type reference means the nearest definition: own group, then full path",
  "A field or enum item of type T (possibly dotted) denotes, among the definitions that precede it, the one found by T inside the group that contains the field, and otherwise the one found by T as a full path from the top level; a reference that matches neither is rejected. The rendered field has exactly the layout of the definition so chosen, in both languages.",
  ["programs"], "every arrangement of same-named definitions over nested groups up to the bounds and every reference form",
  "The test protocols use unambiguous names only; shadowing and cross-group references are not exercised.",
  ["cli/src/protocol/fields.rs", "cli/src/protocol/enums.rs", "cli/src/protocol/store.rs", RS + "mod.rs", TS + "mod.rs"], [("accept_type / find_by_path", "cli/src/protocol/store.rs")],
  obs=["acceptance by the binary, bytes packed by compiled output"])
p("L03", "Message ids are unique, stable and equal in both languages",
  "In every rendering of an accepted protocol each struct and each enum has its own id, no two message types share one, and the Rust and TypeScript renderings of the same source (stand-alone, and inside generated producers and consumers of the same workflow) assign the same id to the same message and the same signature to the protocol. A received package is dispatched to the message type whose id it carries, for every message type of the protocol.",
  ["programs", "configurations"], "every accepted protocol and every rendering target",
  "Tests look at one protocol and never compare ids across renderings.",
  ["cli/src/protocol/store.rs", RS + "mod.rs", TS + "mod.rs"], [("single id sequence", "cli/src/protocol/store.rs")], obs=["id() / getId(), header id of packed messages"])
p("L04", "Generation is deterministic and regeneration is idempotent",
  "Running the generator again on the same sources with the same options yields byte-identical generated files, whatever the target directories already contain from a previous run, and whatever the working directory is. Files of an earlier generation never leak old content into regenerated files.",
  ["histories", "configurations"], "every accepted source, every sequence of generator runs",
  "Tests run the generator once per target.", ["cli/src/helpers/fs.rs", "cli/src/workflow/render/", "cli/src/protocol/render/"], [("replace-on-write", "cli/src/helpers/fs.rs")],
  obs=["file tree after each run"])
# ---- workflow language -------------------------------------------------------------------------
p("K01", "The workflow grammar: well-formed workflows accepted, others rejected",
  "A workflow source is accepted exactly when it is a sequence of one configuration block, request, event and beacon declarations in the documented grammar; comments and whitespace do not matter. A source with a token out of place is reported as an error and nothing is generated for it.",
  ["inputs", "programs"], "every token sequence up to the bounds", "Eleven fixed erroneous workflows are tried, all semantic; no grammar error is tried.",
  ["cli/src/workflow/parser.rs", "cli/src/workflow/request.rs", "cli/src/workflow/event.rs", "cli/src/workflow/beacon.rs", "cli/src/workflow/config.rs"], [("entity parsers", "cli/src/workflow/")], obs=["last line and output files of the clibri binary"])
p("K02", "A workflow that refers to undefined or conflicting messages is never rendered",
  "The generator rejects a workflow, and writes no producer or consumer, when a request, response, error, broadcast, event, beacon or key refers to a message the protocol does not define as a struct (for an event: neither as a struct nor as an enum), when a request, event or beacon is declared twice, when a message is both request and beacon, when a conclusion repeats a name or a broadcast, when the configuration is missing, repeated, repeats a key or lacks the targets of a side, or when a needed destination is missing. Sound workflows are not refused. Every reference position is checked, wherever in the workflow it occurs.",
  ["inputs", "programs"], "every reference position in every combination of declarations up to the bounds",
  "Eleven fixed workflows with one error each; duplicates, conflicts and most positions are not tried.",
  ["cli/src/workflow/store.rs", "cli/src/workflow/request.rs", "cli/src/workflow/event.rs", "cli/src/workflow/beacon.rs", "cli/src/workflow/config.rs"], [("close() validations", "cli/src/workflow/"), ("uniqueness", "cli/src/workflow/store.rs")], obs=["last line and output files of the clibri binary"])
p("K03", "Regeneration never touches the user's handlers and refreshes everything else",
  "Running the workflow generator over an existing producer or consumer leaves every user-editable file (request responses, beacon and broadcast handlers, event handlers, context) byte-for-byte as the user left it, creates stubs for handlers that do not exist yet, and rewrites all implementation files to what a fresh generation would produce. This holds for every subset of user files that already exists and after every change of the workflow.",
  ["histories", "configurations"], "every subset of existing user files, every sequence of workflow edits",
  "Tests generate once over a complete set of handlers.", [PR, CR, PT], [("[SKIP] existing files", PR + "render_request_response.rs")], obs=["file tree before and after"])
p("K04", "Protocol and workflow fingerprints identify the sources",
  "A generated producer and a generated consumer carry the same protocol and workflow fingerprints if and only if they were generated from byte-identical protocol and workflow sources, irrespective of language, path and time. The fingerprints are those used by the run-time compatibility check.",
  ["inputs", "configurations"], "every pair of sources and targets", "Tests only ever pair a producer and a consumer from the same sources.",
  ["cli/src/helpers/hash.rs", PR + "render_mod.rs", CR + "render_consumer.rs", PT + "render_mod.rs", CT + "render_consumer.rs"], [("SHA-256 of the file", "cli/src/helpers/hash.rs")], obs=["hash constants of the generated code, handshake outcome"])
p("K05", "The diagram shows exactly the interactions of the workflow",
  "The PlantUML output lists, in declaration order, every request with its error and every conclusion with its response and broadcasts (optional broadcasts of a conclusion dashed), every event with its broadcasts, and every beacon, and nothing else. It is produced for every accepted workflow.",
  ["programs"], "every accepted workflow up to the bounds", "No test generates a diagram.",
  ["cli/src/workflow/render/puml/"], [("PumlRender", "cli/src/workflow/render/puml/mod.rs")], obs=["the .puml file"])
p("K06", "An accepted workflow yields code that compiles",
  "For every accepted protocol and workflow (whose message and conclusion names differ in more than case and separators), the generated Rust producer and consumer compile as part of a crate with the documented dependencies, and the generated TypeScript producer and consumer type-check, without any change by the user.",
  ["programs"], "every accepted workflow up to the bounds", "One workflow is generated and compiled by the integration test.",
  ["cli/src/workflow/render/producer/", "cli/src/workflow/render/consumer/", "cli/src/protocol/render/"], [("code templates", "cli/src/workflow/render/")], obs=["result of cargo check / tsc on the generated files"])
p("K07", "Every target of a side gets its code, in its place, and nothing else",
  "A run of the generator writes, for the producer and for the consumer separately, the code of exactly the targets that the workflow names for that side: directly into the side's destination when it names one target, into a directory of the target's name when it names several. What is written for a target is what a run with that target alone writes (the workflow fingerprint aside), whatever the other targets, their order, the targets of the other side, and what earlier runs with other targets left in the destinations; nothing else below the destinations changes, and only the manifests of named targets get dependencies.",
  ["configurations", "histories"], "every choice of targets for both sides, every sequence of runs with changing targets", "Tests generate one choice of targets into empty directories.",
  ["cli/src/workflow/render/render.rs", "cli/src/workflow/render/producer/", "cli/src/workflow/render/consumer/"], [("destinations of targets", "cli/src/workflow/render/render.rs")], obs=["file tree after each run"])
p("K08", "The project's manifests get what the generated code needs and keep the rest",
  "A run of the workflow generator adds to the manifest that is nearest at or above the code of each named target (Cargo.toml for Rust, package.json for TypeScript) exactly the dependencies this code needs, in the version it needs even where the manifest names another one; whatever else the manifest says (other dependencies, other sections) keeps its value, and no other manifest is created or changed. The same run again changes nothing more. When a target has no manifest, or one that cannot be read, the run fails, and that manifest is left as it was.",
  ["configurations", "histories"], "every placement of manifests of every kind above and below the destinations, every choice of targets, every sequence of user edits and runs", "Tests have one small manifest right above each destination.",
  ["cli/src/workflow/render/producer/rust/render_cargo.rs", "cli/src/workflow/render/consumer/rust/render_cargo.rs", "cli/src/workflow/render/producer/typescript/render_package.rs", "cli/src/workflow/render/consumer/typescript/render_package.rs"], [("get_target_file", "cli/src/workflow/render/producer/rust/render_cargo.rs")], obs=["every manifest of the project before and after each run, exit status"])
p("G01", "The command line never overwrites without consent and never half-succeeds",
  "Without the overwrite option an existing protocol or diagram destination is refused and left unchanged; with it, it is replaced entirely by the new output. Unknown options, a missing or non-existent source or missing option values end the run with a failure status before anything is written, and an invalid protocol or workflow source leaves all destinations as they were. What a command does to a destination depends on that command alone, and nothing but its destinations changes.",
  ["configurations", "inputs"], "every combination of options, existing files and source validity up to the bounds", "Tests use correct command lines with the overwrite option or fresh destinations.",
  ["cli/src/ctrlargs.rs", "cli/src/arguments/args_option_files.rs", "cli/src/arguments/args_option_overwrite.rs", "cli/src/helpers/fs.rs"], [("argument validation", "cli/src/arguments/args_option_files.rs")], obs=["exit status, file tree"])
# ---- producer ----------------------------------------------------------------------------------
p("P01", "Producer: no application message is served before the handshake is complete",
  "A generated producer hands a consumer's request or beacon to user code only if that connection has been confirmed to the consumer, has presented its key, and has had matching protocol and workflow fingerprints accepted, in that connection; otherwise the message is not processed, an error is emitted and the connection is closed. A failed fingerprint check is answered with an error and closes the connection, and nothing a connection sends after the producer decided to close it is served.",
  ["histories", "schedules"], "every sequence of packages and every grouping of them into chunks, for any number of connections",
  "Test consumers always complete the handshake properly, one message at a time.",
  [PR + "render_mod.rs", PR + "render_consumer.rs", PR + "render_identification.rs"], [("process_received_data", PR + "render_mod.rs")],
  state=[("confirmed, hash_accepted, key, discredited", "handshake progress per connection", PR + "render_consumer.rs")], obs=["user handler calls, packages sent, disconnect calls of the server control"])
p("P02", "Producer: one reply per request, to its sender, before its broadcasts",
  "For each served request the producer calls the request's handler exactly once with the request's content and the sender's identity, and sends exactly one reply, of the type the handler chose (or the declared error), to the sender only, carrying the request's sequence number. After the reply it sends each broadcast the handler produced, with sequence 0, once to each addressed consumer, in declared order, and only then runs the handler's deferred action; a failed send to one recipient does not prevent the others.",
  ["histories", "inputs", "fault_sequences"], "every mix of requests from any consumers, every handler decision, every failing recipient",
  "Tests check a fixed series of requests with broadcasts addressed to the sender only and no failing send.",
  [PR + "render_request_handler.rs", PR + "render_mod.rs", PR + "render_request_handlers_mod.rs"], [("process()", PR + "render_request_handler.rs")], obs=["packages sent and handler calls"])
p("P03", "Producer: recipient filters select exactly the connected consumers they name",
  "At every handler call the filter offers exactly the consumers that are connected at that moment (a consumer that is just being announced, as connected or as disconnected, is not among them): 'all' yields each once, 'except' all but one, 'exclude' all but the listed ones, and a predicate exactly those whose identification satisfies it. Identification data (key, assigned key) seen by predicates is the current one.",
  ["histories"], "every history of connects, disconnects and key changes, every filter argument", "Tests never use the filters with more than the sender.",
  [PR + "render_identification.rs"], [("Filter", PR + "render_identification.rs")], obs=["filter results inside user handlers"])
p("P04", "Producer: connections are announced once, removed once, and isolated",
  "Each accepted connection is announced to user code exactly once when it appears and exactly once when it ends, and is confirmed to the consumer exactly once; after its end nothing is delivered from it, sent to it by the producer itself, or remembered about it. A duplicate connect, data from an unknown connection and a disconnect of an unknown connection leave all other connections working and their state unchanged.",
  ["histories", "schedules"], "every history of connection events including irregular ones", "Tests connect and disconnect regularly.",
  [PR + "render_mod.rs"], [("add_connection / remove_connection", PR + "render_mod.rs")], state=[("consumers", "known connections", PR + "render_mod.rs")], obs=["connected/disconnected handler calls, packages sent"])
p("P05", "Producer: unassigned consumers and faulty data are treated as configured",
  "For a consumer that has no assigned key the configured identification strategy decides: with 'ignore' and 'log' its messages are served; with the others they are not served, and the error is emitted, the connection closed, or both, exactly as the strategy's name says. For undecodable data and failed processing the configured error strategy likewise decides between logging, emitting an error, closing the connection, or both, and the producer itself keeps running.",
  ["configurations", "histories"], "every strategy pair and every event history", "Tests run the default strategies only.",
  [PR + "render_mod.rs", PR + "render_identification.rs"], [("responsing_err, assigned()", PR + "render_mod.rs")], obs=["error events, disconnect calls, handler calls"])
p("P06", "Producer: keys are replaced or merged as requested, for one consumer only",
  "Setting a consumer's self key or assigned key with overwrite replaces it; without overwrite it is set if absent, and otherwise merged field by field: mandatory fields are taken from the new key and optional ones only where the new key has them. The change affects that consumer only, is visible to every later handler call, and for an unknown consumer results in an error event instead.",
  ["histories", "inputs"], "every sequence of key changes and every presence pattern of optional fields", "Tests set each key at most once.",
  [PR + "render_identification.rs", PR + "render_mod.rs"], [("key()/assign()", PR + "render_identification.rs")], obs=["identification seen by handlers"])
p("P07", "Producer: events are emitted once each and shutdown is orderly",
  "Every application event raised on the producer leads to exactly one call of its handler, with the event's content, and its broadcasts reach exactly the consumers the handler addressed, in declared order; default events (connected, disconnected, ready, shutdown, error) are raised exactly when they happen. Shutdown stops the server, ends the run, raises the shutdown event exactly once, resolves waiting callers, and no handler is called afterwards.",
  ["histories", "schedules"], "every interleaving of events, traffic and shutdown", "Tests raise each event once per consumer and shut down at the end of a quiet run.",
  [PR + "render_mod.rs", PR + "render_event_emitter.rs"], [("listener / run", PR + "render_mod.rs")], obs=["handler calls, packages sent, result of run"])
p("P08", "Producer: each beacon is handled once and confirmed to its sender",
  "Each served beacon leads to exactly one call of its handler with its content and sender, then exactly one confirmation with the beacon's sequence number to the sender; if the handler fails, the error is emitted and no confirmation of success is sent. A message declared neither as request nor as beacon calls no handler.",
  ["histories", "inputs"], "every mix of beacons and requests from any consumers", "Tests send each beacon once and handlers never fail.",
  [PR + "render_beacon_emitter.rs", PR + "render_mod.rs"], [("beacon emit()", PR + "render_beacon_emitter.rs")], obs=["handler calls, packages sent, error events"])
# ---- consumer ----------------------------------------------------------------------------------
p("C01", "Consumer: it announces 'connected' only after a complete handshake",
  "After the producer's connection confirmation a generated consumer sends its key, then, only when the key was answered, its fingerprints, and raises the connected event exactly once when both were accepted. If any step is answered by a wrong message or an error, the connected event is not raised, an error is raised and the session ends (a connection that simply ends in the middle of the handshake is no such error); broadcasts arriving during the handshake are delivered as broadcasts and do not disturb it.",
  ["histories", "schedules"], "every order of confirmation, answers and broadcasts", "Test producers always answer correctly and in order, without broadcasts in between.",
  [CR + "render_consumer.rs"], [("auth()", CR + "render_consumer.rs")], obs=["packages sent and events raised"])
p("C02", "Consumer: every caller gets the answer to its own request, or a timely error",
  "Any number of requests may be in flight: each has its own sequence number, and each caller receives the answer carrying that number as the conclusion declared for the answer's type (or the declared error), whatever the order of the answers; an answer of another type is an error for that caller only. Without an answer the caller gets a timeout error after the configured time; late, duplicate or unknown answers and abandoned calls disturb neither other calls nor the session.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of requests, answers, timeouts and abandoned calls", "Tests issue requests one at a time and the answers always arrive.",
  [CR + "render_controller.rs", CR + "render_consumer.rs", CR + "static/implementation/consumer/api.rs"], [("pending table", CR + "render_consumer.rs")], state=[("pending", "requests waiting for their answer", CR + "render_consumer.rs")], obs=["results of the request methods, packages sent"])
p("C03", "Consumer: every broadcast reaches its handler once, in order",
  "Each broadcast package received while a session lasts is passed exactly once to the handler of its own type, with its content, in arrival order (the next one after the handler before it has returned, however long it takes), for every broadcast type declared anywhere in the workflow; nothing else calls that handler. A package that is neither an expected answer nor a declared broadcast, and undecodable bytes, raise an error event and the session goes on.",
  ["histories", "inputs"], "every sequence of packages", "Tests receive each broadcast once per case, in a fixed order.",
  [CR + "render_consumer.rs", CR + "render_broadcast_mod.rs"], [("client_messages_task", CR + "render_consumer.rs")], obs=["broadcast handler calls, error events"])
p("C04", "Consumer: end of session, shutdown and reconnection behave as configured",
  "When a connection ends the consumer raises disconnected once and shutdown once per session, in this order; after an end without an error it reconnects after the configured delay (asking the reconnect handler) with a fresh handshake where that is configured, and otherwise it is over; after a requested shutdown it never reconnects and the caller is released, also when the caller is one of the user's handlers or another handler is still running. No request made in one session is answered by data from another.",
  ["histories", "configurations", "fault_sequences"], "every point at which the connection ends or shutdown is requested", "Tests disconnect once at the end without reconnecting.",
  [CR + "render_consumer.rs"], [("connect()/listen()", CR + "render_consumer.rs")], obs=["events raised, connects made, results of calls"])
# ---- TypeScript runtime ------------------------------------------------------------------------
p("T01", "TypeScript producer: same serving rules as the Rust producer",
  "A generated TypeScript producer confirms each new connection, and serves a request or beacon only for a connection that presented its key and whose fingerprints were accepted; it answers each served request once, to its sender, with the request's sequence number, then sends the declared broadcasts to exactly the addressed consumers, then runs the deferred action, whatever other requests are being served meanwhile. A mismatching fingerprint is answered with an error and closes the connection; unassigned consumers, undecodable data and failing handlers are treated as the configured strategies say, and a consumer that is sent away is not served again. Handlers see the connected consumers and their keys as they are.",
  ["histories", "configurations", "schedules"], "every history of packages and connection events, every order in which handlers and sends finish", "No TypeScript code is executed by the tests here.",
  [PT], [("_onClientReceived", PT + "render_mod.rs")], obs=["packages sent, handler calls, disconnects, errors"])
p("T02", "TypeScript consumer: handshake, correlation and broadcasts",
  "A generated TypeScript consumer, once the producer has confirmed its connection, sends its key, then its fingerprints, and raises ready exactly once, under the uuid it was given, if and only if both were accepted; each call ends with the answer carrying its own sequence number, as the declared conclusion, whatever the order of answers, or is refused when it cannot be sent, gets an answer of no declared type or the connection ends, after which the request can be sent again; each broadcast reaches the subject of its type once, in order. A later connection starts afresh.",
  ["histories"], "every interleaving of requests, answers, broadcasts and connections", "No TypeScript code is executed by the tests here.",
  [CT], [("_onData, request", CT + "render_consumer.rs")], obs=["packages sent, promise results, handlers, subjects"])
# ---- system ------------------------------------------------------------------------------------
p("S01", "End to end: producer and consumers from one workflow complete every exchange",
  "With a generated producer and any number of generated consumers of the same workflow connected by reliable in-order channels, under every interleaving of deliveries, connects and disconnects, every consumer that stays connected completes its handshake, every request it makes ends with the answer the producer's handler gave to that very request, and every broadcast is received exactly once by each addressed consumer that stays connected and by nobody else.",
  ["schedules", "histories"], "every interleaving, any number of consumers", "The one end-to-end test follows whatever schedule the machine produces, with one request in flight per consumer.",
  [PR + "render_mod.rs", CR + "render_consumer.rs"], [("handshake and correlation on both sides", PR + "render_mod.rs")], obs=["results at consumers against decisions at the producer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
