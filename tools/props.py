NOTE = ("Search over generated cases with an explicit oracle: shows the property on what was explored, not on all inputs. Trusts rustc 1.75, "
        "node/esbuild, Hypothesis, and the reference models in lib/.")
WPR = "cli/src/workflow/render/producer/rust/"
WPT = "cli/src/workflow/render/producer/typescript/"
WCT = "cli/src/workflow/render/consumer/typescript/"
WCR = "cli/src/workflow/render/consumer/rust/"
WNOTE = NOTE + " The library and transport crates are absent here: stand-ins with the same traits (rust/clibri) take their place."
UNIT = "The tests run a few fixed documents and values; "

PROPS += [
 p("P01", "Native round trip: what is encoded is what is decoded",
   "For every valid protocol document, every declared type and every value of it, the generated Rust code encodes the value, and decoding these bytes gives an equal value; the same holds when the value is packed as a message and read back through the message reader. Decoding and encoding again gives the same bytes.",
   ["programs", "inputs"], "all documents x all declared types x all values",
   UNIT + "the guarantee is over all combinations of type, repetition, optionality, nesting and boundary values.",
   [RP + "mod.rs", RS + "encode.rs", RS + "decode.rs", RS + "storage.rs", RS + "packing.rs"],
   [("encoders and decoders of primitive types", RS + "encode.rs, " + RS + "decode.rs"), ("per-struct code", RP + "mod.rs")],
   "property-based testing (Hypothesis): generated documents and values, round trip through compiled code", NOTE,
   ["bytes and values at the interface of generated code"]),
 p("P02", "TypeScript round trip: what is encoded is what is decoded",
   "For every valid protocol document, every declared type and every value of it, the generated TypeScript code encodes the value, and decoding these bytes gives an equal value, also through packing and the message reader, and also when an instance is reused for decoding or its fields are assigned or changed in place before encoding. Values share nothing: changing one, or the bytes it came from or was encoded to, changes no other value, default or later decoding. An object with valid field values is accepted by validation and encodes to the same bytes.",
   ["programs", "inputs"], "all documents x all declared types x all values (and pairs of values for reuse)",
   "No test executes the generated TypeScript code for values of its own; the end-to-end runs use a fixed document.",
   [TP + "mod.rs", TS + "protocol.convertor.ts", TS + "protocol.convertor.storage.ts", TS + "protocol.primitives.enum.ts"],
   [("convertor", TS + "protocol.convertor.ts"), ("per-struct code", TP + "mod.rs")],
   "property-based testing (Hypothesis): generated documents and values, round trip through node", NOTE,
   ["bytes and values at the interface of generated code"]),
 p("P03", "Native and TypeScript code agree on the wire",
   "For every valid document and value, the Rust and the TypeScript code produce byte for byte the same encoding and header (identifier, signature, sequence, time of packing in milliseconds, length), and each decodes what the other encoded to the same value. The bytes follow the documented layout: identifier of the property, size rank, size, body; little endian.",
   ["programs", "inputs"], "all documents x all declared types x all values x both targets",
   UNIT + "agreement of two independent code generators has to hold for every shape of type.",
   [RP + "mod.rs", TP + "mod.rs", RS + "packing.rs", TS + "packing.ts", TS + "packing.header.ts"],
   [("encoders", RS + "encode.rs, " + TS + "protocol.convertor.ts"), ("packages", RS + "packing.rs, " + TS + "packing.ts")],
   "differential property-based testing: two targets against each other and a reference encoder", NOTE),
 p("P04", "Middleware transforms every package and is undone by its inverse",
   "A packing middleware sees the body of every package together with the identifier, the sequence and the uuid of the connection; what is packed with an invertible middleware is read back to the same message with the same middleware, and a refusal by the middleware is reported as a failure of packing or reading, never as a message. In TypeScript this holds in Node.js and in a browser alike (middleware kept in window or global), and the middleware created last is the one in use.",
   ["programs", "inputs"], "all documents x values x middleware behaviours (identity, keyed change, change of length, refusal)",
   "The tests use no middleware which changes the data.",
   [RS + "packing.rs", RS + "buffer.rs", TS + "packing.ts", TS + "packing.middleware.ts", TP + "mod.rs", RP + "mod.rs"],
   [("call of middleware in pack and in the reader", RS + "packing.rs, " + RS + "buffer.rs, " + TP + "mod.rs")],
   "property-based testing (Hypothesis) with generated middleware behaviours", NOTE),
 p("P05", "Native reader: any chunking gives the same messages",
   "However a stream of packages is cut into chunks, the generated Rust message reader delivers each complete readable message exactly once, in order, with its header, and keeps an incomplete rest for the next chunk. A package with a wrong signature, an unknown identifier or an unreadable body is reported as an error and skipped, without loss of messages before or after it.",
   ["programs", "inputs", "histories"], "all documents x sequences of packages (good and bad) x ways to cut x points of taking messages",
   "The tests feed a few fixed cuts; the property is over all cuts and mixtures.",
   [RS + "buffer.rs", RS + "packing.rs", RP + "mod.rs"], [("reader", RS + "buffer.rs")],
   "model-based property testing (Hypothesis): reader against a model of the stream", NOTE),
 p("P06", "TypeScript reader: any chunking gives the same messages",
   "However a stream of packages is cut into chunks and whichever binary type carries them, the generated TypeScript message reader delivers each complete readable message exactly once, in order, with its header, and keeps an incomplete rest for the next chunk. A package with a wrong signature, an unknown identifier or an unreadable body is reported as an error and skipped, without loss of messages before or after it.",
   ["programs", "inputs", "histories"], "all documents x sequences of packages (good and bad) x ways to cut x points of taking messages",
   "No test runs the TypeScript reader over generated cuts.",
   [TP + "mod.rs", TS + "packing.ts", TS + "packing.header.ts"], [("reader", TP + "mod.rs")],
   "model-based property testing (Hypothesis): reader against a model of the stream", NOTE),
 p("P07", "Native decoder survives any bytes",
   "For any bytes whatever, decoding as any declared type and reading as a stream ends with a value or an error: no panic, no abort, no endless loop, and no request for memory out of proportion to the input. Bytes that are accepted decode to a value which encodes and decodes to itself, and neither a struct that is cut short nor a length that reaches beyond the end of the bytes is ever accepted.",
   ["programs", "inputs"], "all documents x all byte strings",
   "Hostile input is a space no fixed test covers.",
   [RS + "decode.rs", RS + "storage.rs", RS + "packing.rs", RS + "buffer.rs"], [("bounds checks", RS + "storage.rs, " + RS + "decode.rs")],
   "structure-aware fuzzing: valid encodings with broken lengths, ranks, identifiers, cuts; allocation-limit oracle", NOTE),
 p("P08", "TypeScript decoder survives any bytes",
   "For any bytes whatever, the generated TypeScript code answers decoding with a value or a returned Error and the reader answers with reported errors: nothing is thrown, nothing loops. Bytes that are accepted decode to a value of the declared shape which encodes and decodes to itself, and neither a struct that is cut short nor a length that reaches beyond the end of the bytes is ever accepted.",
   ["programs", "inputs"], "all documents x all byte strings",
   "Hostile input is a space no fixed test covers.",
   [TS + "protocol.convertor.ts", TS + "protocol.convertor.storage.ts", TP + "mod.rs"], [("storage reader", TS + "protocol.convertor.storage.ts")],
   "structure-aware fuzzing: valid encodings with broken lengths, ranks, identifiers, cuts", NOTE),
 p("P09", "Identifiers are unique, stable and the same in every target",
   "Groups, structs, fields and enums are numbered by one sequence in the order of the document, so identifiers are unique; Rust and TypeScript code give a type the same identifier, put it into the header of its packages, and dispatch a package by it to exactly this type. Both targets carry the same hash, which is SHA-256 of the document.",
   ["programs"], "all documents", UNIT + "identity of numbering has to hold for any nesting and order of definitions.",
   ["cli/src/protocol/store.rs", RP + "mod.rs", TP + "mod.rs", "cli/src/helpers/hash.rs"], [("sequence", "cli/src/protocol/store.rs")],
   "property-based testing: generated documents against a reference numbering", NOTE),
 p("P10", "Every valid document gives Rust code that compiles",
   "For every valid document the generator succeeds, and the Rust output compiles and declares every struct, enum, field and variant at its path and with its declared type, optionality and repetition.",
   ["programs"], "all valid documents (names outside of the reserved words of the target)", UNIT + "generated programs are a space of their own.",
   [RP + "mod.rs", RS + "uses.rs"], [("renderer", RP + "mod.rs")],
   "property-based testing of a code generator: generated documents, compiler as a part of the oracle", NOTE),
 p("P11", "Every valid document gives TypeScript that type-checks and loads",
   "For every valid document the generator succeeds, and the TypeScript output passes the strict type checker, loads as a module, and declares every struct, enum, field, variant and message at its path and with its declared type, optionality and repetition.",
   ["programs"], "all valid documents (names outside of the reserved words of the target)", "The baseline tests do not type-check generated documents.",
   [TP + "mod.rs", TS + "index.ts"], [("renderer", TP + "mod.rs")],
   "property-based testing of a code generator: generated documents, type checker and a typed probe as the oracle", NOTE),
 p("P12", "Layout of a document does not change what is generated",
   "Spaces, tabs, line ends and their absence between tokens of a protocol document do not change the generated code in any target, apart from the hash of the document.",
   ["programs"], "all documents x all layouts", UNIT + "layouts are endless.",
   PAR, [("tokenizer", "cli/src/protocol/parser.rs")], "metamorphic property-based testing: same document, other layout", NOTE),
 p("P13", "Invalid protocol documents are refused, valid ones read as written",
   "The generator accepts exactly the valid documents: misplaced or missing punctuation, unfinished definitions, unknown or later-defined types, names used twice in one place, definitions in wrong places and unsupported characters are refused with a failure status and without a crash, and leave no output behind and existing output untouched. A valid document is never refused and is read as written.",
   ["inputs"], "all texts", "The tests have a handful of wrong documents.",
   PAR, [("expectations", "cli/src/protocol/parser.rs"), ("checks of names", "cli/src/protocol/store.rs")],
   "mutation-based grammar fuzzing against a reference reader", NOTE),
 p("P14", "The generator writes exactly what it is asked for",
   "A run writes the requested outputs and nothing else, gives the same bytes every time, and replaces existing output only when overwriting is requested. A run that fails, because an output exists, an argument is unknown or the source is missing or invalid, reports failure and leaves every file as it was.",
   ["configurations", "inputs"], "documents x combinations of arguments, existing files and faults", "The tests call the generator with one fixed set of arguments.",
   ["cli/src/ctrlargs.rs", "cli/src/arguments/args_option_files.rs", "cli/src/arguments/args_option_overwrite.rs", "cli/src/helpers/fs.rs", "cli/src/main.rs"],
   [("arguments", "cli/src/arguments/args_option_files.rs"), ("writing", "cli/src/helpers/fs.rs")],
   "property-based testing over generated command lines and file system states", NOTE),
 p("P15", "TypeScript validation refuses objects that do not fit the type",
   "Building a struct from a plain object in TypeScript is refused with a returned Error whenever a field is missing though required, has a value of another type, is not a whole number within the range of its declared integer type, or holds such an element in an array or such a payload in an enum, or an enum has more than one variant set.",
   ["programs", "inputs"], "documents x objects with one wrong field", "No test runs validation of generated types over wrong values.",
   [TS + "protocol.validator.ts", TP + "mod.rs"], [("validators", TS + "protocol.validator.ts")],
   "property-based testing (Hypothesis): one generated defect per object", NOTE),

 p("P16", "Rust producer answers every request once and broadcasts as told",
   "In the producer generated for any workflow, every request of an admitted client reaches the handler of this request exactly once, in the order of arrival, with the decoded message and the identification of its sender. The client gets exactly one answer: what the handler chose, the declared response or error, with the sequence of the request. Broadcasts of the chosen conclusion, and nothing else, go to the chosen recipients, once each, after the answer; an optional one which is not given is not sent. Deferred work runs afterwards. A failing send is handled by the configured strategy and affects nobody else.",
   ["programs", "histories", "faults"], "all workflows x histories of clients x answers of handlers x ways to cut data x failing sends",
   "The repository's workflow tests run one fixed workflow with one script; the guarantee is over all workflows and histories.",
   [WPR + "render_mod.rs", WPR + "render_request_handler.rs", WPR + "static"], [("loop of producer", WPR + "render_mod.rs"), ("requests", WPR + "render_request_handler.rs")],
   "model-based property testing (Hypothesis): generated workflows and histories, compiled producer against a reference model", WNOTE),
 p("P17", "Rust producer admits nobody before the handshake, offenders get their due",
   "A client is confirmed after the handler of its connection, and until then, and until it has presented both right hashes and its key, no message of it reaches a handler: sending early, wrong hashes or a missing key disconnect it and raise exactly one error. A client without an assigned key is treated by the chosen strategy (log, ignore, error, disconnect, both). Data which cannot be read, or of an unknown client, is treated by the strategy for errors. A client that is being disconnected is not listened to any more and is disconnected once. Other clients are not affected.",
   ["programs", "histories", "configurations"], "all workflows x strategies x histories of well and badly behaving clients",
   "Order of handshake steps, early data and mixtures in one chunk are a space of histories which the fixed end-to-end scripts do not enter.",
   [WPR + "render_mod.rs", WPR + "render_identification.rs", WPR + "render_consumer.rs"], [("process_received_data", WPR + "render_mod.rs"), ("state of consumer", WPR + "render_consumer.rs, " + WPR + "render_identification.rs")],
   "model-based property testing (Hypothesis): histories of hostile clients, compiled producer against a reference model", WNOTE),
 p("P18", "Rust producer: events, beacons, keys and life cycle",
   "Each emitted event runs its handler once, in order, and its broadcasts go to the chosen recipients; connected and disconnected handlers run once per connection, with a filter that lists exactly the present clients by key, assignment and exclusion. A beacon runs its handler and is confirmed with its sequence, a failing one raises an error instead. Keys set by handlers overwrite or merge as asked. Errors of the transport reach the error handler with their client. The producer starts with ready, and any shutdown (by the server, by control, waiting or not, by an end or an error of the transport, by a failing handler of errors, of the start or of the end) ends it exactly once, with the shutdown handler called and the error reported.",
   ["programs", "histories", "schedules"], "all workflows x histories of events, changes of keys, errors and endings",
   "These are guarantees over histories; the tests follow one script.",
   [WPR + "render_mod.rs", WPR + "render_event_emitter.rs", WPR + "render_beacon_emitter.rs", WPR + "render_identification.rs"], [("listener", WPR + "render_mod.rs"), ("events", WPR + "render_event_emitter.rs"), ("filter and keys", WPR + "render_identification.rs")],
   "model-based property testing (Hypothesis): generated workflows and histories, compiled producer against a reference model", WNOTE),
 p("P19", "Rust consumer: every call gets its own answer, in any order, or an end",
   "In the consumer generated for any workflow, a request or a beacon is sent once with a fresh sequence, and ends with exactly the message which the producer sent with this sequence, as the declared conclusion, error or confirmation, whatever other messages, broadcasts, chunks and answers to other calls come between; an answer of an undeclared type is an error. A request without an answer ends with a timeout after the configured time; a late answer or a call which was given up disturbs nothing. Every broadcast reaches its handler once, in order; unknown and unreadable messages are reported as errors and nothing else is lost.",
   ["programs", "histories", "schedules"], "all workflows x interleavings of calls, answers, broadcasts, timeouts and cancelled calls x ways to cut data",
   "The repository's workflow tests run one fixed workflow with one script, and one call at a time.",
   [WCR + "render_consumer.rs", WCR + "render_controller.rs", WCR + "static/implementation/consumer/api.rs"], [("messages and pending calls", WCR + "render_consumer.rs"), ("calls", WCR + "render_controller.rs")],
   "model-based property testing (Hypothesis): generated workflows and histories, compiled consumer against a reference model", WNOTE),
 p("P20", "Rust consumer: handshake, errors, reconnection and shutdown",
   "After the confirmation of a connection the consumer presents its key and both hashes, one after another, and calls the connected handler exactly once when both are accepted; a refusal or a wrong answer ends the connection with an error, and broadcasts in between do not disturb the handshake. Every connection ends with the disconnected and the shutdown handler, once each, all open calls end, and the cause is reported. After an end without an error the consumer reconnects after the configured time, if configured and agreed to by the handler, and starts afresh; after a shutdown or an error it doesn't. The context of handlers survives.",
   ["programs", "histories", "schedules", "faults"], "all workflows x handshake outcomes x endings x reconnection strategies",
   "The tests have no failing handshake, no failing transport and no reconnection.",
   [WCR + "render_consumer.rs", WCR + "render_options.rs", WCR + "static/implementation/consumer/api.rs"], [("auth, listen, connect", WCR + "render_consumer.rs")],
   "model-based property testing (Hypothesis): generated workflows and histories, compiled consumer against a reference model", WNOTE),
 p("P21", "Exactly the valid workflow documents are accepted, in any layout",
   "The generator accepts exactly the valid workflow documents: unknown references, misplaced, missing or repeated punctuation, words and parts, unfinished declarations, names and beacons declared twice, a workflow without a required declaration or configuration are refused with a failure status and without a crash, leaving no output and nothing that existed changed. A valid one is never refused and is read as written: its layout, comments and order of parts do not change what is generated apart from the hash.",
   ["inputs"], "all texts next to a protocol document", "The tests have one workflow document and a handful of fragments.",
   ["cli/src/workflow/parser.rs", "cli/src/workflow/store.rs", "cli/src/workflow/event.rs", "cli/src/workflow/request.rs", "cli/src/workflow/config.rs", "cli/src/workflow/beacon.rs"],
   [("expectations of readers", "cli/src/workflow/*.rs")], "mutation-based grammar fuzzing against a reference reader", NOTE),
 p("P22", "Every valid workflow gives code that compiles, type-checks and loads",
   "For every valid workflow, in TypeScript and Rust, the generated producer and consumer compile as they come out of the generator, handlers not yet written by the user. The TypeScript ones type-check in strict mode together with code that uses every declared request, conclusion, event, beacon, broadcast and option with its declared types, bundle and load, export what is declared, and carry the hashes of the documents they were generated from.",
   ["programs"], "all valid workflows", "The repository has one workflow document; whether another one yields code that compiles no test tells.",
   [WPT + "render_mod.rs", WPT + "render_request_handler.rs", WPT + "render_event_impl.rs", WCT + "render_consumer.rs", WPR, WCR], [("TypeScript producer", WPT), ("TypeScript consumer", WCT), ("Rust", WPR + ", " + WCR)],
   "property-based testing (Hypothesis): generated workflows, compiled and type-checked with typed probes", WNOTE),
 p("P23", "TypeScript producer answers every request once and broadcasts as told",
   "In the TypeScript producer generated for any workflow, every request of an admitted client reaches its handler exactly once, in order of arrival, with the decoded message and the identification of its sender. When the handler answers, however late and in whichever order the handlers do, the client gets exactly one answer: what the handler chose, with the sequence of the request; then the broadcasts of this conclusion go to the chosen recipients, once each, and deferred work runs. A handler which fails, gives a broadcast twice, an undeclared one or leaves a required one out sends nothing and is treated by the strategy for errors. A failing send affects nobody else, and no rejected promise is left unhandled.",
   ["programs", "histories", "schedules", "faults"], "all workflows x histories of clients x orders in which handlers answer x misuse x ways to cut data x failing sends",
   "There is no test of the TypeScript producer.",
   [WPT + "render_mod.rs", WPT + "render_request_handler.rs", WPT + "static"], [("loop of producer", WPT + "render_mod.rs"), ("requests", WPT + "render_request_handler.rs")],
   "model-based property testing (Hypothesis): generated workflows, histories and schedules, the producer under Node.js against a reference model", WNOTE),
 p("P24", "TypeScript producer admits nobody before the handshake, offenders get their due",
   "No message of a client reaches a handler before it has presented both right hashes and its key: wrong hashes, a missing key or hash disconnect it and raise exactly one error which names it. A client is confirmed after the handler of its connection. A client without an assigned key is treated by the chosen strategy (log, ignore, error, disconnect, both), unreadable or unknown data and data of unknown clients by the strategy for errors; readable messages around unreadable ones are processed. A client that is being disconnected is not listened to any more and is disconnected once. Other clients are not affected.",
   ["programs", "histories", "configurations"], "all workflows x strategies x histories of well and badly behaving clients",
   "There is no test of the TypeScript producer.",
   [WPT + "render_mod.rs", WPT + "render_identification.rs", WPT + "static"], [("messages", WPT + "render_mod.rs"), ("state of consumer", WPT + "render_identification.rs")],
   "model-based property testing (Hypothesis): histories of hostile clients, the producer under Node.js against a reference model", WNOTE),
 p("P25", "TypeScript producer: events, beacons, keys and life cycle",
   "In the TypeScript producer each emitted event runs its handler once, in order, and its broadcasts go to the chosen recipients; connected and disconnected handlers run once per connection with a filter that lists exactly the present clients by key, assignment and exclusion. A beacon runs its handler and is confirmed with its sequence, a failing one is treated as an error instead. Keys set by handlers overwrite or merge as asked. Errors of the transport, a second connection or an unknown disconnection reach the error handler; ready and shutdown handlers run once; a handler of errors, of the start or of the end that fails disturbs nothing. A failing start shuts the server down and is reported, and after destroy nothing is listened to any more.",
   ["programs", "histories", "schedules"], "all workflows x histories of events, changes of keys, errors and endings",
   "There is no test of the TypeScript producer.",
   [WPT + "render_mod.rs", WPT + "render_event_emitter.rs", WPT + "render_beacon_emitter.rs", WPT + "static"], [("listener", WPT + "render_mod.rs"), ("filter and keys", WPT + "render_identification.rs")],
   "model-based property testing (Hypothesis): generated workflows and histories, the producer under Node.js against a reference model", WNOTE),
 p("P26", "TypeScript consumer: every call gets its own answer, in any order, or an end",
   "In the TypeScript consumer generated for any workflow, each send() of a request or a beacon sends one message with a fresh sequence, and its promise ends exactly once: with the message which the producer sent with this sequence, as the declared class, and with the handler of its conclusion called once; an answer of another type, a failing transport, an object that is already waiting or is destroyed reject it with an Error. After any end the same object can be sent again. Every broadcast reaches its subscribers once, in order, with its own class; unreadable, unknown and late messages disturb nothing, however the data is cut, and no rejected promise is left unhandled.",
   ["programs", "histories", "schedules", "faults"], "all workflows x interleavings of calls, answers, broadcasts and failures x ways to cut data",
   "There is no test of the TypeScript consumer.",
   [WCT + "render_consumer.rs", WCT + "render_request.rs", WCT + "render_beacon.rs"], [("messages and pending calls", WCT + "render_consumer.rs"), ("calls", WCT + "render_request.rs, " + WCT + "render_beacon.rs")],
   "model-based property testing (Hypothesis): generated workflows and histories, the consumer under Node.js against a reference model", WNOTE),
 p("P27", "TypeScript consumer: handshake, ends of connections and the global instance",
   "On each connection, as soon as the producer has confirmed it and not before, the TypeScript consumer presents its key and then both hashes, and becomes ready exactly once, with the uuid it was given, when both are accepted; a refusal, a wrong answer or a broken transport never makes it ready. With the end of a connection every open call ends with an error, the uuid and the rest of the data are dropped, and the next connection starts afresh. Only one global consumer can be created; a refused one leaves no trace; who waits for it is told; after destroy nothing is listened to, every call ends with an error, and another one can be created.",
   ["programs", "histories", "faults"], "all workflows x outcomes of handshakes x ends of connections",
   "There is no test of the TypeScript consumer.",
   [WCT + "render_consumer.rs", WCT + "render_options.rs"], [("handshake, connection, destroy", WCT + "render_consumer.rs")],
   "model-based property testing (Hypothesis): generated workflows and histories, the consumer under Node.js against a reference model", WNOTE),
 p("P28", "Generating again keeps what the user wrote and renews the rest",
   "However a workflow changes between generations, in Rust, TypeScript or both: every file the user fills in (handlers of requests, events, beacons and broadcasts, context) keeps its bytes once it exists, also when its declaration is gone; a missing one is created as a first generation would; everything else that is generated equals what a first generation of the current documents gives, whatever was there; files of the user next to the generated ones are not touched; Cargo.toml and package.json keep everything the user declared and have the required dependencies. A protocol asked for in the same call is the one that producer and consumer speak, and one that exists and may not be overwritten stops the whole call. A generation that fails on an invalid workflow changes nothing, one that fails on a manifest loses nothing of the user, and both end with a failure status.",
   ["programs", "histories", "faults"], "all histories of workflows, edits of files and manifests, and failures",
   "The repository generates into fresh directories; losing a user's handlers on the second run is exactly what nothing there would notice.",
   ["cli/src/helpers/fs.rs", WPR + "render_static.rs", WPR + "render_request_response.rs", WPR + "render_cargo.rs", WCR + "render_broadcast.rs", WCR + "render_static.rs", WPT + "render_request_response.rs", WPT + "render_package.rs", WCT + "render_package.rs"],
   [("files that are skipped", "render_*_impl.rs, render_request_response.rs, render_broadcast.rs, render_static.rs"), ("manifests", "render_cargo.rs, render_package.rs")],
   "stateful property testing (Hypothesis): histories of generations and edits against a model of the directory", NOTE),
 p("P29", "The diagram of a workflow shows exactly what it declares",
   "With a destination for the diagram, the tool writes a PlantUML text that shows the workflow and nothing else: one group per request with the request, its error, every answer (each under its conclusion where there are several) and the broadcasts of each answer to all consumers in the declared order, optional ones dashed; one group per event with the event and its broadcasts; one arrow per beacon. An existing diagram is replaced only with --overwrite; without it, and on a failure, it keeps its bytes and the tool ends with a failure status. Diagram and generated protocol do not influence each other.",
   ["programs", "faults"], "all workflows x states of the output",
   "No test renders a diagram; a lost broadcast of the second answer is only seen on a workflow that has one.",
   ["cli/src/workflow/render/puml/mod.rs", "cli/src/workflow/render/puml/render_request.rs", "cli/src/workflow/render/puml/render_event.rs", "cli/src/workflow/render/puml/render_beacon.rs", "cli/src/arguments/args_option_files.rs"],
   [("diagram", "cli/src/workflow/render/puml/")],
   "property-based testing (Hypothesis): generated workflows, the diagram is read back and compared with the declared structure", NOTE),
 p("P30", "Producers and consumers understand each other, in any mix of languages",
   "A producer generated for any workflow, in Rust or TypeScript, serves consumers generated for the same workflow in both languages at once, over any transport that keeps the order of bytes, however it cuts and delays them, also when data comes together with the connection, and also when all of them use the same packing middleware: every consumer becomes ready exactly once per connection, with its own uuid; every request and beacon it sends reaches its handler once, in order, with equal content and the key of this consumer; its promise or future ends with what the handler answered; every broadcast reaches exactly the consumers it is addressed to, with equal content; nobody is disconnected and no error is reported without reason; when a connection is lost, every open call ends, and the consumer can come back.",
   ["programs", "histories", "schedules"], "all workflows x mixes of languages x histories x ways to cut and delay data",
   "The end-to-end programs of the repository use one fixed workflow, need its transports, and aren't part of the tests.",
   [WPR + "render_mod.rs", WPT + "render_mod.rs", WCR + "render_consumer.rs", WCT + "render_consumer.rs"],
   [("handshake, requests, broadcasts", "render_mod.rs of both producers, render_consumer.rs of both consumers")],
   "property-based testing (Hypothesis): generated workflows and histories, both producers against consumers of both languages over a simulated transport", WNOTE),
]
