FR = T % "spec/FramingCore.tla, FramingGen.tla, Framing.tla" + "its enumerated chunkings fed to the generated reader; every recorded read validated by TLC as a behaviour of the specification"
C["F01"] = (FR + " (Rust)", "streams of up to 3 packages of 5 shapes with all cut sets of the listed positions up to the chunk bound; random cuts of up to 9 packages")
C["F02"] = (FR + " (TypeScript on node)", "as F01")
C["F03"] = (FR + " (both languages)", "as F01 with packages of foreign signature, unknown id and undecodable body; further empty chunks let the Rust reader, which stops at a refused package, go on")
C["W06"] = ("TLC enumeration of spec/Accept.tla (objects with one place changed, verdict and resulting value; bodies by spec/Wire.tla) replayed into from() of the generated TypeScript classes, the packages of accepted objects compared byte for byte with the specification",
            "one changed place per object; catalogue and random protocols with structs of up to 24 fields (quick)")
C["F04"] = ("TLC enumeration of spec/Middleware.tla (writer, stream, reader and installed middleware), its histories replayed into the generated TypeScript code and the recorded calls, packages and deliveries judged by TLC against the same specification (spec/MiddlewareTrace.tla)",
            "five message shapes; one history per state of the stream and last two actions up to 5 steps, walks of 40 steps")
C["L01"] = (T % "spec/ProtoGrammar.tla (pushdown automaton of the notation)" + "an edge cover of its states, each token sequence in several layouts, and random edited sources judged by TLC, run through the real clibri",
            "token sequences cover every edge of the automaton within the nesting and stack bound; random edits fixed by VERIF_SEED")
C["L02"] = (T % "spec/ProtoScope.tla (name resolution)" + "its enumerated scope documents run through the real clibri: acceptance, and the layout of the resolved type observed by encoding against spec/Wire.tla",
            "documents of two or three groups with every placement of a definition, a rival and a reference; a shadowed reference in TypeScript is a known finding")

PR = T % "spec/ProducerCore.tla, ProducerGen.tla, ProducerTrace.tla" + "bounded exploration of the producer under every stimulus of an alphabet, with independent monitors of the outputs; its histories and random bursts driven through generated Rust producers on a stand-in transport; every recorded run validated by TLC as a behaviour of the specification"
for _i, _n in (("P01", "handshake messages in every order and batching, one and two connections"), ("P02", "every request, conclusion and addressing of its broadcasts, chunks of several requests, failing recipients"),
               ("P03", "up to three connections coming, going and changing keys, every filter function"), ("P04", "up to three connections, repeated and unknown ones, failing ones, failing default handlers"),
               ("P05", "all 20 pairs of strategies, three kinds of damaged packages"), ("P06", "both keys, overwrite and merge, mandatory and optional fields, from handlers and from outside"),
               ("P07", "application events, server errors, every way to end"), ("P08", "beacons at every depth, failing handlers, failing sends, deferred actions")):
    C[_i] = (PR, _n + "; two fixture workflows; bounded number of stimuli, random continuation fixed by VERIF_SEED")

CR_ = T % "spec/ConsumerCore.tla, ConsumerGen.tla, ConsumerTrace.tla" + "bounded exploration of the consumer (its four tasks, handshake, table of requests, sessions) under every stimulus of an alphabet with independent monitors; its histories and random bursts driven through real generated consumers over a stand-in transport and a paused clock; every recorded run accepted or rejected by TLC as a behaviour of the specification"
for _i, _n in (("C01", "every order and batching of confirmation, answers, wrong answers and broadcasts; connections that end in between"), ("C02", "answers of every type to every request and beacon, up to three calls in flight, duplicates, unknown and late answers, abandoned calls, timeouts, failing sends"),
               ("C03", "every broadcast type, chunks, damaged packages, text and control messages, during and after the handshake"), ("C04", "every end of a session, with and without reconnection, handles of an older session, shutdown requests racing with the end")):
    C[_i] = (CR_, _n + "; two fixture workflows; bounded number of stimuli, random continuation fixed by VERIF_SEED")
C["L03"] = (T % "spec/Ids.tla" + "its enumerated document shapes run through the real clibri for every target and repeatedly; the identifiers in the generated code and on the wire compared with one another as the specification requires",
            "documents of the enumerated shapes, edits that must and must not keep ids; both languages, producer and consumer service messages")
KW = T % "spec/WorkflowGrammar.tla (automaton of the notation)"
C["K01"] = (KW + "an edge cover of its states, each token sequence in several layouts, and random edited sources judged by TLC, run through the real clibri",
            "every token after every state of the automaton; thorough also after every pair of transitions; random edits fixed by VERIF_SEED")
KS = T % "spec/Workflow.tla (meaning of workflows)"
C["K02"] = (KS + "every document reached by one edit from three sound ones, and a share of those reached by several, run through the real clibri and accepted or refused as the specification says",
            "every reference position with every kind of bad reference; single edits exhaustive, longer ones sampled by VERIF_SEED")
C["K05"] = (KS + "the diagram the real clibri writes for each enumerated document, parsed and compared with the one the specification gives", "the documents of K02")
C["K06"] = (KS + "sound documents chosen for different shapes and roles generated for real and compiled: rustc for all Rust producers and consumers, tsc for the TypeScript ones",
            "14 (thorough 60) Rust and 30 (120) TypeScript workflows over one protocol; message names that differ in more than case and separators; tsc runs against a stand-in for the clibri package")
KG = T % "spec/Regen.tla (histories of a project: edits, removals, damage, runs)"
C["K03"] = (KG + "all histories of a small project model checked; random histories of a full one replayed with the real clibri, and every file compared with what the specification says it has to be",
            "five workflows, both languages, 64 (400) histories of 12 (24) steps; what a stub or implementation file has to contain is what a first generation writes")
C["K04"] = (T % "spec/Fingerprint.tla" + "random histories of sources generated for real; fingerprints equal exactly when the specification's sources are", "one shape of sources with 15 slots of 4 values; files up to some 80 kB")
KC = T % "spec/Cli.tla (commands and what stands at their destinations)"
C["G01"] = (KC + "all commands on all states model checked; random histories of commands run for real: exit status and every file compared with the state of the specification", "options, spellings, orders, paths and directories drawn by VERIF_SEED; two sound and some refused sources")
C["L04"] = (KC + "histories of sound commands over dirty destinations run for real; every output compared with the first one of the same inputs and options", "sources of spec/Regen.tla and spec/Workflow.tla, variations, samples of the repository")
KT = "model checking with TLC of %s; histories taken from the state graph and random longer ones replayed into the real generated TypeScript (node, stand-in transport); recorded runs judged by TLC against the specification"
C["T01"] = (KT % "spec/TsProducerCore.tla and TsProducerGen.tla (jobs side by side)", "two fixture workflows whose conclusions have types of their own; bounded number of stimuli, random continuation fixed by VERIF_SEED; a stand-in for the clibri npm package")
C["T02"] = (KT % "spec/TsConsumerCore.tla and TsConsumerGen.tla", "two fixture workflows; bounded number of stimuli, random continuation fixed by VERIF_SEED; a stand-in for the clibri npm package; transport events reach the consumer one per turn of the event loop")
C["S01"] = ("model checking with TLC of spec/SystemCore.tla and System.tla (the producer specification of one language, consumer specifications of both, first-in first-out channels, and the contract a user relies on); its random schedules played by a network between real generated processes; every recorded run judged by TLC (SystemTrace.tla): each step and the contract at every point; crowds of up to 9 consumers and up to 560 calls judged against the contract alone (CrowdTrace.tla)",
            "small instances exhaustively (two consumers, one or two calls); 300 (thorough 4000) random schedules of three consumers, eight calls, three events and departures, and 16 (32) crowds over two fixture workflows, Rust and TypeScript mixed; stand-in transports")
C["K07"] = (T % "spec/Targets.tla (the code below the destinations after runs with changing targets)" + "histories of runs over every choice of targets replayed with the real clibri; every file compared with what the specification says stands there", "32 (thorough 200) histories of 6 (12) runs over a dozen (30) workflows and one protocol; contents compared with those of runs with a single target")
C["K08"] = (T % "spec/Manifest.tla (manifests at every level of a project, edits of the user, runs)" + "histories of edits and runs over manifests of many shapes replayed with the real clibri; every manifest compared with what the specification says of it", "60 (thorough 400) histories of 16 (24) steps, some 440 runs; manifests drawn from a grammar of contents by VERIF_SEED; what the code needs is what a run adds to an empty manifest and has to contain every imported package")
