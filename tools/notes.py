TV = "TLA+ specification (TLC): trace validation + replay of generated behaviours"
NOTES["C01"] = (TV, "Msg.tla: grammar and writer; TLC checks that every message over small critical component sets round-trips and emits them for replay through all writers/readers; random built messages recorded from the code are judged by TLC.")
NOTES["C02"] = (TV, "Framing.tla: reference line splitting and an incremental reader, checked equal for every chunking; generated scripts and random streams are run through the sync, tokio and codec readers.")
NOTES["C03"] = (TV, "Msg.tla: the grammar of a line. MC_Lines.tla checks it against a second, positional reading on every sequence of tags-, source-, kind- and argument-like tokens up to a bound, and the same lines go to the real parsers; so does every byte string up to a bound over a critical alphabet and random lines; TLC judges what the parsers returned.")
NOTES["C04"] = (TV, "Queue.tla: FIFO + token bucket; TLC explores every history of pushes/pops/ticks/limit changes up to a bound (rate bound, exact wait, pessimistic change, FIFO) and simulated behaviours are replayed into the real Queue under a virtual clock; long random histories recorded from the code are judged by TLC.")
NOTES["C05"] = (TV, "Queue.tla: guard stack, labeler, adjuster collection, reset; same method with edit/adjust histories.")
CL = "Client.tla: queue, handlers, line assembly, connection script, timeouts over virtual time; TLC explores every short history of add/run/push/close/reset/reconnect "
NOTES["C06"] = (TV, CL + "(ids distinct and fresh, one call per live handler per line); simulated histories and random ones are run through the sync and tokio clients and every observation is judged by TLC.")
NOTES["C07"] = (TV, CL + "(queue order, exactly-once writing, flush before return, fresh state after reset); conformance as for C06.")
NOTES["C15"] = (TV, CL + "with read/write limits, queue delays, stalls and a timeout function (timeouts are reported exactly when due); conformance under a virtual clock for the sync and tokio clients.")
NOTES["C16"] = (TV, "FMap.tla: name/tag/state maps as finite functions, with edit guards; TLC explores every short history of lookups, inserts, edits, removals and clears (one entry per key, last write wins, sorted iteration), simulated histories and random ones are run through the real maps and judged by TLC.")
RG = "Register.tla (with Sasl.tla, Nicks.tla, Base64.tla): registration as a function of the server's messages; TLC explores it against a server that says anything and against a conforming one with free choices "
NOTES["C08"] = (TV, RG + "(CAP END once and only with nothing pending, exact missing sets, no stall); generated and random transcripts are run through the real handler and judged by TLC; the CAP REQ splitter and default capability sets are judged on random offers.")
NOTES["C09"] = (TV, RG + "(no success and no CAP END/welcome accepted without a confirmed login when one is required; account tracks 900/901); conformance as for C08.")
NOTES["C10"] = (TV, RG + "(mechanism order, never retrying a rejected one); the SASL handler on its own, PLAIN/EXTERNAL payloads and base64 chunking are judged on generated and random runs.")
NOTES["C11"] = (TV, RG + "(nicks tried in generator order, none twice, NoNicks only when exhausted); nick generators on their own are judged on random configurations.")
AU = "Auto.tla: the background handlers as functions of one message; TLC explores every short line sequence over a critical alphabet with several handler sets "
NOTES["C12"] = (TV, AU + "(one PONG per PING, replies only to CTCP requests, relayed replies trigger nothing); generated and random histories run through the real handlers under a virtual clock are judged by TLC.")
NOTES["C19"] = (TV, AU + "(own source changes only on messages about this client, budgeted length covers the known parts); registration results and source length are judged on the runs of C08 and C12.")
CH = "Chan.tla (abstract) and ChanImpl.tla (one action per atomic operation): TLC explores all interleavings of small programs; the same programs run on the real channel code under an exhaustive preemption-bounded scheduler with an allocation tracker, under schedules generated by TLC and under Miri, and TLC judges every distinct history "
NOTES["C13"] = (TV, CH + "(one successful send, each value delivered or destroyed once, one release of the allocation, no access afterwards).")
NOTES["C14"] = (TV, CH + "(no lost wake-up, no early return, no empty-handed receive while a value can still come, stray wake-ups included).")
ST = "Strings.tla: a string as type, bytes and secrecy, with every safe operation as a transition over a pool of strings; TLC explores all short histories "
NOTES["C17"] = (TV, ST + "(secrets stay secret and hidden); generated and random histories and secret-buffer histories run on the real types under an allocator that checks every released block (zeroed secrets, red zones, double frees, leaks), and TLC judges every observation.")
NOTES["C18"] = (TV, ST + "(types keep their rules), MC_Split.tla checks the running encoding claim of a splitter for every script and nesting of saved positions; generated and random histories on the real types are judged by TLC.")
NOTES["C20"] = (TV, "Modes.tla: mode letters and their order, mode sets, tables of mode types, PREFIX and CHANMODES texts and the values of every typed token; TLC explores every history over three sets and a table, and every token text up to a bound over a critical alphabet; histories, texts and random values are run on the real types and judged by TLC (all 52 letters and all prefixes are queried each time).")
NOTES["C21"] = ("TLA+ specification (TLC) with release/acquire views: model checking + replay of generated programs on real threads under Miri + trace validation", "MC_Share.tla models the reference count's modification order and happens-before views: no race, no use after free, freed once, no leak, for all programs of 2-3 threads within the bounds (and each ordering used is necessary); generated programs run on the real strings under Miri with many schedules, which reports races, invalid accesses and leaks, and TLC judges what every thread saw (Share.tla). MC_Verdict.tla: the cached UTF-8 verdict asked by several threads is never wrong. Aliasing rules (Stacked Borrows) are not checked.")
NOTES["C22"] = ("TLA+ specification (TLC): model checking + replay of generated documents + trace validation", "Serde.tla says which documents are messages, settings or strings and what they describe. MC_Serde.tla checks for every document built from a few good and bad parts that what is loaded is valid, survives storing and survives the wire; all documents are replayed and random ones recorded, and TLC judges every load, refusal and round trip. Loading by text, by value and by byte deserialisers.")
NOTES["C23"] = ("TLA+ specification (TLC): model checking + replay of generated messages + trace validation", "Views.tla says what a message says when read as PRIVMSG, NOTICE, PART, TOPIC, QUIT, WALLOPS or JOIN, which text each name stands for, which numerics are errors, how kinds compare, and how CTCP messages are written and read. MC_Views.tla checks every line and CTCP message over a critical alphabet; all are replayed, together with all 1000 numerics, all names, all pairs of kinds and random messages, and TLC judges every answer.")
NOTES["C24"] = ("TLA+ specification (TLC): model checking + replay of generated connections + trace validation", "Tls.tla: certificates, trust settings, proofs of possession and client certificates. MC_Tls.tla checks every client setting against every server, honest or not (nothing in clear text, nobody trusted who should not be, no certificate shown unasked); the same connections are made on loopback with the real code, sync and tokio, and TLC judges each outcome. The TLS protocol itself is rustls's.")
