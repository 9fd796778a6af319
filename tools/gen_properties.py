#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

p("C01", "Every message that can be built survives being written and parsed back",
  "Any client or server message assembled through the public API and within the size limit is written as exactly one CRLF-terminated line, and parsing that line yields an equal message (same tags, source, kind and arguments). This holds for every writer (plain write, buffered send, tokio send, tokio codec encoder) and every parser/reader of the library, for all tag values, (non-empty) source parts and argument bytes the types admit.",
  ["inputs"], "all messages over tag keys/values, sources, commands/numerics and argument lists (incl. non-UTF-8, control characters, escapes, empty and colon-leading last arguments)",
  "The tests round-trip a handful of literal messages; escapes, unusual whitespace and combinations of tags/source/args are never enumerated.",
  ["src/ircmsg/codec.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/source.rs","src/string/tf/escape.rs"],
  [("write_to/send_to/encode","src/ircmsg/codec.rs"),("escape/unescape","src/string/tf/escape.rs"),("Args::parse/add","src/ircmsg/args.rs"),("Tags::parse/write_to","src/ircmsg/tags.rs")],
  ["ClientCodec/ServerCodec write_to, send_to, send_to_tokio, encode","ClientMsg::parse, ServerMsg::parse and the read_* functions"])
p("C02", "Framing: the message sequence read is independent of how bytes arrive",
  "For any byte stream and any way of cutting it into reads (including would-block/timeouts in the middle of a line, resumed with the same buffer), the synchronous, tokio and tokio-codec readers produce the same sequence of messages and errors as splitting the stream into lines: no message is lost, duplicated, merged or reordered. Blank lines are skipped, LF- and CRLF-terminated lines are accepted, a line longer than the message limit is rejected with an error instead of being delivered truncated, and end of stream is reported as such (as an unexpected end if it comes in the middle of a line).",
  ["inputs","schedules","fault_sequences"], "all streams x all chunkings x all interleavings of would-block/timed-out/EOF conditions",
  "Tests read from one contiguous in-memory slice; no partial reads, no codec decoder, no limit boundary.",
  ["src/ircmsg/codec.rs"],
  [("read_msg!/read_buf!","src/ircmsg/codec.rs"),("scroll_buf and Decoder impls","src/ircmsg/codec.rs")],
  ["ClientCodec::read_*","ServerCodec::read_*","Decoder::decode"])
p("C03", "Parsing is total and follows the message grammar",
  "For every line of bytes, parsing terminates without panicking and either yields exactly the tags, source, kind and arguments that the IRC message grammar assigns to that line (last duplicate tag wins, commands are upper-cased, three digits form a numeric, one trailing argument may contain spaces) or reports an error for a line with no or an invalid kind or source. Message components (tags, sources, argument lists, CTCP bodies, CAP argument lists) parsed on their own behave the same way, and every length/byte-budget accessor agrees with the written form.",
  ["inputs"], "all byte strings up to a bound exhaustively over a critical alphabet, longer ones randomly",
  "Tests parse about a dozen fixed well-formed strings.",
  ["src/ircmsg/codec.rs","src/ircmsg/tags.rs","src/ircmsg/args.rs","src/ircmsg/source.rs","src/ircmsg/ctcp.rs","src/client/cap.rs","src/ircmsg/numeric.rs"],
  [("parse","src/ircmsg/codec.rs"),("Tags::parse","src/ircmsg/tags.rs"),("Args::parse","src/ircmsg/args.rs"),("Source::parse","src/ircmsg/source.rs"),("MaybeCtcp::parse","src/ircmsg/ctcp.rs"),("ServerMsgArgs::parse/combine","src/client/cap.rs")],
  ["ServerMsg::parse","ClientMsg::parse","Tags::parse","Args::parse","Source::parse","MaybeCtcp::parse","ServerMsgArgs::parse"])
p("C04", "The outgoing queue never exceeds its rate limit and always makes progress",
  "Whatever the timing of pushes and pops, the queue releases at most burst+1 messages at once and thereafter at most one per delay (default 5, then one every 2 s; after changing the limit the full delay is assumed pending), in first-in first-out order. When it refuses, the reported wait is non-zero and is exactly long enough: after waiting it, the next pop succeeds; it reports no wait exactly when the queue is empty. All of this holds for every delay and burst that can be set, up to Duration::MAX.",
  ["histories","schedules","configurations"], "all histories of push/pop/clock-advance/set-rate-limit/reset",
  "No test touches the clock; rate limiting is never exercised across time.",
  ["src/client/queue.rs"],
  [("Queue::pop","src/client/queue.rs"),("Queue::set_rate_limit/reset","src/client/queue.rs")],
  ["Queue::pop and its timeout callback under a controlled clock"],
  [{"name":"timepoint/delay/sub","meaning":"token-bucket state","where":"src/client/queue.rs"}])
p("C05", "Queue editing, labelling, adjusting and resetting do exactly what they say",
  "An edit guard appends in order, reports how many messages were added through it and can discard exactly those and nothing that was queued before; a labelled push attaches a label tag equal to the returned, fresh label if and only if a labeler is installed. An adjuster sees every queued message once per incoming message it asked to act on and may rewrite or remove only those it rejects, keeping the order; reset removes all messages, the labeler and the rate-limit debt but keeps configuration and the adjuster (whose state it resets).",
  ["histories"], "all sequences of guard, nested-guard, label, adjust, clear and reset operations",
  "The existing tests never combine guards, labelers and adjusters.",
  ["src/client/queue.rs"],
  [("QueueEditGuard","src/client/queue.rs"),("Queue::adjust, MultiAdjuster","src/client/queue.rs"),("push_labeled","src/client/queue.rs")],
  ["Queue, QueueEditGuard, Adjuster, MultiAdjuster public API"])
p("C06", "Every live handler sees every message exactly once and is reported exactly",
  "For every message the client processes, each handler that was live when it arrived is run exactly once, even if other handlers finish during the same message; a finished or cancelled handler is never run again and is dropped. Live handlers always have distinct ids, ids of finished handlers may be reused only afterwards, and the yielded/finished id lists returned by a run are exactly the handlers that sent a value or finished in that run.",
  ["histories","schedules"], "all histories of adding handlers (also reusing ids), messages, yields, finishes, timeouts and resets",
  "Tests use one or two handlers that finish in a fixed order.",
  ["src/client/handler.rs","src/client/logic.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/handler/channel.rs"],
  [("Handlers::handle/add/cancel","src/client/handler.rs"),("Client::run/run_tokio","src/client/conn/sync.rs, src/client/conn/tokio.rs"),("SenderRef flag","src/client/handler/channel.rs")],
  ["Client::add*, Client::run, Client::run_tokio, recording handlers"])
p("C07", "Queued messages reach the connection once, in order, and reset starts afresh",
  "Running a client writes every message that was queued (initially, by handlers, or by the user) to the connection exactly once and in queue order, subject only to the rate limit; with no handlers it returns only once the queue is fully flushed, and messages queued by a handler that ends the run are flushed as far as the limit allows before returning. An asynchronous run abandoned partway (its future dropped) neither loses, cuts short nor repeats anything once the client is run again. Resetting (also with a new connection) drops handlers, queue, shared state and partially read input so that nothing of the old session is sent, parsed or visible afterwards, while configuration survives.",
  ["histories","fault_sequences","configurations"], "all histories of run/flush/add/queue/reset/reconnect with scripted connections, partial reads and partial writes, sync and tokio",
  "Tests run one straight-line session over an in-memory buffer.",
  ["src/client.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/conn.rs","src/client/logic.rs"],
  [("flush_partial(_tokio)","src/client/conn/sync.rs, tokio.rs"),("run(_tokio)","src/client/conn/sync.rs, tokio.rs"),("reset/reset_with_conn/with_conn","src/client.rs")],
  ["bytes written to a recording Connection; Client::state/queue/needs_run"])
p("C08", "Capability negotiation requests exactly the right set and ends exactly once",
  "During registration the client requests exactly the capabilities its configuration demands out of those offered (plus SASL when authenticating, never STS), split into lines that fit the message limit and jointly contain each requested capability exactly once; it ends negotiation exactly once, only after every requested capability is acknowledged and authentication is over. If a demanded capability is not offered, is refused, or is withdrawn before being acknowledged by a server that takes part in negotiation, registration fails with exactly the missing names, and on success the saved capability map says for every known capability its value and whether it is enabled.",
  ["inputs","histories","configurations"], "all capability offers (single and multi-line), configurations, and orders of ACK/NAK/NEW/DEL/LS/welcome messages",
  "Tests replay three fixed server transcripts.",
  ["src/client/register/handler.rs","src/client/cap.rs","src/client/register/defaults.rs","src/client/register.rs"],
  [("Handler::handle CAP arms","src/client/register/handler.rs"),("cap::req","src/client/cap.rs"),("default_caps","src/client/register/defaults.rs")],
  ["messages sent by the registration handler; its result; ClientState after registration"])
p("C09", "Registration never completes unauthenticated when authentication is required",
  "If the options contain SASL authenticators and do not allow failing, registration can only succeed if the server confirmed a login during it, by the time capability negotiation ended or the server sent its welcome; whatever else the server sends, the result is otherwise an error (or still pending). If failure is allowed or no authenticator is configured, SASL failing in any way, at any point, never by itself makes registration fail, and an account is recorded exactly when the server reported one.",
  ["inputs","histories","configurations"], "all server message sequences x all option settings",
  "One test covers a successful SASL login; no test covers the required-but-failed cases.",
  ["src/client/register.rs","src/client/register/handler.rs","src/client/register/defaults.rs","src/client/auth/handler.rs"],
  [("needs_auth","src/client/register.rs, src/client/register/handler.rs"),("Options::auths","src/client/register/defaults.rs")],
  ["result of the registration handler vs. server transcript"])
p("C10", "SASL tries each configured mechanism in order, at most once, with exact payloads",
  "The SASL handler offers the configured mechanisms in order, skips those the server lists as unsupported or that proved broken, never retries one the server rejected, waits for the server to acknowledge an abort before starting the next, and reports success only on the server's confirmation and failure only when none is left or the server's SASL itself is broken (undecodable or oversized data). Payloads are base64 chunks of at most 400 bytes terminated as the protocol requires, and encoding then decoding (under any chunking) returns the original bytes; the PLAIN and EXTERNAL payloads carry exactly the configured identities and password.",
  ["inputs","histories","configurations"], "all mechanism lists, all server reply sequences, all payload lengths",
  "Tests drive one mechanism through one happy path and a few chunk sizes.",
  ["src/client/auth/handler.rs","src/client/auth.rs","src/string/base64.rs","src/client/auth/sasl/password.rs","src/client/auth/sasl/external.rs"],
  [("Handler::handle","src/client/auth/handler.rs"),("ChunkEncoder/ChunkDecoder","src/string/base64.rs"),("SaslQueue","src/client/auth.rs")],
  ["AUTHENTICATE messages sent, handler result"])
p("C11", "Nick fallback walks the configured nicknames in order and terminates",
  "During registration the client uses the configured nicknames in order, then the configured fallbacks; each rejected nick is followed by the next one, a nick reported invalid also drops the generated variants based on it, and when none is left registration fails with the no-nicks error rather than repeating or panicking. Every nickname a generator produces is a valid nick with the configured prefix followed by characters of the configured suffix alphabets, looking ahead never changes what comes next, sequential generation over distinct, unambiguous suffix characters never repeats a nick, and the recorded nick is the one the server welcomed.",
  ["inputs","histories","configurations"], "all nick lists, suffix configurations, seeds and rejection sequences",
  "Tests check the first few outputs of two configurations.",
  ["src/client/nick.rs","src/client/nick/suffix.rs","src/client/register/handler.rs"],
  [("NickGen implementations","src/client/nick.rs"),("Suffix/SuffixGen","src/client/nick/suffix.rs"),("next_nick","src/client/register/handler.rs")],
  ["NickGen::next_nick/peek/handle_invalid; NICK messages during registration"])
p("C12", "PINGs are always answered, and automatic replies cannot loop",
  "Every PING received while an answering handler (or registration) is live yields exactly one PONG carrying the PING's last argument, and nothing else does; own-ping handlers finish only on the matching PONG. Automatic CTCP replies are sent only for a matching CTCP request in a PRIVMSG, never for a NOTICE or another message, as exactly one NOTICE to the sender carrying the configured answer. Handlers that pass messages on yield each message (each one that parses, of the kinds asked for) exactly once, in order, over every channel the library offers, for as long as someone can still receive them.",
  ["inputs","histories"], "all server messages in all handler states",
  "Tests send a single PING.",
  ["src/client/handlers.rs","src/client/handlers/ping.rs","src/client/handlers/autoreply.rs"],
  [("pong/AutoPong","src/client/handlers.rs"),("Ping handler","src/client/handlers/ping.rs"),("CtcpVersion & co.","src/client/handlers/autoreply.rs")],
  ["messages queued by handlers"])
p("C13", "The oneshot channel delivers at most one value exactly once, on any schedule",
  "Whatever the interleaving of sending, cloning, dropping, peeking and receiving, at most one send succeeds; a successfully sent value is received or dropped exactly once, a failed send hands its value back, and receiving returns a value if and only if some send succeeded before it. The shared allocation is released exactly once after the last handle is gone and never accessed afterwards.",
  ["schedules","histories"], "all interleavings of several senders and the receiver",
  "The tests run threads a few times with no control over the schedule.",
  ["src/client/handler/channel/oneshot.rs"],
  [("Inner reference accounting, Once","src/client/handler/channel/oneshot.rs")],
  ["oneshot public API, drop/alloc accounting"])
p("C14", "Parking never loses a wake-up and never returns early",
  "A receiver that parks for a value wakes up once a value has been sent or all senders are gone, under every interleaving of parking, unparking and dropping, and a blocking receive returns nothing only if no value can arrive any more or it was explicitly unparked; stray wake-ups of the thread do not make it return early or lose the value. An unpark that happens before parking makes the next park return immediately.",
  ["schedules","histories"], "all interleavings of parker and several unparkers, including unrelated unparks of the thread",
  "Tests sample two timings with sleeps.",
  ["src/client/handler/channel/parker.rs","src/client/handler/channel/oneshot.rs"],
  [("Parker::park, Unparker::unpark/drop","src/client/handler/channel/parker.rs"),("Receiver::recv","src/client/handler/channel/oneshot.rs")],
  ["Parker/Unparker/SyncChannels public API"])
p("C15", "Timeouts fire when configured, and only then",
  "A run reports a read timeout (or calls the timeout function, once per timeout, obeying its verdict) exactly when the configured read limit elapses without a complete message while it is reading (counted from the start of the run, the last message or the last service of the queue), never because the queue needed service and never when no limit is set; a message partly received before a timeout is completed by later reads. The configured write limit is in force for every write on every connection the client uses, and a write that stalls longer than it fails with a timeout error (sync and tokio).",
  ["configurations","histories","schedules","fault_sequences"], "all settings of read/write limit and rate-limit delay x arrival schedules",
  "No test sets a timeout.",
  ["src/client/conn/time.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client.rs"],
  [("TimeLimits/TimeLimitedSync/TimeLimitedTokio/timed_io","src/client/conn/time.rs"),("run/run_tokio","src/client/conn/sync.rs, tokio.rs")],
  ["set_read_timeout/set_write_timeout calls on a scripted Connection; results of run under a virtual clock"])
p("C16", "Keyed collections behave as maps under every sequence of edits",
  "Tag sets and name maps (capabilities, ISUPPORT) behave as finite maps under any sequence of insertions, replacements, removals, lookups, clears and bulk constructions, both while an edit guard is open and after it is closed: one entry per key, the last value wins, old values are returned, sizes are exact. Two collections with the same entries are equal, hash and serialise alike regardless of the order of the edits that produced them.",
  ["histories"], "all sequences of edit operations over a small key set, through open and closed guards",
  "The unit tests insert two or three keys in sorted order.",
  ["src/util/flatmap.rs","src/ircmsg/tags.rs","src/names/types.rs"],
  [("FlatMap/FlatMapEditGuard","src/util/flatmap.rs"),("TagsEditGuard","src/ircmsg/tags.rs"),("NameMap","src/names/types.rs")],
  ["Tags, NameMap and their edit guards"])
p("C17", "Secrets stay secret",
  "The content of a secret string is never shown by Display or Debug of it, of anything derived from it (slices, transforms, encodings, ownership conversions, lossy conversions, escapes) or of a message containing it, and everything derived from a secret is itself secret. Secret buffers read, grow and copy without losing or inventing bytes and are overwritten with zeros before their memory is released or reallocated; equality, ordering and the written form are unaffected by secrecy.",
  ["inputs","histories"], "all derivation chains over secret strings and all secret-buffer operation sequences",
  "Tests check one Debug output.",
  ["src/string/bytes.rs","src/string/secretbuf.rs","src/util/ownedslice.rs","src/string/splitter.rs","src/string/tf/escape.rs","src/string/base64.rs"],
  [("Bytes secret flag","src/string/bytes.rs"),("SecretBuf","src/string/secretbuf.rs"),("OwnedSlice::reinit_all/init_capacity","src/util/ownedslice.rs")],
  ["Display/Debug output, is_secret, contents of memory being deallocated"])
p("C18", "String types always satisfy their invariant and their UTF-8 claim",
  "Every value of a string type obtained through the safe API (checked construction, conversion, splitting, building, transforming, deserialising) satisfies that type's character rules, and construction succeeds exactly for the inputs that do. A string that claims to be UTF-8 is valid UTF-8, splitting yields exactly consecutive pieces of the input, and case mapping and trimming do exactly what their tables say.",
  ["inputs","histories"], "all byte strings over a critical alphabet x all operation sequences on splitters and builders",
  "Tests check a few literals per type.",
  ["src/string/subtypes.rs","src/string/subtypes/macros.rs","src/string/subtypes/impls.rs","src/string/splitter.rs","src/string/builder.rs","src/string/bytes.rs","src/string/tf.rs","src/string/tf/casemap.rs","src/string/tf/trim.rs","src/string/serde.rs"],
  [("impl_subtype!","src/string/subtypes/macros.rs"),("Splitter/Range","src/string/splitter.rs"),("Builder","src/string/builder.rs"),("Transform impls","src/string/tf/*.rs")],
  ["from_bytes/try_from/from_super, Splitter, Builder, transform, serde"])
p("C19", "The client always knows its own source and registration results",
  "After registration the shared state holds exactly what the server reported (nick, user and host, account, server name and version, ISUPPORT tokens, capabilities), and source tracking keeps the client's own source equal to what its NICK, CHGHOST and USERHOST-reply messages imply, ignoring those of other users. The source length used for message budgets is exact when the source is fully known, otherwise derived from the advertised limits or the documented defaults, and never smaller than the known parts.",
  ["inputs","histories"], "all sequences of registration, nick-change, host-change and unrelated messages",
  "Tests check one nick change.",
  ["src/client/handlers/track.rs","src/client/logic.rs","src/client/register/handler.rs","src/client/state.rs"],
  [("TrackSource","src/client/handlers/track.rs"),("calc_source_len","src/client/logic.rs"),("Registration::save","src/client/register/handler.rs")],
  ["ClientState::get, source_len"])
p("C20", "Mode and ISUPPORT tokens are parsed and combined as advertised",
  "Mode-type and status-prefix tokens, mode sets and mode letters parse exactly the well-formed values and assign every letter its advertised type or prefix; mode sets form a set algebra (insert, remove, union, intersection, difference, containment, iteration in order without repeats). Every typed ISUPPORT or name lookup returns exactly what the server advertised, its documented default, or an error, for any token value.",
  ["inputs","histories"], "all token values over a critical alphabet; all mode-set operations",
  "Tests check a few literal tokens.",
  ["src/state/mode.rs","src/names/isupport.rs","src/names/types.rs","src/names/cap.rs"],
  [("Mode/ModeSet/ModeTypes/StatusModes","src/state/mode.rs"),("NameValued impls","src/names/isupport.rs")],
  ["state::* public API, NameMap::get_parsed"])
p("C21", "Strings may be shared between threads",
  "Strings that share one buffer (clones, and pieces split off) may be read, cloned, split, dropped and turned into vectors by different threads at the same time, on any schedule and memory model the language allows: every thread sees exactly the text of its own strings, a buffer is only reused or freed once no other string uses it and every earlier access by other threads happened before that, it is freed exactly once, and no memory is leaked.",
  ["schedules"], "all interleavings of small programs over 2-3 threads under release/acquire semantics",
  "Tests share strings on one thread only.",
  ["src/util/thinarc.rs","src/util/ownedslice.rs","src/string/bytes.rs"],
  [("ThinArc::{clone,drop,try_unwrap}","src/util/thinarc.rs"),("OwnedBytes::into_vec","src/string/bytes.rs"),("Bytes::to_utf8 (cached)","src/string/bytes.rs")],
  ["string::* public API on threads"])
p("C22", "Stored values load back unchanged, and loading never makes an invalid value",
  "With the serde feature, a message, source, tag set, argument list, numeric, string or setting (server address, nickname generator) whose texts are UTF-8, stored through serde (JSON) and loaded again, equals the original. Loading never produces an invalid value: a string type refuses text its own rules forbid, a message is loaded exactly when its tag keys, tag values, nick, user, host, command (or numeric 0-999), words and last argument are all valid, and then has exactly the parts described. Registration options load every field given (passwords from base64, as secrets), take defaults for absent fields, and are refused if any field is invalid.",
  ["inputs"], "all documents",
  "Tests load one base64 secret.",
  ["src/string/serde.rs","src/string/subtypes/macros.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/numeric.rs","src/ircmsg/servermsgkind.rs","src/ircmsg/source.rs","src/client/register/defaults.rs","src/client/auth/secret.rs","src/client/auth/sasl/password.rs"],
  [("Deserialize for Args","src/ircmsg/args.rs"),("Deserialize for Tags","src/ircmsg/tags.rs"),("Numeric serde","src/ircmsg/numeric.rs"),("Deserialize for string subtypes","src/string/subtypes/macros.rs"),("Deserialize for Clear/Secret","src/client/auth/secret.rs"),("register::Options","src/client/register/defaults.rs")],
  ["serde::Serialize/Deserialize of the public types"])
p("C23", "A message read as a named type says what it said",
  "Reading a message as PRIVMSG, NOTICE, PART or TOPIC succeeds exactly when it has two arguments, giving the first as target and the second as value; as QUIT or WALLOPS exactly when it has one, giving it as value with target *; as JOIN exactly when it has one that is a single word. The view carries the message's tags and (from a server) its source, and mapping a view or CTCP message changes nothing but its value. Every name stands for its documented text; kinds are equal, ordered and hashed like their text; numerics 000-399 are not errors, 400-568 are, and others answer as documented or unknown. A CTCP message with an upper-case command and no delimiter inside is parsed back as it was written, and its announced length is that of its line.",
  ["inputs"], "all messages, names and numerics",
  "Tests view a handful of messages.",
  ["src/names/cmd.rs","src/names/cap.rs","src/names/isupport.rs","src/ircmsg/targeted.rs","src/ircmsg/ctcp.rs","src/ircmsg/numeric.rs","src/ircmsg/servermsgkind.rs"],
  [("NameValued impls","src/names/cmd.rs"),("TargetedMsg","src/ircmsg/targeted.rs"),("MaybeCtcp","src/ircmsg/ctcp.rs"),("Numeric::is_error","src/ircmsg/numeric.rs"),("ServerMsgKindRaw","src/ircmsg/servermsgkind.rs")],
  ["ServerMsg::parse_as, ClientMsg::parse_as, names::*, MaybeCtcp, Numeric"])
p("C24", "TLS connections are made exactly to the servers the settings trust",
  "With TLS asked for, a connection is made exactly to servers that prove possession of their certificate's key with a signature scheme the TLS version permits and, unless verification is off, whose certificate was issued by a trusted root (the given files, the system's, or both, as set), directly or through certificates the server sends along, is for the address connected to, has neither expired nor yet to begin and is meant for servers. Without such a server nothing the client says leaves in clear text. A client certificate is shown exactly when one is configured and asked for; settings naming missing or damaged files or files without a (PKCS#8) key are refused. Once connected, bytes pass both ways unchanged, on the synchronous and the tokio connection alike, and a TLS connection that is cut off is not taken for one that ended. The port is the one given or the usual one (6697 with TLS, 6667 without), and addresses are equal exactly when host, port and use of TLS are.",
  ["configurations","inputs"], "all combinations of trust settings, client certificates and servers, honest or not",
  "The unit tests never connect.",
  ["src/client/tls.rs","src/client/conn.rs"],
  [("TlsConfigOptions::build","src/client/tls.rs"),("NoVerifier","src/client/tls.rs"),("ServerAddr::{connect,connect_tokio}","src/client/conn.rs"),("Stream/StreamTokio","src/client/conn.rs")],
  ["TlsConfigOptions, ServerAddr::connect, ServerAddr::connect_tokio"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
