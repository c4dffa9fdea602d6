CLAIM = {
"C01": ("interprocedural lockset analysis (Eraser-style, static)", "Every access to a field of a shared object on every path from every entry point is checked against one common lock. Locks and data are compared by field, not by instance; configuration setters named in the exception table are assumed to run before use."),
"C02": ("interprocedural path-sensitive lockset analysis", "Balance of locks at every exit and no re-acquisition, over all paths of the abstract interpretation; locks are merged per declaring field."),
"C03": ("lock-order graph from the lockset analysis", "Acyclicity of the may-acquire-while-holding relation over all paths and entry points; locks are merged per declaring field."),
"C06": ("abstract interpretation of the send paths with a transaction typestate", "Every send path from every exported entry point is interpreted over a symbolic heap with provenance tags; loops are summarised, other goroutines are not interleaved (the ordering claim is about the sender's own path)."),
"C07": ("abstract interpretation of the receive loop per message kind with provenance tags", "All paths of the receive loop for every symbolic message class (parity, session state, handler registration); system bytes and session id are followed as provenance, handlers are one abstract call-out."),
"C08": ("abstract interpretation with a state-check obligation", "Every path to a data-message transmission or delivery must carry a preceding SELECTED check made in the same operation; a change of state between check and transmission by another goroutine is inherent and not counted."),
"C25": ("abstract interpretation of the receive loop and senders per message class", "All paths for every symbolic message class; contents of the stream 9 body are followed as provenance only."),
"C05": ("abstract interpretation of the receiving goroutine with blocking operations as events", "Every path of the receive loop for every message kind and of every registered built-in handler; goroutines and timers started there are not part of the receiving goroutine; socket writes and mutexes are not counted as waits for a message."),
"C09": ("abstract interpretation of the receive loop against the E37 control-message table", "All paths for every control-message kind x connected flag x session match x status class x state; wild-card session ids are not constrained."),
"C10": ("evaluation of the state-machine definition plus typestate analysis of its callbacks", "The relation is compared exactly; callbacks are interpreted on every path for every transition; concurrency of callbacks is C01-C03's subject."),
"C19": ("abstract interpretation of registered handlers; message constructors evaluated", "Every return path of every registered handler in both roles; loops are summarised."),
"C20": ("abstract interpretation of NewGemHandler and of all senders per role", "Registrations are exact; the set of messages a role can send is an over-approximation over all paths."),
"C22": ("abstract interpretation of every exported operation per role and communication state", "Role and state are constants of each run; every path of the operation and of the goroutines and timers it starts is covered."),
"C23": ("abstract interpretation of the control state machine per state and mode, and of its users", "Every cell of states x modes x requests is run to the end and compared with the E30 table; the handlers and the online attempt are followed on every path with the machine's methods as the only writers. Interleavings of two requests are serialised by the machine's lock (C01)."),
"C24": ("abstract interpretation with the communication state as a typestate", "Every store of COMMUNICATING on every path of operations, handlers, goroutines and timers; facts about the received message are symbolic conditions; two handshakes running at once are not interleaved."),
"C14": ("guarded-value analysis of allocations (range checks that dominate them)", "Every allocation and slice in the stream codecs and the decoder whose size comes from the wire is dominated, on every path and through its helpers, by a comparison with a bound that does not come from the peer, or by what is left of the message. Integer wrap-around is covered by requiring a sign check for signed sizes."),
"C18": ("effect analysis over the call graph (output and termination effects) with a provenance rule for default streams", "Every function of the library, whether reachable or not; the effects of third-party packages are taken from a table of their output functions."),
"C32": ("lockset analysis at codec and log-writer calls; write-once analysis of codecs", "Every hand-over to a codec and every log write, on every path and in every context. Locks are compared by field, not by instance."),
"C28": ("ownership (must-release) analysis of connections and sessions; typestate of the session's close flag", "Every path from each acquisition to every return of the operation, through helpers and the goroutines it starts; the close protocol of a session is followed on every path with locks by field. Third-party protocols and handlers passed in by the application are not analysed."),
"C29": ("typestate of the wait queue under its lock; dataflow from the time-out to the timers and from the timers to the waits", "Every path of the queue's operations with container and wake-up as tokens; one waiter per queue is assumed (each queue belongs to one transaction)."),
"C30": ("typestate of timers and stop channels through locals, fields and critical sections; abstract interpretation of timer functions up to their first effect", "Every place that makes a timer, every store and stop of a field that keeps one, every ticker loop and every timer function. Durations are not decided here, and the check-then-act window inside a timer function is accepted (the statement asks for the check)."),
"C31": ("typestate of the manager claim (compare-and-swap, start, release) over all callers; path-sensitive abstract interpretation of the manager with the settings as symbolic inputs", "Every start site, every access of the claim and every path of the manager; delays are bounded by an interval argument on the delay expression. Wall-clock accuracy and the moment a claim is released against a concurrent Enable are not decided."),
"C38": ("abstract interpretation of the log gates per configuration; typestate pairing of transmissions and log calls", "Every function that consults the configuration and writes is followed under every combination of switches and modes; every path that transmits or receives a data message is paired with its log call by message provenance. The text of an entry is followed as provenance (rendered from the SML text or from the bytes), not character by character."),
"C21": ("unmerged abstract interpretation of each configuration handler over a symbolic equipment; comparison of the registries before and after", "Every path for a grammar of small requests: every identifier kind, up to three entries, repeated entries, and each item in turn replaced by every other kind; the registries are symbolic. Longer requests are assumed to behave like these (loops over entries treat them alike); two requests are not interleaved (C01 covers the locking)."),
"C26": ("unmerged abstract interpretation of the alarm operations and handlers with bit-level values", "Every path of the alarm operations and of the S5F1, S5F3, S5F5 and S5F7 handlers with a symbolic alarm registry; alarm codes are followed bit by bit, so every code is covered. Lists of alarms are followed with one or two entries."),
"C33": ("unmerged abstract interpretation of the event handlers and of S6F11/S6F16 building over symbolic registries", "Every path for a grammar of small requests with symbolic registries of events, links, reports and variables (lists of up to two entries, all aliasing between stored and requested identifiers). A request that overlaps with the building of a report is not interleaved."),
"C34": ("unmerged abstract interpretation of the equipment-constant operations with symbolic validators, updaters and providers", "Every path of S2F13, S2F15 and ApplyValue for a grammar of small requests; the callbacks may succeed or fail in every combination."),
"C35": ("unmerged abstract interpretation of the remote-command handler and of the host's parser", "Every path for commands of every identifier kind with up to two parameters, each item in turn replaced by others, with a symbolic handler result; every form of reply on the host side up to the same size."),
"C27": ("unmerged abstract interpretation of everything in the GEM layer that looks at a message, over messages of every form, and a nil-dominance analysis of every value that may be missing", "Each registered handler, each host operation and each other function with a message is run on its defined form, every variation of it (each item replaced by every other type, an item without values, lists cut short and lengthened by one) and an empty message; a panic is reported only where it is certain on a path: a nil pointer or interface used, a position that the item may not have, a number outside the range of the factory it is given to. The receive loop and the connection are covered by the nil analysis (sessions that are taken away, look-ups, handler replies, type tests) and the rule on assertions. The decoder itself is C13. An exploration that does not end is counted in the evidence and claims nothing; panics of application callbacks are not looked at."),
"C37": ("path-sensitive abstract interpretation with every failing step forked, and unmerged interpretation of the GEM operations over replies of every form", "Every step of the HSMS, session and codec sends fails in turn; every GEM operation that sends and waits is run with a failing send, with its defined reply and with every variation of it (each item replaced by every other type, an empty item, a shorter or longer list). Lists of one or two identifiers; lengths beyond are assumed to behave alike (same loops)."),
"C36": ("unmerged abstract interpretation of the process-program handlers over a symbolic store", "Every path of S7F3, S7F5 and the two host operations for every form of request and reply, with symbolic application handlers and a symbolic store."),
"C15": ("ownership and escape analysis of the immutable types (origin tracing through locals, fields, calls and closures)", "Every store, map update, append and copy in package ast, every value its exported methods return and every slice or map its constructors keep. Values are traced to the objects they can refer to without regard to the order of statements, except that an object still under construction may be written. Code outside the package can only reach what is handed out."),
"C11": ("abstract interpretation over a bit-provenance domain (every bit of a header byte is traced to its source)", "Every builder, the decoder and Type() over fully unknown headers, statuses, sessions and system bytes; texts of 0, 1, 300 and 65536 bytes. No solver is involved: a branch on an unknown bit or interval splits the facts."),
"C12": ("abstract interpretation over a bit-provenance domain, compared with the SEMI E5 table", "Every item type with unknown values for 0 to 3 values, and at both sides of every length-byte boundary (the middle of those long items is constant, lists beyond 256 elements are left out); every format code and length-byte count; lists two deep with items of every type."),
"C16": ("abstract interpretation of the factories over an interval and bit-provenance domain", "Every factory, FillVariables, SetWaitBit and SetSessionIDAndSystemBytes with an unknown value of every basic Go type at every position of one and two values, and fully unknown header fields; a path that does not refuse must have proved the documented range and keep the value. Names are decided for one or two unknown bytes after prefixes that reach every state of the documented forms; ASCII text up to four unknown characters."),
"C13": ("abstract interpretation of both decoders over a bit-provenance domain, with panics injected at every instruction that may panic", "The binary decoder on every message of up to 18 unknown bytes, every item text of up to 3 unknown bytes, every item head with 0 to 3 length bytes and too little, as much and too much content (alone and in a list), followed by unknown bytes beyond the message; lists 800 and 1000 deep must need the same call depth; the SML parser with one and two unknown characters, invalid UTF-8 and the end of the text in every context. A panic injected at any instruction of package ast or the parsers that can panic must come back as an error. Longer unknown texts are covered by the injection, not enumerated."),
"C64": ("unmerged abstract interpretation of the clock's handlers and operations with symbolic times and texts (layouts, slices and concatenations are named, not computed)", "S2F17, S2F31, GetEquipmentTime, both setters, RequestDateTime and SetDateTime, over every form of request or reply; the provider, the handler, the time and the text are symbolic. What a formatted text consists of is decided by its layout, what a parsed time says by the layout and the part of the text; times or texts computed in other ways (byte buffers, builders, time.Date) are counted as undecided and not judged."),
"C63": ("unmerged abstract interpretation of every call that arms a timer, sleeps or sets a deadline, with the settings as symbols", "Durations are named after the setting and factor they are made of, through fields, closures, helper parameters and time arithmetic; each is compared with the setting its timer stands for (told by the timer's function, what its loop sends or the state entered). A duration that is not made from a setting where one is required is a violation. One known finding: T8 also runs while no message is under way. That the runtime's timers fire on time is assumed; the back-off's growth is C31."),
"C65": ("unmerged abstract interpretation of the request handlers against symbolic registries and of the host's operations against symbolic identifiers and replies", "S1F3, S1F11, S2F13 and S2F29 over requests of one and two identifiers of every kind (repeated, malformed and empty ones included) and over the empty request with two registered things; both registrations; the four host operations with two identifiers of any type and well-formed, shorter, longer and malformed replies. Longer lists are assumed to behave alike."),
"C66": ("unmerged abstract interpretation of the host's operations and its S6F11 handler with symbolic identifiers, values, texts and replies", "Eight operations with identifiers assumed text, int or uint32 over empty, repeated and several-member lists; the sent item tree is compared with the arguments, the returned code and report with the reply. S6F11 over two well-formed and seven malformed forms. A remote command's parameter values are texts, booleans, floats and integers of four types. Longer lists are assumed to behave alike."),
"C17": ("abstract interpretation of the SML lexer and parser over texts with unknown digits and characters", "Every literal, size and header form with unknown digits up to and beyond the widest representable value, in every item type; whenever a value cannot be represented or understood an error must be reported and no message returned, and whenever there is no error the value in the item must equal the number written. Texts are a grammar of forms (about 7000 obligations), not all texts."),
"C61": ("abstract interpretation of the SML renderer followed by the SML parser over a bit-provenance domain", "Every item type with unknown values (0 to 3 of them; numbers are symbolic numerals that must be read back into the same bits), every ASCII character at every position of short strings, lists, every header field unknown, names of unknown letters. strconv's formatting and parsing of numbers are modelled as inverse to each other in the forms the library uses."),
"C60": ("abstract interpretation of encoder followed by decoder over a bit-provenance domain", "Every item format with unknown values (0 to 3, and both sides of every length-byte boundary, except 65536 characters or elements of a list), values supplied as every basic Go type, lists up to 256 deep, every header field unknown, every control message. Other numbers of values are assumed to behave alike (same loops)."),
"C04": ("lockset analysis at call-out sites", "Every dynamic call that can reach application code is reached with an empty lockset on every path; loggers and log writers are not counted as call-outs."),
}
NA = {
"C62": "a liveness statement over unbounded real time and network behaviour; the structural parts are claimed as C24, C30 and C31.",
}
EXTRA = {}
