#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property, kept here because it is easier to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "Shared state is race free",
  "All mutable state that the receive loop, timer goroutines and API callers share (variable, constant, alarm, event, report, program and handler registries, the open-transaction table, session and callback lists, state-machine states, the current session of a connection) is read and written only while holding the lock that protects it, or through an atomic. No interleaving of host messages, timer expiries and API calls can therefore produce a data race on it.",
  ["schedules", "histories"], "every pair of accesses from any two goroutines, on every path of every exported operation, message handler, timer callback and goroutine body",
  "The tests run few goroutines and no race detector; a race needs two specific accesses to overlap.",
  ["gem/handler.go", "gem/collection_event_handlers.go", "gem/process_programs.go", "hsms/protocol.go", "hsms/connection.go", "session.go", "channel.go", "manager.go", "utils/queue.go", "common/events.go"],
  [("per-registry mutexes of the GEM handler", "gem/handler.go"), ("queueMu/handlerMu/logMu/timer mutexes", "hsms/protocol.go"), ("session maps and close callbacks", "manager.go, session.go")],
  [("GemHandler registries", "equipment/host model", "gem/handler.go"), ("systemQueues", "open transactions", "hsms/protocol.go")],
  ["exported methods of GemHandler and HsmsProtocol", "incoming messages"])

p("C02", "Locks are released on every exit and never re-acquired while held",
  "Whatever path an operation takes - success, validation error, early return - it leaves every internal lock exactly as it found it, and it never waits for a lock that its own goroutine already holds. No sequence of API calls and messages can leave a component permanently locked.",
  ["inputs", "histories"], "every path through every function of the library, interprocedurally",
  "A leaked lock shows only on the particular error path that leaks it, and only when the lock is next wanted; tests exercise few error paths.",
  ["gem/", "hsms/", "common/events.go", "utils/queue.go", "session.go", "channel.go", "manager.go"],
  [("Lock/defer Unlock pairs", "all packages")])

p("C03", "No lock-order inversion",
  "The internal locks of the library are always acquired in one consistent order: there are no two operations of which one takes lock A and then B while the other takes B and then A. Concurrent use of any of its components can therefore not deadlock on internal locks.",
  ["schedules"], "every interleaving of any operations, message handlers, close callbacks and timers",
  "An inversion deadlocks only under one narrow interleaving that no test provokes.",
  ["channel.go", "session.go", "manager.go", "gem/", "hsms/"],
  [("nested acquisitions, e.g. report configuration while reading the variable registries", "gem/collection_event_handlers.go"), ("channel membership vs. session close callbacks", "channel.go, session.go")])

p("C04", "Application callbacks never run under an internal lock",
  "Callbacks supplied by the application - event callbacks, message handlers, value providers, constant validators, remote-command, clock and process-program handlers, session-close callbacks, error callbacks - are invoked with no internal lock held. A callback may therefore call back into the same handler, session, channel or event without deadlocking, and a slow callback does not block unrelated operations.",
  ["programs", "schedules"], "every call site through which application code is entered, on every path and calling context",
  "Existing tests use callbacks that do not re-enter the API.",
  ["gem/", "hsms/protocol.go", "common/events.go", "session.go", "channel.go"],
  [("copy under lock, call after unlock", "gem/status_equipment_handlers.go, gem/handler.go"), ("Event.Fire", "common/events.go"), ("close callbacks", "session.go")])

p("C05", "Dispatching an incoming message never waits for another one",
  "While the receive loop of a connection processes one incoming message (control or data, including every built-in message handler), it never blocks waiting for a reply that the same loop would have to receive, and never sleeps. A request the library sends as a consequence of an incoming message is sent from another goroutine, so no message from the peer can stall the connection until T3/T6 expires.",
  ["inputs", "histories"], "every message type and every built-in handler reachable from the receive loop",
  "Needs the particular message/state combination that triggers a nested request; tests cover few of them and a stall only looks like a slow pass.",
  ["hsms/protocol.go", "hsms/connection.go", "gem/handler.go"],
  [("go func() around SendAndWait", "gem/handler.go"), ("receive loop", "hsms/protocol.go")])

p("C06", "Every transaction is registered before sending and always cleaned up",
  "A request that expects a reply (data or control) obtains a fresh system identifier, is entered in the table of open transactions under that identifier before its first byte is sent, carries that identifier in its header, and is removed from the table on every way out (reply, timeout, send error). A reply can thus never arrive before its waiter exists and no completed or failed transaction leaves an entry behind.",
  ["schedules", "fault_sequences", "histories"], "every path of every operation that awaits a reply, including send failures and timeouts, and every interleaving with the receive loop",
  "The window between send and registration is microseconds and leaks accumulate only over long failure histories.",
  ["hsms/protocol.go", "hsms/connection.go", "utils/queue.go"],
  [("createQueue/removeQueue", "hsms/protocol.go"), ("SendAndWait, select/deselect/linktest requests", "hsms/protocol.go, hsms/connection.go")],
  [("systemQueues", "open transactions keyed by system bytes", "hsms/protocol.go")])

p("C07", "Replies go to the waiting transaction, primaries to handlers",
  "An incoming data message is handed to the caller waiting on the open transaction with the same system bytes only if it is a secondary (even function) message; a primary (odd function) message always goes to the registered handler, else the default handler, else is answered with a stream 9 error. Every reply the library sends to an incoming message carries that message's system bytes and the configured session id.",
  ["inputs", "histories", "schedules"], "every incoming data message and every set of open transactions",
  "Needs a peer whose primary collides with an identifier the library is waiting on; both sides count independently so it happens in long runs only.",
  ["hsms/protocol.go", "hsms/protocol_s9_helpers.go"],
  [("receive loop dispatch", "hsms/protocol.go"), ("invokeHandler", "hsms/protocol.go")])

p("C08", "Data messages are exchanged only while SELECTED",
  "The library transmits a SECS-II data message, and delivers a received one to a handler or a waiting caller, only after checking that the HSMS connection is in the SELECTED state; in any other state sends fail with an error and received data messages are discarded.",
  ["histories", "schedules"], "every path that transmits or delivers a data message, in every connection state",
  "Tests send only on selected connections plus one negative case; the ungated paths are the rare ones (timeouts, error replies).",
  ["hsms/protocol.go", "hsms/protocol_s9_helpers.go"],
  [("ensureReady", "hsms/protocol.go"), ("state test in the receive loop", "hsms/protocol.go")])

p("C09", "HSMS control requests get exactly the prescribed answer and transition",
  "On a connected session a select request is answered by select.rsp (status accepted, then SELECTED; status denied and the connection closed on a session-id mismatch), a deselect request by deselect.rsp and NOT-SELECTED, a linktest request by linktest.rsp with no state change, a separate request by no answer and a disconnect; before the connection is up a select, deselect or linktest request is answered by reject.req. A select response changes the state to SELECTED only if its status is accepted, otherwise the connection is dropped, and a deselect response changes the state only if its status is accepted; responses never trigger another response.",
  ["inputs", "histories"], "every control message type, status, session id and connection state",
  "Tests sample the happy path with the library on both ends.",
  ["hsms/protocol.go", "hsms/connection.go", "hsms/codes.go"],
  [("handleHsmsRequests", "hsms/protocol.go")])

p("C10", "The HSMS connection state machine is the E37 one",
  "The connection starts NOT-CONNECTED; connect leads to NOT-SELECTED, select from NOT-SELECTED to SELECTED, deselect from SELECTED to NOT-SELECTED, T7 expiry from NOT-SELECTED to NOT-CONNECTED and disconnect from either connected state to NOT-CONNECTED; no other transition exists. Entering NOT-SELECTED arms T7, entering SELECTED or NOT-CONNECTED disarms it, entering NOT-CONNECTED stops the link test and clears the connected flag, and when the receive loop of a connection ends the machine is in NOT-CONNECTED.",
  ["histories"], "every sequence of connection events",
  "Tests walk one or two event sequences; the wiring between states and actions is by string names the compiler cannot check.",
  ["hsms/connectionStateMachine.go", "hsms/protocol.go"],
  [("fsm event table", "hsms/connectionStateMachine.go"), ("state callbacks", "hsms/protocol.go")])

p("C11", "HSMS message headers follow the E37 layout",
  "Every HSMS control message the library builds has a 4-byte length prefix of 10, the session id of the request it answers (0xFFFF for link tests), PType 0, the SType assigned to its kind by SEMI E37 (1-7, 9) and, for responses and rejects, the system bytes (and status or reason code) of the message it answers, and it can be built for every received message; data messages carry the wait bit as the top bit of the stream byte and SType 0. The kind the decoder assigns to a header is the one those codes stand for.",
  ["inputs"], "every control message kind, status, session id, system bytes; every incoming header",
  "Encoder and decoder are tested against samples of some kinds, and the rarely used ones (reject) not at all.",
  ["lib-secs2-hsms-go/pkg/ast/hsms.go", "lib-secs2-hsms-go/pkg/ast/ast.go", "lib-secs2-hsms-go/pkg/parser/hsms/parser.go"],
  [("control message builders", "lib-secs2-hsms-go/pkg/ast/hsms.go"), ("header decoding", "lib-secs2-hsms-go/pkg/parser/hsms/parser.go")])

p("C12", "Item encoder and decoder use the same format codes and widths",
  "For every SECS-II item type (list, binary, boolean, ASCII, I1-I8, U1-U8, F4, F8) the format code written by the encoder is the one SEMI E5 assigns, the decoder maps that same code back to the same type with the same element width, integers and floats are written and read most significant byte first with the declared width, and the item length is written and read as 1 to 3 big-endian bytes chosen by the payload size.",
  ["inputs"], "every item type, width and length class",
  "Tests sample short items; codes, widths and length classes used by no test can silently disagree.",
  ["lib-secs2-hsms-go/pkg/ast/", "lib-secs2-hsms-go/pkg/parser/hsms/parser.go"],
  [("getHeaderBytes and ToBytes", "lib-secs2-hsms-go/pkg/ast/interface.go"), ("format code dispatch", "lib-secs2-hsms-go/pkg/parser/hsms/parser.go")])

p("C13", "Decoding arbitrary bytes never crashes and stays inside the frame",
  "The HSMS/SECS-II decoder and the SML parser return a result or an error for every input: no panic leaves them, an input whose processing panicked is reported as an error rather than returned as a message, and nesting in the input does not grow the call stack without bound. What the binary decoder returns depends on no byte outside the message it was given.",
  ["inputs"], "every byte string offered to the decoders",
  "The input space is unbounded; tests sample well-formed messages and a few malformed ones.",
  ["lib-secs2-hsms-go/pkg/parser/hsms/parser.go", "lib-secs2-hsms-go/pkg/parser/sml/parser.go", "lib-secs2-hsms-go/pkg/parser/sml/lexer.go", "codec/secs2.go"],
  [("recover at the decoder entry points", "lib-secs2-hsms-go/pkg/parser/"), ("length check against the input", "lib-secs2-hsms-go/pkg/parser/hsms/parser.go")])

p("C14", "Peers cannot make the receiver allocate without bound",
  "A length announced by the peer is compared with an upper bound the peer does not choose before memory of that size is allocated or a slice of that size is taken, in every stream codec: the HSMS codec and the fixed-length codec refuse frames above their bound with an error, the HSMS codec refuses frames shorter than a message header, and the fixed-length codec refuses outgoing frames above its send limit. The message decoder allocates no more elements than the rest of the message can hold.",
  ["inputs"], "every length value a peer can put on the wire",
  "Tests only send small frames.",
  ["codec/secs2.go", "codec/fixlen.go"],
  [("length check before allocation", "codec/fixlen.go, codec/secs2.go")])

p("C15", "Messages and items are immutable once built",
  "After construction no operation changes a SECS-II item or message: no method writes to its receiver or to data reachable from it, accessors hand out copies rather than internal slices or maps, constructors copy the slices and maps they are given, and the SetX/FillVariables operations return a modified copy and leave the original unchanged. Messages can therefore be shared between goroutines and re-sent.",
  ["histories", "programs"], "every method of every item and message type and every aliasing client",
  "Aliasing shows only when some client later mutates what it was given.",
  ["lib-secs2-hsms-go/pkg/ast/"],
  [("copying factories and SetX methods", "lib-secs2-hsms-go/pkg/ast/")])

p("C16", "Item and message factories validate everything they build",
  "Every item and message created through the package's factories satisfies its documented invariants: values are within the range of the declared type and width whatever Go type they are supplied as, the element count fits the 3-byte item length, names and variable names are well-formed and unique, stream is 0-127, function 0-255, and a reply never has its wait bit set; an input that violates one of these is rejected, never truncated or wrapped. Every message has exactly four system bytes whatever slice it was given.",
  ["inputs"], "every value of every accepted Go type, every width",
  "The tests sample values per Go type; the missing check is always on the type nobody sampled.",
  ["lib-secs2-hsms-go/pkg/ast/"],
  [("checkRep", "lib-secs2-hsms-go/pkg/ast/"), ("range checks in factories", "lib-secs2-hsms-go/pkg/ast/int.go, uint.go, binary.go, float.go")])

p("C17", "The SML parser reports every error it detects",
  "When the SML parser fails to interpret a literal, size or header it records an error for it: no conversion or lookup error is discarded and replaced by a default value, and whenever errors are reported no partially understood message is returned as valid.",
  ["inputs"], "every SML text",
  "Tests sample valid text plus some error cases; an unreported literal error yields a silently wrong message.",
  ["lib-secs2-hsms-go/pkg/parser/sml/parser.go", "lib-secs2-hsms-go/pkg/parser/sml/lexer.go"],
  [("errorf on failed conversions", "lib-secs2-hsms-go/pkg/parser/sml/parser.go")])

p("C18", "The library is silent by default",
  "Library code writes nothing to standard output or standard error, never uses the process-global logger and never terminates the process, except through a logger or writer the application configured or asked for (a standard logger made without a writer, a zap logger configured for the console, and logging enabled without a writer use the standard streams). Without configuration the loggers are silent and message logging is off.",
  ["inputs", "programs"], "every call path from every exported function",
  "Nothing in the tests looks at the process's output; stray debug prints sit on error paths.",
  ["codec/secs2.go", "hsms/connectionStateMachine.go", "lib-secs2-hsms-go/pkg/parser/sml/parser.go", "common/logger.go"],
  [("NopLogger default", "common/logger.go"), ("ConfigureLogging", "hsms/protocol.go")])

p("C19", "Every built-in handler answers with the matching well-formed secondary",
  "For every stream/function the GEM layer registers a handler for, each non-nil reply the handler can return has the same stream, the next (even) function and no wait bit, and for a request that SEMI requires to be answered (S1F1, S1F3, S1F11, S1F13, S1F15, S1F17, S2F13-S2F41, S5F1, S5F3, S5F5, S5F7, S6F11, S6F15, S7F3, S7F5) the handler never returns without one. Every primary it sends has an odd function.",
  ["inputs", "histories"], "every registered handler, every return path, every message the library sends",
  "Error-path replies are rarely exercised; the reply's function code is a literal repeated in each builder.",
  ["gem/handler.go", "gem/status_equipment_handlers.go", "gem/status_equipment_messages.go", "gem/alarm_handlers.go", "gem/collection_event_handlers.go", "gem/process_program_handlers.go", "gem/clock_handlers.go", "gem/remote_command.go"],
  [("handler registration", "gem/handler.go"), ("reply builders", "gem/status_equipment_messages.go")])

p("C20", "Each role serves exactly the messages it must serve",
  "An equipment handler serves S1F1, S1F3, S1F11, S1F13, S1F14, S1F15, S1F17, S2F13, S2F15, S2F17, S2F29, S2F31, S2F33, S2F35, S2F37, S2F41, S5F3, S5F5, S5F7, S6F15, S7F3 and S7F5, a host handler serves S1F1, S1F13, S1F14, S5F1 and S6F11; each is served by its own operation, is registered under its own stream and function for that role as soon as the handler exists, and every request the library can send is served by the opposite role.",
  ["configurations", "histories"], "both roles, all messages either role can send",
  "Tests exercise messages one by one with one role each.",
  ["gem/handler.go", "gem/status_equipment_client.go", "gem/alarm_client.go"],
  [("registration in NewGemHandler", "gem/handler.go")])

p("C21", "Rejected configuration requests change nothing",
  "Each host request that changes equipment configuration (new constants S2F15, report definitions S2F33, event links S2F35, event enabling S2F37, alarm enabling S5F3) is applied completely or not at all: whenever the reply is a refusal, or the request is rejected as malformed, none of the entries it lists has been applied (failures inside an application's own updater excepted), and an acceptance means that all of them have.",
  ["inputs", "histories"], "every request content, including those whose only bad entry is the last one",
  "Tests use single-entry or all-good/all-bad requests.",
  ["gem/status_equipment_handlers.go", "gem/collection_event_handlers.go", "gem/alarm_handlers.go"],
  [("validate-all-then-apply loops", "gem/")])

p("C22", "GEM operations are gated by role and communication state",
  "Every exported GEM operation that sends a message, other than the S1F13 that establishes communication, does so only on a handler of the role that owns the operation (otherwise it returns an error, ErrOperationNotSupported unless its arguments are refused first) and only in the COMMUNICATING state (otherwise likewise ErrNotCommunicating); RegisterStatusVariable, RegisterDataVariable, RegisterEquipmentConstant, RegisterCollectionEvent and RegisterProcessProgram succeed only on equipment handlers.",
  ["histories", "configurations"], "every exported operation in every role and communication state",
  "There are some thirty operations times two roles times five states; tests sample a few.",
  ["gem/status_equipment_client.go", "gem/alarm_client.go", "gem/handler.go", "gem/alarm.go", "gem/collection_event_handlers.go", "gem/process_program_handlers.go"],
  [("ensureCommunicating and deviceType tests", "gem/")])

p("C23", "The control state model follows SEMI E30",
  "The control state machine moves only along E30's transitions: operator online from EQUIPMENT_OFFLINE to ATTEMPT_ONLINE, attempt failure to EQUIPMENT_OFFLINE or HOST_OFFLINE, attempt success to ONLINE/LOCAL or ONLINE/REMOTE by the selected mode, operator offline from any ONLINE state to EQUIPMENT_OFFLINE, host offline from any ONLINE state to HOST_OFFLINE, host online from HOST_OFFLINE back to the selected ONLINE state, and local/remote switches inside ONLINE; any other request returns ErrInvalidControlTransition, or nil when already there, and leaves state and mode unchanged. The machine starts in the configured initial state and online mode (ATTEMPT_ONLINE and REMOTE by default), an online attempt succeeds only after an S1F2 was received for its S1F1, and S1F15/S1F17 are answered with the acknowledge code of the transition that took place.",
  ["histories"], "every state, online mode and request",
  "The table has 9 states x 2 modes x 9 requests; tests check about a dozen cells.",
  ["gem/control_state_machine.go", "gem/handler.go"],
  [("transition methods", "gem/control_state_machine.go"), ("onS1F15/onS1F17", "gem/handler.go")],
  [("state", "control state", "gem/control_state_machine.go"), ("onlineMode", "LOCAL/REMOTE preference", "gem/control_state_machine.go")])

p("C24", "COMMUNICATING is entered only after an accepted S1F13 exchange",
  "The communication state becomes COMMUNICATING only when the peer's S1F14 carries COMMACK 0 or when an S1F13 from the peer is answered with COMMACK 0; a denied, malformed, missing or timed-out answer never makes it COMMUNICATING, and on an enabled host each of those arms a timer that sends S1F13 again. When the connection monitor of an enabled handler finds the connection gone, and when the handler is disabled, the state becomes NOT COMMUNICATING, and every transition to COMMUNICATING wakes all callers waiting for it.",
  ["histories", "fault_sequences", "schedules"], "every handshake outcome and order of events",
  "Tests run the successful handshake and one denial.",
  ["gem/handler.go", "gem/communication_state.go"],
  [("initiateHandshake/initiateEstablishCommunication", "gem/handler.go"), ("readCommAck", "gem/handler.go")],
  [("state", "communication state", "gem/communication_state.go")])

p("C25", "Stream 9 errors are sent exactly when prescribed",
  "An unhandled primary (odd function) is answered with S9F3 if its stream is not recognised and with S9F5 otherwise, a transaction that waits out T3 produces one S9F9 whose SHEAD is the header of the request before the caller gets the timeout error, and nothing received on stream 9 ever produces a stream 9 message. Stream 9 messages are sent without wait bit and every sent one has the function number its name says.",
  ["inputs", "fault_sequences"], "every unhandled stream/function and every timeout",
  "Tests sample one unknown stream and one unknown function.",
  ["hsms/protocol_s9_helpers.go", "hsms/error_messages.go", "hsms/protocol.go"],
  [("sendS9ErrorForUnrecognized, sendS9F9TransactionTimeout", "hsms/protocol_s9_helpers.go")])

p("C26", "Alarm reporting honours enablement and the ALCD/ALED bit layout",
  "An S5F1 is sent only for a registered alarm that is enabled; the set flag travels as the top bit of ALCD, in the sender's encoding and in the receiver's decoding alike, in S5F1, S5F6 and S5F8; an S5F3 enables the alarms it lists exactly when the top bit of ALED is set and answers non-zero for an unknown alarm id; S5F6 lists every registered alarm and S5F8 exactly the enabled ones; RaiseAlarm and ClearAlarm record the flag whether or not the alarm is enabled, and enabling an alarm leaves its set flag alone.",
  ["inputs", "histories"], "every alarm code, enable history and request",
  "Tests sample one or two codes.",
  ["gem/alarm.go", "gem/alarm_handlers.go", "gem/alarm_client.go"],
  [("buildS5F1/parseAlarmMessage", "gem/alarm.go"), ("onS5F3/onS5F5/onS5F7", "gem/alarm_handlers.go")])

p("C27", "No message from the peer can crash the process",
  "Whatever message arrives - any type, wrong item formats, wrong counts, out-of-range identifiers, or one that arrives while the connection is being torn down - processing it cannot panic: types of received items are tested before use, positions are checked against the actual size, a missing session is an error rather than a nil dereference, and replies are only built from values the message factories accept.",
  ["inputs", "schedules"], "every message, handler and connection state",
  "Tests send well-formed messages; the receive loop has no recovery, so one bad message kills the process.",
  ["gem/", "hsms/protocol.go", "hsms/connection.go"],
  [("comma-ok assertions and size checks in parse functions", "gem/"), ("nil-session check", "hsms/connection.go")])

p("C28", "Connections and sessions are always closed, once",
  "Every network connection, listener, codec and session the library opens or accepts ends up owned by the object it hands out, or is closed before the operation returns an error; whatever the HSMS layer opens for itself (its server, the session it dials, the session its handler is given) is closed by the time the operation that obtained it ends. A session that fails to send or receive closes itself; closing runs its effects (send queue close, codec close, close callbacks, deregistration) exactly once however many goroutines close it, and nothing is ever sent on a send queue after it has been closed.",
  ["schedules", "fault_sequences"], "every error path and every interleaving of Send, Receive and Close",
  "Leaks and double closes need a fault at one particular point or two racing closers.",
  ["api.go", "server.go", "session.go", "manager.go", "hsms/protocol.go"],
  [("CompareAndSwap close flag", "session.go"), ("sendMutex around queue close", "session.go"), ("close on codec failure", "server.go, api.go")])

p("C29", "A delivered reply always wakes its waiter",
  "A wait on a reply queue never lasts longer than the time-out it was given and never reports a time-out for a reply that was delivered before it: delivery adds the reply first and then leaves a wake-up that cannot be lost (and that never blocks the deliverer), whatever the relative order of the delivery and the start of the wait, and the queue is looked at after the last wait before a time-out is reported. Whoever waits for the reply to a data message waits for the configured T3, for the response to a control message the configured T6, and the value configured is the value read back. (One waiter per queue.)",
  ["schedules"], "every interleaving of Put and Get",
  "The lost wake-up window is a few instructions wide.",
  ["utils/queue.go", "hsms/protocol.go", "hsms/connection.go", "gem/handler.go"],
  [("Deque Put/Get", "utils/queue.go"), ("T3/T6 arguments of Get", "hsms/protocol.go, hsms/connection.go")])

p("C30", "Timers never outlive what they guard",
  "Every timer and ticker the library makes is stopped or spent on every path, or kept in a field from which it is stopped before it is replaced or forgotten; a change of the GEM communication state stops the timers of the state that is left. A ticker loop (link test, communication monitor) has a stop signal of its own that ends it, is not started for a connection or handler that has already ended, and an older loop's signal is given before it is replaced, so at most one loop per instance runs on. The function of a timer that fires late does nothing before it has seen that the state the timer was armed in still holds, or the state machine has accepted its event.",
  ["schedules", "histories"], "every order of state changes and timer expiries, and every path of the functions that make, keep, stop and receive timers",
  "A stale timer fires seconds later, after the test is over, and only if two events come in a particular order.",
  ["hsms/protocol.go", "gem/communication_state.go", "gem/handler.go"],
  [("startT7Timer/stopT7Timer, startLinktestTimer/stopLinktestTimer", "hsms/protocol.go"), ("setStateWithWaitCRA/WaitDelay", "gem/communication_state.go"), ("monitorLoop", "gem/handler.go")])

p("C31", "At most one connection manager runs, and only while enabled",
  "At any time at most one connection manager (the goroutine that dials or listens) exists per protocol instance: it is started only by the winner of an atomic claim, only for an instance seen enabled, and only the manager itself gives the claim back, when it is finished. Connections are opened by the manager only, each attempt after the instance was seen enabled since the last wait or connection, and the manager ends only because the instance was disabled, auto-reconnect is off after a failure, or the maximum was exceeded. A failed active attempt is retried only if auto-reconnect is on and the failures since the last success do not exceed the configured maximum (0: unlimited), after a delay never above the configured maximum; a successful connection resets the count. The reconnect settings read back as they were set.",
  ["schedules", "histories", "configurations"], "every sequence of enable, disable, connect failure and disconnect events and every path through the manager",
  "Tests enable and disable once; duplicates need a disconnect racing an enable, and the limits need long runs of failures.",
  ["hsms/protocol.go", "hsms/reconnection.go", "hsms/timeouts.go"],
  [("connectThreadRunning compare-and-swap", "hsms/protocol.go"), ("calculateBackoffDelay", "hsms/reconnection.go")])

p("C32", "Frames are written and read by one goroutine at a time",
  "A session hands each message to its codec as one undivided operation: codec writes of a session never overlap with one another, nor codec reads with one another, whichever goroutines send; a codec writes each HSMS frame with a single write; and message-log entries are written undivided and one at a time.",
  ["schedules"], "any number of goroutines sending, replying and logging concurrently",
  "Interleaved frames need two sends to overlap inside one write.",
  ["session.go", "codec/secs2.go", "hsms/protocol.go"],
  [("sendMutex/recvMutex", "session.go"), ("logWriteMu", "hsms/protocol.go")])

p("C33", "Event reports are sent only for enabled, linked, defined events",
  "A collection event is reported to the host only if its CEID is defined, is linked to at least one existing report and is enabled at that time, each existing linked report is listed once, in the order of the links, with one entry per defined variable (its value, or an empty item), and clearing or deleting a report also removes it from every event that used it. An accepted S2F33 defines reports of existing variables only, an accepted S2F35 links defined events to existing reports only, and an accepted S2F37 sets the enabled flag of exactly the events it names (all linked events when it names none).",
  ["histories"], "every history of definition, link, enable and trigger requests",
  "Tests run one define-link-enable-trigger history.",
  ["gem/collection_event_handlers.go", "gem/collection_events.go"],
  [("buildCollectionEventPayload", "gem/collection_event_handlers.go"), ("removeReportUnlocked", "gem/collection_event_handlers.go")])

p("C34", "Equipment constants change only through validated writes",
  "A host can change an equipment constant only if the constant exists and the new value passes its validator; otherwise S2F16 reports a refusal and no constant changes. Every value acknowledged as accepted has been passed to the constant's own updater and is stored unless the application provides the value itself; S2F13 answers each identifier, in order, with the value of that constant, or an empty item if it is unknown.",
  ["inputs", "histories"], "every S2F15 content and every registered constant",
  "Tests sample one valid and one unknown constant.",
  ["gem/equipment_constants.go", "gem/status_equipment_handlers.go"],
  [("applyEquipmentConstantUpdates", "gem/status_equipment_handlers.go"), ("EquipmentConstant update", "gem/equipment_constants.go")])

p("C35", "Remote commands are acknowledged truthfully",
  "A remote command is acknowledged as accepted (HCACK 0) only if the application's handler ran for it and returned neither an error nor a refusal code; a request without a readable command, a missing handler and handler errors are answered with a non-zero HCACK, and the handler is called at most once, with the command and the well-formed parameters received. The code the host-side call returns is the one received (invalid command for a code E30 does not define), and a reply without one is an error.",
  ["inputs", "histories"], "every S2F41 content and handler outcome",
  "Tests sample an accepted command.",
  ["gem/handler.go", "gem/remote_command.go"],
  [("onS2F41", "gem/handler.go"), ("parseRemoteCommandAck", "gem/remote_command.go")])

p("C36", "Process programs are stored and served truthfully",
  "An uploaded process program is acknowledged as accepted (ACKC7 0) only if the application's upload handler accepted it or it was put in the store; a malformed upload is answered non-zero and stored nowhere; a stored body is returned only for the identifier it was stored under, and an unknown identifier yields an empty, refused reply rather than another program. The host-side operations return the code and body received, and an error when there is none.",
  ["inputs", "histories"], "every S7F3/S7F5 history",
  "Tests sample one upload and one download.",
  ["gem/process_programs.go", "gem/process_program_handlers.go"],
  [("onS7F3/onS7F5", "gem/process_program_handlers.go"), ("processProgramStore", "gem/process_programs.go")])

p("C37", "Failures of a send or reply are reported to the caller",
  "An exported operation that sends a message before it returns (the sends of the HSMS layer, sessions and codecs; the requests of a host; alarm reports) returns a non-nil error whenever a step of the send fails, the reply times out, or the reply lacks a value the operation returns (acknowledge code, identifiers, the list asked for) in the form of the message's definition; none of these is discarded and reported as success, and success is not reported without the message having been handed on. (Collection events are sent after TriggerCollectionEvent returned; descriptive texts of a reply and the parameter acknowledges of a remote command may be absent.)",
  ["fault_sequences", "inputs"], "every exported sending operation and every failure point",
  "Fault paths are mostly untested.",
  ["hsms/protocol.go", "hsms/connection.go", "gem/status_equipment_client.go", "gem/alarm_client.go", "codec/", "session.go"],
  [("error returns", "gem/status_equipment_client.go")])

p("C38", "Message logging obeys its configuration",
  "Nothing is written to a message log while logging is disabled or there is no writer; control messages are logged only if included and not in the excluded set (compared in lower case), SML text and binary dumps appear only in the modes that ask for them, what is logged is one entry, and each data message that is sent or received is offered to the log exactly once, the direction named for received messages being another than the one for sent messages. The configuration given to ConfigureLogging (and through the options of a GEM handler) is the one consulted.",
  ["configurations", "histories"], "every logging configuration and every send/receive path",
  "Tests sample a few configurations on one message.",
  ["hsms/protocol.go", "hsms/protocol_s9_helpers.go", "gem/config.go"],
  [("logDataMessage/logControlMessage", "hsms/protocol.go")])

p("C60", "Encode/decode round trip preserves every value",
  "Decoding the encoding of any constructible message yields a message equal in stream, function, wait bit, session id, system bytes, structure and every item value (F4 values in single precision, lists as deep as the decoder accepts); control messages come back with all their header bytes.",
  ["inputs"], "every constructible message",
  "The value space is unbounded.", ["lib-secs2-hsms-go/pkg/ast/", "lib-secs2-hsms-go/pkg/parser/hsms/parser.go"], [("ToBytes/Parse", "lib-secs2-hsms-go/pkg/")])
p("C61", "SML text round trip preserves every message",
  "Parsing the SML rendering of any data message without unfilled variables yields exactly one message, without errors, that is equal in stream, function, wait bit, direction, name, structure and every item value. Excepted are NaN floats and names that are themselves SML header syntax (for example starting with W, H->E, '.', '<' or '//').",
  ["inputs"], "every data message without variables", "The value space is unbounded; tests sample a few literals.",
  ["lib-secs2-hsms-go/pkg/ast/", "lib-secs2-hsms-go/pkg/parser/sml/"], [("String methods", "lib-secs2-hsms-go/pkg/ast/"), ("Parse", "lib-secs2-hsms-go/pkg/parser/sml/parser.go")])
p("C64", "The clock: S2F18 tells the provider's time, S2F31 hands over the requested one",
  "S2F18 and GetEquipmentTime tell the time that the configured TimeProvider returns (the system time if it is nil), in the provider's own zone, as YYYYMMDDhhmmss and two digits. An S2F31 whose body is an ASCII item of at least 14 characters that say a valid time hands the ClockSyncHandler, exactly once, the time that the first 14 characters say (in UTC), and S2F32 carries the code the handler returned; every other S2F31, a handler error and a missing handler are answered with a TIACK other than 0, without a call in the case of a malformed request. SetTimeProvider and SetClockSyncHandler (nil included) take effect for the following requests. On the host, SetDateTime sends the text it is given and returns the reply's TIACK; RequestDateTime returns the text of S2F18, and an error for any other reply.",
  ["inputs", "configurations"], "every time value, text, provider and handler", "Times, texts and callbacks are unbounded; tests use one time and one handler.",
  ["gem/clock.go", "gem/clock_handlers.go", "gem/status_equipment_client.go"], [("ClockManager", "gem/clock.go"), ("onS2F17, onS2F31", "gem/clock_handlers.go"), ("RequestDateTime, SetDateTime", "gem/status_equipment_client.go")])
p("C63", "Each timer is armed with the time-out configured for it",
  "Whenever a timer is armed, its duration is the setting it stands for, in seconds, as configured when it is armed: the NOT-SELECTED timer T7, the link test ticker the link-test interval, the pause before connecting again T5 (after a failed attempt the back-off of C31), the WAIT CRA timer T3 (45 s if that is not positive) and the WAIT DELAY timer the configured establish-communication wait. After a connection the next one is not attempted without that pause. With a positive T8 every receive has a read deadline of T8 of its own, which bounds gaps inside a message and not the time without a message. A T7, link-test interval or T8 that is not positive disables that timer, a positive one never does. WaitForCommunicating and DialTimeout wait as long as their argument says. (Reply waits: C29. That timers fire on time is assumed.)",
  ["configurations", "schedules"], "every value of every setting", "Tests use a few short settings and cannot tell 60 s from 61; the settings are unbounded.",
  ["hsms/protocol.go", "hsms/SecsTimeout.go", "gem/handler.go", "api.go"], [("startT7Timer, startLinktestTimer, startConnectThread, OnConnectionEstablishedAndStartReceiver", "hsms/protocol.go"), ("initiateHandshake, scheduleRetry, WaitForCommunicating", "gem/handler.go")])
p("C65", "Status variables and constants are reported, named and requested truthfully",
  "S1F4 and S2F14 answer each requested identifier, in order, with the current value of what is registered under it (what its provider returns, else the stored value, else the constant's default, else an empty item) and an unknown one with an empty item; S1F12 and S2F30 with its id, name and unit (and the constant's minimum, maximum and default, empty items where there are none), an unknown identifier with empty texts; an empty request is answered with everything registered, in the order of registration. Registering a second variable or constant under a taken id is refused and changes nothing. On the host, RequestStatusVariables, RequestStatusVariableInfo, RequestEquipmentConstants and RequestEquipmentConstantInfo send the identifiers they are given, in order, and return what the reply says, in order: each value with the identifier it was requested by, each description with the id, name, unit and limits of its entry; a reply of another form or length is an error.",
  ["inputs", "histories"], "every request, every reply and every set of registered variables and constants", "Registries, requests, values and providers are unbounded; tests use two variables.",
  ["gem/status_variables.go", "gem/equipment_constants.go", "gem/status_equipment_handlers.go", "gem/status_equipment_client.go", "gem/status_equipment_messages.go"], [("onS1F3, onS1F11, onS2F13, onS2F29", "gem/status_equipment_handlers.go"), ("RequestStatusVariables ... RequestEquipmentConstantInfo", "gem/status_equipment_client.go")])
p("C66", "The host's requests say what they were asked; event reports are read as sent",
  "DefineReports, LinkEventReports, EnableEventReports, SendEquipmentConstantValues, RequestCollectionEventReport, UploadProcessProgram, RequestProcessProgram and SendRemoteCommand send exactly one request, the one they stand for (S2F33, S2F35, S2F37, S2F15, S6F15, S7F3, S7F5, S2F41), with exactly the identifiers, flags, values and texts they are given, each list with its own members, repeated and empty ones included, in order; those that return an acknowledge code return the one the reply carries. An event report, the S6F16 of a request as well as an S6F11, is given to the application with the data id, the event id and, in order, every report of the message with its id and all its items, empty reports and nested lists included. A well-formed S6F11 is acknowledged with 0 and handed over once, a malformed one (short, no list of reports, an entry or its values of another form) with another code and not at all.",
  ["inputs"], "every set of definitions, links, events, updates, parameters and reports", "Identifiers, lists and replies are unbounded; tests use one of each.",
  ["gem/status_equipment_client.go", "gem/status_equipment_messages.go", "gem/collection_event_handlers.go", "gem/remote_command.go", "gem/handler.go"], [("DefineReports ... SendEquipmentConstantValues", "gem/status_equipment_client.go"), ("onS6F11", "gem/collection_event_handlers.go"), ("buildS2F33 ... buildS7F5", "gem/status_equipment_messages.go")])
# --- properties this technique cannot decide here (listed under not_applicable) ---
p("C62", "Two enabled peers eventually communicate",
  "If the network is up and both peers stay enabled, host and equipment reach COMMUNICATING within a bounded time after every disconnection.",
  ["schedules", "fault_sequences"], "every schedule and fault history",
  "Liveness over real time.", ["hsms/protocol.go", "gem/handler.go"], [("reconnect and handshake retry", "hsms/, gem/")])


with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
