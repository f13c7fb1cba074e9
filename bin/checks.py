"""What each check runs."""

KERNEL = "stub: the kernel's stream sockets, epoll, eventfd and timerfd (simulated below the system calls Boost.Asio makes: byte delivery, readiness, partial transfers, EINTR/EAGAIN, resets, end of stream)"
ASIO = "real: Boost.Asio and Boost.Beast (installed headers), compiled with the endpoints under AddressSanitizer and UBSan"
NET_ASSUMES = [
    "The simulated kernel is a faithful subset of Linux TCP sockets and epoll: streams are reliable and ordered until reset or closed.",
    "One io_context thread per node; nbdl endpoints do no locking, so concurrent use of one endpoint is outside the property.",
    "Sampling: a clean batch is evidence over the runs it made, not a proof.",
]

WS_REAL = ["real: nbdl/websocket (endpoints, handshake, framing, masking, close), endpoint_open, endpoint_send_message, endpoint_send_close, promise/run_async machinery", ASIO]
WS_STUB = [KERNEL, "stub: the applications on top (scripted by the seed)"]
RAW_STUB = [KERNEL, "stub: the remote peer (an independent frame and handshake codec driven by the seed)", "stub: the application on top"]

PROM_REAL = ["real: nbdl/promise, run_async, run_async_loop, run_sync, catch, tap, try, hold, hold_lazy, pipe, detail of the same"]
PROM_STUB = ["stub: the asynchronous operations inside the stages (a completion queue the simulator drains in any order)"]
PROM_ASSUMES = ["A stage resolves or rejects its resolver at most once, as the library's contract asks.",
                "Shapes are 192 statically generated sequences (plus hold shapes); behaviour inside a shape is drawn per run.",
                "Sampling: a clean batch is evidence over the runs it made, not a proof."]

NET_RULE = ("One run is one seed: it draws endpoint kinds, workload, socket buffer sizes, segmentation, fault kinds and rates, and then every "
            "scheduling step. Non-trivial: the handshake completed and at least %s. Distinct: by event-log hash.")

CHECKS = {
    "P01": dict(target="ws", plan="duplex:5,peer:2", quick=(12000, 45), thorough=(10**9, 600), real=WS_REAL, stub=WS_STUB, assumes=NET_ASSUMES,
                rule=NET_RULE % "three application messages went through", probes=["ws:messages-delivered", "ws:send-inside-handler", "net:send-buffer-full", "peer:messages"]),
    "P02": dict(target="ws", plan="peer:1", quick=(20000, 45), thorough=(10**9, 600), real=WS_REAL, stub=RAW_STUB, assumes=NET_ASSUMES,
                rule=NET_RULE % "two messages from the scripted peer were checked", probes=["peer:fragmented-message", "peer:control-inside-message", "peer:control-payload", "peer:frames-with-the-response"]),
    "P03": dict(target="ws", plan="hostile:1", quick=(20000, 45), thorough=(10**9, 600), real=WS_REAL, stub=RAW_STUB, assumes=NET_ASSUMES + ["Allocations above 64 MiB fail, so that trusting a claimed length shows itself."],
                rule=NET_RULE % "one mutated frame reached the endpoint", probes=["hostile:must-refuse", "hostile:refused"]),
    "P04": dict(target="ws", plan="duplex:2,peer:2,hostile:1", quick=(14000, 45), thorough=(10**9, 600), real=WS_REAL, stub=WS_STUB + RAW_STUB[1:2], assumes=NET_ASSUMES,
                rule=NET_RULE % "three application messages or one ending event went through", probes=["ws:close-inside-handler", "ws:close-before-start", "peer:close-before-start", "peer:close-payload"]),
    "P05": dict(target="ws", plan="duplex:5,peer:1,hostile:1,hs_server:1,hs_client:1", quick=(14000, 45), thorough=(10**9, 600), real=WS_REAL, stub=WS_STUB + RAW_STUB[1:2], assumes=NET_ASSUMES,
                rule=NET_RULE % "three application messages or one ending event went through", probes=["ws:stop-inside-handler", "ws:released-while-open"]),
    "P06": dict(target="ws", plan="hs_server:4,duplex:1", quick=(20000, 40), thorough=(10**9, 600), real=WS_REAL, stub=RAW_STUB, assumes=NET_ASSUMES,
                rule=NET_RULE % "a complete request (valid or mutated) was judged", probes=[]),
    "P07": dict(target="ws", plan="hs_client:1", quick=(20000, 40), thorough=(10**9, 600), real=WS_REAL, stub=RAW_STUB, assumes=NET_ASSUMES,
                rule=NET_RULE % "a complete response (valid or mutated) was judged", probes=["hs:frames-with-the-response"]),
}
for p, probes in (("P08", ["prom:grouped-stages"]), ("P09", ["prom:nested-sequence"]), ("P10", ["prom:nested-sequence"])):
    CHECKS[p] = dict(target="prom", plan="chains:1", quick=(4000000, 40), thorough=(10**9, 600), real=PROM_REAL, stub=PROM_STUB, assumes=PROM_ASSUMES, probes=probes,
                     rule="One run is one seed: it launches one to six chains of the generated shapes side by side and draws, for every stage, what it passes on, rejects, "
                          "throws or terminates and when, and the order in which pending operations complete. Non-trivial: at least four stages ran. Distinct: by event-log hash.")

NET_HOW = "seeded search over schedules, segmentation and faults of a simulated kernel under real Boost.Asio, judged by "
NET_NOTE = "Sampled executions of the real endpoint code over a simulated kernel; every reported failure is replayed exactly. Trusts the kernel stub and the oracle: "
for p, how in {
    "P01": "the sent/received history and an independent frame decoder on the wire",
    "P02": "the messages an independent encoder produced",
    "P03": "sanitizers, allocation limits and a tolerant reference reading of the stream",
    "P04": "the event history and an independent frame decoder on the wire",
    "P05": "sanitizers, liveness of the endpoint object, socket and heap balance",
    "P06": "an independent handshake parser and accept-token computation",
    "P07": "an independent handshake parser and accept-token computation",
}.items():
    CHECKS[p]["how"] = NET_HOW + how
    CHECKS[p]["note"] = NET_NOTE + how + "."
for p in ("P08", "P09", "P10"):
    CHECKS[p]["how"] = "seeded search over completion orders and outcomes of concurrently pending promise chains, judged by a reference interpreter, lifetime counters and sanitizers"
    CHECKS[p]["note"] = "Sampled executions of the real promise machinery; the shapes are a fixed generated set, behaviour and schedules are drawn. Trusts the interpreter in sim/prom.cpp."

CTX_REAL = ["real: nbdl/context, make_context, map_store, basic_map_store, context_store, echo_producer, message, apply_message, match, apply_foreign_message, producer_init, consumer_init, notify_state_change"]
CTX_STUB = ["stub: the servers behind the producers and the links to them (simulated queues)", "stub: recording consumers and producers, and one listening store"]
CTX_ASSUMES = ["One context of eight paths, with two producers, the echo producer, two consumers and an actor that is both, chosen to hold every kind of store, path and actor the library has.",
               "Sampling: a clean batch is evidence over the runs it made, not a proof."]
for p, probes in (("P11", []), ("P12", []), ("P13", ["ctx:read-goes-upstream", "ctx:read-already-in-progress", "ctx:read-answered-locally", "ctx:read-resolved", "ctx:stale-read-response", "ctx:look-triggers-read"]),
                  ("P14", []), ("P16", ["ctx:operation-while-initialising"]), ("P20", [])):
    CHECKS[p] = dict(target="ctx", plan="context:1", quick=(400000, 40), thorough=(10**9, 600), real=CTX_REAL, stub=CTX_STUB, assumes=CTX_ASSUMES, probes=probes,
                     how="seeded search over operations, nesting, link faults and server crashes around a real context, judged by a reference model of its stores and dispatch",
                     note="Sampled executions of a real context of fixed shape; operations, nesting and faults are drawn. Trusts the model in sim/ctx.cpp.",
                     rule="One run is one seed: it draws the order of actor arguments, operations of users and servers, what happens inside handlers, and what the links lose, "
                          "duplicate and reorder. Non-trivial: the run reached the settling phase. Distinct: by event-log hash.")

CHECKS["P15"] = dict(target="rep", plan="version:1", quick=(250000, 35), thorough=(10**9, 600),
    real=["real: nbdl/local_version, delta, make_delta, apply_delta, message, uid (hash, equality)"],
    stub=["stub: the links between the nodes (ordered queues with delays, losing what is in flight when they break)", "stub: the root that orders all changes"],
    assumes=["Links keep their order; a node that lost its link takes a fresh snapshot from a node with nothing pending and may send its open changes again.",
             "Sampling: a clean batch is evidence over the runs it made, not a proof."],
    probes=["version:confirmed-while-others-pending", "version:foreign-while-pending", "version:all-confirmed", "version:replaced-while-pending", "version:change-sent-again"],
    how="seeded search over changes, message delays, link losses and resynchronisation in a tree of replicas, judged by a reference of what must show and the root's order",
    note="Sampled executions of real local_version stores; links and root are simulated. Trusts the reference in sim/version.cpp.",
    rule="One run is one seed: it draws the tree, the changes, their fields, and the order and loss of every delivery. Non-trivial: the run reached the settling phase. Distinct: by event-log hash.")
CHECKS["P19"] = dict(target="rep", plan="uid:1", quick=(150000, 30), thorough=(10**9, 300),
    real=["real: nbdl/uid (generator, equality, hash)", "real: std::mt19937 and seeding of the standard library"], stub=["stub: std::random_device (words drawn by the seed)"],
    assumes=["Two processes never get the same four words of entropy; any fewer may repeat.", "Sampling: a clean batch is evidence over the runs it made, not a proof."], probes=[],
    how="seeded search over starts, crashes and entropy of identifier-making processes, judged by a set of everything made so far",
    note="Sampled executions of the real generators under simulated entropy.",
    rule="One run is one seed: it draws the processes, the entropy each starts with and who makes identifiers when. Non-trivial: more than 20 identifiers. Distinct: by event-log hash.")

SYS_REAL = ["real: nbdl/context, message, message_api, map_store, context_store, echo_producer, binder/jsoncpp, bind_*, variant, util/base64_*, endpoint_*, websocket/*, promise machinery",
            "real: Boost.Asio 1.83, jsoncpp"]
SYS_STUB = ["stub: sockets, epoll, timers and delivery (sim/kernel.hpp)", "stub: the server's database (a map of which only what was written down survives a crash)", "stub: users and the others who change the database"]
for p, plan, probes in (("P17", "replicas:1", ["sys:reconnected", "sys:forged-refused"]), ("P18", "wire:8,replicas:1", ["wire:refused", "wire:accepted"])):
    CHECKS[p] = dict(target="sys", plan=plan, quick=(12000 if p == "P17" else 40000, 60 if p == "P17" else 45), thorough=(10**9, 900 if p == "P17" else 600), real=SYS_REAL, stub=SYS_STUB, probes=probes,
        assumes=["One application: two kinds of values over two roots and seven keys, one server and one to three clients; a client whose connection ends starts again with an empty context.",
                 "Text members hold UTF-8 without zeros.",
                 "Sampling: a clean batch is evidence over the runs it made, not a proof."],
        how="seeded search over operations, network schedules, broken connections, crashes and altered messages of a whole simulated application, judged by the server's data and an account of what each message says",
        note="Sampled executions of a whole application of real contexts and endpoints over a simulated network. Trusts the kernel stub and the account of messages in sim/sys.hpp.",
        rule="One run is one seed: it draws the clients, their operations, the network's behaviour, crashes and alterations. Non-trivial: more than four messages arrived (replicas) or a message was altered (wire). Distinct: by event-log hash.")

WEB_REAL = ["real: nbdl/webui (dom_manips, renderer, node_renderer, event_receiver, flatten_spec), ui_spec, js.hpp, detail/js_val, match, match_if, match_for_each, get",
            "real: the JavaScript in the library's EM_ASM blocks, run by V8 (node) in the same process"]
WEB_STUB = ["stub: the document (elements, text, fragments, listeners, events, serialisation: sim/web/prelude.js)", "stub: Emscripten (EM_ASM, val, memory views; the C++ runs natively, addresses stand behind 32-bit numbers)", "stub: the user and the stores' contents"]
WEB_ASSUMES = ["The document model serialises and dispatches as browsers do for the node kinds used.", "Templates are a generated set of 40 shapes and the state has one type; contents, changes and events are drawn.", "Sampling: a clean batch is evidence over the runs it made, not a proof."]
for p, probes in (("P21", ["web:several-changes-at-once", "web:spurious-notify"]), ("P22", ["web:acted-in-handler", "web:bubbled", "web:file-chosen"])):
    CHECKS[p] = dict(target="web", plan="page:1", quick=(60000, 45), thorough=(10**9, 600), real=WEB_REAL, stub=WEB_STUB, assumes=WEB_ASSUMES, probes=probes,
        how="seeded search over states, changes, notifications and events of pages in a simulated document, judged by " + ("an independent rendering of the template" if p == "P21" else "an account of who must be called with what, and balances of listeners, values and memory"),
        note="Sampled executions of the real renderer and its real JavaScript over a simulated document. Trusts the document model in sim/web/prelude.js and the rendering in sim/web_page.cpp.",
        rule="One run is one seed: it draws templates, states, changes, events and the order of everything. Non-trivial: the run reached its end with at least four operations. Distinct: by event-log hash.")
WEB_NOTE = "Sampled executions of the real headers and their real JavaScript under a simulated browser. Trusts sim/web/prelude.js and the accounts in the scenario."
WEB_RUN = "One run is one seed: it draws the configuration, every operation, value and event and their order. Non-trivial: the run reached its settling phase. Distinct: by event-log hash."
WEB_EMS = "stub: Emscripten (EM_ASM, val, memory views; the C++ runs natively, addresses stand behind 32-bit numbers)"
WEB_JS = "real: the JavaScript in the library's EM_ASM blocks, run by V8 (node) in the same process"
WEB_SAMPLE = "Sampling: a clean batch is evidence over the runs it made, not a proof."
CHECKS["P23"] = dict(target="web", plan="socket:1", quick=(60000, 45), thorough=(10**9, 600),
    real=["real: nbdl/websocket_api (client_endpoint, endpoint_impl, event_receiver, convert_payload, json_payload), endpoint_open, endpoint_handler, endpoint_send_message, js.hpp, js_val", WEB_JS],
    stub=["stub: the browser's WebSocket and the peer (sim/web/prelude.js, sim/web_sock.cpp)", WEB_EMS],
    assumes=["Sending before the connection is open is not supported (the queue for it is a TODO in the code) and not drawn.", "The stand-in for WebSocket delivers events as browsers do: open, messages while open, error and close.", WEB_SAMPLE],
    probes=["sock:destroyed-in-handler", "sock:destroyed-while-open", "sock:echo", "sock:sent-in-handler"],
    how="seeded search over openings, messages both ways, closings, destructions (also inside handlers) and failures of the endpoints of a simulated browser, judged by an account of what each handler and each socket must see, with freed places poisoned",
    note=WEB_NOTE, rule=WEB_RUN)
CHECKS["P24"] = dict(target="web", plan="vals:1", quick=(30000, 60), thorough=(10**9, 600),
    real=["real: nbdl/js.hpp, detail/js_val, binder/js, bind_sequence, bind_variant, util/base64_*, macros/NBDL_JS_PROMISE, NBDL_JS_TRANSFORM, run_async, run_async_loop, promise machinery", WEB_JS],
    stub=["stub: when JavaScript settles what (the simulation keeps resolve and reject)", WEB_EMS],
    assumes=["Callbacks are called while they live (calling one later is documented as an error).", "Text members hold UTF-8 without zeros.", "Six shapes of chains over the three ways to make a promise of JavaScript.", WEB_SAMPLE],
    probes=["vals:bound", "vals:callback-moved", "vals:resolved", "vals:rejected"],
    how="seeded search over histories of shared values, callbacks, bound data and the order in which pending promises are settled, judged by the JSON JavaScript sees, an independent rendering of the data and an account of each chain",
    note=WEB_NOTE, rule=WEB_RUN)
CHECKS["P25"] = dict(target="web", plan="nav:1", quick=(60000, 45), thorough=(10**9, 600),
    real=["real: nbdl/webui (nav_route, route_map, set_route, event_receiver), context, message, context_store, variant, bind_sequence, js_val", WEB_JS],
    stub=["stub: address bar, history and popstate (sim/web/prelude.js; URLs are resolved by the real WHATWG parser of node)", WEB_EMS],
    assumes=["Texts in routes are not empty, not '.' or '..' and hold no zeros; numbers are positive (the code documents zero as invalid).", "What addresses with a slash at the end, leading zeros, or escapes in names and numbers mean is left open.", "One context at a time follows the address bar.", WEB_SAMPLE],
    probes=["nav:route", "nav:text", "nav:redirect"],
    how="seeded search over addresses, routes, the browser's history and the life of contexts, judged by an independent reading of addresses and an account of the history",
    note=WEB_NOTE, rule=WEB_RUN)
CHECKS["P26"] = dict(target="sql", plan="sql:1", quick=(20000, 60), thorough=(10**9, 600),
    real=["real: nbdl/sql_db (insert, update, select, traits, statement::insert, ::update, ::select), entity, key, mpdef strings", "real: SQLite (the installed static library): parser, transactions, journal and recovery"],
    stub=["stub: the disk, clock and memory of SQLite (a virtual file system, sim/sql.cpp)", "stub: the functions that hand a statement and its values to SQLite (nbdl leaves them to the application)"],
    assumes=["The application runs each insert, update or selection inside transactions and rolls back after an error.", "The disk obeys synchronisation; what was not synchronised is per sector old or new after a loss of power.", "SQLite with a rollback journal (delete, truncate, persist) and synchronous=EXTRA; its own correctness is taken for granted.", "Seventeen shapes of entities; the schema is the one the statements name.", "Sampling: a clean batch is evidence over the runs it made, not a proof."],
    probes=["sql:inserted", "sql:inserted-many", "sql:updated-where", "sql:selected", "sql:selected-none", "sql:failed-commit-held", "sql:power-on", "sql:rolled-back"],
    how="seeded search over entities, histories of insert, update, select, commit and roll back, and failing statements, allocations, disk accesses and power, judged by comparing the whole database and every selection with a hand-written model",
    note="one run is one history on one simulated disk; what is compared after each transaction, failure and start is every row of every table. Trusts SQLite and the model in sim/sql.cpp",
    rule="One run is one seed: it draws the entities, operations, transactions and when disk, power, memory and constraints fail. Non-trivial: more than three entities were stored in the end. Distinct: by event-log hash.")
