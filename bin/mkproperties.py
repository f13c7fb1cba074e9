import json, os
W="include/nbdl/websocket/"
D=W+"detail/"
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
L=[
P("P01","WebSocket messages arrive exactly once, in order and intact",
 "Every message an application hands to an open WebSocket endpoint reaches the peer's application exactly once, in the order of sending and byte for byte, when the connection stays up. When the connection closes or fails, what the peer received is a prefix of what was sent. Each message goes onto the wire as one well-formed sequence of frames: masked from a client, unmasked from a server, the first frame marked text or binary as the endpoint was opened, the rest continuations, only the last one final.",
 ["schedules","inputs","fault_sequences"],"all interleavings of sends (also from inside handlers and before the previous write finished), message sizes including empty ones and multiples of the frame size, transport segmentation, short reads and writes, full buffers, resets",
 "The tests exchange one or two short messages over a real loopback socket with one lucky segmentation; frame boundaries, queued sends under a full buffer and partial transfers are never met.",
 [D+"message_sender.hpp",D+"message_reader.hpp",D+"endpoint_impl.hpp","include/nbdl/endpoint_send_message.hpp"],
 [("fragmentation into frames",D+"message_sender.hpp"),("send queue, one write in flight",D+"endpoint_impl.hpp"),("frame parsing and assembly",D+"message_reader.hpp")],
 [("queue","messages waiting for the write in flight",D+"endpoint_impl.hpp")],["on_message events of both applications","bytes written to the socket"]),
P("P02","An endpoint understands every conforming peer",
 "An endpoint that is reading delivers exactly the messages a conforming peer sends, in order and with their exact contents, however the peer splits them into frames, whichever length encodings and masking keys it uses, wherever it inserts ping and pong frames, and however the bytes are segmented, including frames that arrive together with the handshake. It reports no error and no bad request to its application as long as the peer conforms and stays.",
 ["inputs","schedules","histories"],"all conforming frame sequences (fragment sizes, 7/16/64-bit lengths, masks, control frames between fragments, with payloads) and all segmentations of the byte stream",
 "The tests' only peer is nbdl's own sender or one recorded exchange; it never fragments differently, never sends a ping, a 64-bit length or two masked fragments.",
 [D+"message_reader.hpp",D+"endpoint_impl.hpp",D+"parse_handshake_response.hpp",D+"parse_handshake_request.hpp"],
 [("frame header, length and mask parsing",D+"message_reader.hpp"),("unmasking per fragment",D+"message_reader.hpp"),("reading of control frames",D+"message_reader.hpp")],
 None,["on_message events compared with an independent encoder's messages"]),
P("P03","Hostile bytes from the peer are contained",
 "Whatever bytes a peer sends after the handshake, an endpoint never touches memory it does not own, never allocates what a peer merely claims, never hangs, and reports at most one ending event. Messages completed before the first objectionable frame are delivered intact and in order. A frame with a reserved opcode, an oversized close frame or an impossible length is refused with a bad-request report.",
 ["inputs","fault_sequences"],"all byte streams: mutated and random frames, false and overflowing lengths, reserved bits and opcodes, misplaced continuations, cut at every byte, with any segmentation",
 "No test sends a malformed frame; memory safety on hostile lengths holds or fails for inputs nobody wrote down.",
 [D+"message_reader.hpp",D+"endpoint_impl.hpp"],
 [("length decoding and bounds",D+"message_reader.hpp"),("rejection paths to the handler",D+"endpoint_impl.hpp")],
 None,["AddressSanitizer/UBSan","handler events","allocation sizes"]),
P("P04","An endpoint ends once, cleanly, and says so",
 "Once an endpoint is open, the end of its connection - a close asked for by either side, a bad frame, or a lost connection - is reported to its application exactly once, and no message is delivered after that report. A close asked for locally puts exactly one close frame on the wire after every message handed over before it, and nothing follows it; a close frame from the peer is answered with one. Without a cause no end is reported.",
 ["schedules","fault_sequences","crash_points"],"all points at which either side closes, loses the connection or dies, including both sides at once, before messaging was started, inside handlers, with sends queued and writes in flight",
 "The tests close one idle connection from one side; crossing closes, closes with queued data and losses at arbitrary points are schedules they never produce.",
 [D+"endpoint_impl.hpp","include/nbdl/endpoint_send_close.hpp",D+"message_sender.hpp",D+"message_reader.hpp"],
 [("closing state and single report",D+"endpoint_impl.hpp"),("close frames",D+"message_sender.hpp")],
 None,["on_close/on_bad_request/error events","bytes written to the socket"]),
P("P05","An endpoint's lifetime is safe and it leaves nothing behind",
 "After an application stops an endpoint, no further event reaches it; it may drop its last reference at any time, also inside a handler, while operations are pending, without invalid memory access. Once the connection has ended and the application has let go, the endpoint is destroyed, its socket closed and its memory returned.",
 ["schedules","crash_points","fault_sequences"],"all instants at which an application stops, closes or releases an endpoint relative to its pending reads, writes and handlers, and all connection failures",
 "The tests keep endpoints alive until the io_context drains; destruction in the middle of an operation depends on schedules they do not control.",
 [D+"endpoint_impl.hpp","include/nbdl/run_async.hpp","include/nbdl/endpoint_open.hpp"],
 [("shared ownership by pending operations",D+"endpoint_impl.hpp"),("stop flag",D+"endpoint_impl.hpp")],
 None,["AddressSanitizer","weak reference to the endpoint","heap balance per run","open sockets"]),
P("P06","The server handshake admits exactly valid upgrade requests",
 "A server endpoint becomes ready once per valid WebSocket upgrade request, answering with a 101 response whose accept token belongs to the client's key, and passes on the authentication token of the request; header order, name case, other headers and segmentation make no difference, and frames sent right behind the request are not lost. A request that is not a valid upgrade never makes it ready: it is reported once as a bad request (or as an error if the connection is lost) and gets no 101 response.",
 ["inputs","schedules","fault_sequences"],"all upgrade requests (valid and mutated), header orders and cases, tokens, segmentations, connection losses at any byte",
 "The tests send a single well-formed request in one piece.",
 [D+"parse_handshake_request.hpp",D+"send_handshake_response.hpp",D+"get_auth_token.hpp",W+"server_endpoint.hpp"],
 [("request parsing",D+"parse_handshake_request.hpp"),("accept token",D+"send_handshake_response.hpp"),("auth token from cookies",D+"get_auth_token.hpp")],
 None,["on_ready/on_bad_request/error events","response bytes"]),
P("P07","The client handshake completes only with the right answer",
 "A client endpoint sends one well-formed upgrade request carrying its authentication token and origin, and becomes ready exactly once, and only after a complete 101 response with the accept token that belongs to its key; how the response is cut into segments makes no difference, and frames behind the response are not lost. Any other answer is reported once as a bad request, and a lost connection as an error, and it never becomes ready then.",
 ["inputs","schedules","fault_sequences"],"all responses (valid and corrupted), segmentations and connection losses at any byte",
 "The tests only meet nbdl's own server, which always answers correctly and in one piece.",
 [D+"send_handshake_request.hpp",D+"parse_handshake_response.hpp",W+"client_endpoint.hpp"],
 [("request",D+"send_handshake_request.hpp"),("response check",D+"parse_handshake_response.hpp")],
 None,["on_ready/on_bad_request/error events","request bytes"]),
P("P08","Promise chains run their stages in order, each with the previous result",
 "In a chain of promises, functions, taps, nested sequences and held values, run synchronously, asynchronously or as a loop, each stage runs only after the stage before it resolved, in order, once per round, with exactly the value the previous stage passed on; a loop starts again at its first stage. This holds whenever and in whatever order the asynchronous operations of any number of chains complete.",
 ["schedules","programs"],"all completion orders of pending operations across concurrently running chains, synchronous or deferred resolution at each stage, all generated shapes",
 "The tests resolve synchronously or with one fixed order per fixed chain.",
 ["include/nbdl/promise.hpp","include/nbdl/run_async.hpp","include/nbdl/run_async_loop.hpp","include/nbdl/run_sync.hpp","include/nbdl/pipe.hpp","include/nbdl/tap.hpp","include/nbdl/hold.hpp","include/nbdl/hold_lazy.hpp"],
 [("chain building and resolvers","include/nbdl/detail/"),("loop restart","include/nbdl/run_async_loop.hpp")],None,["stage invocations compared with an interpreter"]),
P("P09","A rejection reaches the next matching catch, exactly once",
 "When a stage of a chain rejects, or a tried function throws, the stages between it and the next catch that accepts the error's type are skipped and that catch runs once with exactly that error; catches for other types are passed over. After a catch has run, nothing more of the chain runs.",
 ["schedules","programs","fault_sequences"],"all placements, types and instants of rejections and exceptions in all generated shapes, synchronous or deferred, alone or among other chains",
 "The tests reject at one fixed place per fixed chain.",
 ["include/nbdl/catch.hpp","include/nbdl/try.hpp","include/nbdl/promise.hpp","include/nbdl/run_async.hpp"],
 [("routing of rejections","include/nbdl/catch.hpp"),("exceptions into rejections","include/nbdl/try.hpp")],None,["stage and catch invocations compared with an interpreter"]),
P("P10","A chain lives as long as it is needed and no longer",
 "A running chain keeps its stages and the values it holds alive while an operation is pending, and releases all of them exactly once when it has ended - by finishing, by a rejection, by termination, by an exception or when starting it failed for lack of memory; a loop may run any number of rounds without growing. No stage reads a value after its destruction.",
 ["schedules","fault_sequences","crash_points"],"all completion orders, all points of termination, rejection and allocation failure, any number of loop rounds",
 "The tests do not look at lifetimes at all and end their chains at one point.",
 ["include/nbdl/run_async.hpp","include/nbdl/run_async_loop.hpp","include/nbdl/hold.hpp","include/nbdl/hold_lazy.hpp"],
 [("ownership of the running chain","include/nbdl/run_async.hpp"),("storage of held values","include/nbdl/hold_lazy.hpp")],None,["AddressSanitizer","counted stages and values","heap balance per run"]),
]
C="include/nbdl/context.hpp"
L += [
P("P11","Messages reach exactly the actors they are for, intact",
 "Every upstream message applied to a context is sent to the producer that owns its path, exactly once, and to no other; every downstream message reaches every consumer exactly once after it has been applied to its store. Path, payload, identifier, confirmation flag and private payload arrive as they were given. An actor gets nothing that no message stands for, also not while the context is torn down.",
 ["histories","schedules","fault_sequences"],"all sequences of create, read, update and delete in both directions over several producers, nested and reentrant operations from inside handlers, answers that arrive before the request returned, messages lost, duplicated and reordered by the links behind the producers, servers crashing",
 "The tests apply one message at a time to a context with mock actors and never from inside a handler.",
 [C,"include/nbdl/message.hpp","include/nbdl/apply_message.hpp","include/nbdl/actor_type.hpp"],
 [("dispatch by path and channel",C),("message tuples and their accessors","include/nbdl/message.hpp")],None,["messages at recording producers and consumers"]),
P("P12","State changes are announced, and only state changes",
 "When a message changes what a store holds, every consumer that takes state notifications is notified of that path exactly once; messages a store does not take up, such as reads or answers that come too late, notify nobody. A store that listens to other paths is told of every message on them exactly once, and the paths it names are notified.",
 ["histories","schedules"],"all message sequences over map stores, single-value stores and listening stores, including repeated and stale messages and nested operations",
 "The tests apply a handful of fixed messages to single stores and look at the last notification.",
 [C,"include/nbdl/map_store.hpp","include/nbdl/context_store.hpp","include/nbdl/apply_foreign_message.hpp","include/nbdl/notify_state_change.hpp"],
 [("notification from the result of applying",C),("whether a message changed the state","include/nbdl/map_store.hpp"),("listening stores","include/nbdl/apply_foreign_message.hpp")],None,["notifications at recording consumers"]),
P("P13","A value is asked for once, and asking leads to an answer",
 "Looking up or reading a value the store does not have sends exactly one read to the owning producer and marks the value unresolved; while it is unresolved no further read is sent. A value known to be there, or known to be missing, is answered without the producer. Once the answer arrives the value is resolved to what the answer says, unless something newer arrived before it.",
 ["histories","schedules","fault_sequences"],"all interleavings of lookups, reads, answers and updates, answers within the request, lost, duplicated and late answers",
 "No test drives a read from lookup to answer; each looks at one step with the store set up by hand.",
 [C,"include/nbdl/map_store.hpp","include/nbdl/apply_message.hpp","include/nbdl/echo_producer.hpp"],
 [("placeholder for reads under way","include/nbdl/map_store.hpp"),("read sent upstream or answered",C)],
 [("unresolved","a read is under way","include/nbdl/map_store.hpp")],["reads at recording producers","what matching a path yields"]),
P("P14","Stores hold what their messages say",
 "After any sequence of downstream messages, matching a path yields the value of the last create, update or read answer that applied to it, or not found, or nothing after a delete, and calls back exactly once. Paths do not affect each other. The store shows a message's effect before any consumer hears of the message.",
 ["histories","schedules"],"all message sequences over several roots and keys, observed between and inside deliveries",
 "The tests check single messages on a fresh store and never look from inside a handler.",
 ["include/nbdl/map_store.hpp","include/nbdl/context_store.hpp",C,"include/nbdl/match.hpp"],
 [("map of values by path","include/nbdl/map_store.hpp"),("single value","include/nbdl/context_store.hpp")],None,["what matching a path yields, compared with a reference map"]),
P("P16","A context sets up every actor once, with its own argument, producers first",
 "Making a context constructs every producer and consumer exactly once, each with the argument given under its name, in whatever order the arguments are given and also when some are left to their defaults, and initialises each exactly once, all producers before any consumer. Actors may already send messages while they are being initialised.",
 ["programs","histories"],"all orders and omissions of actor arguments tried, operations issued from initialisers at any point of the set-up",
 "The tests build contexts with one argument order and initialisers that do nothing.",
 ["include/nbdl/make_context.hpp",C,"include/nbdl/producer_init.hpp","include/nbdl/consumer_init.hpp"],
 [("actor arguments by name","include/nbdl/make_context.hpp"),("order of initialisation",C)],None,["construction and initialisation of recording actors"]),
P("P20","The echo producer confirms every change at once under a fresh key",
 "Every create, update and delete sent to an echo producer comes back downstream exactly once, with its payload, before the call returns; every create gets a key that no create before it was given.",
 ["histories"],"all sequences of operations on echoed paths, nested and interleaved with other producers' messages",
 "The tests echo one message of each kind.",
 ["include/nbdl/echo_producer.hpp","include/nbdl/message.hpp",C],
 [("keys and echoing","include/nbdl/echo_producer.hpp")],None,["messages at recording consumers","store contents"]),
]

L += [
P("P15","Local changes show at once, never flicker, and replicas converge",
 "In a local_version, a change made locally shows at once and does not revert when it is confirmed while later local changes are pending; a change confirmed from elsewhere shows at once. Whenever no local change is pending, what shows is exactly what the root's order of changes makes it, so replicas that have received everything are equal. Applying a message reports a change exactly when what shows changed.",
 ["histories","schedules","fault_sequences"],"all interleavings of local changes, forwarded unconfirmed changes, confirmations, foreign changes and replacements over trees of replicas with arbitrary delays, lost links and resynchronisation",
 "The one test replays a single history of whole-value changes by one writer.",
 ["include/nbdl/local_version.hpp","include/nbdl/delta.hpp","include/nbdl/apply_delta.hpp","include/nbdl/message.hpp"],
 [("pending delta and local identifiers","include/nbdl/local_version.hpp"),("field-wise deltas","include/nbdl/delta.hpp")],
 [("pending_delta","changes ordered while local ones are open","include/nbdl/local_version.hpp")],["what get and match show","the result of apply_message"]),
P("P19","Identifiers are unique across processes and restarts",
 "No two identifiers made by any generators, in one process or many and across restarts, are equal, unless the entropy source gave two generators the same 128 bits. Equal identifiers have equal hashes, and identifiers compare equal only when all their bytes are.",
 ["histories","fault_sequences"],"all sequences of process starts, crashes and generations, entropy that repeats in part between processes",
 "The tests make a few identifiers from one generator.",
 ["include/nbdl/uid.hpp","include/nbdl/detail/hash_combine.hpp"],
 [("seeding and generation","include/nbdl/uid.hpp")],None,["bytes of the identifiers"]),
]

L += [
P("P17","Replicas converge end to end",
 "In an application of contexts joined by WebSocket connections, every message one side sends over a connection is understood by the other exactly as sent, in order and at most once, and none is missing while the connection stays up. Once faults stop and everything has been delivered, every value a client knows equals the server's, every value it asks for is resolved, and nothing deleted remains, whatever connections broke and whichever nodes crashed before.",
 ["histories","schedules","fault_sequences"],"all interleavings of several clients' operations, changes made by others, broken connections, crashes and restarts of clients and server, over arbitrary segmentation and delay",
 "No test joins contexts through a connection; the example application cannot be run in a test.",
 [C,"include/nbdl/websocket/detail/endpoint_impl.hpp","include/nbdl/binder/jsoncpp.hpp","include/nbdl/message_api.hpp","include/nbdl/map_store.hpp","include/nbdl/context_store.hpp"],
 [("message variants of an API","include/nbdl/message_api.hpp"),("dispatch and stores",C),("connections","include/nbdl/websocket/detail/endpoint_impl.hpp")],
 [("reads in progress","a value may change while the answer to a read is on its way",C)],["messages handed to the clients and the server","what matching a path yields at clients, server and database"]),
P("P18","Messages survive the wire; malformed ones are refused, not misread",
 "Every message of an API, written to JSON and read back, is the same kind of message on the same path with the same payload, for all values of its members: integers, enumerators, floating point, text, byte buffers, empty and nested containers, optional values and variants. Text that is not such a message is refused with an exception; whatever is accepted says exactly what the text says (an alternative of a variant that is not known is read as none). No input crashes the reader.",
 ["inputs","histories"],"all values of payload members, all alterations of the text of a message on its way",
 "The tests read and write a few fixed values and no malformed ones.",
 ["include/nbdl/binder/jsoncpp.hpp","include/nbdl/bind_map.hpp","include/nbdl/bind_sequence.hpp","include/nbdl/bind_variant.hpp","include/nbdl/variant.hpp","include/nbdl/util/base64_encode.hpp","include/nbdl/util/base64_decode.hpp","include/nbdl/message.hpp","include/nbdl/message_api.hpp"],
 [("JSON reader and writer","include/nbdl/binder/jsoncpp.hpp"),("buffers as base64","include/nbdl/util/base64_decode.hpp"),("alternatives by number","include/nbdl/bind_variant.hpp")],None,["messages read and exceptions thrown by from_string","text written by to_string"]),
]

D="include/nbdl/webui/detail/"
WA="include/nbdl/websocket_api/detail/"
L += [
P("P21","A page always shows the state",
 "After every change of the state and the notification that follows it, the part of the page a renderer made shows exactly what its template yields for the current state: text, attributes, optional parts, alternatives, lists and their order, nested in any way, without traces of earlier states and without touching what belongs to other renderers. Text is shown as it is, never read as markup. Destroying a renderer leaves the page unchanged and out of its reach.",
 ["inputs","histories"],"all templates of the supported kinds nested in any way; all histories of changes and notifications, with several changes between notifications and notifications without a change; pages put up and taken down in between",
 "The repository's DOM tests need a browser, render a few fixed templates and never change the shape twice.",
 [D+"dom_manips.hpp","include/nbdl/webui/renderer.hpp",D+"node_renderer.hpp",D+"flatten_spec.hpp","include/nbdl/ui_spec.hpp"],
 [("manipulations of the page",D+"dom_manips.hpp"),("replay of the template over the state","include/nbdl/webui/renderer.hpp")],
 [("renderer::notify","a change between two notifications","include/nbdl/webui/renderer.hpp")],["the HTML of the element a renderer mounted to"]),
P("P22","Events reach their handlers once, with what is shown",
 "An event on an element calls exactly the handlers of the elements it reaches, each once, innermost first, with the arguments their template names as they are when the event happens; actions a handler sends arrive at their store, once and in order, even when they replace the element that the event happened on. An element that is no longer shown has no listener; when everything is taken down, no listener, no JavaScript value and no memory remains.",
 ["inputs","histories"],"all histories of events (bubbling or not, chosen files, events whose handlers change the page under way), changes, and pages put up and taken down",
 "The repository's test clicks one button twice in a browser.",
 [D+"event_receiver.hpp",D+"dom_event_listener.hpp",D+"dom_manips.hpp","include/nbdl/ui_spec.hpp","include/nbdl/js.hpp","include/nbdl/detail/js_val.hpp"],
 [("receivers of events",D+"event_receiver.hpp"),("JavaScript values held by C++","include/nbdl/detail/js_val.hpp")],
 [("event_receiver","a handler's action replaces the element whose event is under way",D+"event_receiver.hpp")],["calls of the handlers and their arguments","actions at the store","listeners and values left"]),
P("P23","Browser endpoints deliver messages while they are open and nothing after",
 "An endpoint over the browser's WebSocket tells its handler ready once when the connection is open, then every message the peer sends, once, in order and with its exact contents, whichever kind of payload it carries, and its end once. What the application sends while it is open goes out as exactly one message with exactly its bytes or text, of the kind the endpoint was opened for. Once the endpoint is closed or destroyed, also from inside a handler, its handler is never called again, its socket is closed, and no JavaScript value or memory of it remains.",
 ["schedules","inputs","fault_sequences"],"all interleavings of messages both ways, closing, destruction at any moment (also inside handlers), and creation of other endpoints where destroyed ones lived; refused and lost connections; malformed messages",
 "The repository has no running test of the browser endpoint; the moment of destruction relative to queued events is a schedule.",
 [WA+"endpoint_impl.hpp",WA+"event_receiver.hpp",WA+"convert_payload.hpp","include/nbdl/websocket_api/client_endpoint.hpp","include/nbdl/websocket_api/json_payload.hpp"],
 [("socket, its events and their handler",WA+"endpoint_impl.hpp"),("payloads to and from JavaScript",WA+"convert_payload.hpp")],
 [("socket","the JavaScript socket an endpoint owns",WA+"endpoint_impl.hpp")],["events of the handlers","messages and closes at the socket","JavaScript values left"]),
P("P24","Values, callbacks and promises mean the same in C++ and JavaScript",
 "A JavaScript value held by C++ stays that very value through copies, moves, assignments and conversions, until the last holder ends, and then is not kept. Data written to a JavaScript value is what JavaScript sees and reads back as the same data: integers of up to 32 bits, booleans, enumerators, text in any language, byte buffers, sequences, optional values and alternatives. A callback handed to JavaScript calls its function once per call with the value it was called with. A promise made of JavaScript goes on exactly once when JavaScript settles it, along the resolved or the rejected path, with the settled value and no matter how often JavaScript settles it again, and gets the values it captured; nothing of it remains when it is done.",
 ["inputs","schedules","histories"],"all data; all histories of copies, moves and releases; all orders in which JavaScript settles pending promises, in chains and loops, including repeated settling",
 "The repository's tests of these parts run in a browser only and settle each promise at once, one way.",
 ["include/nbdl/js.hpp","include/nbdl/detail/js_val.hpp","include/nbdl/binder/js.hpp","include/nbdl/macros/NBDL_JS_PROMISE.hpp","include/nbdl/macros/NBDL_JS_TRANSFORM.hpp","include/nbdl/run_async.hpp","include/nbdl/run_async_loop.hpp"],
 [("values held by C++","include/nbdl/js.hpp"),("binding of data","include/nbdl/binder/js.hpp"),("promises settled by JavaScript","include/nbdl/macros/NBDL_JS_PROMISE.hpp")],
 [("registry","JavaScript values by the address of their holder","include/nbdl/detail/js_val.hpp")],["JSON of the values as JavaScript sees them","calls of callbacks and of the members of a chain","JavaScript values left"]),
P("P25","The route of a context is the address in the browser",
 "At any time the route and the text in a context are what the browser's address says after the configured prefix: the route whose name and parameters it spells, or no route when it spells none (unknown name, wrong number of parameters, a number that is none or does not fit, another prefix). Going to a route makes one new entry of the history whose address spells that route, so that going back and forward, or opening the address anew, yields the same route with the same parameters, whatever text they contain. Consumers are told of every change when the context already shows it. Once the context is gone the browser's history no longer concerns it.",
 ["inputs","histories"],"all routes and parameters (texts not empty, numbers positive), all addresses, all histories of going to routes and texts, back and forward, with consumers that redirect from inside a notification, and contexts made and destroyed in between",
 "The tests go to one route with two small numbers under an address bar that reports its own changes, which browsers do not.",
 ["include/nbdl/webui/nav_route.hpp","include/nbdl/webui/route_map.hpp","include/nbdl/webui/set_route.hpp","include/nbdl/fwd/webui/nav_route.hpp","include/nbdl/fwd/webui/route_map.hpp"],
 [("routes to addresses and back","include/nbdl/webui/route_map.hpp"),("the producer that follows the address bar","include/nbdl/webui/nav_route.hpp")],
 [("nav_route_store","the route shown","include/nbdl/webui/nav_route.hpp")],["route and text matched in the context","address bar and history","notifications of consumers"]),
P("P26","What is stored through the SQL layer is what the entities hold",
 "Inserting an entity, or a container of them, through the functions the SQL layer is given makes one row for it and one for every entity nested in it at any depth: each value in the column of its name, each nested entity under the key its owner refers to it by, every element of a container under the key of its owner and the keys that came with the call, and the key returned is that row's. The values reach the database only as parameters, as many as there are places, so that no text can change a statement. An update changes exactly the rows that all of the given keys name, and a selection yields exactly those with the values of all nested entities, or none. When a statement fails, its error reaches the caller and no further statement follows, so that a transaction that is rolled back leaves nothing behind and one that is committed survives what the storage survives.",
 ["inputs","crash_points","fault_sequences","histories"],"all entities of all shapes (values, enumerations, nested entities, containers nested in containers, own tables and keys), all texts and numbers, all histories of insert, update, select, commit and roll back; a failure of any statement, allocation or disk access and a loss of power at any point",
 "The tests compare the text of statements for one or two shapes with nothing behind them: no database executes them, no container is inserted with keys, no statement fails.",
 ["include/nbdl/sql_db/insert.hpp","include/nbdl/sql_db/update.hpp","include/nbdl/sql_db/select.hpp","include/nbdl/sql_db/traits.hpp","include/nbdl/sql_db/statement/insert.hpp","include/nbdl/sql_db/statement/update.hpp","include/nbdl/sql_db/statement/select.hpp","include/nbdl/sql_db/statement/detail/table_alias_list.hpp","include/nbdl/sql_db/detail/string_sum.hpp"],
 [("rows of an entity and its nested ones","include/nbdl/sql_db/insert.hpp"),("statements and their parameters","include/nbdl/sql_db/statement/insert.hpp")],
 [("insert_impl","order of rows and keys","include/nbdl/sql_db/insert.hpp")],["statements given to the database","rows in the database","keys and rows returned, errors"]),
]

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in L:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
