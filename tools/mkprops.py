"""Regenerates properties.jsonl from the table below (one entry per property)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files.split(),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state],
            "observe_at": observe, "hook_needed": None}})


BASE = ("The stable tests cover only the filter parser and the timer queue "
        "with a handful of literals; ")

p("C01", "A subscription's notifications reproduce exactly the matching services",
  "At every quiescent point, the set of services a subscriber obtains by folding the notifications of a subscription (appeared and modified insert or replace a service's generation, properties, TTL, owner and orphan time; disappeared removes it) equals the set of existing services matching its filter. A service appears only when not already visible, is modified or disappears only while visible, each change of a service is notified exactly once, and nothing is notified before the subscription's accept or after its completion.",
  "histories inputs", "every history of publish, republish, unpublish, disconnect, reconnect, expiry, subscribe and unsubscribe operations by several clients, for every service identity, generation, property set, TTL and filter",
  BASE + "no stable test opens a subscription at all, and no finite set of histories covers how a filter result changes over a service's generations.",
  "paf/sd.py paf/server.py",
  [("match evaluation over a service's previous and current generation", "paf/sd.py Subscription.notify"),
   ("replay of existing services at activation", "paf/sd.py Client.activate_subscription"),
   ("change fan-out", "paf/sd.py ServiceDiscovery.service_changed"),
   ("notification encoding", "paf/server.py Connection.subscription_triggered")],
  ["notify messages in a subscribe transaction", "services listing"],
  [("service generations", "previous and current value of each service", "paf/sd.py Service.prev/cur")])

p("C02", "The service listing is an exact snapshot of what exists",
  "A service listing returns each existing service matching the request's filter exactly once, with the generation, properties, TTL, owner and orphan time of its last successful publication (orphan time present exactly when its owner is gone), and nothing else. An existing service is one successfully published and neither unpublished nor expired since.",
  "histories inputs", "every history of accepted and rejected publish, unpublish, disconnect and expiry operations, and every list filter",
  BASE + "the listing is only compared to hand-picked states in end-to-end tests that need a transport library and do not run here.",
  "paf/sd.py paf/server.py paf/props.py",
  [("service database", "paf/sd.py DB"), ("generation commit", "paf/sd.py Service.commit"),
   ("listing", "paf/server.py Connection.services_request")],
  ["services transaction: accept, notify*, complete"],
  [("service database", "all existing services by id", "paf/sd.py DB.services")])

p("C03", "Subscription and client listings are exact",
  "A subscription listing returns exactly the currently active subscriptions, each once, with its owner and its filter when it has one. A client listing returns exactly the clients with a completed handshake on a live connection, each once, with its address, connect time and, for protocol version 3, its true idle time, negotiated version and, when tracking, last measured latency.",
  "histories inputs", "every history of connect, handshake, disconnect, subscribe and unsubscribe operations over several connections",
  BASE + "no stable test lists subscriptions or clients.",
  "paf/sd.py paf/server.py",
  [("subscription database", "paf/sd.py DB"), ("listings", "paf/server.py Connection.subscriptions_request, clients_request"),
   ("connection registry", "paf/server.py Server.client_connections")],
  ["subscriptions and clients transactions"])

p("C04", "Publish follows the generation rules atomically",
  "Publishing an unknown service creates it; a higher generation replaces generation, properties, TTL and owner; the same generation succeeds without altering the record only if properties and TTL are identical and is otherwise rejected as changed-without-new-generation; a lower generation is rejected as old. A rejected publish changes nothing observable, and an accepted one is immediately visible to every listing.",
  "inputs histories", "every pair (or sequence) of publications of a service, over all generations, TTLs and property sets, by the same or another client of the user, of connected and of orphaned services",
  BASE + "publication rules are never exercised by stable tests, and the interesting cases are equalities between unbounded numbers and sets.",
  "paf/sd.py paf/server.py",
  [("generation comparison", "paf/sd.py Client.publish"), ("failure mapping", "paf/server.py Connection.publish_request")],
  ["publish response and fail reason", "services listing before and after"])

p("C05", "Only the owning user changes a service, only the owner a subscription",
  "A client whose user differs from the user owning a service can neither republish, capture nor unpublish it, whether the service is live or orphaned, and only the client that created a subscription can cancel it; every such attempt is answered with permission-denied and changes nothing observable. Naming a service or subscription that does not exist is answered as non-existent, and re-using an existing subscription identity as already existing.",
  "histories inputs", "every history over clients of the same and of different users, every service and subscription identity",
  BASE + "access control involves at least two differently authenticated users, which no stable test creates.",
  "paf/sd.py paf/server.py",
  [("user check", "paf/sd.py Service.check_access"), ("client check", "paf/sd.py Subscription.check_access"),
   ("user identity", "paf/server.py Connection.determine_user_id")],
  ["publish, unpublish, unsubscribe, subscribe responses", "listings"])

p("C06", "The last publishing client owns the service",
  "After a client successfully publishes a service previously owned by another client of its user, the service is listed with the new owner, is no longer tied to the previous owner's connection (whose disconnect leaves it untouched) and becomes an orphan when the new owner disconnects. A non-owning client of the same user may also unpublish it, and subscribers see the ownership change before any disappearance.",
  "histories inputs", "every history of publications of shared services by several clients of one user with interleaved disconnects, reconnects and expiry",
  BASE + "ownership hand-over needs several connections and an ordering of disconnects.",
  "paf/sd.py",
  [("capture", "paf/sd.py Client.capture_service"), ("ownership in publish and unpublish", "paf/sd.py Client.publish, Client.unpublish")],
  ["services listing owner and orphan time", "subscription notifications"])

p("C07", "A disconnected client's services become orphans and live exactly their TTL",
  "When a client's connection ends for whatever reason, all its services become orphans as of that instant and its subscriptions vanish. An orphan not republished is removed, with one disappeared notification to each matching subscriber, as soon as its TTL has elapsed since it was orphaned, never earlier and without needing any other activity; a service whose owner is connected never expires.",
  "histories schedules inputs", "every TTL, number of services, disconnect cause and instant, and every later passage of time",
  BASE + "timing is only sampled with real sleeps in end-to-end tests that do not run here; which deadline fires first depends on unbounded TTLs and instants.",
  "paf/sd.py paf/timer.py paf/server.py paf/eventloop.py",
  [("orphan marking", "paf/sd.py Client.disconnect"), ("orphan timers", "paf/sd.py ServiceDiscovery.maintain_orphans"),
   ("timer queue", "paf/timer.py TimerManager"), ("timeout source", "paf/server.py Server.timer_changed")],
  ["services listing at chosen instants", "disappeared notifications"],
  [("orphan timers", "pending removal per orphan", "paf/sd.py ServiceDiscovery.orphan_timers")])

p("C08", "Reclaiming an orphan keeps the service and re-arms its protection",
  "If an orphan is republished before its TTL elapses, by its former owner on a new connection or by another client of the user, at the same or a newer generation, the service survives uninterrupted: it is no longer an orphan, it never expires while its new owner stays connected, and subscribers see a modification rather than a disappearance. When the reclaiming connection ends in turn, the service becomes an orphan again as of that later instant with a full TTL.",
  "histories schedules inputs", "every sequence of disconnect, reconnect, republish and disconnect steps, every generation and TTL and every timing between them",
  BASE + "a second disconnect after a reclaim is never tested anywhere.",
  "paf/sd.py",
  [("reclaim", "paf/sd.py Client.publish"), ("orphan timer removal", "paf/sd.py ServiceDiscovery.maintain_orphans"),
   ("service to connection association", "paf/sd.py Connection.services")],
  ["services listing orphan time", "notifications", "later expiry"])

p("C09", "Resource limits are exact, per user and in total",
  "With a limit configured per user or in total on clients, services or subscriptions, an operation that would exceed it is refused as insufficient-resources (or, for client slots, not admitted) without side effect, and an operation within every limit is never refused for lack of resources. Each resource is charged to its owning user from creation until the connection, service (orphans included) or subscription is gone, and then is immediately available again.",
  "histories configurations", "every combination of limits and every history of connects, disconnects, publications, captures, expiries, subscriptions and unsubscriptions by clients of several users",
  BASE + "accounting leaks only show after particular create/transfer/remove sequences; no stable test sets a limit.",
  "paf/sd.py paf/server.py",
  [("accounting", "paf/sd.py ResourceManager, Consumer"), ("charging points", "paf/sd.py Client.connect, publish, remove_service, create_subscription")],
  ["fail reasons of hello, publish, subscribe"],
  [("usage counters", "per-user use of each resource", "paf/sd.py Consumer.used_resources")])

p("C10", "Nothing but hello works before the handshake",
  "Until a connection has completed a hello handshake, every other well-formed request on it is answered with a single failure with reason no-hello and has no effect on services, subscriptions, listings, other connections or resource use. After a failed hello the connection may try again; after a successful one a repeated hello with the same identity succeeds with the same version, and one with a different client identity is refused as permission-denied without disturbing the session.",
  "histories inputs", "every sequence of requests before, between and after hello attempts, for every client identity and version range",
  BASE + "no stable test drives a connection.",
  "paf/server.py",
  [("handshake gate", "paf/server.py Connection.process"), ("hello handling", "paf/server.py Connection.hello_request")],
  ["responses on the connection", "listings seen by another client"])

p("C11", "Version negotiation picks the highest common version",
  "For every version range a client offers and every range a domain is configured with, the handshake selects the highest version contained in both and in what the implementation supports, and fails with unsupported-protocol-version exactly when there is none. Commands and message formats of a connection are thereafter those of the selected version.",
  "inputs configurations", "all client ranges (including inverted, zero and huge) against all valid configured ranges",
  BASE + "a handful of version pairs is tried only in end-to-end tests that do not run here.",
  "paf/conf.py paf/server.py paf/proto.py",
  [("range intersection", "paf/conf.py ProtoVersionLimitConf.get_highest_allowed"), ("per-version command table", "paf/proto.py TA_TYPES")],
  ["hello response", "availability and format of version-3 commands"])

p("C12", "A client identity is in use once and stays bound to its user",
  "At most one live connection holds a client identity: a second hello with it is refused as client-id-exists and leaves the first session working. While a disconnected client still has orphaned services, its identity can be resumed only by the same user; once nothing of the client remains any user may take it. The user is derived from the connection alone: the TLS subject key identifier if there is one, else the peer IP address without its port, else a common default user.",
  "histories inputs", "every interleaving of connects, disconnects, orphan expiry and captures over several connections and users, and every peer address",
  BASE + "identity life time spans reconnects and orphan expiry, which no stable test reaches.",
  "paf/sd.py paf/server.py",
  [("identity binding", "paf/sd.py Client.connect"), ("stale client removal", "paf/sd.py Client.is_stale, remove_service, disconnect"),
   ("user derivation", "paf/server.py Connection.determine_user_id")],
  ["hello responses", "permission of later operations"])

p("C13", "No peer can take the server down or disturb other clients",
  "Whatever messages a peer sends, valid or not, in any order and transaction identity, and whatever errors its connection produces, the server process keeps running: it answers the message or drops that one connection with the same effects as an ordinary disconnect. Sessions, services and subscriptions of other clients are untouched.",
  "inputs histories fault_sequences", "every byte sequence decodable or not, every JSON value in every field, every message sequence per connection and every transport error",
  BASE + "no stable test sends the server anything, let alone hostile input.",
  "paf/server.py paf/proto.py paf/filter.py",
  [("error boundary", "paf/server.py Connection.activate"), ("message validation", "paf/proto.py Message.parse"),
   ("transaction state checks", "paf/server.py Transaction")],
  ["process still serving", "other client's responses"])

p("C14", "Server replies follow the transaction grammar",
  "Every request receives exactly its command's reply sequence in its own transaction: one complete or fail for a single-response command; accept, then any notifications, then one complete (or a lone fail) for a multi-response one, where a subscription completes only upon its cancellation; accept then notifications for a two-way one. No message is ever sent for an unknown or terminated transaction, each carries exactly the fields its type allows, and a terminated transaction identity can be used again.",
  "histories inputs", "all commands, all message sequences and transaction identities on a connection, with any number of concurrent transactions",
  BASE + "no stable test sees a reply.",
  "paf/server.py paf/proto.py",
  [("transaction state machine", "paf/server.py Transaction"), ("type table", "paf/proto.py TA_*"), ("message construction", "paf/proto.py Message.to_wire")],
  ["every message sent on every connection"])

p("C15", "The message decoder accepts exactly the specified messages",
  "Decoding a message yields a message if and only if it is a JSON object with a known command for the protocol version, a valid transaction identity and message type, every mandatory field of that command and type, no field beyond the mandatory and optional ones, and every field of its specified type and range (integers within 0..2^63-1, numbers non-negative, strings, property maps from strings to lists of strings and integers). Anything else is reported as a protocol error and as nothing else.",
  "inputs", "every JSON document in every field position, for every protocol version, command and message type",
  BASE + "no stable test decodes a message.",
  "paf/proto.py",
  [("field validation", "paf/proto.py Field.pull and subclasses"), ("message assembly", "paf/proto.py Message.parse")],
  ["decoded message or error"])

p("C16", "Messages survive the wire unchanged",
  "For every protocol version, command and message type and for all valid field values, with any subset of the optional fields, encoding a message and decoding it again yields the same command, transaction, type and field values. The encoding carries exactly the mandatory fields plus the optional fields that were given a value, under their specified names.",
  "inputs", "all commands, message types, versions, optional field subsets and field values including zero, maximal and empty ones",
  BASE + "no stable test encodes a message.",
  "paf/proto.py",
  [("encode", "paf/proto.py Message.to_wire, Field.put"), ("decode", "paf/proto.py Message.parse, Field.pull")],
  ["encoded JSON object", "decoded message"])

p("C17", "Queued replies are delivered in order, exactly once, under backpressure",
  "However often the transport refuses to take more data, every reply and notification queued for a live connection is sent exactly once and in the order produced, and the server resumes sending as soon as the transport is ready. While a bounded number of messages is waiting for a client the server accepts no further requests from it, and it starts accepting them again once the backlog has drained.",
  "schedules fault_sequences histories", "every pattern of would-block results and backlog sizes around the batch and backlog limits",
  BASE + "tests never see the transport refuse a message at a chosen point.",
  "paf/server.py",
  [("output queue", "paf/server.py Connection.try_send, respond"), ("wait conditions", "paf/server.py Connection.update_source, receivable, sendable")],
  ["messages handed to the transport", "readiness conditions requested from it"],
  [("output queue", "messages awaiting transmission", "paf/server.py Connection.out_wire_msgs")])

p("C18", "Version 3 clients are dropped exactly when silent for too long",
  "A version 3 connection from which nothing is received is dropped once it has been silent for its idle limit (within the documented jitter) and never while messages keep arriving more often than half that limit; a tracking client is queried before, and a reply keeps it alive. The limit is the lowest TTL among its services clamped to the configured bounds, or the upper bound when it has none, and follows publications and removals. A silent connection may be dropped sooner, from half its limit after the claim on, when a newcomer claims its client identity. Version 2 connections are never dropped for silence, and the keepalive of their transport, on which the detection of dead version 2 peers relies, is left on.",
  "schedules configurations histories", "every idle configuration, TTL set, jitter value, version and timing of client activity",
  BASE + "no stable test lets time pass over a connection.",
  "paf/sd.py paf/server.py",
  [("idle state machine", "paf/sd.py Connection.active, check_idle, idle_timer_fired"), ("limit", "paf/sd.py Connection.max_idle_time, IdleLimit.limit"),
   ("liveness query", "paf/server.py Connection.check_idle, time_out")],
  ["time of disconnect", "track queries sent", "connection attributes set"],
  [("idle state", "active, tentative or timed out", "paf/sd.py Connection.idle_state")])

p("C19", "Half-open connections are evicted and never exhaust client slots",
  "A connection that has not completed its handshake within the handshake time limit is dropped within a clean-up interval after it, whatever it sent or failed in the meantime, and one that completed in time is not. With a total client limit, the server never holds more connections than the limit, accepts whenever a slot is free, and resumes accepting after a slot is freed.",
  "schedules histories configurations", "every number of half-open connections, failed handshakes, arrival times and total client limits",
  BASE + "neither time-outs nor connection limits are exercised by stable tests.",
  "paf/server.py",
  [("clean-out timer", "paf/server.py Server.schedule_clean_out, clean_out_connections"), ("accept gate", "paf/server.py Server.sock_activate, conn_terminated")],
  ["accepted and closed connections over time"])

p("C20", "Filter parsing accepts exactly the filter language",
  "Every string is either parsed to a filter or rejected with a parse error, never anything else and always terminating; it is accepted if and only if it is derivable from the documented grammar (presence, equality, substring, greater-than, less-than, not, and with two or more operands, or likewise; special characters escaped by a backslash; other spellings of integers than plain decimal and an unescaped exclamation mark inside a key or value are unspecified). Accepted strings yield the filter structure the grammar prescribes.",
  "inputs", "every string over the filter alphabet",
  "The stable filter tests try a few dozen literals; acceptance is a statement about all strings.",
  "paf/filter.py",
  [("recursive descent parser", "paf/filter.py parse, _parse*"), ("escape handling", "paf/filter.py _parse_str")],
  ["parse result or error"])

p("C21", "Printing a filter and parsing it back gives the same filter",
  "For every filter, parsing its printed form succeeds and yields a filter that prints the same and matches exactly the same property sets, so that what a listing shows is what the subscriber asked for. Escaping any string and parsing it as a key, value or substring yields the original string.",
  "inputs", "all filter structures, keys, values and substrings over all characters including every special one",
  "The stable tests print a few literals without systematically using special characters.",
  "paf/filter.py",
  [("printing", "paf/filter.py __str__ of each filter class"), ("escaping", "paf/filter.py escape")],
  ["printed form", "reparsed filter"])

p("C22", "Filter matching has the documented meaning for all property sets",
  "A presence test matches iff the key exists; equality iff some value's text equals the operand; substring iff some string value begins, contains in order without overlap, and ends with the given pieces; greater-than and less-than iff some integer value compares so; not, and, or are the Boolean operations. Matching terminates normally for every property set, including keys with several, integer, empty or multi-line values, and multi-valued semantics is existential.",
  "inputs", "all filters up to a nesting bound against all property sets of strings and integers",
  "The stable tests match a few literals with single-line strings.",
  "paf/filter.py",
  [("match", "paf/filter.py Comparison.match, Substring.match, And.match, Or.match, Not.match")],
  ["match result"])

p("C23", "Timers fire once, in order, and neither early nor cancelled",
  "For every sequence of additions (absolute or relative), cancellations and processing instants, processing runs exactly the handlers of pending timers whose time has come, each once, in order of expiration, including timers added by a handler that are already due. A cancelled timer never fires, the next-timeout value always is the earliest pending expiration, and every change of it is announced.",
  "histories schedules", "all sequences of add, remove, process with arbitrary times, and handlers that add or remove timers",
  "The stable timer tests use random numbers but cannot cover orderings and equalities of arbitrary times or reentrant handlers.",
  "paf/timer.py",
  [("ordered insert", "paf/timer.py TimerManager._allocate_idx"), ("processing", "paf/timer.py TimerManager.process"), ("announcement", "paf/timer.py TimerManager.next_timeout_changed")],
  ["handler invocations", "next_timeout()", "callback"])

p("C24", "The event loop dispatches every ready source and no removed one",
  "A registered source's handler runs when its descriptor is reported ready, when its timeout is reached or while it is marked active; the loop never waits beyond the earliest timeout, never waits while a source is active, and returns after stop or a termination signal. No handler runs for a source after its removal, including removal by another handler in the same round, and a descriptor number may be reused by a new source at once.",
  "schedules histories", "every set of ready descriptors, timeouts, active flags and signals, and handlers that add, remove, modify or close sources",
  BASE + "the event loop has no stable test.",
  "paf/eventloop.py",
  [("dispatch", "paf/eventloop.py EventLoop.run, handle_fds, fire_timeouts, fire_actives"), ("registration", "paf/eventloop.py EventLoop.add, remove, changed_*")],
  ["handler invocations", "poll time-out argument", "descriptors registered"])

p("C25", "Configuration is accepted completely or rejected with an explanation",
  "Every configuration document is either rejected with a configuration error or results in a configuration that reproduces each given parameter exactly, uses the documented default for each parameter left out, and honours legacy aliases without letting one silently override or cancel the other. Wrong types, out-of-range or inconsistent protocol versions, idle bounds and limits, unknown enumeration values and TLS settings on non-TLS addresses are rejected, and no input causes any other failure.",
  "inputs configurations", "every combination of present, absent and wrongly typed values of every parameter",
  BASE + "configuration parsing has no stable test.",
  "paf/conf.py paf/sd.py",
  [("typed lookup", "paf/conf.py dict_lookup, assure_type"), ("population", "paf/conf.py populate, domains_populate, resources_populate, log_populate"), ("idle bounds", "paf/sd.py IdleLimit")],
  ["resulting configuration or error"])

p("C26", "Command line options override the configuration file predictably",
  "For every combination of options and domain arguments, the server starts with the file's configuration overridden exactly by the given options, command-line domains replacing the file's domains and a client limit of zero meaning no limit, or else exits with status 1 and a message before opening any socket. No option value makes the program fail in any other way.",
  "inputs configurations", "every sequence of options with valid and invalid values, with and without a configuration file",
  BASE + "the command line has no stable test.",
  "paf/daemon.py paf/conf.py",
  [("option handling", "paf/daemon.py main"), ("setters", "paf/conf.py LogConf, ResourcesClassConf, Conf.set_domains")],
  ["configuration handed to the server", "exit status and message"])

p("C27", "The client library accepts only replies that fit its transactions",
  "The client library delivers a server message to the caller exactly when it fits the transaction it names (known, not terminated, same command, a message type allowed in the transaction's present state), with the message's field values unaltered, and ends the transaction at its final message. Any other message is reported as a protocol error, nothing is delivered for it, and no callback ever runs after the final message of its transaction.",
  "inputs histories", "every sequence of server messages over every command, message type, transaction identity and version",
  BASE + "the client library has no stable test.",
  "paf/client.py paf/proto.py",
  [("transaction state machine", "paf/client.py Transaction.consume_message"), ("dispatch", "paf/client.py Client.try_receive")],
  ["callback invocations", "exceptions"])

p("C28", "Client calls send one well-formed request and report its true outcome",
  "Every client operation sends exactly one request with a fresh transaction identity and its arguments unaltered, in call order and exactly once however often the transport would block. A synchronous call returns only after its own transaction ended, with the data the server sent, and raises the transaction error carrying the server's reason (or stating that none was given) exactly when the server failed it; a lost connection raises an error.",
  "schedules inputs fault_sequences", "all operations and argument values, all would-block patterns and all interleavings of replies to concurrent transactions",
  BASE + "the client library has no stable test.",
  "paf/client.py",
  [("calls", "paf/client.py Call, LatencyCall, NotifyCall, CompleteCall"), ("output queue", "paf/client.py Client.try_send, async_request")],
  ["messages sent", "return values and exceptions"])

p("C29", "Nothing remains of clients that are gone",
  "Once all clients have disconnected and all orphans have expired or been removed, the server is back in its initial state for any later client: no service, subscription, client identity binding, resource charge, timer or descriptor remains. While clients remain, a departed client without orphans leaves nothing behind.",
  "histories", "every history of client operations followed by departure of all clients and the passage of the longest TTL",
  BASE + "leaks only show after particular sequences and do not alter any reply.",
  "paf/sd.py paf/server.py paf/eventloop.py",
  [("stale connection and client removal", "paf/sd.py Client.disconnect, remove_service, capture_service"), ("connection teardown", "paf/server.py Connection.terminate")],
  ["pending timeouts and registered descriptors", "has_client, listings", "limits available again", "objects reachable from the server"])

p("C30", "Domains served by one process are isolated from each other",
  "Clients, services, subscriptions, notifications, identities, limits and listings of one domain are never affected by or visible in another domain of the same server process; each domain uses its own sockets, protocol version range and idle limits. All sockets of one domain share the same services.",
  "histories configurations", "every interleaving of operations in two domains using the same identities",
  BASE + "no stable test runs a server, let alone two.",
  "paf/daemon.py paf/server.py paf/sd.py",
  [("per-domain server", "paf/daemon.py run, paf/server.py Server"), ("shared event loop", "paf/eventloop.py EventLoop")],
  ["responses and notifications in each domain"])

p("C31", "Domain files resolve to exactly the servers they list",
  "For a plain-text domain file the servers are exactly its non-empty non-comment lines, stripped, in order; for a JSON file exactly its listed servers in order with their TLS files and protocol version bounds, defaulting to all supported versions; files of neither form are unspecified. A name without domain file is used as the address itself, and the first server is the one connected to.",
  "inputs", "every file content over lines, blanks, comments and JSON server objects with any subset of optional fields",
  BASE + "domain file parsing has no stable test.",
  "paf/client.py",
  [("format detection", "paf/client.py looks_like_json_object"), ("parsers", "paf/client.py parse_domain_json, parse_domain_custom"), ("selection", "paf/client.py domain_server, connect")],
  ["server configurations returned", "address and attributes connected to"])

p("C32", "Stop leads to an orderly shutdown",
  "On a termination signal the server stops accepting work, closes every client connection and every server socket exactly once in every domain and exits with status 0, whatever state its connections are in. If start-up or operation fails, it closes all server sockets it opened and exits with status 1.",
  "histories schedules fault_sequences", "every state of connections, pending output and timers at the moment of the signal, and a failure at any domain's start-up",
  BASE + "no stable test starts or stops a server.",
  "paf/daemon.py paf/server.py paf/eventloop.py",
  [("shutdown", "paf/server.py Server.terminate, close_server_socks"), ("signal wake-up", "paf/eventloop.py EventLoop.check_signal"), ("main", "paf/daemon.py run")],
  ["sockets closed", "exit status"])

p("C33", "The transport binding reports outcomes faithfully and frees its resources",
  "Each transport call passes its arguments to the transport library unaltered with the right type for each attribute value, returns the library's result (messages of exactly the received length, attributes converted by their type) and raises an error carrying the library's error number exactly when the call failed. Attribute maps are destroyed exactly once per call also on failure, and a closed socket is never passed to the library again.",
  "inputs fault_sequences", "all return codes, error numbers, message lengths, attribute types and values",
  BASE + "the binding cannot even be imported without the transport library.",
  "paf/xcm.py",
  [("conversion", "paf/xcm.py _attr_to_py, _attr_map_add"), ("error mapping", "paf/xcm.py _raise_io_err"), ("socket wrappers", "paf/xcm.py Socket, ConnectionSocket, ServerSocket, connect, server")],
  ["calls made to the transport library", "results and exceptions"])

p("C34", "Tracking answers queries and measures latency per connection",
  "On a version 3 connection one track transaction may be open at a time, a second being refused as track-exists; every query the client informs is answered by exactly one reply in that transaction, a reply to an outstanding server query ends it and sets the latency listed for the client to the elapsed time, and an unsolicited reply or unknown kind ends the connection as a protocol violation. Version 2 connections have no such command.",
  "histories inputs schedules", "all sequences of track requests, queries, replies and idle checks with arbitrary timing",
  BASE + "tracking has no stable test.",
  "paf/server.py paf/sd.py",
  [("track handling", "paf/server.py Connection.track_request, track_inform, track_query"), ("idle query", "paf/server.py Connection.check_idle")],
  ["messages in the track transaction", "latency in client listing"])

p("C35", "The interactive client sends what was typed and prints what was answered",
  "For every publish line typed at the interactive client, each key-value pair is published with the value as an integer if it is a plain decimal number and as the string otherwise (odd spellings of numbers either way), a value between vertical bars always as the enclosed string, and repeated keys accumulate; ids, filters and numbers of the other commands are sent as typed. Missing arguments, invalid numbers and numbers the protocol does not allow are reported and send nothing. The outcome and every record and notification of the server is printed, and no input line other than quit and end of file ends the program while the server is there.",
  "inputs", "all argument lists, all characters in lines, keys, values, ids, generations and TTLs; all answers of the server",
  BASE + "the interactive client is only exercised end to end in tests that do not run here.",
  "app/pafc",
  [("argument parsing", "app/pafc parse_props, parse_id, PafCli.do_publish"), ("commands", "app/pafc Worker, PafCli"), ("printing", "app/pafc MatchPrinter, Tracker, Worker._cmd_services")],
  ["requests sent", "lines printed", "program ended or not"])

p("C36", "Service is maintained at large scale and under overload",
  "With tens of thousands of clients, services and subscriptions the server stays responsive, with memory and latency growing no worse than linearly in what is registered.",
  "schedules configurations", "all load levels up to the documented scale",
  "Load is a property of the process, its allocator and the transport, not of any one test input.",
  "paf/server.py paf/sd.py paf/timer.py app/pafbench",
  [("batching", "paf/server.py Connection.try_send"), ("timer queue", "paf/timer.py TimerManager")],
  ["latency and memory under load"])

p("C37", "TLS peers are authenticated as configured",
  "A connection over a TLS socket is established only with peers presenting a certificate chain trusted by the configured trust store and not revoked by the configured revocation list, and traffic on it is confidential and authentic.",
  "inputs configurations fault_sequences", "all peer certificates and configured credential files",
  "Authentication happens inside the transport and TLS libraries.",
  "paf/server.py paf/xcm.py",
  [("attribute hand-over", "paf/server.py Server.add_socket")],
  ["connections accepted"])

p("C38", "The interactive client connects as its command line says",
  "For every command line the interactive client connects to the address given, or to the domain's first server or the one selected by -n, with the client id given by -i and the protocol version given by -p, or lists all of the domain's addresses (-a) or all domains (-l). Every malformed command line (unknown option, missing argument, value that is not a number or is out of range, unsupported version, index without a server) and every failure to connect or list ends with a message and exit status 1, having connected nowhere.",
  "inputs configurations", "all option lists and values, all domains",
  BASE + "the command line of the interactive client has no test.",
  "app/pafc paf/client.py",
  [("command line", "app/pafc main section"), ("listing", "app/pafc list_servers, list_domains"), ("domain", "paf/client.py read_domain")],
  ["connection made and first request", "lines printed and exit status"])

p("C39", "Log messages reach exactly the configured outputs",
  "Whatever the configuration, every message logged with at least the configured severity is written, unaltered, exactly once to each enabled output (standard error, the log file with its rotation, the system log at its socket and facility) and to no other; less severe messages, and all messages where no output is enabled, are written nowhere. An output that cannot be set up (log file not accessible, system log socket missing) ends the server with a message and exit status 1 before it opens a socket; what concerns a disabled output does not.",
  "inputs configurations fault_sequences", "all combinations of outputs, levels, paths and their accessibility, all messages",
  BASE + "nothing of the logging set-up has a test.",
  "paf/logging.py paf/daemon.py paf/conf.py",
  [("set-up", "paf/logging.py configure"), ("use", "paf/logging.py debug, info, warning, exception"), ("configuration", "paf/daemon.py main, paf/conf.py LogConf")],
  ["what each output receives", "exit status"])

p("C40", "An idle server sleeps",
  "While no client does anything, the server process is woken up only when something is due (an orphan's expiry, the handshake time of a half-open connection, an idle limit or its warning) and then goes back to sleep: no periodic or continuous activity is caused by connected clients, connections waiting for a free slot, clients that do not take their messages, or by anything that happened before; and nothing is sent to anybody. In particular, once nothing is half-open or orphaned, a server without idle limits sleeps indefinitely.",
  "histories", "every history of operations and departures, followed by any time in which nobody does anything",
  BASE + "a server that wakes up needlessly answers correctly; the documentation promises that no processor time is used when service discovery is idle.",
  "paf/server.py paf/eventloop.py paf/timer.py paf/sd.py",
  [("clean-out timer", "paf/server.py Server.schedule_clean_out, clean_out_handler"), ("awaited conditions", "paf/server.py Connection.update_source, Server.sock_activate"), ("waiting", "paf/eventloop.py EventLoop.run"), ("removed timers", "paf/timer.py TimerManager.next_timeout")],
  ["timeouts passed to the poll call and the number of its returns", "messages sent"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(e) + "\n")
