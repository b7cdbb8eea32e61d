#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements can be reviewed as text)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MSG = "lib/src/messages/"
CC = "lib/src/client/channel/"
CS = "lib/src/client/session/"
SC = "lib/src/server/channel/"
INC = "lib/include/modbus/"

prop("C01", "Client requests are encoded as exactly one correct Modbus/TCP frame",
 "Every request of the eight supported kinds whose quantity is within the Modbus limits (1..2000 bits or 1..125 registers read, 1..1968 coils or 1..123 registers written) is put on the wire as exactly one MBAP frame: protocol 0, exact length, the session's unit identifier, and the request's function code, addresses, quantities, byte count and values in big-endian order with coil bits packed least-significant first and unused bits zero. Consecutive requests of a channel carry consecutive transaction identifiers modulo 65536. A request outside those limits sends nothing at all and its handler gets exactly one malformed-request error.",
 ["inputs", "histories"],
 "All request kinds, all quantities 0..max+1 (and 65535), boundary addresses and value patterns exciting every bit position and byte, every unit identifier, sequences of requests including transaction identifier wrap-around.",
 "The message unit tests need libraries absent here and check one or two hand-written frames per kind; no test covers all quantities, bit positions, or the assembled frame as it leaves the client.",
 [MSG+"ReadBitsRequestImpl.cpp", MSG+"ReadRegistersRequestImpl.cpp", MSG+"WriteMultipleCoilsRequestImpl.cpp", MSG+"WriteMultipleRegistersRequestImpl.cpp", MSG+"WriteSingleCoilRequestImpl.cpp", MSG+"WriteSingleRegisterRequestImpl.cpp", MSG+"mbap/MbapMessage.cpp", CC+"ClientChannelTcp.cpp", CS+"ClientSessionImpl.cpp"],
 [("request validation (is_valid) and serialization (build_message)", MSG+"*RequestImpl.cpp"), ("MBAP framing", MSG+"mbap/MbapMessage.cpp"), ("transaction numbering", CC+"ClientChannelTcp.cpp")],
 observe=["bytes handed to the TCP socket", "response handlers"])

prop("C02", "Client decodes every response PDU correctly or reports the right error",
 "For every PDU answering an outstanding request, the handler gets the decoded values (each at its own address, in order, exactly the requested quantity) if the PDU is a well-formed normal response, the carried Modbus exception if it is a well-formed exception response to that function, and a malformed-response error in every other case. Write responses are reported with the address and value/quantity they carry.",
 ["inputs"],
 "All eight request kinds; every PDU up to a length over an alphabet of interesting bytes, plus all 256 values at every header position, all truncations and extensions of valid responses, all quantities and all 256 exception codes.",
 "Upstream tests (not buildable here) sample a handful of PDUs per kind; decoding must be right for every byte string a peer can send.",
 [MSG+"ReadBitsResponseImpl.cpp", MSG+"ReadRegistersResponseImpl.cpp", MSG+"WriteSingleCoilResponseImpl.cpp", MSG+"WriteSingleRegisterResponseImpl.cpp", MSG+"WriteMultipleCoilsResponseImpl.cpp", MSG+"WriteMultipleRegistersResponseImpl.cpp", MSG+"IMessage.cpp", MSG+"ExceptionType.cpp"],
 [("response parsing", MSG+"*ResponseImpl.cpp"), ("function code / exception parsing", MSG+"IMessage.cpp"), ("request to response dispatch", CS+"ClientSessionImpl.cpp")],
 observe=["response handlers"])

prop("C03", "Server answers every request PDU as the Modbus specification demands",
 "For every PDU addressed to an attached session the server hands a well-formed request, decoded exactly, to that session once and sends back exactly one frame with the request's transaction and unit identifiers carrying the session's response or the session's Modbus exception; an unknown function code gets exception 1 and an illegal quantity, byte count or coil value gets exception 3 without reaching the session. A PDU with the wrong length for its function, or a session error that is not a Modbus exception, gets no answer. No PDU makes the server crash, read outside the PDU or stop serving.",
 ["inputs"],
 "All 256 function codes; every quantity and byte count, all truncations/extensions, all coil values of interest; responses of every size a session can legally return.",
 "Upstream's server channel tests are not built here and try one valid and few invalid requests per function.",
 [SC+"ServerChannelTcp.cpp", MSG+"ReadBitsRequestImpl.cpp", MSG+"ReadRegistersRequestImpl.cpp", MSG+"WriteMultipleCoilsRequestImpl.cpp", MSG+"WriteMultipleRegistersRequestImpl.cpp", MSG+"WriteSingleCoilRequestImpl.cpp", MSG+"WriteSingleRegisterRequestImpl.cpp", MSG+"ExceptionResponse.cpp", MSG+"ReadBitsResponseImpl.cpp", MSG+"ReadRegistersResponseImpl.cpp"],
 [("request dispatch", SC+"ServerChannelTcp.cpp on_mbap/process_message"), ("request parsing", MSG+"*RequestImpl.cpp"), ("exception replies", MSG+"ExceptionResponse.cpp")],
 observe=["session callbacks", "bytes sent to the connected client"])

prop("C04", "Framing does not depend on how TCP segments the stream",
 "The messages a client or a server acts on are a function of the byte stream alone: splitting or coalescing it into any sequence of reads yields the same handled messages, in the same order, each handled as soon as its last byte has arrived. Frames with a foreign protocol identifier, with length 0, with an empty PDU or longer than the maximum never desynchronise the stream and are never taken for a valid message, so every valid frame after them is still handled.",
 ["inputs", "schedules"],
 "All segmentations of short streams mixing valid, foreign, empty, zero-length and oversized frames (all cut sets up to a bound, all single and double cuts beyond), on both client and server side.",
 "Existing parser tests use a few fixed segmentations and are not built here; the property quantifies over all cut sets and junk mixes.",
 [MSG+"mbap/MbapParser.cpp", MSG+"mbap/MbapParser.h", SC+"ServerConnectionListener.cpp", CC+"ClientChannelTcp.cpp"],
 [("incremental frame parser", MSG+"mbap/MbapParser.cpp")],
 state=[("partial frame", "bytes of the frame being received and how many are still missing", MSG+"mbap/MbapParser.h")],
 observe=["session callbacks and answers (server)", "response handlers (client)"])

prop("C05", "Client and server of the library agree end to end with a register map",
 "A history of requests sent through a client session to a server channel serving the in-memory database returns exactly what a plain register map would return for the same history: reads return the last values written or initially added, writes are confirmed with what was written, addresses that do not exist give illegal data address and change nothing. This holds for several sessions with different units and however the network splits the traffic.",
 ["inputs", "histories", "schedules"],
 "All operation sequences up to a depth over a small alphabet of operations (every kind, present/absent/straddling ranges) through both real endpoints joined by a simulated network, all delivery splits up to a bound.",
 "No test runs client and server together; the per-message tests cannot show that both ends agree for every history.",
 ["lib/src/", INC],
 [("whole stack", "lib/src/client, lib/src/messages, lib/src/server")],
 observe=["response handlers", "database contents"])

prop("C06", "In-memory database behaves as four independent address maps",
 "For every history of additions, client requests and transactions, coils, discrete inputs, holding registers and input registers behave as four independent maps: adding an existing address reports failure and keeps its value, reads return every requested address with its current value in order, a write changes exactly the addressed entries. A request touching any address that does not exist is answered with illegal data address and leaves all four maps unchanged, and a transaction sees and makes its changes in the same maps, failing only for absent addresses.",
 ["histories", "inputs"],
 "All operation sequences up to a depth over small alphabets with holes, adjacent blocks and both ends of the address space, and all 16-bit edge addresses, compared to a reference model after every operation.",
 "Existing tests run one fixed scenario per function on one small layout; they do not cover histories, the address-space ends or non-interference between the four maps.",
 ["lib/src/server/db/InMemoryDatabase.cpp", INC+"server/db/InMemoryDatabase.h", "lib/src/server/db/SingleTypeDatabase.cpp", INC+"server/db/IDatabase.h"],
 [("request handlers", "lib/src/server/db/InMemoryDatabase.cpp"), ("range validation before update", "lib/src/server/db/SingleTypeDatabase.cpp")],
 state=[("four maps", "address to value for each data type", INC+"server/db/InMemoryDatabase.h")],
 observe=["return values and responses of the database"])

prop("C07", "In-memory database operations and transactions are atomic under concurrency",
 "When several threads issue requests, additions and transactions on one in-memory database, the results and the final contents are those of some sequential order of the same operations consistent with each thread's own order and with real time. A multiple write or a transaction is therefore never observed half done, no update is lost, there is no data race and no deadlock, and a transaction that throws leaves the database usable.",
 ["schedules"],
 "All interleavings, at memory-access granularity up to a preemption bound, of two or three threads performing one to three operations on colliding addresses.",
 "The tests of the database are single-threaded; atomicity quantifies over all schedules.",
 ["lib/src/server/db/InMemoryDatabase.cpp", INC+"server/db/InMemoryDatabase.h"],
 [("one mutex around every operation", "lib/src/server/db/InMemoryDatabase.cpp")],
 state=[("mutex and maps", "the protected state", INC+"server/db/InMemoryDatabase.h")],
 observe=["results of concurrent operations", "contents afterwards"])

prop("C08", "Single-type database: ranges exist only when contiguous, updates all-or-nothing",
 "For every set of addresses added (in any order) and every non-empty range, a range is valid, readable and writable exactly when each of its addresses has been added; a range never wraps past the last address 65535. Reading yields each address's latest value in order; writing a valid range changes exactly those addresses; any operation on an invalid range or address reports failure and changes neither the database nor the caller's output. Adding an address that exists reports failure and keeps its value.",
 ["inputs", "histories"],
 "All subsets of small address windows at both ends of the address space and in the middle, all ranges over them, all operation sequences up to a depth, for bits and registers.",
 "Existing tests check one layout (with one hole) and a handful of ranges.",
 ["lib/src/server/db/SingleTypeDatabase.cpp", INC+"server/db/SingleTypeDatabase.h"],
 [("range validation", "lib/src/server/db/SingleTypeDatabase.cpp is_valid_range"), ("ordered map iteration", "lib/src/server/db/SingleTypeDatabase.cpp")],
 observe=["return values", "output vectors", "contents"])

prop("C09", "Every client request gets exactly one outcome",
 "While a channel is not shut down, the handler of every request sent is called exactly once, within its timeout counted from when it is transmitted: with the response, the Modbus exception, a malformed message error, a connection error or a timeout. It is never called twice and never forgotten, whatever the peer, the network, the resolver and other requests do. No handler is called from within the call that sends the request.",
 ["schedules", "fault_sequences"],
 "All sequences up to a depth of sends, responses (right, wrong, late, garbage), connection events (resolve/connect failure, reset, end of stream, blocked or short writes) and clock advances, with all orders of queued completions up to a deviation bound.",
 "Upstream's channel tests (not buildable here) drive a mock connection through a few fixed orders.",
 [CC+"ClientChannelTcp.cpp", CC+"AsioClientTcpConnection.cpp", CS+"ClientSessionImpl.cpp"],
 [("pending queue, current request and its timer", CC+"ClientChannelTcp.cpp"), ("error propagation from the connection", CC+"AsioClientTcpConnection.cpp")],
 state=[("current request", "the request awaiting its response", CC+"ClientChannelTcp.h"), ("pending requests", "accepted but not transmitted", CC+"ClientChannelTcp.h")],
 observe=["handler invocations"])

prop("C10", "Client keeps one outstanding request, in order, and matches responses strictly",
 "A channel transmits requests in the order they were sent, each once, and never transmits one while an earlier one still awaits its outcome, across all sessions of the channel. A handler receives data only from a frame that carries its own transaction identifier and unit identifier and is handled while that request is outstanding; any other frame has no effect on any request. The bytes of transmitted frames are never interleaved, lost, repeated or altered on a connection, even if the socket accepts them slowly or in pieces.",
 ["schedules", "fault_sequences", "inputs"],
 "All sequences up to a depth of sends on two sessions, matching and non-matching frames, timeouts, short and blocked writes.",
 "Fixed-order mock tests only; strict matching must hold for every frame and order.",
 [CC+"ClientChannelTcp.cpp", CC+"AsioClientTcpConnection.cpp"],
 [("sequential queue", CC+"ClientChannelTcp.cpp check_pending_requests"), ("transaction and unit comparison", CC+"ClientChannelTcp.cpp on_mbap_message"), ("write buffer ownership", CC+"AsioClientTcpConnection.cpp")],
 observe=["bytes on the wire", "handler results"])

prop("C11", "Timeouts fire on time, once, and late responses are ignored",
 "A request that gets no matching response gets a timeout error when, and not before, its own timeout has elapsed since it was transmitted; a response arriving earlier always wins. After a timeout the channel goes on with the next request, and a late response to the timed-out request is neither delivered nor mistaken for another request's response. A timer belonging to a finished request never affects a later one.",
 ["schedules", "fault_sequences"],
 "All orders of response arrival, timer expiry and queued work around the deadline for sequences of requests with different timeouts (session default and per call).",
 "Timer races depend on the order in which expired timers and received data are queued, which no test controls.",
 [CC+"ClientChannelTcp.cpp", CS+"ClientSessionImpl.cpp"],
 [("per-request timer", CC+"ClientChannelTcp.cpp check_pending_requests"), ("default timeout", CS+"ClientSessionImpl.cpp")],
 observe=["time and kind of each handler call"])

prop("C12", "Client recovers from every connection failure",
 "After any sequence of connection failures (name resolution or connect errors, reset or end of stream at any point, write failures, garbage left half received) the next request opens a new connection and, if the peer is then reachable and answers, succeeds. Data or errors of an old connection never affect requests transmitted on a newer one. When a connection fails, requests outstanding or waiting at that moment get a connection error at once, and none of them is transmitted later.",
 ["fault_sequences", "schedules"],
 "All fault sequences up to a depth at every step of resolve/connect/send/receive, followed by a probe request against a healthy peer.",
 "Only one reconnect scenario is tested upstream, against a real socket and not in this build.",
 [CC+"AsioClientTcpConnection.cpp", CC+"ClientChannelTcp.cpp", MSG+"mbap/MbapParser.cpp"],
 [("connection state machine", CC+"AsioClientTcpConnection.cpp"), ("parser reset and failing of requests on error", CC+"ClientChannelTcp.cpp on_error")],
 state=[("connection status", "not connected, connecting, connected", CC+"AsioClientTcpConnection.h")],
 observe=["connection attempts", "handler results"])

prop("C13", "Scheduled requests poll as documented",
 "A scheduled request sends its first request immediately and then, after each outcome (response, error or timeout), waits the polling period and sends the next; after stop takes effect no further request is sent; start resumes polling immediately unless it is already running. In any sequence of start and stop calls there is a single polling cycle: after each start its requests are never closer than the period to the previous outcome and never sent while one of them awaits its outcome, so polling never doubles. A changed period applies from the next wait on, and shutting the session or the channel down ends all polling.",
 ["schedules", "histories"],
 "All sequences up to a depth of start, stop, period changes, responses, timeouts, clock advances and shutdown, with deferred execution of queued work up to a deviation bound, for all four read kinds.",
 "Upstream tests use a mock session and single start/stop; they are not built here.",
 [CS+"ScheduledRequest.hpp", CS+"ClientSessionImpl.cpp", INC+"client/IScheduledRequest.h"],
 [("running flag and timer", CS+"ScheduledRequest.hpp")],
 state=[("running", "whether polling is active", CS+"ScheduledRequest.h")],
 observe=["requests on the wire with their times", "is_running, get_frequency"])

prop("C14", "Shutdown quiesces: no callbacks, no traffic, nothing leaked",
 "After a channel's shutdown has been carried out, no response handler is called, no request is transmitted or accepted, no server session is invoked and no connection is accepted or answered. Shutting down or destroying the manager at any moment shuts everything down, returns in bounded time with its background work ended (no handler runs afterwards) even with requests outstanding, polling active or connections open, and destruction releases every socket, timer, session and handler. Sessions attached to a server are told once.",
 ["schedules", "fault_sequences", "histories"],
 "Shutdown of channel, server or manager injected at every step of bounded histories of client and server activity, including repeated shutdown and calls after shutdown.",
 "Tests stop objects only in idle states; the property quantifies over the moment of shutdown.",
 ["lib/src/ModbusManagerImpl.cpp", CC+"ClientChannelTcp.cpp", CC+"AsioClientTcpConnection.cpp", CS+"ClientSessionImpl.cpp", SC+"ServerChannelTcp.cpp", SC+"AsioServer.cpp", SC+"AsioServerTcpConnection.cpp"],
 [("shutdown flags checked by every handler", "lib/src/**"), ("cancellation of timers and sockets", "lib/src/**")],
 observe=["handler calls and traffic after shutdown", "live objects after destruction", "background work left"])

prop("C15", "Server connection limit evicts the oldest and never blocks newcomers",
 "At any time at most the configured number of client connections is being served; when a new client connects beyond that, the oldest connection is closed and the new one is served. A connection that ends or fails frees its slot, and failures of accepting or of individual connections never stop the server from accepting and serving others.",
 ["histories", "fault_sequences"],
 "All sequences up to a depth of connects, disconnects, resets, accept failures and requests for limits 1 to 3.",
 "One upstream test (not built here) opens connections in one order.",
 [SC+"AsioServer.cpp", SC+"AsioServerTcpConnection.cpp"],
 [("connection list and counter", SC+"AsioServer.cpp"), ("accept loop", SC+"AsioServer.cpp")],
 state=[("connections", "open connections, oldest first", SC+"AsioServer.h")],
 observe=["which connections are open and answered"])

prop("C16", "Server responses reach the right client intact, in request order",
 "Each connected client receives, in the order of its own requests, exactly the complete response frames for them, byte for byte, and nothing else, however requests are pipelined or split and however slowly or piecemeal the socket accepts data. One client's traffic, garbage or disconnection never alters, delays indefinitely or misroutes another's responses.",
 ["schedules", "fault_sequences"],
 "All interleavings up to a bound of pipelined requests on one to three connections with blocked, short and failing writes and disconnects.",
 "Tests use a mock connection that always accepts everything at once.",
 [SC+"AsioServerTcpConnection.cpp", SC+"ServerConnectionListener.cpp", SC+"ServerChannelTcp.cpp"],
 [("write buffer ownership", SC+"AsioServerTcpConnection.cpp"), ("per-connection parser", SC+"ServerConnectionListener.h")],
 observe=["bytes received by each client"])

prop("C17", "Requests reach exactly the session attached for their unit",
 "A request is handled by the session most recently attached for its unit identifier, even while connections are active, and by no other; a request for a unit without a session gets no answer. A session that does not implement a function answers it with the illegal-function exception, and whatever Modbus exception a session returns is what the client sees.",
 ["histories", "inputs"],
 "All sequences up to a depth of attaching/replacing sessions and requests over all 256 units, with every function and every exception code.",
 "Tests attach one session once.",
 [SC+"ServerChannelTcp.cpp", INC+"server/IServerSession.h", INC+"server/IServerChannel.h"],
 [("session table", SC+"ServerChannelTcp.cpp add_session/on_mbap"), ("default handlers", INC+"server/IServerSession.h")],
 state=[("sessions", "unit to session", SC+"ServerChannelTcp.h")],
 observe=["session callbacks", "answers"])

prop("C18", "Expected holds exactly one value or one error, through copies and moves",
 "An expected result holds either its value or its error, and validity, value, error type and error contents are preserved by any sequence of copies and moves; each contained object is destroyed exactly once. Accessing the value of an error rethrows that very error, and asking for an error that is not there fails with invalid-argument. An error matches its own type and its base types only.",
 ["histories", "inputs"],
 "All sequences up to a depth of construction, copy, move, query and destruction over values, errors and error hierarchies.",
 "No test exercises the type directly; it is used only in passing.",
 [INC+"Expected.h", INC+"exceptions/ModbusException.h", INC+"exceptions/IException.h"],
 [("tagged union with manual lifetime", INC+"Expected.h")],
 observe=["is_valid/get/has_exception/get_exception", "object lifetimes"])

prop("C19", "Identifiers and exception codes convert losslessly and compare consistently",
 "Unit identifiers, transaction identifiers and endpoints keep the value they were given, equality, inequality and hashing agree with that value, and incrementing a transaction identifier steps to the next value and wraps from 65535 to 0. Every Modbus exception code of the protocol (1 to 6, 8, 10, 11) maps to its named exception and back to the same code, and every other code maps to unknown. Each prints as its value in hexadecimal or as its exception's name.",
 ["inputs"],
 "All 256 unit identifiers, all 65536 transaction identifiers and ports, all 256 exception codes, pairwise where relations are concerned.",
 "Tests check single examples; MemoryParityError's wire value is not covered.",
 ["lib/src/UnitIdentifier.cpp", "lib/src/TransactionIdentifier.cpp", "lib/src/Ipv4Endpoint.cpp", MSG+"ExceptionType.cpp", INC+"messages/ExceptionType.h", INC+"UnitIdentifier.h", INC+"Ipv4Endpoint.h"],
 [("value classes", "lib/src/*Identifier.cpp"), ("exception table", MSG+"ExceptionType.cpp and ExceptionType.h")],
 observe=["return values"])

prop("C20", "The public API is thread-safe",
 "Calling the public operations of a manager, its channels, sessions and scheduled requests (and starting and cancelling timers, each timer in one thread) concurrently from several application threads, while the library's own threads handle traffic, never causes a data race, a crash or a deadlock, and no call's effect is lost. Handlers of one channel never run concurrently with each other.",
 ["schedules"],
 "All interleavings, up to a bound on scheduling deviations, of two application threads, two pool threads and the network executing every pair of public operations, with every memory access checked for races by vector clocks.",
 "Tests call the API from a single thread.",
 ["lib/src/ModbusManagerImpl.cpp", CC+"ClientChannelTcp.cpp", CS+"ClientSessionImpl.cpp", CS+"ScheduledRequest.hpp", SC+"ServerChannelTcp.cpp"],
 [("everything posted to a per-channel strand", "lib/src/**"), ("mutex around the manager's channel lists", "lib/src/ModbusManagerImpl.cpp")],
 observe=["data races, results of the calls"])

prop("C21", "Logging honours levels and never changes behaviour",
 "A message reaches every sink of the logger it was given to exactly when its severity is at or above that logger's level, with its text, name and severity intact; loggers derived from it write to the same sinks under their own name and their own level (info unless given) without affecting the original or each other. The null logger emits nothing.",
 ["inputs", "histories", "configurations"],
 "All pairs of logger level and message severity, all chains of derived loggers up to a depth, all level changes.",
 "No test covers logging.",
 ["lib/src/logging/Logger.h", "lib/src/logging/LoggerFactory.cpp", "lib/src/logging/LoggingLevelConversion.h", INC+"logging/LoggerFactory.h", INC+"logging/LoggingLevel.h"],
 [("level conversion", "lib/src/logging/LoggingLevelConversion.h"), ("logger cloning", "lib/src/logging/Logger.h")],
 observe=["messages reaching a custom sink"])

prop("C22", "Custom timers run once at their time unless cancelled first",
 "A timer started on a session runs its action exactly once, at its expiry and not before, unless it is cancelled before the action has been queued, in which case it never runs; it reports the expiry it was given. Cancelling one timer, cancelling twice or after expiry, or dropping the handle has no effect on any other timer or request.",
 ["schedules", "histories"],
 "All sequences up to a depth of starting (relative and absolute), cancelling and clock advances for several timers, including expiries in the past and equal expiries.",
 "Timers are not tested upstream.",
 ["lib/src/TimerWrapper.cpp", CS+"ClientSessionImpl.cpp", INC+"ITimer.h"],
 [("timer wrapper", "lib/src/TimerWrapper.cpp"), ("start", CS+"ClientSessionImpl.cpp")],
 observe=["action invocations and their times", "expires_at"])

prop("C23", "Channels use the endpoint and adapter they were given",
 "A client channel opens connections only to the addresses that its endpoint's host name resolves to, at its endpoint's port and from the adapter it was given: they are tried one at a time in the order resolved until one accepts, and if no address can be reached or the adapter cannot be used, the requests waiting get a connection error at once. A server channel listens on exactly its endpoint from its creation to its shutdown, serves clients only once started, and creating one whose endpoint cannot be used fails with an exception and affects nothing else.",
 ["configurations", "fault_sequences", "histories"],
 "All combinations of hosts, ports and adapters (none, usable, of the other family, not an address) with every sequence up to a depth of requests, resolution answers with up to three addresses, attempts accepted, refused or left silent, broken connections, and adapters and sockets that stop and start working; every sequence up to a depth of creating (on equal, overlapping and distinct endpoints), starting, connecting to and shutting down servers.",
 "No test connects through a name, an adapter or more than one address, and none creates two servers.",
 [CC+"AsioClientTcpConnection.cpp", SC+"AsioServer.cpp", "lib/src/ModbusManagerImpl.cpp", "lib/src/Ipv4Endpoint.cpp"],
 [("resolution, adapter binding and connection attempts", CC+"AsioClientTcpConnection.cpp"), ("acceptor", SC+"AsioServer.cpp"), ("channel creation", "lib/src/ModbusManagerImpl.cpp")],
 observe=["names resolved, addresses connected to and from", "listening sockets", "outcomes of requests"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
