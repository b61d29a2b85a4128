#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit the prose; run to regenerate).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

I = "include/"
prop("C01", "Framing round-trip under any stream fragmentation",
 "For every packer and its matching unpacker (length+body, flexible, non-copy, pointer-wrapped, fixed-length, prefix/suffix, raw stream; stripped or unstripped where supported), the messages packed by one side and read back by the other through the receive protocol (offer a buffer, read until the unpacker says stop, parse) are the same messages, in the same order, byte for byte, however the byte stream is split and coalesced. Heartbeats packed between messages are swallowed and disturb nothing, and after a reset an unpacker behaves like a freshly constructed one. The raw-data accessors of packer and unpacker always designate exactly the user's body.",
 ["inputs", "histories"], "over all message contents and sizes up to the configured maximum, all ways to pack them (scattered pieces, one, two or many moved buffers), all fragmentations of the byte stream, all unpacker choices and both stripped modes",
 "The existing tests run whole programs over loopback where the kernel nearly always delivers whole messages with one packer; they sample almost none of the (message sizes x split points x unpackers) space.",
 [I+"ext/packer.h", I+"ext/unpacker.h", I+"base.h"],
 [("packers add head / prefix+suffix", I+"ext/packer.h packer::pack_msg, prefix_suffix_packer::pack_msg"),
  ("unpackers keep a half-baked tail and current length between reads", I+"ext/unpacker.h *::parse_msg, *::completion_condition, *::prepare_next_recv")],
 [("cur_msg_len / remain_len", "length of message being received / bytes of the half-received message", I+"ext/unpacker.h")],
 ["i_packer::pack_msg / pack_heartbeat", "i_unpacker::prepare_next_recv / completion_condition / parse_msg"])

prop("C02", "Arbitrary received bytes are memory-safe, progress and keep earlier messages",
 "Whatever bytes arrive and however they are split, an unpacker never reads or writes outside its buffers, never exposes uninitialised or foreign bytes in a message, never delivers a message longer than the configured maximum, and never gets into a state in which it asks for zero more bytes without either delivering a message or reporting an unpack error. The messages delivered are exactly those of an independent specification decoder of the protocol: every well-formed message that precedes the first malformed byte is delivered, malformed framing is reported as an unpack error, and nothing is invented.",
 ["inputs"], "over all byte streams (valid, mutated, truncated, random) and all fragmentations, for every stock unpacker",
 "No test sends malformed data; the demos only talk to themselves.",
 [I+"ext/unpacker.h", I+"tcp/socket.h"],
 [("length checks in parse and completion condition", I+"ext/unpacker.h"), ("on_unpack_error + reset", I+"tcp/socket.h socket_base::parse_msg")],
 [], ["i_unpacker::parse_msg results", "tcp::socket_base::on_unpack_error"])

prop("C03", "A packer emits a parsable frame or fails cleanly",
 "Packing succeeds only with a frame whose total length fits the configured maximum and the header field, and such a frame always decodes back to the packed body; a body that cannot be represented (over the maximum, length arithmetic overflow, null piece arrays) is refused by every packing overload, leaving nothing half-packed in the output, never a truncated header. Native packing emits the bytes unchanged, and when a send is refused for this reason nothing of it reaches the peer.",
 ["inputs", "configurations"], "over all piece arrays, body sizes around every limit, message-size and header-width configurations and packing overloads",
 "Tests pack a few small strings with one configuration.",
 [I+"ext/packer.h", I+"ext/ext.h", I+"base.h"],
 [("msg_size_check / pack_header", I+"ext/packer.h packer_helper")], [], ["i_packer::pack_msg return value and output"])

prop("C04", "TCP delivery is exactly-once, in-order and intact",
 "While a TCP link stays up, every message accepted for sending is delivered to the peer's message handler exactly once and byte-identical, messages accepted from one thread without priority arrive in the order they were accepted, a message sent as several buffers is never interleaved with another message, and nothing arrives that was not sent. This holds for concurrent senders on many threads, for all sending interfaces (packed, native, direct, safe, broadcast, by socket id), for partial writes and reads by the kernel, for priority sends (which stay whole and may only overtake messages not yet handed to the kernel), and for every queue and container configuration.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "over all interleavings of senders and service threads, message sizes, kernel short reads/writes and queue configurations",
 "The echo and ping-pong tests use few threads with small messages and mostly check totals; they do not reach short writes, racing senders, multi-buffer messages or priority.",
 [I+"tcp/socket.h", I+"socket.h", I+"container.h", I+"base.h", I+"tcp/server.h", I+"socket_service.h"],
 [("single writer flag + strand", I+"socket.h sending/test_and_set_sending, rw_strand"), ("batch write and splice", I+"tcp/socket.h do_send_msg/send_handler"), ("locked queue", I+"container.h queue")],
 [("send_buffer/sending_msgs", "queued / in-flight messages", I+"tcp/socket.h")],
 ["send_msg return value", "on_msg_handle/on_msg of the peer"])

prop("C05", "No lost wake-up: accepted messages get sent, received ones get handled",
 "While a link is up, a message accepted into the send buffer is eventually handed to the kernel, and a message received is eventually offered to the handler, without any further call by the user: after senders go quiet the send buffer drains to empty, after reception paused for a full receive buffer it resumes once room is made, and after a handler declined a message it is offered again. Equally, sends made before the link is ready are sent when it becomes ready.",
 ["schedules", "configurations"], "over all interleavings of the last enqueue with the end of a send, of a pause with its resumption, and of handler refusals",
 "A lost wake-up needs one particular interleaving between enqueue and completion; a test that happens not to hit it passes, and following traffic hides it.",
 [I+"socket.h", I+"tcp/socket.h", I+"udp/socket.h"],
 [("clear_sending then re-check of the queue", I+"tcp/socket.h do_send_msg"), ("TIMER_CHECK_RECV polling", I+"socket.h handled_msg"), ("TIMER_DISPATCH_MSG", I+"socket.h do_dispatch_msg")],
 [("sending", "1 while an async write is in flight", I+"socket.h")], ["get_pending_send_msg_size", "on_msg_handle"])

prop("C06", "Message handlers run one at a time, in order, and refusals are retried in place",
 "For one socket, the asynchronous message handler is never run concurrently with itself and sees messages in arrival order; a message it declines is offered again, unchanged and before any later message, until it accepts, and is then never offered again. In batch mode the handler sees exactly the not-yet-consumed messages in order; with synchronous dispatch the synchronous handler sees each batch first, never concurrently with itself, and exactly the messages it leaves behind go to the asynchronous handler.",
 ["schedules", "histories", "configurations"], "over all thread schedules, refusal patterns and batch-consumption patterns, single and batch dispatch, with and without synchronous dispatch",
 "The demo handlers always accept immediately, and nothing checks for overlap or order under refusals.",
 [I+"socket.h"], [("dis_strand and dispatching flag", I+"socket.h do_dispatch_msg"), ("handle_msg", I+"socket.h handle_msg")],
 [("dispatching_msg", "message being offered", I+"socket.h")], ["on_msg_handle", "on_msg"])

prop("C07", "Flow control bounds both buffers",
 "A non-overflowing send is refused exactly when the queued bytes have reached the configured send-buffer size, so single-threaded non-overflowing sends never take the buffer beyond that size by more than one message, whereas overflow-allowed sends are always accepted; safe sends wait and then succeed while the link is up. Reception pauses while received-but-unhandled bytes have reached the configured receive-buffer size, so they never exceed it by more than one read's worth of messages, and the peer is back-pressured rather than data being lost.",
 ["inputs", "schedules", "configurations"], "over all message sizes, buffer-size settings (changed at run time), handler speeds and thread counts",
 "Tests never make the consumer slower than the producer.",
 [I+"socket.h", I+"container.h", I+"base.h"],
 [("is_send_buffer_available / shrink_send_buffer", I+"socket.h"), ("check_receiving", I+"socket.h"), ("safe send retry", I+"base.h TCP_SAFE_SEND_MSG")],
 [], ["get_pending_send_msg_size, get_pending_recv_msg_size, send_msg return value"])

prop("C08", "Socket lifecycle callbacks are well-formed and nothing runs after close",
 "For every established link, each side gets the connected notification, then callbacks about received messages, then exactly one close notification (a message sent by another thread may already be reported as sent once the link is ready), whatever closes it (peer, local shutdown of any kind, error, heartbeat timeout, unpack error, service stop) and however many such causes race. With delayed closing disabled, no message, send, timer or user-posted callback of that socket runs concurrently with or after its close notification, and no memory of a socket is touched after it was freed, under arbitrary connect/disconnect churn.",
 ["schedules", "fault_sequences", "histories"], "over all interleavings of closing causes with pending I/O, timers and user handlers, repeatedly over pooled, reused and reconnected sockets",
 "Tests shut down a handful of quiet links; use-after-free and double-close windows need racing closers with pending work.",
 [I+"socket.h", I+"tcp/socket.h", I+"tcp/client_socket.h", I+"tcp/server_socket.h", I+"tracked_executor.h", I+"timer.h"],
 [("start_atomic + started_ in close()", I+"socket.h close"), ("async call indicator and TIMER_DELAY_CLOSE", I+"tracked_executor.h, "+I+"socket.h timer_handler")],
 [("aci", "reference counted async-call indicator", I+"tracked_executor.h"), ("started_/obsoleted_", "life-cycle flags", I+"socket.h")],
 ["on_connect, on_recv_error, on_close, after_close, on_msg_handle, timers, post"])

prop("C09", "The object pool is a consistent set of live objects",
 "At any time a pool contains each live object under exactly one id, ids of objects in the pool are unique, lookup by id or index and traversal return exactly the members, deleting removes an object from the set at once (never destroying it while someone else still holds it or its asynchronous work is unfinished), and the pool never holds more valid objects than its configured maximum. Changing an id or restoring a former id succeeds only if the result keeps ids unique and never loses or duplicates an object; a reused object comes back with clean state (empty buffers, fresh statistics, a new unique id).",
 ["histories", "schedules", "configurations"], "over all sequences and interleavings of create, add, delete, find, traverse, change-id, restore, invalidate and free operations, with reuse/restore on and off",
 "Tests never delete, reuse, restore or renumber sockets concurrently, nor reach the size limit.",
 [I+"object_pool.h", I+"tcp/server.h", I+"tcp/client.h", I+"udp/socket_service.h"],
 [("object_can + invalid_object_can under mutexes", I+"object_pool.h"), ("free only unique and obsoleted objects", I+"object_pool.h free_object")],
 [("object_can", "id -> object", I+"object_pool.h"), ("invalid_object_can", "objects waiting for reuse or free", I+"object_pool.h")],
 ["object_pool public interface", "server_base::restore_socket"])

prop("C10", "Clients reconnect as configured and keep unsent messages",
 "After a link is lost or a connection attempt fails, a client socket whose reconnecting is on tries again after its configured delay, for as long as it keeps failing and until a delay below zero is returned, and resumes normal operation (connected notification, sending, receiving) when the server is back; with reconnecting off, or after a shutdown asked not to reconnect, it makes no further attempt and is removed from its container. Messages accepted but not yet handed to the kernel survive the reconnection and are delivered, whole and in order, on the new link; a fresh link never starts with leftover partial input of the old one.",
 ["fault_sequences", "histories", "schedules"], "over all points at which the server refuses, dies, cuts the link mid-message or comes back, and all shutdown calls with and without reconnect",
 "The tests keep the server up for the whole life of each client.",
 [I+"tcp/client_socket.h", I+"tcp/client.h", I+"socket.h", I+"tcp/socket.h"],
 [("after_close / prepare_next_reconnect", I+"tcp/client_socket.h"), ("TIMER_CONNECT", I+"tcp/client_socket.h")],
 [("need_reconnect", "whether to reconnect after close", I+"tcp/client_socket.h")], ["on_connect, prepare_reconnect, on_close", "server side accept log"])

prop("C11", "Service pump start, stop and restart are complete and repeatable",
 "After stop_service returns, no callback of any attached service, socket or timer is running or will run until the service is started again, all service threads have ended, and every attached service's finalisation ran once; after that or a natural end the pump can be started again and works as before, any number of times. Each io_context's reference count equals the objects assigned to it and new objects go to a least-loaded one; threads added or removed at run time change the thread count accordingly and never leave the pump without one.",
 ["histories", "schedules", "configurations"], "over all sequences of start/stop/run/end/restart, services added and removed, io_context and thread numbers, with work in flight",
 "Tests start and stop each program once.",
 [I+"service_pump.h", I+"socket_service.h", I+"single_service_pump.h", I+"timer.h"],
 [("do_service/end_service/wait_service", I+"service_pump.h"), ("assign_io_context/return_io_context", I+"service_pump.h"), ("attach/detach refs", I+"timer.h")],
 [("context_can", "io_contexts with refs and threads", I+"service_pump.h")], ["service_pump public interface", "any callback's thread and time"])

prop("C12", "Timers fire as specified and never after being stopped",
 "A started timer calls its callback no earlier than its interval, repeats with that interval exactly as long as the callback returns true, and stops when it returns false unless the callback restarted it. Stopping a timer from its own execution context, from within its callback or by closing its object guarantees that its callback does not run again until it is restarted, even if an expiry was already queued; restarting replaces the pending expiry so there is never more than one pending expiry, and one timer's callbacks never overlap (unless a callback restarts its own timer and keeps running), while timers with different ids are independent.",
 ["histories", "schedules"], "over all sequences of set/start/stop/update/restart issued inside and outside callbacks, for many timers at once, aligned and not",
 "Tests use timers only implicitly; double expiries and stale callbacks need stop/restart exactly between expiry and callback.",
 [I+"timer.h"], [("status and sequence number checks", I+"timer.h timer_handler/stop_timer/start_timer")],
 [("timer_info::status/seq", "state machine of one timer", I+"timer.h")], ["timer callbacks", "is_timer, start_timer, stop_timer return values"])

prop("C13", "Dead links are detected by heartbeat and live ones are not",
 "With heartbeat checking on, a link on which nothing was received for interval x max-absence seconds is reported as a heartbeat error and closed by default, within one further check interval; a link whose peer keeps sending complete messages or heartbeats, however sparse within that limit (times are kept in whole seconds), is never closed for that reason, not even while this side holds up the receiving because its own buffer is full. Heartbeats are sent when the link has been quiet for an interval, are visible to the peer only as liveness (never as a message), and never corrupt or split other messages.",
 ["schedules", "histories", "configurations"], "over all traffic patterns (silent, one-way, only heartbeats, bursts around the deadline), TCP and UDP, and all intervals",
 "The demos use heartbeat at most with both ends healthy.",
 [I+"socket.h", I+"tcp/socket.h", I+"udp/socket.h", I+"ext/packer.h", I+"ext/unpacker.h"],
 [("check_heartbeat", I+"socket.h"), ("send_heartbeat", I+"tcp/socket.h, "+I+"udp/socket.h")],
 [("stat.last_recv_time / last_send_time", "last activity", I+"socket.h")], ["on_heartbeat_error, on_close, on_msg_handle"])

prop("C14", "Shutdown calls end the link in bounded time and lose nothing already sent",
 "Force and graceful shutdown, disconnect, unpack-error shutdown and peer-initiated shutdown all end with both sockets closed and their close notifications delivered within a bounded time, whether or not the peer cooperates, and may be called repeatedly, and (except where documented as not thread safe) concurrently and from any thread, without crash or hang. Graceful shutdown lets every byte already written and everything the peer sends before it closes its side be received before the close notification; if the peer never closes, the link is closed after the configured limit.",
 ["schedules", "fault_sequences"], "over all combinations of shutdown kinds, callers, peers (cooperative, silent, flooding, dead) and pending traffic",
 "Tests shut down idle links with cooperative peers only.",
 [I+"tcp/socket.h", I+"tcp/client_socket.h", I+"tcp/server_socket.h", I+"tcp/server.h", I+"socket.h"],
 [("graceful_shutdown/TIMER_ASYNC_SHUTDOWN", I+"tcp/socket.h"), ("force_shutdown/close", I+"tcp/socket.h, "+I+"socket.h")],
 [("status", "link status machine", I+"tcp/socket.h")], ["is_broken/is_connected/is_shutting_down, on_close, received data"])

prop("C15", "Synchronous send and receive tell the truth and always return",
 "A synchronous send returns success only after the message was handed to the kernel whole, returns failure (not applicable) when the link broke or the message was discarded, and returns a timeout only after at least the given duration; a synchronous receive returns success with exactly the next messages of the stream (each delivered to exactly one of the synchronous receive and the handlers), a duplicate result only while another receive is outstanding. Every such call returns: with a time limit within it, and without one at the latest when the link goes down for good or the service stops.",
 ["schedules", "fault_sequences", "configurations"], "over all interleavings of synchronous callers, asynchronous traffic, timeouts, link loss and service stop",
 "No stable test uses synchronous calls under link failure; a wrong result or hang needs the failure between enqueue and completion.",
 [I+"socket.h", I+"base.h", I+"tcp/socket.h", I+"udp/socket.h"],
 [("promise per message", I+"base.h obj_with_begin_time_promise"), ("sr_status + condition variable", I+"socket.h sync_recv_msg/handle_msg/handle_error")],
 [("sr_status", "state of the synchronous receive", I+"socket.h")], ["sync_send_msg / sync_recv_msg return values and data"])

prop("C16", "UDP keeps datagram boundaries, content and peer address",
 "For UDP over IP and over unix-domain sockets, connected or not, each message sent is one datagram to exactly the addressed peer; each non-empty datagram (up to the receive buffer) received is one message with the same bytes and the sender's address, replies to that address reach that sender, and nothing is merged, split, duplicated, reordered (on loopback) or invented. Over-limit sends are refused, and a failed or unreachable destination never stops delivery to and from other peers.",
 ["inputs", "schedules", "configurations", "fault_sequences"], "over all datagram sizes including one byte and the maximum, many sockets and peers, concurrent senders, unreachable peers",
 "The UDP tests exchange a few lines between two processes.",
 [I+"udp/socket.h", I+"udp/socket_service.h", I+"ext/udp.h", I+"ext/unpacker.h"],
 [("one async_send_to per message", I+"udp/socket.h do_send_msg"), ("temp_addr captured per receive", I+"udp/socket.h recv_handler")],
 [("peer_addr/temp_addr", "default peer / address of last datagram", I+"udp/socket.h")], ["on_msg_handle(msg.peer_addr)"])

prop("C17", "Statistics conserve messages and bytes",
 "At quiescence a socket's sent message and byte counts equal exactly the messages and packed bytes handed to the kernel, its received counts equal exactly the messages and bytes its unpacker produced (so, with unstripped receiving and no heartbeats, sender and receiver totals agree), pending sizes equal the bytes actually queued, and they return to zero when the queues drain. Totals over all sockets of a service equal the sum over its present sockets' counts (a message sent as several buffers counts once per buffer), statistics addition and subtraction are inverse, and counts never decrease while a link is up.",
 ["histories", "schedules"], "over all traffic histories, both directions, with concurrent senders, errors and socket removal",
 "Tests print statistics but nothing compares them with what was actually transferred.",
 [I+"base.h", I+"socket.h", I+"tcp/socket.h", I+"udp/socket.h", I+"object_pool.h", I+"container.h"],
 [("stat updates in send_handler and handle_msg", I+"tcp/socket.h, "+I+"socket.h"), ("total_size maintenance", I+"container.h")],
 [("stat", "per-socket counters", I+"socket.h")], ["get_statistic", "get_pending_*_msg_size"])

prop("C18", "Message buffers behave like byte strings",
 "Every sequence of construction, append, assign, erase, resize, reserve, shrink, clear, swap and copy on the library's dynamic buffer yields the same contents and size as the same sequence on a plain byte string, out-of-range requests throw without changing the buffer, and no operation reads or writes outside owned memory or leaks it. The pointer-wrapping buffers forward emptiness, size and data exactly and own their target once; message wrappers (timestamp, promise, UDP address) copy, move-by-swap and clear without losing or duplicating the payload.",
 ["inputs", "histories"], "over all operation sequences and argument values including zero, maximum and self-referencing ones",
 "No test touches these classes directly.",
 [I+"ext/ext.h", I+"base.h"], [("basic_buffer reserve/append/erase", I+"ext/ext.h"), ("object_buffer, obj_with_begin_time, udp_msg", I+"base.h")],
 [("buff/len/cap", "owned storage", I+"ext/ext.h")], ["public interface of basic_buffer, unique_buffer, shared_buffer, udp_msg"])

prop("C19", "The message queue is a linearizable deque with exact byte accounting",
 "Under concurrent use, the thread-safe queue behaves as some sequential deque consistent with real-time order: every item put in comes out exactly once, items put by one thread at the same end keep their order, a batch moved in or out stays contiguous and in order, and a dequeue fails only if the queue was empty at some moment of the call. The byte size it reports at quiescence always equals the sum of the sizes of the items it holds, after any mixture of operations including swaps, partial moves, moves limited by count or bytes and clears.",
 ["schedules", "histories", "inputs"], "over all interleavings and operation mixtures, item sizes and limits, for locked queues (and the sequential specification for unlocked ones)",
 "The queue is only exercised indirectly, one writer and one reader at a time.",
 [I+"container.h"], [("lock_guard around every operation", I+"container.h queue"), ("total_size", I+"container.h")],
 [("total_size", "bytes queued", I+"container.h")], ["queue public interface"])

prop("C20", "File transfer reproduces files exactly",
 "A file fetched by the file client from the file server equals the original byte for byte for every size (empty, smaller than, equal to and around the chunk and link-count boundaries) and every number of links, files are fetched independently of each other, and a missing file is reported as missing without creating or damaging anything. The server survives malformed requests (unknown commands, truncated heads, offsets beyond the file) from one client without affecting others.",
 ["inputs", "configurations", "histories", "fault_sequences"], "over all file sizes, link counts, sequences of files, and request byte streams",
 "The stable tests fetch a few fixed files.",
 ["file_server/file_socket.cpp", "file_server/file_socket.h", "file_client/file_client.h", "file_client/file_client.cpp", "file_common/file_buffer.h", "file_common/unpacker.h", I+"ext/callbacks.h"],
 [("file_buffer reads chunk by chunk", "file_common/file_buffer.h"), ("link splits offset/length", "file_client/file_client.h"), ("data_unpacker", "file_common/unpacker.h")],
 [], ["bytes of the resulting file", "server liveness"])

prop("C21", "SOCKS4/SOCKS5 negotiation is correct for every proxy behaviour",
 "Connecting through a SOCKS4 or SOCKS5 proxy (no auth or user/password, target by IPv4, IPv6 or domain name) sends exactly the byte sequences the protocol prescribes and, once the proxy grants the request, continues as a transparent link on which every payload byte in both directions is preserved. However the proxy's answers are fragmented, and whatever refusals, malformed or truncated answers it gives, there is no memory error or hang: a refusal or malformed answer never becomes a connected link, and the socket reports the failure.",
 ["inputs", "fault_sequences"], "over all proxy answer streams and fragmentations, address types, host-name and credential lengths",
 "No test uses a proxy at all.",
 [I+"tcp/proxy/socks.h"], [("step state machines recv_handler", I+"tcp/proxy/socks.h")], [("step", "negotiation state", I+"tcp/proxy/socks.h")],
 ["bytes seen by a scripted proxy", "on_connect/on_close"])

prop("C22", "TLS links give the same guarantees as plain ones",
 "Over TLS sockets, messages are delivered exactly once, in order and intact in both directions under concurrent senders, handshake completion precedes the connected notification, a failed handshake (plain-text or garbage peer, disconnect mid-handshake) never yields a connected link nor affects other links or the acceptor, and shutdown of any kind, reconnection and object reuse end with both sides closed once and the next session working.",
 ["schedules", "fault_sequences", "histories"], "over all interleavings of handshakes, traffic, shutdown kinds and peers that misbehave at any handshake byte",
 "The TLS test performs one handshake per run with a cooperative peer and checks printed text.",
 [I+"tcp/ssl/ssl.h", I+"tcp/socket.h", I+"ext/ssl.h"], [("handshake gating on_connect", I+"tcp/ssl/ssl.h"), ("async shutdown", I+"tcp/ssl/ssl.h")],
 [], ["on_handshake, on_connect, on_msg_handle, on_close"])

prop("C23", "WebSocket links give the same guarantees as plain ones",
 "Over WebSocket (plain and TLS, text or binary mode), each message sent is received as exactly one message with identical bytes, exactly once and in order, in both directions, with concurrent senders and any message size up to the configured limit; a failed upgrade handshake or garbage peer never yields a connected link and leaves the acceptor and other links working, and every link ends with one close notification.",
 ["schedules", "inputs", "fault_sequences"], "over all message sizes and contents, thread schedules, misbehaving peers and shutdown kinds",
 "The WebSocket tests send a few short strings over one link.",
 [I+"tcp/websocket/websocket.h", I+"tcp/websocket/ssl/ssl.h", I+"ext/websocket.h"], [("handshake then on_connect", I+"tcp/websocket/websocket.h"), ("one async_write per message", I+"tcp/websocket/websocket.h")],
 [], ["on_handshake, on_connect, on_msg_handle, on_close"])

prop("C24", "Send notifications match what was sent",
 "With per-message send notification on, on_msg_send is called exactly once per message handed to the kernel, in sending order, with that message's packed bytes, never concurrently with itself and never for a message that was discarded; with the all-sent notification on, on_all_msg_send is called, with the last message sent, whenever the send buffer has been emptied, at least once after the final message. A send made from inside these notifications is sent like any other.",
 ["schedules", "histories", "configurations"], "over all sender interleavings, message sizes and priority choices, TCP and UDP",
 "Only the file server and ping-pong demos use notifications, with one message outstanding.",
 [I+"tcp/socket.h", I+"udp/socket.h", I+"socket.h"], [("send_handler", I+"tcp/socket.h, "+I+"udp/socket.h")], [], ["on_msg_send, on_all_msg_send"])

prop("C25", "Discarded, pending and failed sends are accounted for exactly once",
 "With send-buffer shrinking on, every accepted message is either delivered or passed exactly once to the discard callback, oldest first, never both and never neither; when a link breaks, each message is either still pending, was completely written, or is reported once to the send-error callback among the in-flight messages. Popping one or all pending messages removes exactly those from the queue and returns them intact.",
 ["schedules", "fault_sequences", "histories"], "over all sender/receiver speeds, shrink sizes, link breaks and pop calls",
 "No test overflows a send buffer with shrinking on nor breaks a link with messages in flight.",
 [I+"socket.h", I+"tcp/socket.h", I+"base.h", I+"container.h"], [("shrink_send_buffer", I+"socket.h"), ("on_send_error(ec, msg_can)", I+"tcp/socket.h send_handler"), ("pop_*_pending_send_msg", I+"base.h")],
 [], ["on_msg_discard, on_send_error, pop_first/all_pending_send_msg"])

prop("C26", "Passive receiving reads only on request and allows changing the unpacker",
 "With passive receiving, after the initial automatic read the socket performs exactly the reads that were requested, so nothing is delivered beyond what requested reads yield and the peer is back-pressured; each completed read gives the user a chance to request the next one, no request made when no read is outstanding is lost, and no byte of the stream is lost, duplicated or parsed by the wrong unpacker when the unpacker is replaced between reads.",
 ["schedules", "histories", "configurations"], "over all request timings from handlers and other threads, fragmentations and unpacker switches",
 "Only the file client demo uses it, with one fixed switching pattern.",
 [I+"socket.h", I+"tcp/socket.h"], [("reading flag", I+"socket.h test_and_set_reading/clear_reading"), ("recv_msg", I+"socket.h")], [("reading", "1 while a read is outstanding", I+"socket.h")],
 ["on_msg_handle/on_msg, recv_msg, is_reading"])

prop("C27", "Servers accept every client, within limits, and survive misbehaving ones",
 "A listening server accepts and serves every connecting client up to its configured maximum, refuses or drops those beyond it without disturbing established ones, serves again when room is made, and after stop_listen and start_listen again accepts on the same address; a client that connects and leaves at once, resets, or sends garbage affects nobody else. Per-client isolation holds: messages, identifiers and statistics of one link never leak into another.",
 ["schedules", "fault_sequences", "histories"], "over all arrival/departure patterns, numbers of concurrent accepts, limits and abusive clients",
 "Tests connect a fixed small number of well-behaved clients.",
 [I+"tcp/server.h", I+"tcp/server_socket.h", I+"object_pool.h"], [("accept_handler/start_next_accept", I+"tcp/server.h"), ("max_size check", I+"object_pool.h")], [], ["on_accept, size(), per-client echo"])

prop("C28", "Logging and formatting never overflow and never interfere",
 "Log output of any length or content, from any number of threads, never overruns its buffer, is truncated safely with a terminated string, keeps time stamps well-formed, and dumping unparsed bytes prints exactly those bytes.",
 ["inputs", "schedules"], "over all message lengths around the buffer limits, formats and concurrent callers",
 "Tests log short fixed strings.",
 [I+"base.h", I+"ext/unpacker.h"], [("log_formater::all_out", I+"base.h"), ("unpacker_helper::dump_left_data", I+"ext/unpacker.h")], [], ["unified_out output"])

prop("C29", "Reliable UDP delivers in order over lossy datagrams",
 "Over the reliable-UDP socket, messages are delivered exactly once and in order despite loss, duplication and reordering of datagrams.",
 ["fault_sequences", "schedules"], "over all datagram loss, duplication and reordering patterns",
 "Nothing builds or runs it.",
 [I+"udp/reliable_socket.h", I+"ext/reliable_udp.h"], [("ikcp", I+"udp/reliable_socket.h")], [], [])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    print(len(P), "properties")
