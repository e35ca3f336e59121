#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place to edit)."""
import json, os
CONN="protosocket-connection/src/connection.rs"; TYPES="protosocket-connection/src/types.rs"
PROST="protosocket-prost/src/prost_serializer.rs"; MP="protosocket-messagepack/src/lib.rs"
REG="protosocket-rpc/src/client/reactor/completion_registry.rs"; REACT="protosocket-rpc/src/client/reactor/completion_reactor.rs"
UN="protosocket-rpc/src/client/reactor/completion_unary.rs"; ST="protosocket-rpc/src/client/reactor/completion_streaming.rs"
CLI="protosocket-rpc/src/client/rpc_client.rs"; CFG="protosocket-rpc/src/client/configuration.rs"
SRV="protosocket-rpc/src/server/connection_server.rs"; ABT="protosocket-rpc/src/server/abortable.rs"; SUB="protosocket-rpc/src/server/rpc_submitter.rs"
SOCK="protosocket-rpc/src/server/socket_server.rs"; PSRV="protosocket-server/src/connection_server.rs"; PREG="protosocket-prost/src/prost_client_registry.rs"
MSG="protosocket-rpc/src/message.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
NOTEST="The repository has 8 unit tests, all over in-process channels in protosocket-rpc; "
p("C01","Inbound messages reach the reactor exactly once, in order, unmodified",
 "Every complete message a peer puts on the stream, whose encoding fits the configured buffer limit, is handed to the message reactor exactly once, in stream order and unmodified, however TCP splits or coalesces the bytes, however large the batch and whatever size hints the decoder gives; messages the decoder asks to skip are left out and disturb nothing around them. The decoder only ever sees the received bytes that follow what it has already consumed, contiguously and without gaps, repeats or bytes that were never received.",
 ["inputs","schedules","configurations"],"all message sequences, sizes, segmentations, arrival timings, buffer limits, batch limits and decoder hint styles",
 NOTEST+"none of them drives a byte through a socket, so no segmentation, rotation or batch boundary is ever sampled.",
 [CONN,TYPES],[("receive buffer cursor, rotation and reset","Connection::read_inbound_messages_into_read_queue"),("bounded batch hand-over","Connection::poll_deserialize, poll_react")],
 ["the decoder's input slices","the reactor callback"],[("receive buffer window","bytes received and not yet consumed","Connection.receive_buffer_start_offset..receive_buffer_slice_end")])
p("C02","Outbound bytes are the exact in-order concatenation of encoded messages",
 "The bytes a peer receives from a connection are always a prefix of the concatenation, in submission order, of the serializer's output for the submitted messages, each exactly once, never interleaved, truncated, repeated or altered; and while the connection lives and the peer keeps reading, every submitted message gets there. This holds for any partial write, any number of queued messages and any queue or buffer limit.",
 ["inputs","schedules","configurations"],"all outbound message sequences and sizes (including empty encodings), queue limits, socket buffer sizes, partial-write boundaries and reader speeds",
 NOTEST+"no outbound byte is ever written to a socket; partial writes need kernel back-pressure.",
 [CONN],[("vectored write and buffer retirement","Connection::writev_buffers, rotate_send_buffers"),("batch receive and reversal","Connection::poll_serialize_outbound_messages")],
 ["the peer's raw byte stream"],[("send queue","encoded messages not yet fully written","Connection.send_buffer")])
p("C03","A connection never goes idle while it could make progress",
 "A connection task never parks while there is unread inbound data it has room for, undelivered decoded data, or queued outbound messages with a writable socket: once a stalled peer resumes reading or sending, traffic in both directions flows to completion with no other stimulus. A stalled outbound direction never blocks inbound delivery.",
 ["schedules","histories","configurations"],"all interleavings of peer reads, peer writes, local sends, socket fill levels and queue limits",
 NOTEST+"lost wake-ups need a full send queue or a full receive buffer at a particular poll, which no test creates.",
 [CONN],[("self-wakes and readiness registration","Connection::poll_deserialize, poll_serialize_outbound_messages, poll_outbound, poll_receive")],
 ["kernel socket state (FIONREAD/SIOCOUTQ/poll) versus reactor turns with no progress"])
p("C04","Graceful close loses nothing that was already accepted",
 "Messages that arrive completely before the peer's orderly end of stream are all delivered to the reactor before the connection ends, and messages accepted from the application before the last outbound sender is dropped are all written to the peer before the connection closes the socket.",
 ["schedules","histories"],"all positions of the close relative to reads, polls, decode batches and pending writes",
 NOTEST+"nothing closes a socket; whether data and end-of-stream are seen in one poll is a race.",
 [CONN],[("end of stream handling","Connection::poll_receive, read_from_stream"),("closed outbound channel handling","Connection::poll_serialize_outbound_messages")],
 ["reactor callback","peer's raw byte stream up to end of stream"])
p("C05","Message size limits are enforced without corruption or stall",
 "A message whose encoding is within the configured buffer limit always passes. A larger inbound message either arrives intact or the connection is closed, and a stream the decoder rejects closes the connection: never a truncated, merged or corrupted delivery and never a connection left open but stuck. A larger outbound message never puts a single byte on the wire and closes the connection.",
 ["inputs","configurations"],"all limits and all message sizes around them, all segmentations, all decoder hints",
 NOTEST+"no test exercises a size limit or a decode error.",
 [CONN,PROST,MP],[("limit checks","Connection::read_inbound_messages_into_read_queue, poll_serialize_outbound_messages"),("declared frame length","decoders' IncompleteBuffer hint")],
 ["reactor callback","peer's raw byte stream","connection completion"])
p("C06","Buffering is bounded in both directions",
 "When the peer does not read, a connection takes only a bounded number of outbound messages (a small multiple of its configured queue limit) beyond what the kernel accepted, and then exerts back-pressure on senders. When the peer floods, the connection's receive memory stays bounded by the configured buffer limit plus a constant, and memory does not grow with the number of messages a connection has carried.",
 ["histories","configurations"],"all traffic histories, message sizes and limits",
 NOTEST+"memory and back-pressure are never observed.",
 [CONN],[("send queue room","Connection::room_in_send_buffer"),("receive buffer growth guard","Connection::read_inbound")],
 ["messages accepted from the channel versus bytes in the kernel","live heap bytes"])
p("C07","Connection, reactor and socket share their fate",
 "A connection ends when the peer closes or resets, when the stream cannot be decoded, when its reactor asks to disconnect, when every outbound sender is gone, or when it is dropped; and when it ends its socket closes, its reactor is dropped exactly once and never called again, and senders observe the closed channel. None of these events by itself takes longer than the next wake-up, whatever the state of either direction.",
 ["fault_sequences","schedules","histories"],"all end triggers at all points of a traffic history, including while either direction is blocked",
 NOTEST+"connection teardown is never exercised.",
 [CONN,TYPES,PSRV],[("early-out results of each poll step","Connection::poll"),("field ownership","Connection drop order")],
 ["connection future completion","reactor drop/call events","peer's view of the socket","sender's view of the channel"])
p("C08","Protocol Buffers framing is self-delimiting and round-trips",
 "For every message, decoding the bytes the protobuf serializer produced, followed by any other bytes, yields an equal message and consumes exactly those bytes; every strict prefix is reported as incomplete, never as a message and never as an error. A valid length prefix in any legal (also non-minimal) encoding is honoured.",
 ["inputs"],"all messages and all split points",
 NOTEST+"the protobuf codec has no test at all.",
 [PROST],[("length-delimited encode/decode","ProstSerializer")],["decode results on raw byte slices"])
p("C09","MessagePack framing is self-delimiting and round-trips",
 "For every message, decoding the bytes the MessagePack serializer produced, followed by any other bytes, yields an equal message and consumes exactly those bytes; every strict prefix is reported as incomplete, and a decoder that has reported a prefix incomplete any number of times still decodes that and all following messages correctly. A frame is consumed exactly as long as its length prefix says and is never decoded from bytes outside it.",
 ["inputs","histories"],"all messages, split points and sequences of decode calls on one decoder",
 NOTEST+"the MessagePack codec, which keeps state between calls, has no test at all.",
 [MP],[("length prefix and decoder state","ProtosocketMessagePackSerializer / Deserializer")],["decode results on raw byte slices"],
 [("decoder state","length of the frame being waited for","ProtosocketMessagePackDeserializer.state")])
p("C10","Hostile bytes are rejected cleanly",
 "No byte sequence from a peer makes a codec, a connection, an RPC client or an RPC server panic, hang a connection open on input that can never become valid, consume more bytes than it was given, or affect any other connection. A length prefix that is malformed or larger than the limit closes the offending connection after a bounded number of bytes.",
 ["inputs","fault_sequences"],"all byte sequences and segmentations, including mutated valid traffic",
 NOTEST+"no malformed input is ever decoded.",
 [PROST,MP,CONN,SUB,REACT],[("decoder error results","Deserializer::decode implementations"),("error to disconnect mapping","Connection::read_inbound_messages_into_read_queue")],
 ["panic hook","decode results","connection completion","a concurrent healthy connection"])
p("C11","Each unary RPC resolves exactly once with its own response",
 "While the connection lives, a unary call whose request the server answers resolves to exactly the response that carries its message id, with its payload unmodified, regardless of how many calls are outstanding, how they are spread over client clones and threads, and in what order responses arrive. No call ever resolves with another call's response.",
 ["schedules","histories","inputs"],"all interleavings of registrations, sends, response arrivals and completion polls; all ids",
 NOTEST+"the client tests send one request each and never deliver a response.",
 [CLI,REG,REACT,UN],[("registration before send","RpcClient::send_message"),("swap of newly registered calls","CompletionRegistry::take_new_rpc_lifecycle_actions"),("dispatch by id","RpcCompletionReactor::on_inbound_messages")],
 ["completion results at the client API"],[("in-flight table","id to completion","CompletionRegistry.in_flight / in_flight_submission")])
p("C12","Streaming RPCs deliver every item in order and end exactly once",
 "A streaming call yields exactly the items the service produced for it, in production order, without loss, duplication or items of other calls, then exactly one terminal result, then nothing. The terminal result says finished only if the server ended the stream; if the stream was cut short by a remote cancel or by loss of the connection it is a different error.",
 ["schedules","histories","inputs"],"all stream lengths, consumer speeds, interleavings of concurrent streams and end positions",
 NOTEST+"streams of two items are observed on the server's channel only; the client's stream is never consumed.",
 [ST,REACT,SRV,ABT],[("batched receive and reversal","StreamingCompletion::poll_next"),("end of stream message","RpcConnectionServer::poll_advance_streaming_rpcs")],
 ["items yielded at the client API versus items produced by the service"])
p("C13","Dropping an RPC cancels it on the server, and only it",
 "When a client drops an unfinished call (and its outbound queue has room), the server stops and drops that call's work without polling it again or sending anything further for it once the cancel is processed, and no other call is affected. A call that already completed is never cancelled, and a cancel for an unknown or finished id changes nothing.",
 ["schedules","histories"],"all drop points relative to send, dispatch, progress and completion, in all batches",
 NOTEST+"one drop immediately after send, and one cancel per kind against a never-completing rpc.",
 [REG,UN,ST,SRV,ABT],[("completion guard","CompletionGuard::drop"),("abort handle","IdentifiableAbortHandle::mark_aborted")],
 ["service future poll/drop events","raw client/server byte streams"])
p("C14","Losing the connection resolves every outstanding RPC with an error",
 "When a client's connection ends for any reason, every outstanding unary call resolves with an error or with a response that had already arrived and every outstanding stream yields its already received items and then an error; none hangs, including calls issued concurrently with the loss. From then on the client reports itself dead and new calls fail promptly instead of hanging.",
 ["fault_sequences","schedules"],"all loss causes and all points of loss relative to registration, send and response",
 NOTEST+"connection loss is never exercised.",
 [REACT,REG,CLI],[("reactor teardown","RpcCompletionReactor::drop"),("liveness flag","RpcClient::is_alive")],
 ["completion results at the client API within bounded runtime turns"])
p("C15","The server dispatches each request once, in order, and says nothing else",
 "Per connection, the service sees every normal request exactly once, in the order the client sent them and unmodified, and never sees control messages. The server sends only what the service produced, each response or item once, plus exactly one end marker after the last item of each stream that ran to completion; calls the service declines produce nothing and disturb nothing; any unrecognised control code acts as a cancel.",
 ["inputs","histories","schedules"],"all request sequences, control codes, batch sizes and completion orders",
 NOTEST+"at most three requests in one poll.",
 [SRV,SUB,MSG],[("inbound batch and reversal","RpcConnectionServer::poll_receive_buffer, handle_message_buffer"),("control code mapping","ProtosocketControlCode::from_u8")],
 ["service callbacks","raw client's view of the server's bytes"])
p("C16","When a connection closes the server drops everything that belonged to it",
 "When a connection ends for any reason, the per-connection service object and all of its outstanding unary and streaming calls are dropped, exactly once each, and none of them is polled afterwards; other connections keep theirs. A service call that panics ends only its own connection, and that connection's client observes the end.",
 ["fault_sequences","schedules"],"all close causes, all sets of outstanding calls, and blocked or idle outbound directions",
 NOTEST+"no test closes a server connection.",
 [SOCK,SRV,SUB],[("channel closure propagation","RpcConnectionServer::poll_receive_buffer, poll_reserve"),("task ownership","SocketRpcServer::poll")],
 ["drop events of service objects and futures"])
p("C17","A slow client bounds server work and loses nothing",
 "When a client stops reading, the server stops pulling responses and stream items for it after a bounded number (set by the configured queue limit and socket buffers), and when the client resumes it receives every response and item, in per-call order. Meanwhile calls of other connections proceed.",
 ["schedules","configurations"],"all pause points and lengths, queue limits, mixes of unary and streaming calls",
 NOTEST+"one test uses a three-slot channel, polled by hand.",
 [SRV,CONN,SOCK],[("reserve before poll","RpcConnectionServer::poll_advance_unary_rpcs / streaming"),("bounded channel","SocketRpcServer::poll")],
 ["items produced by the service versus bytes read by the client"])
p("C18","Completed RPCs leave no residue",
 "Once a call has completed or its caller has dropped it, its message id can be used again for a new call on the same connection, which is served normally whatever happened to the earlier one (a response that was already under way to a dropped call apart). Client and server memory does not grow with the number of calls that have completed, been cancelled or been declined.",
 ["histories"],"all histories of completed, cancelled and reused ids, of any length",
 NOTEST+"each test uses an id once and runs a handful of calls.",
 [SRV,ABT,REG],[("abort table maintenance","RpcConnectionServer.aborts"),("in-flight table maintenance","CompletionGuard::drop, take_new_rpc_lifecycle_actions")],
 ["completion results for reused ids","live heap bytes over long histories"])
p("C19","Connections are isolated and the server keeps accepting",
 "Whatever one connection does (malformed data, resets, stalls, panicking handlers, floods) and whatever transient error accepting or configuring a connection raises, the server keeps accepting and serving other and later connections; each connection gets its own service or reactor, and messages never cross between connections.",
 ["fault_sequences","schedules"],"all mixes of misbehaving and healthy connections and all accept-time faults",
 NOTEST+"no server socket is ever opened.",
 [SOCK,PSRV],[("accept loop","SocketRpcServer::poll, ProtosocketServer::poll")],
 ["healthy clients' results while faults are injected"])
p("C20","Configured limits govern the connections created after they are set",
 "A maximum buffer length or maximum number of queued outbound messages set on a server, client configuration or client registry takes effect, at that value, on every connection created afterwards by it: messages within the limit pass, a message that announces a length above the limit is refused, and queueing stops at the configured number. Without configuration the defaults apply: 32 MiB and 128 messages on the servers, 8 MiB and 256 messages on the clients.",
 ["configurations"],"all limit values on all four entry points",
 NOTEST+"configuration is never exercised.",
 [SOCK,PSRV,CFG,PREG],[("setting to connection plumbing","SocketRpcServer::poll, ProtosocketServer::poll, connect, ClientRegistry::register_client")],
 ["acceptance of boundary-size messages","queueing depth with a non-reading peer"])
p("C21","No undefined behaviour and no data races on any workload",
 "Encoding, decoding, buffering, sending, receiving, calling, streaming, cancelling and tearing down never read uninitialised or out-of-bounds memory, never use memory after it is freed and never race on shared data, from any number of threads.",
 ["schedules","inputs","histories"],"all workloads and thread interleavings",
 NOTEST+"they run single-threaded, without sanitizers, and never reach the unsafe buffer code.",
 [CONN,MP,REG,ABT],[("unsafe buffer length changes","Connection::read_inbound, rotate_send_buffers, MessagePack encode"),("shared in-flight table","CompletionRegistry")],
 ["Miri, AddressSanitizer and ThreadSanitizer reports"])
p("C22","Unexpected server messages never disturb a client's other calls",
 "Responses, end markers and cancels for ids that are unknown, already completed, already cancelled or duplicated, in any order and batch, are ignored; a remote cancel or end for an outstanding call resolves exactly that call (an error for a unary call); all other calls and later calls behave normally.",
 ["inputs","histories"],"all sequences of server messages against all client call states",
 NOTEST+"no test delivers a server message to a client.",
 [REACT,REG],[("control codes and unregistered messages","RpcCompletionReactor::on_inbound_messages")],
 ["completion results at the client API against a scripted raw server"])
p("C23","Endless traffic starves nobody",
 "While a peer sends without pause or an application queues without pause, a connection handles a bounded amount per turn, so that other tasks of the same runtime keep getting turns, and the other direction of the same connection keeps moving. On a server, streams that are always ready hold up neither the other streams, unary calls, new requests and cancels of their connection, nor other connections.",
 ["schedules","histories"],"all traffic that never pauses, all limits and message sizes, all mixes of streams and calls",
 NOTEST+"nothing runs long enough to starve anything.",
 [CONN,SRV],[("bounded work per poll","Connection::poll_receive, poll_deserialize, poll_serialize_outbound_messages"),("fair selection","RpcConnectionServer::poll_advance_streaming_rpcs")],
 ["bytes handled between two turns of another task","turns until a message of the other direction is handled","items of each stream at the client"])
p("C24","What has nothing to do comes to rest",
 "When nothing happens (no bytes arrive, no socket becomes writable, the application and the services do nothing), connections, servers and clients let the runtime sleep: they are not polled again and again, in whatever state they wait: idle, in the middle of a message, blocked on a peer that does not read, with full queues, with outstanding, finished or cancelled calls.",
 ["histories","configurations"],"all reachable waiting states",
 NOTEST+"a needless wake-up changes no result, so no functional test can see it.",
 [CONN,SRV,SOCK,REACT],[("self-wakes","Connection::poll_deserialize, poll_serialize_outbound_messages, poll_outbound; RpcConnectionServer::poll_receive_buffer")],
 ["polls of the connection and waits for io events of the runtime in a quiet period"])
p("C25","Messages leave at once",
 "A message accepted by a connection that has room for it and whose socket is writable, be it a plain message, an rpc request or a response that is ready, is given to the kernel within a few turns of the runtime, without waiting for time to pass or for further messages; and every connection made by the servers, the rpc client and the client registry has Nagle's algorithm off.",
 ["histories","configurations"],"all message sizes, counts and histories on all entry points",
 NOTEST+"no test looks at a socket.",
 [CONN,SOCK,PSRV,CFG,PREG],[("serialize and write in one turn","Connection::poll"),("TCP_NODELAY","SocketRpcServer::poll, ProtosocketServer::poll, connect, ClientRegistry::register_client")],
 ["bytes passed to writev/send per turn","getsockopt(TCP_NODELAY) on every socket"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
