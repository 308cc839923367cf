#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
MSG="lib/src/coap_msg.c"; MEM="lib/src/coap_mem.c"; SRV="lib/src/coap_server.c"; CLI="lib/src/coap_client.c"
p("P01","CoAP decoding is exact, total and memory safe",
 "Decoding any byte string as a CoAP message either yields exactly the version, type, code, message ID, token, options (numbers, values, order) and payload that the RFC 7252 wire format assigns to those bytes, or is refused; it is accepted if and only if the bytes are a well-formed message that fits the configured buffers. No byte outside the given input is read, no byte outside owned memory is written, and a refused input leaves nothing allocated once the message is destroyed.",
 ["inputs"],"every byte string of every length up to the datagram limit",
 "The unit tests decode a few dozen fixed messages; they never feed extended option deltas/lengths with the high bit set, truncated options or inputs that end exactly at a field boundary, and run without memory instrumentation.",
 [MSG],[("message parser",MSG+": coap_msg_parse and helpers")],["return value and message accessors after decoding","ASan/UBSan on an exactly sized input buffer"])
p("P02","CoAP encoding is exact, canonical and bounded by the buffer",
 "Encoding a legal message produces exactly the RFC 7252 bytes for its header, token, options and payload, and decoding those bytes gives the same message back. It succeeds if and only if the encoding fits the supplied buffer, returns its exact length, and never writes beyond the buffer; illegal combinations (non-empty reset, empty message with token, options or payload, empty non-confirmable) are refused.",
 ["inputs","configurations"],"every message that can be built through the API, every buffer length from 0 to larger than needed",
 "Tests format a handful of messages into large buffers; buffers one byte too small, exact fits and options at the 12/13/268/269 boundaries are never tried.",
 [MSG],[("message formatter",MSG+": coap_msg_format and helpers")],["formatted bytes, guard bytes, return value"])
p("P03","Building, copying and querying messages preserve their content",
 "After any sequence of setter, add-option, payload, reset, copy and destroy operations a message holds exactly the values given, with options ordered by number and equal numbers in insertion order; refused setter calls change nothing. A copy is equal to and independent of its source, and the URI path string reconstructed from a message is exactly the slash-joined path segments, truncated only to fit the buffer, with the full length reported.",
 ["histories","inputs"],"every sequence of message-building operations and every argument value",
 "Tests add options in a few fixed orders and copy one or two messages.",
 [MSG],[("option list insertion",MSG+": coap_msg_op_list_add"),("copy",MSG+": coap_msg_copy"),("path string",MSG+": coap_msg_uri_path_to_str")],["message accessors against a reference list model"])
p("P04","Block options and option classes follow RFC 7252/7959",
 "A block option value decodes to exactly the block number, more flag and size of RFC 7959 for every value of 0 to 3 bytes, and anything else (reserved size, longer value) is refused; encoding then decoding any representable triple gives it back and unrepresentable ones are refused. An unrecognised critical (respectively unsafe) option is reported if and only if the message carries one, whatever else it carries.",
 ["inputs"],"all block option values of 0..3 bytes (2^24 of them), all number/more/size triples, all option numbers 0..65535",
 "Tests try about ten block values and a few option numbers.",
 [MSG],[("block value codec",MSG+": coap_msg_op_parse_block_val/format_block_val"),("option checks",MSG+": coap_msg_check_critical_ops/unsafe_ops")],["decoded triple / returned option number"])
p("P05","Memory pools never hand out overlapping or lost buffers",
 "In any history of allocations and frees, every buffer handed out lies wholly inside its pool, is disjoint from every other live buffer, and has its contents left alone until freed; a request is refused if and only if it is larger than the pool's buffer length or every buffer is in use. Freed buffers become available again and freeing a foreign or null pointer changes nothing, so capacity is never lost or invented, and the small, medium and large pools never affect one another.",
 ["histories","configurations"],"every alloc/free history over every pool geometry",
 "Tests allocate and free all buffers in order in one geometry.",
 [MEM],[("bitset allocator",MEM+": coap_mem_alloc/coap_mem_free")],["returned pointers, buffer contents, active bitset"])
p("P06","Memory pools and messages are safe to use from many threads at once",
 "When several threads build, encode, decode, copy and destroy their own messages concurrently (as the proxy's connection threads do), every thread sees exactly its own data, no buffer is ever owned by two threads at once, no allocation state is corrupted or lost, and there is no data race.",
 ["schedules"],"every interleaving of threads using the shared pools",
 "All unit tests of the library are single threaded and the proxy test opens a few connections without a race detector.",
 [MEM,MSG,"proxy/http_coap/src/connection.c"],[("shared global pools",MEM),("proxy thread per connection","proxy/http_coap/src/listener.c")],["ThreadSanitizer reports, per-thread content stamps, pool conservation at the end"])
p("P07","Running out of pool memory is reported and leaks nothing",
 "Whatever allocation fails, at whatever point of building, copying or decoding a message, running a client exchange (plain or blockwise) or serving a request, the failure is reported as an error or the request is dropped, nothing crashes, and once the messages, client and server involved are destroyed every pool buffer is free again. A server that ran out of memory serves later requests normally.",
 ["fault_sequences"],"every single allocation failure point (and random multi-failure patterns) in every workload",
 "No test makes a pool allocation fail.",
 [MSG,SRV,CLI,MEM],[("error paths",MSG+": coap_msg_op_new, coap_msg_copy"),("cleanup",SRV+": coap_server_exchange"),("cleanup",CLI+": coap_client_exchange_blockwise1/2")],["pool occupancy after destroy, ASan, return codes"])
p("P08","The server executes each request at most once and replays duplicates",
 "As long as the server still tracks a client and no invalid message from it intervened, each distinct request from that client reaches the application exactly once, and re-delivering the latest confirmable request any number of times never reaches the application again: a piggybacked exchange gets the byte-identical response again, a separate one gets its empty acknowledgement again. A repeated non-confirmable request is dropped silently, and a first request is never mistaken for a duplicate whatever its message ID.",
 ["histories","inputs"],"every message ID, every pattern of duplication and reordering of client datagrams",
 "The server test sends each request once or twice over a perfect loopback network with fixed IDs.",
 [SRV],[("request matching and dedup",SRV+": coap_server_exchange, coap_server_trans_match_req")],["application handler invocations and every datagram the server sends, on a simulated network"])
p("P09","Every server response answers exactly the request that caused it",
 "A new confirmable request gets either one piggybacked acknowledgement with its message ID or, for paths registered as separate, one empty acknowledgement followed by one confirmable response with a fresh message ID; a non-confirmable request gets one non-confirmable response. Every response goes to the requester's address only, carries the request's token, and has exactly the code, options and payload the application produced; nothing else is sent.",
 ["inputs","histories"],"all interleavings of requests from several clients, all tokens, types, methods, paths",
 "Tests use a few fixed tokens and a single client.",
 [SRV],[("response construction",SRV+": coap_server_exchange")],["datagrams sent by the server versus requests received and handler output"])
p("P10","Unacknowledged server responses are retransmitted on schedule and then stop",
 "A separate confirmable response is retransmitted byte-identically while unacknowledged: first after 2 to 3 seconds, then at doubling intervals, at most four times; it stops for good at the first matching acknowledgement or reset, when the client moves on to a new request, or after the fifth interval when the client is forgotten. Non-matching well-formed acknowledgements and resets do not stop it (a malformed message from that client may), and acknowledgement, piggybacked and non-confirmable responses are never retransmitted spontaneously.",
 ["schedules","fault_sequences"],"every timing and every pattern of lost, late, duplicated or foreign acknowledgements",
 "Real-time tests wait for a single acknowledged separate response.",
 [SRV],[("ack timer",SRV+": coap_server_trans_start_ack_timer/update_ack_timer/handle_ack_timeout")],["virtual-time trace of datagrams sent"])
p("P11","The server survives any datagrams and network faults and keeps serving",
 "No sequence of datagrams from any number of peers, and no transient failure of sending, receiving or timer creation, makes the server crash, stop, leak pool memory or descriptors, or touch memory it does not own. Afterwards a well-formed request from any client is still answered correctly.",
 ["inputs","fault_sequences"],"all datagram contents and sizes, all placements of socket errors",
 "Tests send well-formed traffic only and never inject socket errors.",
 [SRV,MSG],[("run loop error handling",SRV+": coap_server_run/coap_server_listen")],["coap_server_run never returns; probes answered; ASan; pool and fd accounting"])
p("P12","The server rejects malformed, misplaced and unsupported messages per RFC 7252",
 "A confirmable message that is malformed, empty (ping) or not a request gets exactly one reset with its message ID; malformed or misplaced non-confirmable, acknowledgement and reset messages and messages of another protocol version get no reply; none of these reaches the application. A request with an unrecognised critical option gets a 4.02 response in the normal response form and does not reach the application, while unrecognised elective options do not matter.",
 ["inputs"],"all malformed and misplaced messages, all option numbers",
 "One or two malformed messages are tested.",
 [SRV,MSG],[("format error handling",SRV+": coap_server_trans_handle_format_error/reject"),("option check",SRV+": coap_server_check_options")],["datagrams sent, handler calls"])
p("P13","Clients of one server do not disturb each other",
 "Traffic from other addresses, valid or hostile, never changes what one client observes as long as at most eight clients are active: its deduplication, retransmission, responses and blockwise transfer proceed as if it were alone. A ninth client is always served by forgetting the least recently active one, never a more recently active one.",
 ["schedules","histories"],"all interleavings of up to many clients",
 "Tests run a single client against the server.",
 [SRV],[("transaction lookup and LRU eviction",SRV+": coap_server_find_trans/find_oldest_trans")],["per-client observation compared with a solo run; dedup probes after eviction"])
p("P14","Server blockwise transfers move bodies exactly or fail cleanly",
 "A client that follows the block sequence gets every byte of the resource body (GET, or the response body of PUT/POST) in order exactly once, and the application gets every byte of an uploaded body exactly once, only after the final block, for any body length up to the limit and any client block size. A skipped, repeated-out-of-order or mismatched block ends the transfer with 4.08 (upload) or 4.00, an oversized upload gets 4.13, and in none of these cases does the application see a partial body or memory beyond the buffer get touched.",
 ["inputs","histories"],"all body lengths, block sizes, size negotiations and block sequences",
 "Tests transfer a few fixed bodies at one block size with a cooperating client.",
 [SRV],[("blockwise state machine",SRV+": coap_server_trans_handle_next_block/handle_blockwise")],["reassembled bodies, callback invocations, response codes, ASan"])
p("P15","A client exchange returns only the response to its own request",
 "When an exchange succeeds, the message returned is one the server sent carrying the token of this very request (and, if an acknowledgement, its message ID), unmodified; stale, duplicated, reordered or foreign datagrams are never returned as the response, and well-formed ones do not stop the exchange from completing when the right response arrives (a malformed datagram from the server, or one matching only half of message ID and token, may end it with an error). Separate responses are matched by token alone, whatever their message ID, before or after the acknowledgement.",
 ["schedules","inputs"],"all interleavings of genuine, stale, duplicate and foreign datagrams",
 "The client test talks to a well-behaved server on loopback.",
 [CLI],[("token/ID matching",CLI+": coap_client_exchange_con/sep/non")],["exchange result versus scripted server trace"])
p("P16","Client requests are retransmitted on schedule and exchanges always end",
 "An unanswered confirmable request is retransmitted byte-identically after 2 to 3 seconds and then at doubling intervals, at most four times, and then the exchange fails with a timeout; retransmission stops once an acknowledgement or response arrives. After an empty acknowledgement, or for a non-confirmable request, the client waits 30 seconds for the response without retransmitting and then fails with a timeout, so every exchange ends in bounded time however the network behaves.",
 ["schedules","fault_sequences"],"every pattern of lost and delayed datagrams",
 "Real-time tests only cover the success path.",
 [CLI],[("ack and response timers",CLI+": coap_client_listen_ack/listen_resp")],["virtual-time trace of datagrams and the return code/time"])
p("P17","The client acknowledges or resets what it receives as RFC 7252 says",
 "Every confirmable response that the client accepts is acknowledged exactly once with its message ID; confirmable messages it cannot match, cannot parse or must not process (unknown critical option) are answered with a reset carrying their message ID; non-confirmable, acknowledgement and reset messages are never answered. A reset matching the request fails the exchange with a connection-reset error.",
 ["inputs","schedules"],"all message kinds arriving at any point of an exchange",
 "Tests cover acknowledgement of one separate response.",
 [CLI],[("ack/reject",CLI+": coap_client_send_ack/reject")],["datagrams the client sends"])
p("P18","Client blockwise transfers move bodies exactly or fail cleanly",
 "A client blockwise GET that succeeds returns exactly the body the server sent, block by block, and a blockwise PUT or POST delivers exactly the given (non-empty) body and returns exactly the response body, for every length, block size and mid-transfer size reduction by the server. Wrong, repeated, missing or oversized blocks from the server make it fail without ever writing beyond the caller's buffer or reporting success with a wrong body.",
 ["inputs","histories"],"all bodies, sizes and server behaviours",
 "Tests transfer a few fixed bodies with a cooperating server.",
 [CLI],[("blockwise loops",CLI+": coap_client_exchange_blockwise1/2")],["bodies on both sides, return value, ASan redzones around the caller buffer"])
p("P19","Client and server together give exactly-once exchanges on a bad network",
 "Over a network that loses, delays, duplicates and reorders datagrams (no request arriving after one of a later exchange of the same client), every confirmable exchange (plain, separate or blockwise) that reports success was executed by the server application exactly once and returned its true result; one that reports failure was executed at most once. With losses and delays bounded below the retransmission limit every exchange succeeds.",
 ["schedules","fault_sequences"],"all loss, duplication, delay and reordering patterns",
 "Tests run over loopback, which does not misbehave.",
 [CLI,SRV,MSG],[("client reliability",CLI),("server dedup",SRV)],["application executions versus client results"])
p("P20","DTLS peers are authenticated before any CoAP data is exchanged",
 "A DTLS client connects only to a server whose certificate chains to its trust file, is currently valid, is not revoked and matches the expected name; a DTLS server that requires client authentication processes requests only from clients whose certificate chains to its trust file, is currently valid and not revoked. Otherwise connecting fails and no request reaches the application.",
 ["inputs","configurations"],"every kind of bad certificate on either side",
 "Tests only use matching valid certificates.",
 [CLI,SRV],[("peer verification",CLI+": coap_client_dtls_verify_peer_cert"),("peer verification",SRV+": coap_server_trans_dtls_verify_peer_cert")],["result of connecting, handler invocations"])
p("P21","CoAP over DTLS delivers exchanges intact to several clients",
 "With DTLS enabled, every successful exchange (plain, separate, blockwise) returns the true result of one execution by the application, and nothing that was not sent by an authenticated peer is ever executed or reported. Several clients can be connected at the same time, the loss of a handshake datagram (other than of the server's last flight) does not prevent connecting, and garbage, plaintext, replayed or forged records neither stop the server nor disturb established sessions (except that GnuTLS ends a session on a replayed handshake record).",
 ["schedules","inputs"],"all mixes of concurrent DTLS clients and hostile datagrams",
 "Tests run one DTLS client at a time without interference.",
 [CLI,SRV],[("DTLS transport",SRV+": coap_server_trans_dtls_*")],["exchange results, ASan, server liveness"])
p("P22","HTTP parsing is incremental, exact and memory safe",
 "Parsing any bytes as an HTTP message never reads or writes outside owned memory; a complete well-formed message is consumed exactly and yields its start line, headers and body, any proper prefix of it asks for more data, and bytes after it are left untouched. Malformed input, including negative or oversized chunk sizes, is refused (a NUL byte in the header section may instead be taken for missing data) and leaks nothing.",
 ["inputs"],"all byte strings; all split points of well-formed messages",
 "Tests parse fixed complete messages without memory instrumentation.",
 ["proxy/common/src/http_msg.c"],[("parser","proxy/common/src/http_msg.c: http_msg_parse*")],["return value, parsed structure, ASan/LSan"])
p("P23","HTTP generation is exact and bounded by the buffer",
 "Generating an HTTP message yields text that parses back to the same start line, headers and body; the reported length is the full length needed whatever the (non-empty) buffer, output that does not fit is truncated inside the buffer, and nothing beyond the buffer is ever written. Chunked output concatenates back to the original body.",
 ["inputs","configurations"],"all messages and all buffer lengths",
 "Tests generate a few messages into large buffers.",
 ["proxy/common/src/http_msg.c"],[("generator","proxy/common/src/http_msg.c: http_msg_generate*")],["generated text, guard bytes, return value"])
p("P24","URI parsing, generation and copying preserve every component",
 "Parsing a URI yields exactly its scheme, host, port, path and query components (percent-decoded), generating it gives a URI that parses back to the same components (for any set of components that a URI can express), and a copy equals its source whichever components are present. No operation reads or writes outside owned memory or the given buffer, malformed input is refused, and the reported length is the full length needed. An empty port or user information counts as none.",
 ["inputs","configurations"],"all URI strings, all buffer lengths",
 "Tests parse a few dozen fixed URIs.",
 ["proxy/common/src/uri.c"],[("URI codec","proxy/common/src/uri.c")],["components, generated text, ASan"])
p("P25","Configuration files are read exactly and malformed ones refused",
 "Loading a configuration file yields, for every section and key, exactly the value the file assigns (the later assignment winning), and reports malformed syntax as an error with the kind and position of the first malformed token; the proxy's parameters are those of the file, its documented defaults where the file is silent, or an error (an unknown log level); no file content makes the loader crash, loop, leak or read or write outside owned memory, with or without a final newline.",
 ["inputs"],"all file contents",
 "Tests load a few well-formed files ending in newlines.",
 ["proxy/common/src/config.c"],[("lexer/parser","proxy/common/src/config.c")],["stored values versus reference reader, ASan"])
p("P26","HTTP-CoAP translation maps methods, statuses, URIs and bodies faithfully",
 "Translating an HTTP request gives the CoAP request with the corresponding method, Uri-Host, Uri-Port, Uri-Path and Uri-Query options and the same body, and translating a CoAP response gives the HTTP response with the corresponding status (2.01, 2.02, 2.04 and 2.05: 200; 2.03: 304; 4.02: 400; 5.05: 501; other 4.xx and 5.xx that HTTP knows: the same number) and the same payload, ETag and Max-Age; what cannot be represented is refused with an error status (unknown method 501, unacceptable Accept 406, URI malformed, with a fragment or not coap(s) 400, unknown response or failure 502). A body larger than one message goes to the block-wise body buffer, nothing is read or written outside owned memory or the given buffers, and failures leak nothing.",
 ["inputs"],"all requests and responses",
 "Tests translate a couple of dozen fixed messages.",
 ["proxy/common/src/cross.c"],[("translation","proxy/common/src/cross.c")],["translated messages versus a reference mapping, ASan/LSan, pool occupancy"])
p("P27","The proxy data buffer is a faithful bounded byte queue",
 "Bytes come out of the buffer in exactly the order and number they went in, across any sequence of adds, expansions and consumes; it never exceeds its maximum size, never accepts more than its free space, and its contents are always followed by a terminating zero byte.",
 ["histories"],"all operation sequences and sizes",
 "Tests do a few fixed operations.",
 ["proxy/common/src/data_buf.c"],[("buffer","proxy/common/src/data_buf.c")],["contents versus reference queue, ASan"])
p("P28","Each proxy client gets the CoAP answer to its own HTTP requests",
 "Any number of concurrent HTTP clients sending any number of requests each, however their bytes are split, get one response per request, in order, carrying the status and body that the addressed CoAP resource produced for that request; no response is mixed up, lost or duplicated and the proxy has no data race.",
 ["schedules","inputs"],"all interleavings of concurrent connections",
 "The proxy test runs sequential clients with whole-request writes and no race detector.",
 ["proxy/http_coap/src/connection.c","proxy/http_coap/src/listener.c","proxy/http_coap/src/proxy.c"],[("thread per connection","proxy/http_coap/src/listener.c"),("request handling","proxy/http_coap/src/connection.c")],["HTTP responses versus CoAP origin log; ThreadSanitizer"])
p("P29","The proxy survives hostile HTTP clients and failing CoAP servers",
 "No bytes sent by an HTTP client, at any pace, and no failure of the CoAP side (unreachable, silent, resetting, malformed or error responses) crash or stop the proxy, touch memory it does not own, leak, or affect other connections; the client gets an error response or its connection closed, and later requests are served.",
 ["inputs","fault_sequences"],"all client byte streams and all origin failures",
 "Tests use well-formed requests and a working origin.",
 ["proxy/http_coap/src/connection.c","proxy/common/src/http_msg.c","proxy/common/src/cross.c"],[("error responses","proxy/http_coap/src/connection.c")],["ASan/LSan, liveness probes"])
p("P30","TLS sockets authenticate the peer and carry bytes intact",
 "A TLS socket opens only if the peer's certificate chains to the trust file, is currently valid and matches the expected name (client side) and, where required, the client's certificate is trusted and valid (server side); resumed sessions included. Every byte written is read by the peer exactly once and in order, whatever the write and read sizes, tampering or truncation is never taken for data or for an orderly end, and a silent peer ends in a timeout rather than a hang. Sessions cached for resumption may be stored and looked up by several threads at once; the ones stored last are found and come back whole.",
 ["inputs","schedules"],"all certificates, all read/write splits",
 "Tests use matching certificates and short messages.",
 ["proxy/common/src/tls_sock.c","proxy/common/src/tls.c"],[("verification","proxy/common/src/tls_sock.c: tls_sock_verify_peer_cert"),("I/O loops","proxy/common/src/tls_sock.c: tls_sock_read/write")],["open result; byte streams at both ends"])
p("P31","The sample applications register, tell the time and transfer files faithfully",
 "The registration server answers a new client with 2.01 and a known one with 2.04, and its registry then holds exactly the clients registered and not removed, each with its latest address, after any sequence of additions and removals; the time server answers with the current time; the transfer server stores exactly the body received or says 5.00. The sample clients send exactly the documented request and report success only with the answer's bytes and only if the exchange succeeded. Unknown paths, methods and answers, and every failure of memory, files or the exchange, are reported as errors, nothing leaks and no memory outside the buffers is touched.",
 ["inputs","fault_sequences"],"all requests, answers and histories of registrations; all failure points",
 "The samples have no tests at all.",
 ["sample/reg_server/reg_server.c","sample/reg_server/registrar.c","sample/time_server/time_server.c","sample/transfer_server/transfer_server.c","sample/reg_client/reg_client.c","sample/time_client/time_client.c","sample/transfer_client/transfer_client.c"],
 [("registry","sample/reg_server/registrar.c"),("handlers","sample/*_server/*_server.c: *_server_handle"),("clients","sample/*_client/*_client.c")],["handler results and responses, registry contents, file contents, requests sent, pool and heap blocks"])
p("P32","The proxy program starts only when usable and stops when told to",
 "Given an unknown option, an unreadable or malformed configuration file, an unusable key, certificate or trust file or a port in use, the proxy program ends with a failure status without ever listening, and releases what it allocated (help ends with success). Otherwise it listens on the configured port, is not ended by SIGPIPE, and at the first hang-up, interrupt, quit, abort or terminate signal after start-up, at whatever moment it arrives, it stops listening and ends promptly with a success status.",
 ["inputs","schedules"],"all command lines and configurations; all moments of signal arrival",
 "Tests never run the program's own start-up and shut-down.",
 ["proxy/http_coap/src/proxy.c","proxy/http_coap/src/listener.c","proxy/http_coap/src/param.c","proxy/common/src/tls.c"],
 [("start-up and waiting for signals","proxy/http_coap/src/proxy.c: main"),("listening","proxy/http_coap/src/listener.c: listener_new")],["exit status, listening sockets, sanitizer and leak reports of the process"])
import sys
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
