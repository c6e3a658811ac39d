#!/usr/bin/env python3
"""Writes ../properties.jsonl. The source of the property list."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "Every call settles once, with the server's answer to that very call",
  "Whatever the order, batching, compression, delay, repetition or loss of server messages, every API call a connected client makes settles exactly once: with the result or error the server produced for that very call, decoded intact, or with a connection error when the connection was lost or closed meanwhile. Concurrent calls never receive each other's answers, and no answer that reached the client in an undisturbed session is lost or turned into another outcome.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "All interleavings of concurrent calls, server reply orders, containers, gzip, resends, connection losses at any byte, salt changes and session resets, over every transport.",
  "The tests contain no server; no test performs a single RPC. Matching answers to calls depends on message order, container shape, resends and reconnects, which only a scheduled peer can vary.",
  ["client/2_client_encrypted.ts", "session/2_session_encrypted.ts", "client/0_abortable_loop.ts", "tl/2_message.ts"],
  [("sent-request table keyed by message ID", "client/2_client_encrypted.ts invoke/#onRpcResult/#onRpcError/#onMessageFailed"), ("receive loop and container walk", "session/2_session_encrypted.ts #onMessage/#onMessageContainer/#onRpcResult"), ("send loop registration before write", "session/2_session_encrypted.ts #sendLoopBody")],
  ["ClientEncrypted.invoke settlement", "server execution log"])

prop("C02", "One call causes at most one execution on the server",
  "A call is delivered to the server for execution at most once, unless the server itself refused that message or told the client to start its session over; salt rotation, clock corrections, repeated server messages and reconnections never execute a call twice. A call that already failed with a connection error is never sent afterwards, and calls refused because of a stale salt or wrong clock are resent by the client and then executed.",
  ["schedules", "fault_sequences", "configurations"],
  "All schedules of salt rotations, bad_msg notifications, clock skews, connection losses and resends around concurrent calls.",
  "No test has a server that counts executions; duplicates need a refusal, a resend or a reconnect to race with an answer.",
  ["session/2_session_encrypted.ts", "client/2_client_encrypted.ts"],
  [("resend only on SessionError", "client/2_client_encrypted.ts #onMessageFailed/#resend"), ("bad_server_salt and bad_msg_notification handling", "session/2_session_encrypted.ts #onBadServerSalt/#onBadMsgNotification")],
  ["server execution log", "ClientEncrypted.invoke settlement"])

prop("C03", "Lost connections heal by themselves; explicit disconnection is final",
  "While it has not been told to disconnect, a client whose connection is lost or cannot be opened keeps retrying, and within a bounded time after the network works again it is connected and serves new calls; calls in flight on a lost connection fail instead of hanging. Once told to disconnect, every pending call is rejected, no connection is opened or kept afterwards, and a later connect works normally; failures in the background never surface as unhandled errors.",
  ["schedules", "fault_sequences", "crash_points"],
  "All sequences of refused, timed-out, reset and half-closed connections, partitions, and disconnect/connect calls at any instant, including during a reconnection.",
  "Tests never open a connection. Reconnection involves timers, the order in which the reader, the writer and the user notice a loss, and calls made meanwhile.",
  ["session/1_session.ts", "session/2_session_encrypted.ts", "connection/1_connection_tcp.ts", "client/2_client_encrypted.ts"],
  [("reconnection loop", "session/1_session.ts #stateChangeHandler"), ("explicit disconnect flag", "session/1_session.ts disconnect/connect"), ("rejection of everything pending", "session/2_session_encrypted.ts #rejectAllPending")],
  ["ClientEncrypted.invoke settlement", "connections seen by the simulated network", "global unhandledrejection events"])

prop("C04", "Everything the client sends is valid MTProto for its session",
  "In every session the client's message IDs are unique, strictly increasing multiples of four whose time part follows the server's clock once corrected, sequence numbers follow the content-related rule and are never reused, containers, padding, compression and message keys are well formed, and the latest salt the server announced is used. A strict server therefore never has a reason to reject a message except for a stale salt or an uncorrected clock, and each such refusal is corrected so that later messages are accepted.",
  ["schedules", "fault_sequences", "configurations"],
  "All interleavings of sends, acknowledgements, salt changes, clock skews and jumps, reconnects and session resets.",
  "Unit tests check serialisation of single values; ID and sequence discipline is a property of the whole history of a session.",
  ["session/0_session_state.ts", "session/2_session_encrypted.ts", "tl/2_message.ts"],
  [("message ID and sequence generators", "session/0_session_state.ts"), ("containers with piggybacked acknowledgements", "session/2_session_encrypted.ts #sendLoopBody"), ("encryption", "session/2_session_encrypted.ts #encryptMessage")],
  ["every decrypted client packet at the simulated data centre"])

prop("C05", "Received messages are acknowledged, and only received ones",
  "Every content-related message the client receives in a session that stays up is acknowledged on that session within a bounded time, including repeated and merely announced ones and those whose acknowledgement was refused and had to be resent. The client never acknowledges a message the server did not send.",
  ["schedules", "fault_sequences"],
  "All interleavings of server messages, resends, announcements, refused acknowledgement containers and calls.",
  "No test has a session; acknowledgements are only visible to a peer and are coupled to later sends and refusals.",
  ["session/2_session_encrypted.ts"],
  [("acknowledgement queue", "session/2_session_encrypted.ts #toAcknowledge/#pendingAcks")],
  ["msgs_ack at the simulated data centre"])

prop("C06", "Forged, altered or foreign packets are never believed",
  "Nothing in a packet that was altered, truncated, made under another key, for another session or in the wrong direction is ever delivered to the application as an answer or an update, however it is interleaved with genuine traffic. After such packets the client keeps working: genuine calls made afterwards on a healthy network are answered.",
  ["inputs", "schedules", "fault_sequences"],
  "All single-packet alterations and injections at any point of a session, mixed with any genuine traffic.",
  "Decryption is private to the session and no test feeds it a packet, genuine or not.",
  ["session/2_session_encrypted.ts", "client/2_client_encrypted.ts"],
  [("message key and session ID checks", "session/2_session_encrypted.ts #decryptMessage"), ("session invalidation", "session/2_session_encrypted.ts #invalidateSession")],
  ["ClientEncrypted.invoke settlement", "onUpdate handler"])

prop("C07", "Authorization key creation ends with a shared key or an error",
  "Whenever connecting without a key reports success, client and server hold the same 2048-bit key and the same first salt, whatever connection losses, delays or altered handshake answers occurred, and the key is bound to the right data centre and kind. The handshake retries after losses, succeeds within a bounded time on a healthy network, and otherwise fails with an error rather than hanging or returning a key the server does not have.",
  ["fault_sequences", "inputs", "schedules"],
  "All positions of connection losses and all alterations of handshake replies, for permanent and temporary keys, any DC and any pq.",
  "No test performs the handshake; helper functions are tested on fixed vectors only.",
  ["client/1_client_plain.ts", "client/2_client_encrypted.ts", "session/2_session_plain.ts", "utilities/1_auth.ts", "utilities/1_crypto.ts"],
  [("handshake", "client/1_client_plain.ts createAuthKey"), ("retries", "client/2_client_encrypted.ts #createAuthKeyInner")],
  ["keys held by client and simulated data centre", "ClientEncrypted.connect settlement"])

prop("C08", "With forward secrecy on, traffic uses only bound, unexpired temporary keys",
  "With perfect forward secrecy enabled, no API call is ever encrypted with the permanent key, none other than the binding itself is sent under a temporary key before it is bound, and bindings are valid. Temporary keys are replaced before or soon after they expire or when the server forgets them, after which calls succeed again without any action by the user.",
  ["schedules", "fault_sequences", "histories"],
  "All connect, reconnect, expiry and key-loss histories over days of simulated time.",
  "Expiry takes a day of wall time and needs a server holding both keys; no test covers it.",
  ["client/2_client_encrypted.ts", "client/1_client_plain.ts"],
  [("binding and refresh loop", "client/2_client_encrypted.ts #bindTemporaryAuthKey/#temporaryAuthKeyRefreshLoop")],
  ["keys and calls seen by the simulated data centre"])

prop("C09", "Transports carry packets intact whatever the chunking",
  "Over every transport (abridged and intermediate, plain or obfuscated, TCP or WebSocket, with or without a proxy secret) each packet sent arrives as exactly one identical packet in order, and each packet of the peer is received once, intact and in order, however writes are split and reads are chunked or delayed. A connection that breaks in the middle of a packet never leaks bytes of it into the next connection.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "All segmentations, short reads, partial writes, packet sizes and breaks at any byte, followed by reconnection.",
  "Existing transport tests only check provider selection; stream reassembly and cipher state depend on chunk boundaries and on concurrent writers.",
  ["transport/1_transport_abridged.ts", "transport/1_transport_intermediate.ts", "transport/0_obfuscation.ts", "transport/0_transport.ts", "connection/1_connection_tcp.ts", "connection/1_connection_web_socket.ts", "connection/0_byte_queue.ts"],
  [("framing", "transport/1_transport_abridged.ts, transport/1_transport_intermediate.ts"), ("obfuscation streams", "transport/0_obfuscation.ts"), ("exact reads and full writes", "connection/1_connection_tcp.ts")],
  ["packets at both ends of the simulated network"])

prop("C10", "Proxy connections are set up correctly or fail cleanly",
  "Connections through SOCKS5 and MTProto proxies (with or without fake TLS) perform a protocol-conforming setup for the right destination, deliver exactly the tunnelled bytes both ways under any chunking, and authenticate the proxy's answer where the protocol does. A refused, malformed, forged or cut-off setup ends in an error and a closed socket, never in a connection treated as open, and never leaks credentials or payload to an unverified peer.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "All proxy replies, chunkings and breaks at any byte of the setup, all credential and address kinds.",
  "No test opens a proxied connection.",
  ["connection/1_connection_socks5.ts", "connection/1_connection_tls.ts", "connection/0_get_tls_header.ts", "transport/2_transport_provider_mtproxy.ts", "transport/2_transport_provider_socks5.ts"],
  [("SOCKS5 negotiation", "connection/1_connection_socks5.ts"), ("fake TLS handshake and record layer", "connection/1_connection_tls.ts")],
  ["bytes at the simulated proxy", "Connection.open settlement"])

prop("C11", "Updates are applied exactly once and in order, with gaps recovered",
  "Every update of the account's common sequence reaches the application exactly once and in sequence order, whatever the server's delivery order, duplication, loss or batching, with everything missed while offline or lost on the way recovered once the server can be reached. Updates already covered by the known state are never shown again (unless pending updates are to be dropped, after which everything starts from the server's state), and the stored state never moves past an update that was not processed.",
  ["schedules", "fault_sequences", "histories"],
  "All orders, losses, duplications and groupings of server updates, difference slices and reconnections.",
  "Tests cover no update handling; gaps and their recovery exist only as histories.",
  ["client/2_update_manager.ts", "client/6_client.ts"],
  [("pts/qts/seq checks", "client/2_update_manager.ts"), ("difference recovery", "client/2_update_manager.ts recoverUpdateGap")],
  ["update handlers", "persisted update state"])

prop("C12", "Channel updates are applied exactly once and in order per channel",
  "Every update of a channel's own sequence reaches the application exactly once and in that channel's order, independently of other channels and of the account's sequence, with gaps recovered through the channel difference and too-long gaps resynchronised without repeating anything older. One channel's gap, recovery or failure never delays or corrupts another channel's updates forever.",
  ["schedules", "fault_sequences", "histories"],
  "All orders, losses and duplications of updates of several channels, difference slices, too-long differences and access loss.",
  "No test covers channel differences or the interaction of several sequences.",
  ["client/2_update_manager.ts"],
  [("channel sequence handling", "client/2_update_manager.ts")],
  ["update handlers", "persisted channel state"])

prop("C13", "With guaranteed delivery, no accepted update is lost in a crash",
  "With guaranteed update delivery enabled, an update the client has accepted from the server is handed to the application at least once even if the process crashes at any point and restarts from its storage, in order and without skipping, and the stored state never covers an update that was neither handed over nor stored; without a crash or a failing handler it is handed over exactly once.",
  ["crash_points", "schedules", "histories"],
  "All crash instants during receipt, storing, handling and removal of updates, with only committed storage surviving.",
  "A crash between storing and handling cannot be produced by a unit test; no test covers the option at all.",
  ["client/2_update_manager.ts", "client/0_storage_operations.ts"],
  [("persisted update queue", "client/2_update_manager.ts, client/0_storage_operations.ts updates")],
  ["update handlers before and after restart"])

prop("C14", "Write-behind storage never loses, resurrects or mixes up values",
  "Reads through the storage layer always return the latest value written by the same client, before, during and after the periodic commit, whatever the storage's delays, failures and concurrent access; after a commit completes a restart finds exactly the committed values. A failing or slow backend loses nothing that is still wanted: values are retried until stored, and a deleted or overwritten value never comes back.",
  ["schedules", "crash_points", "fault_sequences"],
  "All interleavings of reads, writes, deletions, range reads, clears and commits with slow and failing backend operations and crashes.",
  "Existing tests use an instantaneous in-memory backend and sequential calls; the races between commit and write need a delayed backend.",
  ["client/0_storage_operations.ts", "storage/1_utilities.ts", "storage/0_storage.ts"],
  [("cached maps and values with commit", "client/0_storage_operations.ts"), ("commit loop", "client/6_client.ts")],
  ["StorageOperations reads", "backend contents after restart"])

prop("C15", "Account state survives crashes and restarts; sign-out erases it",
  "After a crash at any instant and a restart on what storage had made durable, the client resumes with the same authorization, data centre and key it had reported as authorized, without signing in again, and never continues with a mixture of old and new credentials. Signing out, or being logged out by the server, erases everything stored so that a restart begins unauthorized.",
  ["crash_points", "fault_sequences", "histories"],
  "All crash instants during sign-in, data-centre migration, salt changes and sign-out.",
  "No test restarts a client; durability depends on the order of storage writes relative to the crash.",
  ["client/6_client.ts", "client/2_sign_in.ts", "client/0_storage_operations.ts", "storage/0_storage.ts"],
  [("auth key, DC and account stored at sign-in", "client/6_client.ts"), ("storage wipe", "client/6_client.ts signOut")],
  ["calls seen by the simulated data centres after restart", "storage contents"])

prop("C16", "Uploaded files arrive complete and intact",
  "When an upload reports success, the server holds exactly the source's bytes under the returned file reference, with correct part count, sizes and name, for every size, chunk size, source kind and parallelism, and despite part failures, flood waits and connection losses that are retried. An upload that cannot succeed, is aborted, or whose source fails ends with an error and never with a reference to incomplete data.",
  ["fault_sequences", "schedules", "inputs"],
  "All part completion orders, per-part errors, aborts and connection losses, all sizes around the big-file and part-size boundaries.",
  "Tests cover helper functions; the parallel part pipeline needs a server answering out of order and failing.",
  ["client/2_file_manager.ts", "client/3_client_encrypted_pool.ts", "client/6_client.ts"],
  [("part pipeline with retries", "client/2_file_manager.ts upload")],
  ["parts assembled by the simulated data centre"])

prop("C17", "Downloads yield exactly the file's bytes",
  "A download yields exactly the bytes of the requested file from the requested offset, each once and in order, whatever the data centre it lives on, chunk size, caching, flood waits, connection losses or concurrent downloads. If it cannot, or is aborted, it ends with an error; it never ends normally with missing, repeated or foreign bytes, and a cached file is as good as a fresh one.",
  ["fault_sequences", "schedules", "inputs", "histories"],
  "All reply orders, errors, aborts, concurrent and repeated downloads of the same and different files, offsets and chunk sizes, restarts with cached parts.",
  "No test downloads anything; caching and concurrency errors need overlapping transfers.",
  ["client/2_file_manager.ts", "client/0_storage_operations.ts", "client/3_client_encrypted_pool.ts"],
  [("chunk loop and part cache", "client/2_file_manager.ts download")],
  ["chunks yielded by Client.download"])

prop("C18", "Secret chat messages are delivered exactly once and in order",
  "In an established secret chat each message a party sends is shown to the other exactly once and in sending order, whatever reordering, duplication, loss with resend requests, or restarts occur, and gaps are detected and repaired rather than skipped. Sequence numbers put on the wire follow the secret chat protocol, so a conforming peer never has a reason to abort: no number is ever given to two different messages, also not across crashes, and what is asked for again is sent again. The files of such messages arrive as they were sent. (A message a client received in the moments before it crashed, without having been shut down, may be lost or be shown once more.)",
  ["schedules", "fault_sequences", "histories", "crash_points"],
  "All delivery orders, duplications, losses, resend requests, concurrent sends and restarts of either party.",
  "No test exercises secret chats; sequence discipline is a two-party history property.",
  ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts"],
  [("in/out sequence numbers and resend handling", "client/3_secret_chat_manager.ts")],
  ["messages seen by the model peer and by the update handlers"])

prop("C19", "Secret chat keys agree, rotate safely, and reject tampering",
  "A secret chat becomes usable only when both parties derived the same key from valid parameters, and then for both, and key changes (started by either or both parties, at any moment and across restarts) always end with both using the same key and no message undecryptable, and never keep later changes from being made; a key that was used for over a hundred messages or a week is changed (an exchange interrupted by a crash, rather than a shutdown, may block later ones). Altered, foreign, mirrored or malformed messages are never shown, and never stop later genuine messages from being shown.",
  ["schedules", "fault_sequences", "inputs", "crash_points"],
  "All interleavings of key exchanges, messages, discards and tampered deliveries.",
  "No test exercises the key exchange; its races need two parties under a scheduler.",
  ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts"],
  [("request/accept and rekey state machine", "client/3_secret_chat_manager.ts")],
  ["model peer", "update handlers"])

prop("C20", "Network statistics count every byte exactly once",
  "The reported network statistics equal the bytes the client's connections for messages and for media actually sent and received, each under its own category and direction, whatever the transport, across reconnections, several connections and restarts from storage, up to what had not been committed at a crash (the short connections that only create keys are not counted). Reading or committing statistics concurrently with traffic neither loses nor double-counts anything.",
  ["schedules", "fault_sequences", "crash_points"],
  "All interleavings of traffic, commits, reads, connection losses and restarts.",
  "No test covers the statistics; lost-update races need interleaved storage operations.",
  ["client/2_network_statistics_manager.ts", "client/6_client.ts"],
  [("counters and commit", "client/2_network_statistics_manager.ts")],
  ["Client.getNetworkStatistics", "byte counters of the simulated network"])

prop("C21", "A client behind a worker behaves like a direct client",
  "Every method called on a client that runs in a worker is executed by that client with the very arguments that were passed, and settles exactly once with its own result or error — an error of the library arrives as the same error, with its fields — however requests, responses and updates of several clients interleave; arguments that can't be sent reject the call. Byte buffers and streams cross unchanged. Updates reach the page's handlers once each and in the order the worker sent them, registered invoke error handlers are asked once per failure, disconnecting releases the calls in progress, and several clients sharing one worker never see each other's responses or updates.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of calls, responses, updates, stream chunks, disconnections and worker failures between page and worker, for several clients.",
  "Tests do not start a worker; correlation and ordering errors need concurrent calls and delayed messages.",
  ["client/6_client_dispatcher.ts", "client/7_client_receiver.ts", "client/7_client_worker.ts", "worker.ts", "client/0_worker_error.ts", "client/0_worker_request.ts", "client/1_worker_response.ts"],
  [("request IDs and pending table", "client/6_client_dispatcher.ts"), ("receiver", "client/7_client_receiver.ts")],
  ["ClientDispatcher method settlement"])

prop("C22", "Automatic retries follow the error handlers and the server's waits",
  "When the server answers a call with a flood wait within the threshold of the default handler (10 seconds), the call is repeated only after the demanded time and its caller sees the final outcome; a wait above the threshold, another error, or a handler's refusal reaches the caller unchanged unless a handler decides to repeat the call. Registered handlers are consulted in order, each once per failure and only if the ones before passed on, with the number of failures so far; the caller of a call that was cut off by disconnecting is released, and without connection losses no call is executed again after it succeeded.",
  ["schedules", "fault_sequences", "configurations"],
  "All sequences of errors per call, handler decisions, aborts and disconnections, over simulated waits of any length.",
  "Waiting in tests would take real time and needs a server that returns errors by script.",
  ["client/6_client.ts", "client/1_invoke_middleware.ts", "client/2_file_manager.ts"],
  [("invoke middleware and error handling", "client/6_client.ts, client/1_invoke_middleware.ts")],
  ["Client.invoke settlement", "server execution times"])

prop("C23", "Calls reach the right data centre with the right authorization",
  "Calls for another data centre or for media are executed there by a connection authorized for the same user, with the authorization transferred at most as often as needed and never leaked to another data centre; connection pools serve all concurrent transfers without losing or mixing them. A connection that is lost, idle or whose key was forgotten is replaced transparently, and disconnecting the client ends all of them.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of concurrent cross-DC calls, export/import failures, idle timeouts and connection losses.",
  "The pool's unit test uses stub clients and no transfers of authorization.",
  ["client/6_client.ts", "client/3_client_encrypted_pool.ts"],
  [("pool and authorization transfer", "client/6_client.ts, client/3_client_encrypted_pool.ts")],
  ["calls seen per simulated data centre"])

prop("C24", "Handlers run in order and their failures stay contained",
  "Update handlers see updates in the order the client accepted them, each middleware runs at most once per update and only after its predecessor passed on, and a handler that throws, is slow or calls the client back never loses, repeats or reorders other updates and never blocks the client's own calls. Connection and authorization state changes are reported in the order they happened with no repetitions and a final state that matches reality.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of handler completion, failure, reentrant calls and incoming updates.",
  "Composer tests run middleware one at a time with immediate handlers.",
  ["client/5_composer.ts", "client/6_client.ts", "client/2_update_manager.ts", "utilities/2_queue.ts"],
  [("handler chain", "client/5_composer.ts"), ("update handling queue", "client/2_update_manager.ts")],
  ["handler invocations", "connectionState and authorizationState updates"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
