B = "Every element of the stated bounded space is executed on the compiled sources of /repo; the mpz virtual machines, OT and share conversion beneath them are replaced by ideal functionalities that evaluate the same circuits. Nothing is claimed beyond the bounds in the evidence file. "
T = "Exhaustive enumeration of {} over complete prover/verifier/server sessions run in one controlled scheduler, each checked against what the server itself saw."
F = ["crates/tlsn/src/prover.rs", "crates/tlsn/src/verifier.rs", "crates/mpc-tls/src/leader.rs", "crates/mpc-tls/src/follower.rs"]
P("N01", "The verifier learns exactly the requested parts, and they are true",
  "In every session of honest parties, in MPC mode (online or deferred decryption, either network setting) and in proxy mode, each disclosure request gives the verifier precisely the requested positions of the transcript with the bytes the server sent or received, the server's name if and only if it was requested, and precisely the requested commitments, each opening to those bytes with the prover's secret. Both parties hold the same record-by-record account of the connection.",
  ["inputs", "histories"], "every subset revealed of small transcripts x every subset committed x algorithm x direction; every pair of commitments; every range between block and record boundaries; sequences of requests on one session",
  "integration tests run one or two fixed requests against the real MPC back end, and do not build here",
  F + ["crates/tlsn/src/verifier/verify.rs", "crates/tlsn/src/transcript_internal"], [("disclosure", "prover/prove.rs, verifier/verify.rs"), ("commitments", "transcript_internal/commit")], B, T.format("disclosure requests"))
P("N02", "Undisclosed data and session keys stay with the party they belong to",
  "Nothing the verifier receives in a session, message or decoded value, contains undisclosed plaintext, the keystream over it, a key of a direction not fully disclosed, or the master secret. In MPC mode nothing the prover receives contains a session key or the master secret before every received record is in the verifier's hands.",
  ["inputs", "histories"], "every pattern of disclosed and hidden stretches x commitments x mode, looking for every hidden 6-byte window, its keystream and each key in every message and decoded value",
  "no test looks at what a party receives",
  F + ["crates/mpc-tls/src/record_layer.rs"], [("key release", "record_layer.rs commit"), ("authentication", "transcript_internal/auth.rs")], B, T.format("disclosure patterns") + " Monitors every frame and every decoded value.")
P("N03", "No alteration of the prover's messages makes the verifier accept falsehood",
  "For every single alteration of any byte of any message the prover sends, from the first to the last, the verifier does not panic or spin, and whatever it still accepts is true: the connection it attests is one the server completed, its records are those on the wire, the name, positions, bytes and commitments it outputs are those of that connection.",
  ["inputs", "fault_sequences"], "every byte of every prover message of the base sessions x the masks in the bound, in MPC and proxy mode",
  "tests only run honest provers",
  F + ["crates/tlsn/src/verifier/verify.rs", "crates/tlsn/src/transcript_internal/auth.rs", "crates/mpc-tls/src/utils.rs"], [("verification", "verifier/verify.rs verify"), ("plaintext authentication", "transcript_internal/auth.rs")], B, T.format("altered prover messages"))
P("N04", "Every schedule of an honest session completes with the same result",
  "Whatever the order in which prover, verifier, application, server and the two connection drivers are scheduled, however small the buffers of the connections, and wherever the application switches decryption on or off, a session of honest parties completes without deadlock, busy loop or panic, and with the same transcript and disclosures.",
  ["schedules", "inputs"], "all schedules with up to two (thorough: three) delays of a round-robin schedule; all buffer capacities in the bound; all placements of up to two (thorough: three) decryption switches",
  "tests run under one schedule of a real executor",
  F + ["crates/tlsn/src/prover/client/mpc.rs", "crates/tlsn/src/prover/client/proxy/mod.rs", "crates/tlsn/src/prover/conn.rs"], [("client state machine", "prover/client/mpc.rs poll"), ("byte shuffling", "prover.rs io_to_tls_client, io_from_tls_client")], B, "Systematic delay-bounded exploration of task schedules of the real asynchronous code.")
P("N05", "Every way of closing a connection ends both parties' session the same way",
  "Whichever side closes first, politely or not, before or after data, read or unread: neither party hangs or panics, both reach the same verdict, and it is success whenever each direction ended with application data or close_notify (in proxy mode also for bare closes) and failure after a fatal alert or an MPC connection that never carried data from the server. On success the transcript holds all the server sent, and the application read it all if it read to the end.",
  ["histories", "schedules"], "every combination of ten client and ten server closing behaviours x data in either direction x mode; thorough: each with every one-delay schedule",
  "tests cover four closures",
  F + ["crates/tlsn/src/prover/client/mpc.rs", "crates/mpc-tls/src/client/conn.rs", "crates/mpc-tls/src/utils.rs"], [("closing", "prover/client/mpc.rs server_close, client_close"), ("closing alerts", "mpc-tls utils.rs check_close_notify")], B, T.format("closing behaviours"))
P("N06", "A party vanishing at any point leaves the others with an end, not a hang or lie",
  "If the prover's side, the verifier's side, the application or the server disappears at any scheduling step of a session, every remaining party's operation ends, without panic or stack exhaustion, and whatever it outputs is true of the connection as far as it went.",
  ["crash_points"], "every scheduling step x the four parties x four modes; thorough: each with every delay around the crash",
  "tests do not kill parties",
  F + ["crates/tlsn/src/prover/future.rs", "crates/tlsn/src/prover/client/mpc.rs", "crates/tlsn/src/prover/client/proxy/mod.rs"], [("end of the server connection", "prover.rs poll"), ("error closing", "prover/future.rs")], B, T.format("crash points"))
P("N07", "A corrupted server connection never yields corrupted accepted data",
  "For every byte the server puts on the wire, in the handshake or after, altering it never lets the application (with online decryption), the prover's transcript or the verifier accept data the server did not send; no party panics or spins.",
  ["fault_sequences"], "every byte from the server altered, in four modes",
  "tests do not alter the server's bytes",
  ["crates/mpc-tls/src/record_layer.rs", "crates/mpc-tls/src/client/conn.rs", "crates/mpc-tls/src/client/tls12.rs", "crates/tlsn/src/verifier.rs"], [("tag verification", "record_layer/decrypt.rs"), ("handshake verification", "client/tls12.rs")], B, T.format("corrupted bytes"))
P("N08", "No alteration of the verifier's messages misleads the prover",
  "For every single alteration of any byte of any message the verifier sends, the prover and its application do not panic or spin, the application only reads what the server sent, the server only what the application wrote, and a transcript, commitment or secret the prover ends up with is that of the actual connection.",
  ["fault_sequences"], "every byte of every verifier message of the base sessions x the masks in the bound",
  "tests only run honest verifiers",
  F + ["crates/tlsn/src/prover/prove.rs", "crates/mpc-tls/src/record_layer.rs"], [("prover session", "prover.rs"), ("record layer", "record_layer.rs")], B, T.format("altered verifier messages"))
P("N09", "Lost, repeated, reordered or replaced messages never make a party accept a lie",
  "For every loss, repetition, reordering, truncation, insertion or replacement of a whole message one party sends to the other, alone or in pairs, the other party does not panic or spin, and whatever it accepts is what the actual connection says.",
  ["fault_sequences"], "every fault of every message of the base sessions; every pair of losses and repetitions, and of insertions at neighbouring (thorough, in online mode: any) messages",
  "tests only run honest parties that keep to the protocol",
  F + ["crates/tlsn/src/prover/prove.rs", "crates/mpc-tls/src/follower.rs", "crates/mpc-tls/src/leader.rs"], [("session order", "verifier.rs"), ("message order", "mpc-tls/src/follower.rs")], B, T.format("lost, repeated, reordered and replaced messages"))
P("N10", "No forged message of the prover misleads or crashes the verifier",
  "For every well-formed or malformed protocol message from a vocabulary covering each kind and its extreme fields, sent before or instead of any message of the prover, the verifier does not panic or spin, and whatever it accepts is what the actual connection says.",
  ["fault_sequences"], "every message of the vocabulary at every position of the base sessions",
  "tests only run honest provers",
  F + ["crates/mpc-tls/src/follower.rs", "crates/mpc-tls/src/record_layer.rs", "crates/mpc-tls/src/utils.rs", "crates/mpc-tls/src/msg.rs"], [("message order", "mpc-tls/src/follower.rs"), ("limits", "record_layer.rs")], B, T.format("forged messages"))
P("N11", "Only what both parties agreed to and trust takes place",
  "When the verifier declines a session no connection to the server is made; when it declines a disclosure the prover is told so and other disclosures of the session are unaffected, in any order. A server whose certificate is not valid for the requested name under the prover's roots gets no data, and one not valid under the verifier's roots is never accepted with its name.",
  ["histories", "configurations"], "every sequence of accepted and declined requests up to the bound x mode; every root set of each party x name x mode",
  "integration tests accept everything and share one root",
  F + ["crates/tlsn/src/msg.rs", "crates/tlsn/src/verifier/verify.rs"], [("consent", "verifier.rs accept, reject"), ("trust", "verifier/verify.rs, mpc-tls/src/client/tls12.rs")], B, T.format("answers, root sets and names"))
P("N12", "Session limits hold: what fits always works and what exceeds them is refused",
  "A session whose application data and application data records stay within the configured limits, however cut into records, completes; one that exceeds them by more than the protocol's own allowance ends with an error at both parties. Neither ever hangs or panics, and the server and application never see more than the limit and that allowance.",
  ["configurations", "inputs"], "every limit in the bound x data lengths around it x cuts into records; every record limit x record count; with and without deferred decryption",
  "tests use limits far above what they send",
  ["crates/mpc-tls/src/config.rs", "crates/mpc-tls/src/record_layer.rs", "crates/mpc-tls/src/record_layer/aead/aes_gcm.rs", "crates/tlsn/src/deps.rs", "crates/core/src/config/tls_commit/mpc.rs"], [("limits", "mpc-tls/src/config.rs build"), ("allocation", "record_layer.rs alloc")], B, T.format("limits and record lengths"))
