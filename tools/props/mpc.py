B = "The real client state machine, MPC-TLS leader and follower run in one thread against a scripted server that has the keys of the session and can break the protocol at any point; the mpz machines, share conversion and OT beneath are ideal functionalities. Nothing is claimed beyond the bounds in the evidence file. "
T = "Exhaustive enumeration of {} executed on the real client, leader and follower, each run judged by {}."
C = "crates/mpc-tls/src/client/"
P("M01", "The client follows the TLS 1.2 message order and nothing else",
  "Against any server the prover's TLS client completes a handshake only after exactly one of the message sequences TLS 1.2 allows: any other message, missing, repeated, exchanged or foreign, ends the connection with an error, while the handshake is unprotected with an unexpected_message alert. Nothing secret is agreed before the server's flight is complete, no data is delivered before the server's Finished, what follows a closure alert is ignored, and an error is final: every later call returns it and does nothing.",
  ["histories"], "every insertion, substitution, omission and exchange of one message of 30 kinds at every position of every legal flight x suite x status x client authentication x packing into records; thorough adds pairs and all handshake message sequences up to the bound",
  "no test drives the client against a misbehaving server",
  [C + "tls12.rs", C + "hs.rs", C + "conn.rs", C + "check.rs"], [("states of the handshake", "tls12.rs, hs.rs"), ("dispatch", "conn.rs process_new_packets, process_main_protocol"), ("alerts", "conn.rs process_alert")], B, T.format("server message sequences", "an automaton of RFC 5246"))
P("M02", "The client accepts only what it offered, signed and finished as TLS demands",
  "A handshake completes exactly if the server selects TLS 1.2, an offered suite fitting its certificate, no compression and only extensions the client offered, each once and well-formed; its chain leads from the expected name to a trusted root; its key is a point on P-256 under an offered signature scheme over both randoms and that key; and its Finished is right. In every other case the connection fails with nothing delivered, and for the hello, certificate or signature before the client sends anything of its own.",
  ["inputs"], "all versions, suites, compression methods and extension pairs; ALPN answers; chains, names and certificate bytes; curves, points, signature schemes, signed contents and every byte of the key exchange; every bit, length and derivation of Finished",
  "tests run the handshake with one honest server",
  [C + "hs.rs", C + "tls12.rs", "crates/mpc-tls/src/leader.rs"], [("ServerHello", "hs.rs ExpectServerHello"), ("server authentication", "tls12.rs ExpectServerDone"), ("Finished", "tls12.rs ExpectFinished")], B, T.format("server flights", "the verdict RFC 5246, 5746, 7301 and 8422 prescribe"))
P("M03", "Data reaches the client just as sent, however records are cut or tampered with",
  "However the server's flight is cut into records and reads, the handshake completes and all data arrives. If a protected record is altered in any bit, dropped, repeated, reordered, cut, merged, relabelled or injected, what is delivered is exactly the data before it, the end of the stream is not reported and the handshake is not complete if it was the Finished, with decryption immediate, in one go, switched on later or left to the end.",
  ["inputs", "fault_sequences"], "every cut of the flight into two records, uniform cuts, read sizes and pairs of cuts; every bit flip, drop, repetition, exchange, truncation, extension, relabelling and injection on Finished, data and closure x way of decrypting",
  "tests use whole records and no attacker",
  [C + "conn.rs", "crates/mpc-tls/src/leader.rs", "crates/mpc-tls/src/record_layer.rs", "crates/mpc-tls/src/record_layer/decrypt.rs"], [("joining fragments", "conn.rs process_incoming_plain"), ("tags", "record_layer/decrypt.rs verify_tags, aes_gcm.rs"), ("sequence", "record_layer.rs next_read")], B, T.format("record boundaries and tampering", "the bytes the server protected"))
P("M04", "An open connection serves both directions through every sequence of events",
  "After the handshake, in any interleaving of writes, received data, renegotiation requests, alerts, foreign handshake messages, forged records, decryption being switched off and on, and closing: the server receives exactly what was written, in order, in records within the configured size, and one no_renegotiation warning per request; the client is given exactly the data sent while it decrypts, nothing after a closure; fatal alerts, handshake messages and forgeries end it for good.",
  ["histories"], "every sequence of 16 operations up to the bound x decryption from the start or not x fragment sizes",
  "tests exchange one request and response",
  [C + "conn.rs", "crates/mpc-tls/src/leader.rs", "crates/mpc-tls/src/record_layer.rs"], [("plaintext buffers", "conn.rs flush_plaintext, send_appdata_encrypt"), ("deferred decryption", "record_layer.rs flush, commit")], B, T.format("operation sequences", "a model of both byte streams"))
P("M05", "Client authentication: when asked for, verifiable, only to a trusted server",
  "If and only if the server asks, the client sends a Certificate; with a key usable under an offered scheme it is the configured chain, followed by a CertificateVerify under such a scheme that verifies over the handshake so far; otherwise it is empty and none follows. If the server's certificate or key exchange signature is not valid, neither is sent. The handshake completes in all other cases.",
  ["configurations"], "key kinds and resolvers x lists of offered schemes (thorough: subsets of 13 in both orders) x certificate types and authorities x chain lengths x suite x validity of the server",
  "tests never request a client certificate",
  [C + "tls12.rs", C + "hs.rs", C + "sign.rs", C + "config.rs", C + "hash_hs.rs"], [("choice of certificate", "hs.rs ClientAuthDetails::resolve"), ("signature", "tls12.rs emit_certverify, sign.rs"), ("handshake buffer", "hash_hs.rs")], B, T.format("configurations and certificate requests", "signature verification with the certificate sent"))
