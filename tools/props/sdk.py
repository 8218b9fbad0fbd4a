B = "Every element of the stated bounded space is executed on the compiled sources of /repo (sdk-core, tlsn, mpc-tls and core, over stand-ins for the unavailable cryptographic dependencies, whose agreement with the real interfaces the repository's own unit tests check). Nothing is claimed beyond the bounds in the evidence file. "
T = "Exhaustive enumeration of {} driving the real code in lockstep with an independent reference model."
D = "crates/sdk-core/src/"
P("S06", "Handlers select exactly the bytes they name, for revealing or for committing",
  "Given handlers over the sent and received transcript, the SDK yields exactly the byte ranges of the named part (start line, method, target, protocol, status, headers with or without name or value, body, JSON members by path with or without key or value, regular expression matches under their flags, or everything), in the direction and with the action and algorithm asked for, and no other byte. What cannot be selected is an error, never a wider or narrower range.",
  ["inputs", "configurations"], "every handler shape on every message of the bound, every pair (thorough: triple) of handlers, every truncation of a message, every wire spelling of a handler",
  "unit tests select a few parts of one message each",
  [D + "handler/mod.rs", D + "handler/extract.rs", D + "types.rs"], [("selection", "handler/mod.rs compute_reveal"), ("parts", "handler/extract.rs extract_ranges")], B, T.format("handlers and messages"))
P("S07", "The default HTTP and JSON committers commit to exactly the documented parts",
  "For every request and response, alone or in a sequence making up a transcript, the committers commit to the whole message and to each documented part of it (its structure without values, target, headers, header values, body, and for JSON bodies each member, key, value and element), each once, with the configured kind and in the right direction, and to nothing else. A message that extends past the transcript is refused.",
  ["inputs"], "every message structure of the bound x hash algorithm; every sequence of up to three messages in each direction; the published fixtures",
  "unit tests commit to a few fixtures without comparing the set of commitments",
  ["crates/formats/src/http/commit.rs", "crates/formats/src/json/commit.rs", "crates/formats/src/http/mod.rs"], [("HTTP committer", "formats/src/http/commit.rs"), ("JSON committer", "formats/src/json/commit.rs"), ("transcript parsing", "formats/src/http/mod.rs HttpTranscript::parse")], B, T.format("messages"))
P("S08", "An SDK session discloses exactly what was asked, and openings match commitments",
  "In a session in either mode the prover's transcript is byte for byte what the server received and sent. The verifier learns exactly the ranges revealed, with their true bytes, nothing of the others, the server's name only if disclosed, and the true lengths and protocol version. The openings returned to the prover correspond one to one, in input order, to the commitments asked for, and each opens its range under its algorithm.",
  ["inputs", "configurations"], "every list of up to 2 (thorough 3) revealed ranges and up to 3 (thorough 4) commitments, repeats included, x mode x identity",
  "no test runs a whole session through the SDK with commitments",
  [D + "prover.rs", D + "verifier.rs", D + "types.rs"], [("openings", "prover.rs build_reveal_output"), ("disclosure", "prover.rs SdkProver::reveal"), ("verification", "verifier.rs SdkVerifier::verify")], B, T.format("disclosures over whole sessions"))
P("S09", "SDK sessions only go forward: a call out of order is refused and has no effect",
  "From every point a session can be at, every call that does not belong there is refused at once with an invalid-state error, touches no connection it is given, and never makes the session complete. Calls in order succeed; a prover or verifier is complete after its last step and not before, also when its peer leaves the order of calls.",
  ["histories"], "every prefix of a session, followed by every sequence of up to 2 (thorough 4) calls that starts out of order, x side x mode",
  "unit tests try single calls on a fresh object",
  [D + "prover.rs", D + "verifier.rs"], [("prover states", "prover.rs State"), ("verifier states", "verifier.rs State")], B, T.format("call sequences"))
P("S10", "A verifier accepts a session if and only if it is within its limits",
  "For every combination of limits, both sides set up the session if every amount of data and number of records the prover asks for is within what the verifier allows (no limit allows any number), and otherwise both sides end with a protocol error, the prover being told why. The configured amounts are the amounts that can be exchanged. Builders yield the values given, the documented defaults otherwise, and configurations that cannot work are refused.",
  ["configurations"], "every pair of prover and verifier limits in the grid, every combination of builder options, every broken root",
  "unit tests check two rejected configurations",
  [D + "config.rs", D + "verifier.rs", D + "prover.rs"], [("limits", "verifier.rs SdkVerifier::setup"), ("configuration", "config.rs ProverConfig, VerifierConfig"), ("validation", "prover.rs SdkProver::new")], B, T.format("configurations"))
P("S11", "The HTTP exchange of a session is exactly what was asked and answered",
  "Over every mode and every way the connections carry bytes, the server receives exactly the request given (method, target, headers, body in its documented encoding), and the caller gets the server's status, every header with its name and values in order, and the whole body, however the response is framed or cut into records. A request that is not valid HTTP is refused and nothing of it is sent.",
  ["inputs", "schedules"], "method x target x headers x body; every cut of six responses into 2 (thorough 3) records; transfer sizes down to one byte and lags on either connection",
  "no test sends a request through the SDK",
  [D + "prover.rs", D + "types.rs", D + "io.rs"], [("request conversion", "types.rs TryFrom<HttpRequest>"), ("exchange", "prover.rs send_request"), ("byte streams", "io.rs HyperIo")], B, T.format("requests, responses and deliveries"))
P("S12", "A session that loses a connection ends, and never with a false result",
  "Whichever connection fails, at whichever transfer, by reset or by ending, prover and verifier both come to an end without hanging or panicking. A side counts as complete exactly if its last step succeeded. A verifier that succeeds has verified what the prover's transcript holds, and a prover's transcript never holds what the server did not send.",
  ["fault_sequences", "crash_points"], "each of three connections failing at every transfer, in two ways, x mode x deferred decryption x transfer sizes",
  "no test injects a fault into an SDK session",
  [D + "prover.rs", D + "verifier.rs", "crates/tlsn/src/session.rs", "crates/tlsn/src/prover/future.rs"], [("session", "sdk-core/src/prover.rs, verifier.rs"), ("connection driver", "tlsn/src/session.rs"), ("errors of the connection", "tlsn/src/prover/future.rs")], B, T.format("fault positions"))
