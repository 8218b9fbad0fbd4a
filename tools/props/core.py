B = "Every element of the stated bounded space is executed on the compiled sources of /repo. Dependencies that are not available offline are replaced by the stand-ins in shims/ (hashes checked against known answers and the presentation stored in the repository). Nothing is claimed beyond the bounds in the evidence file. "
T = "Exhaustive enumeration of {} driving the real code in lockstep with an independent reference model."
tr = "crates/core/src/transcript/"
P("C01", "Partial transcripts reveal exactly the chosen ranges and combine by union",
  "A partial transcript shows the original bytes at the selected positions and a fixed filler everywhere else, whatever the hidden bytes were; neither its contents nor its stored form depend on them. Combining partial transcripts of one transcript shows exactly the union of what each showed, in any order, and the counters, coverage queries and iterators agree with that set.",
  ["histories", "inputs"], "all reachable states of two-directional transcripts under every sequence of unions and fills until closure; all pairs of hidden contents",
  "tests combine two hand-picked partial transcripts",
  [tr+"mod.rs", "crates/core/src/transcript.rs"], [("partial transcript", "transcript.rs PartialTranscript")], B, "Breadth-first exploration to closure of all states reachable by partial transcript operations, real code in lockstep with a per-position model.")
P("C02", "Untrusted partial transcripts and openings decode consistently or not at all",
  "Bytes received from another party decode to a partial transcript or commitment opening only if index set, data length and declared total length agree; otherwise decoding fails with an error. No input makes decoding panic or allocate memory out of proportion to its size.",
  ["inputs"], "every combination of index set, data length and total in the bound, every truncation and byte change of encodings, huge declared sizes",
  "tests decode only well-formed values",
  ["crates/core/src/transcript.rs", tr+"hash.rs"], [("validated decoding", "transcript.rs")], B, T.format("encoded values and corruptions"))
P("C03", "A transcript proof authenticates nothing the prover did not commit to",
  "Verification of a transcript proof succeeds only if every revealed byte is covered by an opening whose hash, under its own algorithm, blinder, direction and positions, equals a commitment the verifier holds, and lengths match the session. On success the output is exactly the revealed bytes at their true positions; a wrong byte, shifted range, other direction, blinder, algorithm or length is refused.",
  ["inputs", "histories"], "every list of openings up to the bound from a pool of true and false openings, every revealed set, every single lie",
  "tests use one commitment and one wrong byte",
  [tr+"proof.rs", tr+"hash.rs"], [("proof verification", "transcript/proof.rs TranscriptProof::verify_with_provider")], B, T.format("openings, revealed sets and lies"))
P("C04", "A coverable disclosure can always be proven and opens nothing more",
  "Whenever the requested ranges are a union of committed ranges the proof builder succeeds, its proof verifies and discloses exactly the request; when they are not, it fails and says so without disclosing anything. The outcome does not depend on the order in which commitments were made or ranges requested, and only commitments inside the request are opened.",
  ["inputs", "histories"], "every family of commitments up to the bound with every query over them, every order of requests, every commitment kind preference",
  "tests cover a handful of commitment layouts",
  [tr+"proof.rs", tr+"commit.rs"], [("proof builder", "transcript/proof.rs TranscriptProofBuilder")], B + "What is coverable is defined by the repository's own tests for overlapping commitments. ", T.format("commitment families and queries"))
P("C05", "Proving and commitment configurations say exactly what was asked for",
  "After any sequence of builder calls the configuration reveals and commits precisely the union of the accepted requests, in each direction, with the algorithm in force at the time of each call; a request beyond the transcript is refused and changes nothing. Identity and commitment requests appear exactly when made.",
  ["histories"], "every sequence of builder calls up to the bound over all ranges of small transcripts",
  "tests make single calls",
  ["crates/core/src/config/prove.rs", tr+"commit.rs"], [("prove config", "config/prove.rs"), ("commit config", "transcript/commit.rs")], B, T.format("builder call sequences"))
P("C06", "Merkle proofs show exactly the leaves of the committed tree",
  "For every tree size and subset of leaves the produced proof verifies against the root, in any order of presentation. With any leaf value, position, root, sibling or leaf count altered, or a position repeated or missing, it is refused without a panic; the root depends on the order and content of all leaves but not on how they were inserted.",
  ["inputs"], "all tree sizes up to the bound, all subsets of leaves, all single alterations",
  "tests check a few subsets of one tree",
  ["crates/core/src/merkle.rs"], [("Merkle tree", "merkle.rs")], B + "The underlying rs_merkle is a stand-in with the same algorithm. ", T.format("trees, subsets and alterations"))
P("C07", "Stored handshake data proves the server's identity and nothing else",
  "Handshake data is accepted exactly when its certificate chain is valid for the name and time under the configured roots and the leaf key signed, with the claimed algorithm, both randoms and the ephemeral key that the session used. Any altered bit, other time, name, key, algorithm or chain order is refused, also after a storage round trip; a malformed root or name is refused when configured.",
  ["inputs", "configurations"], "leaf x intermediates x roots x boundary times; key x signature x claimed algorithm; every bit; all short names",
  "tests use two recorded connections",
  ["crates/core/src/connection.rs", "crates/core/src/webpki.rs"], [("handshake data", "connection.rs HandshakeData::verify"), ("certificate verifier", "webpki.rs")],
  B + "Trusts certificates and signatures generated with OpenSSL and ring. ", T.format("chains, signatures and alterations"))
P("C08", "The TLS transcript is rebuilt faithfully from recorded traffic or refused",
  "From raw traffic the builder recovers exactly the handshake data, the handshake hashes TLS 1.2 defines and the records in order with their sequence numbers, independent of how messages were split into records. Traffic that misses, repeats or reorders required messages, is truncated, uses another version or has gaps in sequence numbers is refused without a panic.",
  ["inputs", "histories"], "every order and subset of handshake messages in the bound, every record split, truncation and sequence gap",
  "tests parse one recorded connection",
  [tr+"tls.rs", tr+"tls/builder.rs"], [("TLS transcript builder", "transcript/tls/builder.rs")], B, T.format("recorded traffic variants"))
P("C09", "Session limits are the configured ones and never contradict each other",
  "After any sequence of builder calls a session configuration carries the last value set for each limit and the documented default otherwise, and is refused when a required value is missing or the online receive limit exceeds the total. The same rule holds for limits received from the other party, and storing and loading changes nothing.",
  ["histories", "inputs"], "every sequence of builder calls up to the bound over boundary values; every combination of boundary values in encoded form",
  "no unit test covers the configurations",
  ["crates/core/src/config/tls_commit/mpc.rs", "crates/core/src/config/tls_commit/proxy.rs", "crates/core/src/config/tls.rs", "crates/core/src/config/verifier.rs"], [("MPC-TLS limits", "config/tls_commit/mpc.rs"), ("other configurations", "config/")], B, T.format("builder call sequences and encoded limits"))
at = "crates/attestation/src/"
P("A01", "An attestation holds exactly the attested fields; no altered body verifies",
  "Every field put into an attestation appears in it unchanged and in order, under its own position, and the signed root covers all of them with hashes separated by field kind. A body shown with a field altered, moved, repeated, exchanged with another attestation's or taken from another kind does not verify; only leaving out optional fields with a proper proof does.",
  ["inputs", "configurations"], "algorithms x extension lists x commitments; every list of optional fields under any ids; every assignment of ids to mandatory fields",
  "tests attest one request and flip one value",
  [at+"lib.rs", at+"proof.rs", at+"serialize.rs", at+"hash.rs"], [("attestation body", "lib.rs Body"), ("body proof", "proof.rs")], B, T.format("attestations and altered bodies"))
P("A02", "A presentation shows only what the signed attestation supports",
  "A presentation made from a genuine session verifies and shows the server name, connection data and exactly the revealed transcript bytes. Changed in any byte or assembled from parts of different sessions it is refused, or shows a part of the same; it never shows an altered attestation, name or transcript, and never makes the verifier panic. The presentation stored in the repository keeps verifying.",
  ["inputs"], "every bit flip, byte substitution, truncation, insertion and deletion of presentations for all algorithms; every mix of parts of three sessions; every revealed set",
  "tests verify one presentation and one altered copy",
  [at+"presentation.rs", at+"proof.rs", at+"connection.rs"], [("presentation", "presentation.rs")], B, T.format("presentation encodings and part mixes"))
P("A03", "A requester accepts only the attestation it asked for",
  "Validation succeeds exactly when the attestation uses the requested algorithms, carries the request's certificate commitment and every requested extension, and its signature covers the header whose root is that of the body. What is accepted can be presented. A request can be built only when complete, and its commitment opens to the secrets kept with it.",
  ["inputs", "histories"], "every combination of requested algorithms, commitment and extensions; every mix of parts of attestations; every changed bit; every setter order",
  "tests change one field at a time of one attestation",
  [at+"request.rs", at+"request/builder.rs", at+"request/config.rs"], [("validation", "request.rs Request::validate"), ("request builder", "request/builder.rs")], B, T.format("requests and attestations"))
P("A04", "A notary attests only supported requests and exactly what it was given",
  "A request is accepted exactly when its algorithms are among the configured ones and the extension validator allows its extensions; by default all extensions are refused. An attestation is issued only when connection data and key were set and the algorithms are available, and attests the last values set, with the requester's extensions followed by the notary's.",
  ["configurations", "histories"], "every subset of supported algorithms x validator x request; every sequence of builder calls up to the bound",
  "tests configure one algorithm at a time",
  [at+"builder.rs", at+"config.rs"], [("attestation builder", "builder.rs"), ("attestation config", "config.rs")], B, T.format("configurations, requests and call sequences"))
P("A05", "A server identity proof is bound to the attested commitment, key, time and name",
  "An identity proof is accepted exactly when its opening hashes to the attested certificate commitment under that commitment's algorithm, the handshake belongs to the attested ephemeral key, and the chain is valid at the attested time for the shown name. Any changed bit of the opening, another session's key, commitment or an unknown algorithm is refused.",
  ["inputs", "configurations"], "proofs x keys x commitments x algorithms x names x times; every changed bit",
  "tests use one valid proof and a wrong certificate",
  [at+"connection.rs"], [("identity proof", "connection.rs ServerIdentityProof")], B, T.format("proofs, keys, commitments, names and times"))
P("A06", "Attestation signatures verify only for their message, key and algorithm",
  "For each supported algorithm a signature made by the signer verifies with its key over exactly the signed message and with no other verifier, key, key type, message or altered signature, and has the standard length. Ethereum style signatures carry the recovery byte that recovers the signing key. Secrets that are not valid scalars are refused.",
  ["inputs"], "all message lengths in the bound x algorithms x verifiers; every changed bit of message, signature and key; all key type codes",
  "tests sign one message per algorithm",
  [at+"signing.rs"], [("signers and verifiers", "signing.rs")], B + "The curve arithmetic is OpenSSL's, in place of k256 and p256. ", T.format("messages, keys and alterations"))
