T = "Exhaustive enumeration of {} driving the real code in lockstep with an independent reference model."
B = "Every element of the stated bounded space is executed on the compiled sources of /repo; the reference model is written independently of them. Nothing is claimed beyond the bounds in the evidence file. "
tc = "crates/tls-core/src/"
P("T01", "Record framing does not depend on how bytes arrive",
  "For every byte stream and every way of splitting it into reads, the deframer delivers exactly the records the stream contains, in order and byte for byte, and keeps incomplete tails for the next read. A stream that stops being TLS (unknown type, foreign version, illegal length) yields the records before that point, then an error for good, and never anything after.",
  ["inputs", "schedules"], "every stream of up to N record or garbage elements, every placement of read boundaries and short reads, including the largest legal record sizes",
  "unit tests feed a handful of captured streams whole or byte by byte; chunking and error position interact over a combinatorial space",
  [tc+"msgs/deframer.rs", tc+"msgs/message.rs"], [("message deframer", "msgs/deframer.rs"), ("record header parse", "msgs/message.rs OpaqueMessage::read")],
  B + "Reads are modelled by readers returning chosen chunk sizes.", T.format("record streams and read schedules"))
P("T02", "Handshake messages are reassembled independently of record boundaries",
  "However handshake messages are split over or packed into records, the joiner hands out exactly the original sequence of messages, once each and in order, and reports whether a partial message is pending. Malformed or oversized messages are refused and never deliver anything parsed out of step.",
  ["inputs", "histories"], "every sequence of messages up to the bound and every cut into records, with hand-out interleaved",
  "tests use a few fixed splits; alignment errors show up only for particular cut positions and message mixes",
  [tc+"msgs/hsjoiner.rs"], [("handshake joiner", "msgs/hsjoiner.rs")], B, T.format("message sequences and record cuts"))
P("T03", "Fragmentation preserves content, type and version within the record limit",
  "Cutting a message of any length into records for any configured maximum yields records of the same type and version, none longer than the maximum and none empty unless the message is, whose concatenation is the message. Reassembling the result gives the original message.",
  ["inputs", "configurations"], "every message length and maximum fragment size up to the bound, and the protocol limits",
  "tests check two lengths with one fragment size",
  [tc+"msgs/fragmenter.rs"], [("message fragmenter", "msgs/fragmenter.rs")], B, T.format("message lengths and fragment sizes"))
P("T04", "Wire codec round-trips and refuses everything that is not well-formed",
  "Every well-formed handshake, alert or change-cipher message decodes to the values it carries and encodes back to the same bytes, for each protocol version's grammar and key exchange. Truncated, over-long or inconsistent length fields are rejected without a panic, and unknown code points survive unchanged.",
  ["inputs"], "every message template, every truncation, every length-field corruption, every code point of every enumeration",
  "tests decode a few samples and try truncations of one message per type; length/version/field interactions are not covered",
  [tc+"msgs/handshake.rs", tc+"msgs/codec.rs", tc+"msgs/enums.rs", tc+"msgs/base.rs", tc+"msgs/message.rs", tc+"msgs/alert.rs", tc+"msgs/ccs.rs", tc+"msgs/macros.rs"],
  [("codec", "msgs/codec.rs"), ("handshake payloads", "msgs/handshake.rs"), ("code points", "msgs/enums.rs")],
  B + "The reference is a hand-written recogniser of the TLS presentation language for these messages.", T.format("messages, truncations and field corruptions"))
P("T05", "Repeated extensions, key shares and names are always detected",
  "A hello, certificate entry or ticket is reported as carrying duplicates exactly when two of its extensions (or key shares, or names of one type) have the same code, whatever their order, count or whether the code is known. Lookups return the extension that was sent and report unknown ones.",
  ["inputs"], "every extension list up to the bound over known and unknown codes, for each carrier message",
  "tests try one duplicated list per message",
  [tc+"msgs/handshake.rs"], [("duplicate checks", "msgs/handshake.rs")], B, T.format("extension lists"))
P("T06", "Suite and version selection follows preference and never leaves the offer",
  "For every pair of offers the chosen suite is the most preferred one that both sides list, by the chosen side's order, and none if there is none; filters by version or signature algorithm keep exactly the matching suites in order. Each suite advertises its own standard code point, cipher, hash and nonce layout, and only the two supported TLS 1.2 suites are on by default.",
  ["inputs", "configurations"], "every ordered offer on both sides up to the bound, every suite, scheme and version code",
  "tests check one preferred pair per side",
  [tc+"suites/mod.rs", tc+"suites/tls12.rs", tc+"suites/tls13.rs", tc+"versions.rs"], [("suite selection", "suites/mod.rs"), ("suite tables", "suites/tls12.rs, suites/tls13.rs")],
  B + "Standard code points come from the IANA registry.", T.format("client and server offers"))
P("T07", "Record authentication data and key derivation match TLS 1.2 exactly",
  "The additional data of every record is its sequence number, type, version and plaintext length in network order, and the derived key material equals the TLS 1.2 pseudo-random function for every secret, label, seed and output length. Key exchange parameters are accepted only when they are exactly one well-formed structure of the named-curve form.",
  ["inputs"], "bit-walking sequence numbers, all types and versions, all 65536 lengths; all output lengths and block-boundary secret/seed lengths; all parameter lengths and curve types",
  "a test compares one output of one length",
  [tc+"cipher.rs", tc+"prf.rs", tc+"suites/tls12.rs"], [("record additional data", "cipher.rs"), ("PRF", "prf.rs"), ("ECDH parameter parsing", "suites/tls12.rs")],
  B + "The reference PRF is built on ring's HMAC, which the implementation does not use.", T.format("lengths and field values"))
P("T08", "A server is accepted only with a valid chain to a trusted root for its name",
  "A presented certificate is accepted exactly when an unbroken path of CA certificates, each inside its validity period, path-length and name constraints, leads from it to a configured root, it is usable for server authentication and covers the requested host name at the given time. Order and surplus of supplied intermediates do not matter, and any single changed bit of a certificate makes it unacceptable.",
  ["inputs", "configurations"], "leaf x ordered intermediate lists x root sets x boundary times x names x every bit change over the certificate fixtures",
  "the repository's unit tests never verify a chain; acceptance depends on the combination of all inputs",
  [tc+"verify.rs", tc+"dns.rs", tc+"anchors.rs"], [("server certificate verifier", "verify.rs verify_server_cert")],
  B + "Trusts the fixture certificates generated with OpenSSL and the reference path rules for them.", T.format("chains, roots, times and names"))
P("T09", "Handshake signatures bind key, scheme, randoms and key exchange parameters",
  "A key exchange signature is accepted exactly when the end-entity key made it with the claimed scheme over client random, server random and the parameters, and the reported algorithm names that key's type, curve and hash. Any changed bit, swapped or shifted field, other key, other or unadvertised scheme is refused, and so is a handshake whose chain is empty or not valid for the name. A stored handshake puts exactly what it holds to the verifier, whose word decides, and client certificate verifiers judge signatures as server ones do.",
  ["inputs"], "key types x genuine signatures x every scheme code; every changed bit of message and signature; every field permutation of the signed handshake",
  "no unit test verifies a handshake signature",
  [tc+"verify.rs", tc+"handshake.rs"], [("signature verification", "verify.rs"), ("handshake verification", "handshake.rs HandshakeData::verify")],
  B + "Genuine signatures were made with OpenSSL.", T.format("keys, schemes and mutations"))
P("T10", "Host names and DER prefixes are encoded canonically",
  "A host name is accepted exactly when it is a syntactically valid DNS name, is kept unchanged as the connection identity, and is announced to the server without a trailing dot. Trust anchor subjects are described with the shortest DER length prefix for every length.",
  ["inputs"], "every short string over a representative alphabet, all label and name lengths around the limits; all body lengths up to the bound and around powers of 256",
  "tests check a few names and seven lengths",
  [tc+"dns.rs", tc+"x509.rs", tc+"anchors.rs", tc+"msgs/handshake.rs"], [("server name", "dns.rs"), ("SNI", "msgs/handshake.rs make_sni"), ("DER wrapping", "x509.rs")],
  B, T.format("strings and lengths"))
P("T11", "Certificate transparency policy is enforced until its deadline",
  "With trusted logs configured and the deadline not passed, a certificate presented with timestamps is accepted only if one of them verifies for that certificate before any fatally bad one is met; timestamps from unknown logs or versions alone are refused. Without logs, timestamps or after the deadline the policy never blocks, and it never makes an otherwise invalid certificate acceptable.",
  ["inputs", "configurations"], "every list of timestamps up to the bound over ten kinds, for every policy",
  "no unit test exercises the policy; the verdict depends on order and mix of timestamps",
  [tc+"verify.rs"], [("transparency policy", "verify.rs CertificateTransparencyPolicy")],
  B + "Timestamps are signed by the harness with ring.", T.format("timestamp lists and policies"))
P("T12", "Every protocol code point keeps its registered number and its own name",
  "Each named protocol version, suite, group, scheme, extension, alert and message type encodes to its registered number at its fixed width and decodes back to that same name; every other number survives a round trip unchanged as an unknown value, and truncated fields are refused. No two names of one kind share a number.",
  ["inputs"], "every 8-bit and every 16-bit number of every protocol enumeration, against the registry",
  "tests touch a handful of code points; a wrong one breaks interoperability or mislabels what was negotiated",
  [tc+"msgs/enums.rs", tc+"msgs/macros.rs"], [("enumerations", "msgs/enums.rs"), ("codec of enumerations", "msgs/macros.rs")],
  B + "Numbers come from the IANA registry.", T.format("code points"))
P("T13", "A decoded message answers exactly what was put on the wire",
  "Whatever the order, number and mix of extensions, each question asked of a hello, retry request, certificate, request or ticket is answered from the extension of that type that was sent, or absent if none was. Meaningless or over-long messages are refused, session identifiers and randoms compare as the bytes they carry, constructed messages encode to the fields they were given, and standard constants have their standard values.",
  ["inputs"], "every ordered extension list up to the bound over every extension kind for each carrier; all session id lengths and one-bit differences; all alert pairs, types and short bodies",
  "tests query a few hand-built messages",
  [tc+"msgs/handshake.rs", tc+"msgs/message.rs", tc+"msgs/alert.rs", tc+"msgs/ccs.rs", tc+"suites/mod.rs"], [("message accessors", "msgs/handshake.rs"), ("typed messages", "msgs/message.rs")],
  B, T.format("extension lists and fields"))
P("T14", "Stored handshake evidence reads back as exactly what was stored",
  "Every protocol code point, byte string, key, random and signature, and the whole record of a handshake (certificate chain, status response, timestamps, key exchange parameters, signature, both randoms), written out and read back in either storage form is the value written, part by part; different values never share a stored form, and a cut-off binary form is never read as a value.",
  ["inputs"], "every number of every serialisable code point type; every length and fill up to the bound; every combination of record parts; every truncation of the small forms",
  "no test stores these values; a wrong, skipped or merged field shows only when a stored record is checked later by someone else",
  [tc+"handshake.rs", tc+"cert.rs", tc+"ke.rs", tc+"key.rs", tc+"msgs/base.rs", tc+"msgs/macros.rs", tc+"msgs/handshake.rs"],
  [("handshake record", "handshake.rs HandshakeData"), ("server key exchange", "ke.rs ServerKxDetails"), ("code points", "msgs/macros.rs")],
  B, T.format("values and record parts"))
