B = "The real sources of the component are executed with both parties in one thread; the mpz machines, share conversion and OT beneath are ideal functionalities that evaluate the same circuits. Nothing is claimed beyond the bounds in the evidence file. "
T = "Exhaustive enumeration of {} over two real parties driven in lockstep, each run compared with {}."
H = "crates/components/hmac-sha256/src/"
P("K01", "Session keys and Finished data are those of the TLS 1.2 PRF, on both sides",
  "In both network modes and all three ways of obtaining the master secret, whoever holds the secret and in whatever order the randoms, session hash and Finished hashes become known and are flushed, both parties obtain exactly the session keys, IVs and Finished values TLS 1.2 prescribes, each as soon as everything it depends on has been supplied and flushed and never before. Calls that do not fit the mode or the stage are errors and never panic.",
  ["histories", "inputs"], "all orders of supplying the values x all placements of flushes x mode x owner of the secret; each input with every single bit set; every sequence of calls up to the bound",
  "tests run one order with one flush policy on a few random values",
  [H + "prf.rs", H + "prf/function/normal.rs", H + "prf/function/reduced.rs", H + "hmac.rs"], [("PRF state machine", "prf.rs set_*, flush"), ("P_hash", "prf/function/normal.rs, reduced.rs"), ("HMAC", "hmac.rs")], B, T.format("call orders, flush placements and input patterns", "RFC 5246 over an independent HMAC"))
C = "crates/components/cipher/src/"
P("K02", "Two-party AES and its keystream equal AES-128 in counter mode, block for block",
  "Blocks, counter blocks and keystream allocated on one cipher in any order are those of AES-128 under the shared key, IV, nonce and counter for both parties. Keystream is handed out in whole blocks, none twice; asking for more than is left, or using a piece with a length other than its own, is an error, as is any use before key and IV are set.",
  ["histories", "inputs"], "every sequence of piece lengths around block borders up to the bound x total length x use; every key, IV and nonce bit, counters at all powers of two and at wrap-around; every sequence of calls up to the bound",
  "tests encrypt one message with one key",
  [C + "lib.rs", C + "aes/mod.rs"], [("keystream", "lib.rs Keystream"), ("AES", "aes/mod.rs Aes128")], B, T.format("hand-out sequences, values and call sequences", "AES-128 of OpenSSL"))
D = "crates/components/deap/src/"
P("K03", "Dual execution computes the function, hides inputs and exposes a lying leader",
  "For every program over inputs of either party or both, both parties decode exactly the values of the program; no input of the peer is known to a party before the end unless decoded, the leader's never; at the end the proof holds the same values. If the leader uses an input in one machine that differs from that in the other, or the garbled evaluation gives the follower other values, finalization fails for the follower exactly when some value it decoded is not the one proven.",
  ["programs", "fault_sequences"], "all programs up to three inputs and two gates x owners x decoded values x allocation, commit and execution phases x offset between the machines; every lie of the leader in an input or evaluated value at chosen bits",
  "tests run one AES program and one lie",
  [D + "lib.rs", D + "map.rs"], [("finalization", "lib.rs finalize"), ("visibility", "lib.rs mark_private_raw, mark_blind_raw, commit_raw"), ("address mapping", "map.rs")], B, T.format("programs and lies", "plain evaluation of the program"))
E_ = "crates/components/key-exchange/src/"
P("K04", "Both parties agree on the ECDH secret of their joint key, or on none",
  "For the private keys of both parties and the server, the client key is the sum of both public keys and the pre-master secret both obtain is the x coordinate of its Diffie-Hellman point with the server's key. If any bit of a share either party puts in is altered finalization fails for both; parties told different server keys reach the same verdict. Calls out of order are errors and no state is reached without its predecessors.",
  ["inputs", "fault_sequences", "histories"], "every triple of private keys from a set of extreme and arbitrary scalars; every bit of every share of either party; every sequence of calls up to the bound",
  "tests use one random triple",
  [E_ + "exchange.rs", E_ + "point_addition.rs", E_ + "circuit.rs"], [("state machine", "exchange.rs"), ("point addition", "point_addition.rs derive_x_coord_share"), ("equality check", "circuit.rs, exchange.rs finalize")], B, T.format("key triples, altered shares and call sequences", "single-party ECDH"))
