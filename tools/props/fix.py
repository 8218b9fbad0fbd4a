B = "Every element of the stated bounded space is executed on the compiled sources of /repo. Nothing is claimed beyond the bounds in the evidence file. "
T = "Exhaustive enumeration of {} driving the real code in lockstep with an independent reference model."
P("S01", "The HTTP test server answers every request as its routes document",
  "Over TLS 1.2 or 1.3, to any client without a certificate or with one from the fixture CA and to no other, each route answers with its document: /bytes with exactly the requested number of 0x42 bytes, /formats with the document of the requested size or 404, protected routes only with the exact bearer token and otherwise 401 without data, unknown paths 404. The answer does not depend on how the request arrives; one exchange is served per connection and shutdown ends it.",
  ["inputs", "configurations"], "every route x query x header variant in the bound, every one-character change of the token, every cut of a request, every read size and protocol version in the bound",
  "tests call two routes in process, without TLS",
  ["crates/server-fixture/server/src/lib.rs", "crates/server-fixture/certs/src/lib.rs"], [("routes", "server/src/lib.rs app"), ("TLS listener", "server/src/lib.rs bind")], B, T.format("requests and deliveries"))
P("S02", "The echo test server returns exactly the body it was sent, transformed as asked",
  "For every sequence of requests on one connection, pipelined or one by one, each is answered in order: /echo returns the body, /echo/uppercase the body with ASCII lowercase letters raised and all other bytes untouched, /echo/reversed the bytes in reverse order, anything else 404, whatever the body, its chunking or its delivery.",
  ["histories", "inputs"], "every sequence of requests up to the bound; every chunking of a body; every byte value; read sizes down to one byte",
  "no test covers the echo server",
  ["crates/tls-server-fixture/src/lib.rs"], [("echo service", "lib.rs echo, bind_test_server_hyper")], B, T.format("request sequences and bodies"))
P("S03", "The raw TLS test server carries out each command and nothing else",
  "After any history of commands each ordinary record is answered with hello, and the closing command produces precisely its effect at the client: clean close_notify, bare close, corrupted message, record with a bad MAC, or a bad_record_mac alert. Text that merely resembles a command is an ordinary record; an unfinished record ends the connection, delayed exactly when delay was requested.",
  ["histories"], "every history of commands up to the bound x final command x protocol version x record cut x read size",
  "no test covers the raw server",
  ["crates/tls-server-fixture/src/lib.rs"], [("command loop", "lib.rs bind_test_server")], B, T.format("command histories"))
P("S04", "Harness benchmarks, networks and commands are exactly what was configured",
  "A benchmark field is the item's value, else its group's, else the documented default; the number of runs follows the override, item, group and default in that order, and runs are sorted by group and name. A network plan uses ten distinct host addresses of its subnet and the fixed ports. Modes parse in any letter case and nothing else does; measurements, configurations and command results survive a JSON round trip.",
  ["configurations", "histories"], "every combination of fields set by item and group; every list of benchmark items up to the bound; all subnet sizes; all spellings of the modes",
  "no test covers the harness core",
  ["crates/harness/core/src/bench.rs", "crates/harness/core/src/network.rs", "crates/harness/core/src/lib.rs", "crates/harness/core/src/rpc.rs"], [("benchmark merging", "bench.rs BenchItems::to_benches"), ("network plan", "network.rs NetworkConfig::new")], B, T.format("configurations"))
P("S05", "Every canned HTTP message is the complete message its name says",
  "Each published request or response fixture, read byte by byte, is exactly one well-formed HTTP/1.1 message that is complete only at its last byte, apart from one line break a file may end with. Its method or status, empty or named header, body type and number of chunks are those its documentation states.",
  ["inputs"], "every published message after every byte",
  "no test reads the fixtures as HTTP; a wrong file silently weakens every test built on it",
  ["crates/data-fixtures/src/http.rs", "crates/data-fixtures/src/lib.rs"], [("fixtures", "data-fixtures/src/http.rs")], B, T.format("messages and prefixes"))
