M = "runtime monitoring: "
CLAIMS = {
 "C01": (M+"a recording mock server decodes every packet of generated inserts with an independent strict decoder and compares each cell", "exploration", "sampled tables, types nested to depth 2"),
 "C02": (M+"generated result sets from a mock server under random fragmentation; every delivered cell compared with what was sent", "exploration", "sampled tables"),
 "C03": (M+"generated results read through get by index and name, rows, both fetch styles and typed iterators of about 200 Rust types with random skips; each reading compared with the model or required to be refused", "exploration", "sampled tables; every pair of column type and listed Rust type"),
 "C04": (M+"blocks of more than one packet's rows are inserted into the recording server; every packet decoded strictly on its own and the concatenation compared with the block", "exploration", "sampled tables around the packet-size limit"),
 "C05": (M+"random histories of tagged operations, abandonments and faults; every response checked against the tag of its request", "exploration", "sampled histories"),
 "C06": (M+"the server's byte stream is cut at every byte of short exchanges (sampled for long ones) and the outcome of the operation judged", "fault_enumeration", "every cut position of the generated exchanges"),
 "C07": (M+"a hostile mock server answers every stage with malformed packets, blocks, types, sizes and frames, and with random mutations of valid answers; panics, acceptance, hangs, oversized allocation requests (allocation monitor) and reuse of the connection are violations", "exploration", "about 20 kinds of malformation at 6 stages, sampled"),
 "C08": (M+"kernel-level monitor of simultaneously open connections, lending monitor and pool counters under multi-threaded stress with cancellations and faults", "exploration", "sampled schedules"),
 "C09": (M+"an executor that polls a request only when woken runs random scripts of requests, cancellations, returns and connect faults; pending requests at quiescence with free capacity are violations; plus multi-threaded stress", "exploration", "sampled scripts and schedules"),
 "C10": (M+"connections are killed in several ways and fresh attempts made to fail a chosen number of times; connection attempts, their spacing, pings and outcomes in the server's event log are compared with the retry budget", "exploration", "sampled fault plans"),
 "C11": (M+"several mock servers with shared clock record connection attempts; attempts per host, their order and the effect of unreachable hosts are compared with strict round-robin under sequential and concurrent demand", "exploration", "sampled host lists, fault subsets and schedules"),
 "C12": (M+"a mock server answers with generated exceptions at every stage of every operation; the error's code, name, message and trace are compared and the following operations on the handle and the pool must succeed", "exploration", "sampled exceptions x stages x following operations"),
 "C13": (M+"a mock server stalls at every stage; elapsed time and outcome are compared with the operation's own limit (not before, not much after), operations answered late but in time must succeed, and later operations are checked for leftovers", "exploration", "stall points x limits, sampled"),
 "C14": (M+"every single-bit and byte change (sampled for long frames), truncations and re-framings of compressed answers; the client's frames decoded by independent LZ4 and CityHash implementations", "fault_enumeration", "every bit of the short frames"),
 "C15": (M+"every request packet is decoded strictly by the layout of the announced revision and compared with the caller's options, SQL, id and settings", "exploration", "sampled options, texts and revisions"),
 "C16": (M+"options parsed from generated URLs are compared field by field with an independent reading of the URL and with builder-made options; invalid URLs and random mutations must be refused without panic", "exploration", "sampled URLs"),
 "C17": (M+"generated programs over several blocks (made by rows and by columns, fetched, streamed, cloned, sharing columns, on several threads) push fitting and unfitting rows; each block is read completely and compared with its own model after every step, and blocks are finally inserted and judged by the server", "exploration", "sampled programs of up to 60 steps"),
 "C18": (M+"a mock server announces other column types than the block's and decodes what arrives with them; oracle: independent value conversion, or an error and no row sent", "exploration", "all offered, similar and unrelated type pairs; blocks of up to 1,048,579 rows"),
 "C19": (M+"CityHash128 against an independent implementation with inputs on fenced pages (guard pages trap stray reads)", "exploration", "every length 0..2048 at several alignments, random contents"),
 "C20": (M+"AddressSanitizer and Miri (tree borrows, data races, invalid and uninitialised values) watch typed iteration, getters, building, conversion, sharing and abandonment over a mock server, and the workloads of eight other checks; programs keeping what a block lent must be refused by the compiler or run clean", "exploration", "sampled programs and inputs; under Miri the C libraries are stand-ins"),
 "C21": (M+"conversions of generated values of every type, decimals and times are observed and compared with exact integer arithmetic and an independent calendar; panics of infallible conversions count as refusals only where the model says the value cannot be represented", "exploration", "sampled values of every type, nested to depth 3"),
 "C22": (M+"every statement of a random history of operations under faults carries a unique mark; the server's log must show it at most once (per data packet for inserts) and an acknowledged end before any reported success", "exploration", "sampled histories of operations and faults"),
 "C23": (M+"mock TLS servers with 19 kinds of certificate, tapped below and above the encryption: a reference table says which of all combinations with 3 hosts, 7 trusted certificates and the verification setting are to be accepted, refused connections must see no byte of a request, no secret may cross the wire in clear; handshakes are cut, stalled or answered by servers without TLS; then the workloads and oracles of C01, C02, C05 and C06 run over TLS cut into arbitrary records and segments", "exploration", "all 840 combinations of the enumerated certificates, hosts, trust and verification settings; sampled certificate rotations, hostile servers and payloads"),
 "C24": (M+"the harness is built with the driver's async_std feature and the mock-server workloads and oracles of C01, C02, C05-C15 and C22 observe that build, the random histories on async-std's own executor", "exploration", "some 57,000 sampled cases over 24 of the other checks' workloads"),
 "C25": (M+"everything the client holds (pool, clones, handles, half-done requests) is given up in random orders after random histories with faults, and the server's monitor must see every connection closed; a counting allocator watches twelve workloads of the other checks, each repeated 24 times, for growth", "exploration", "sampled histories, orders of dropping and workloads"),
}
NA = {}
NOTES = "Every check rebuilds the harness in /verif/harness against /repo's working tree. Known and repaired findings: known_findings.txt."
