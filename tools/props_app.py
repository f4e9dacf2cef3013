S = "cli/receiver/"
SRV = [S + "server/server.go"]
HC = [("Server.handleConn", S + "server/server.go")]
MODEL = ["connections, the listener and the clock are models (harness/server/net.go); operations of one goroutine between two reads, saves and writes happen in one go",
         "json, logging output and the operating system are outside the encoding"]
TEL = (1 << 13) - 1
BIG = dict(maxsteps=300000000)

prop("C15", "Every position received reaches the stores exactly once and unchanged",
 "For every well formed application packet, alone or among others, that carries at least one position, the server gives each store exactly one record, with the packet's object identifier, the terminal's IMEI if the packet states one, every position in order with time, signed coordinates, speed, every analog and liquid sensor value under its number, the receipt time; packets without a position, refused packets and pure confirmations give none. The record is not changed after it was handed over, and a failing store changes nothing about this.",
 ["inputs", "histories"], "every content of the packets, every mix of record shapes, subrecord kinds and preceding packets within the bound",
 "The test sends two captured packets; values, shapes and sequences are unbounded.",
 SRV + [S + "storage/packet.go"], HC, "records handed to Saver.Save")
check("C15", [
  job("server", "Telemetry", {"kinds": TEL}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 1, "nrec": 2, "nsub": 2, "alte": 1, "route": 1}, ["stored"]),
  job("server", "Telemetry", {"kinds": 129, "nrec": 3, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": TEL, "nrec": 2, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 0x203, "nsub": 3, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 0x281, "nrec": 3, "opt": 1, "empty": 1}, ["stored", "not stored"]),
  job("server", "Receipt", {"kinds": 0x209, "special": 7, "len": 2, "opt": 1}, ["received"]), job("server", "Receipt", {"kinds": 3, "len": 3, "opt": 1}, ["received"]),
  job("server", "Telemetry", {"kinds": 0x31D, "nsub": 2, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 3, "opt": 1, "fail": 1}, ["stored", "not stored"]),
  job("server", "Sequence", {"kinds": 0x215, "special": 0x7, "opt": 1}, ["telemetry", "other"]),
  job("server", "Sequence", {"kinds": 1, "special": 0x1}, ["telemetry", "other"]),
  job("server", "Sequence", {"kinds": 1, "special": 0x1, "len": 3}, ["telemetry", "other"], "thorough"),
  job("server", "TwoObjects", {}),
  job("server", "Wide", {"kinds": 1, "nrec": 300, "opt": 1}, ["wide"], **BIG),
  job("server", "Wide", {"kinds": TEL, "nrec": 2, "nsub": 300, "opt": 1}, ["wide"], **BIG),
  job("server", "Wide", {"kinds": 1, "nrec": 1, "nsub": 1500, "opt": 1}, ["wide"], **BIG),
  job("server", "Long", {"kinds": TEL, "n": 100, "opt": 1, "special": 511}, ["long"], **BIG),
  job("server", "Wide", {"kinds": TEL, "nrec": 9, "nsub": 9, "opt": 1, "places": 3}, ["wide"], "thorough", **BIG),
  job("server", "Wide", {"kinds": 1, "nrec": 1, "nsub": 2600, "opt": 1}, ["wide"], "thorough", **BIG),
  job("server", "Long", {"kinds": TEL, "n": 300, "opt": 1}, ["long"], **BIG),
  job("server", "Telemetry", {"kinds": TEL, "nsub": 2, "opt": 1}, ["stored", "not stored"], "thorough"),
  job("server", "Telemetry", {"kinds": 0x291, "nrec": 2, "nsub": 2, "opt": 1}, ["stored", "not stored"], "thorough"),
  job("server", "Telemetry", {"kinds": 0x81, "nrec": 3, "nsub": 2, "opt": 1}, ["stored", "not stored"], "thorough"),
  job("server", "Sequence", {"kinds": 0x215, "special": 511, "opt": 1, "len": 3}, ["telemetry", "other"], "thorough"),
 ], ["packets of 1 record with 1 subrecord of all 13 kinds, of 3 records, of 2 records with 2 subrecords each of selected kinds (thorough: every pair of kinds)", "sequences of 2 (3) packets of all sorts; 300 packets, and 225 of all sorts, with one arbitrary; 300 records or subrecords with one arbitrary; packets 4 s apart"], MODEL)

prop("C16", "Every packet that calls for a confirmation gets exactly one, right one",
 "Every application packet is answered with exactly one EGTS_PT_RESPONSE that names its packet identifier, states the processing result (0 for an accepted packet, the matching error for a refused one) and confirms each of its records by number, coming from the service addressed; response packets and packets of nothing but confirmations get no answer. Answers are well formed, in the order of the packets, and telemetry is offered to the stores before it is confirmed. What a packet is answered does not depend on the packets before it.",
 ["inputs", "histories"], "every content and sequence of packets within the bound, accepted and refused ones",
 "The test compares one captured answer.",
 SRV + [E + "egts_pt_response.go"], HC + [("createPtResponse", S + "server/server.go")], "bytes written to the connection")
check("C16", [
  job("server", "Telemetry", {"kinds": TEL, "opt": 0}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 129, "nrec": 3, "opt": 1}, ["stored"]),
  job("server", "Telemetry", {"kinds": TEL, "nsub": 2, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 0x281, "nsub": 3, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 0x281, "nrec": 2, "nsub": 2, "opt": 1, "empty": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 0x81, "nrec": 3, "opt": 1, "empty": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 1, "opt": 1, "fail": 1}, ["stored"]),
  job("server", "Sequence", {"kinds": 1, "special": 511, "opt": 1}, ["telemetry", "other"]),
  job("server", "Sequence", {"kinds": 0xB80, "special": 0x43, "opt": 1}, ["telemetry", "other"]),
  job("server", "Damaged", {"opt": 1, "n": [0, 7, 10]}), job("server", "SlowStore", {"opt": 1}, ["slow store"], wit=3),
  job("server", "Wide", {"kinds": TEL, "nrec": 1000, "opt": 1}, ["wide"], **BIG),
  job("server", "Long", {"kinds": TEL, "n": 100, "opt": 1, "special": 511}, ["long"], **BIG),
  job("server", "Wide", {"kinds": TEL, "nrec": 9, "nsub": 9, "opt": 1, "places": 3}, ["wide"], "thorough", **BIG),
  job("server", "Wide", {"kinds": 128, "nrec": 3000, "opt": 1}, ["wide"], "thorough", **BIG),
  job("server", "Long", {"kinds": TEL, "n": 300, "opt": 1}, ["long"], **BIG),
  job("server", "Sequence", {"kinds": TEL, "special": 1, "opt": 1}, ["telemetry", "other"], "thorough"),
  job("server", "Sequence", {"kinds": 129, "special": 511, "opt": 1, "len": 3}, ["telemetry", "other"], "thorough"),
  job("server", "Damaged", {"opt": 1, "n": [14]}, [], "thorough"),
 ], ["one packet of 1 to 3 records of all 13 subrecord kinds; sequences of 2 (3) packets over telemetry and 9 sorts of other packets; 300 packets, and 225 of all sorts, with one arbitrary; bodies of up to 10 (14) arbitrary bytes"], MODEL)

prop("C17", "The packets found in a stream do not depend on how it is cut into reads",
 "The server recovers exactly the packets of the byte stream, in order, whatever the sizes of the individual reads, with and without the routing header and body, up to the largest packet the format can express, and stays in step after refused packets. A packet cut off by the end of the stream has no effect.",
 ["inputs", "schedules"], "every cut of the stream within the bound, every content, every place the stream can end",
 "The tests write whole packets at once over the loopback.",
 SRV, [("packet length and io.ReadFull in handleConn", S + "server/server.go")])
check("C17", [
  job("server", "Framing", {"mix": [0, 1, 2], "mode": [0, 1, 7], "opt": 1}, ["stream"]),
  job("server", "Framing", {"mix": 1, "mode": 2, "opt": 1}, ["stream"]),
  job("server", "Framing", {"mix": 3, "mode": [0], "opt": 1, "route": [0, 1], "big": [65535, 65530]}, ["stream"], maxsteps=60000000),
  job("server", "Framing", {"mix": 3, "mode": [1000], "opt": 1, "big": [4096]}, ["stream"], maxsteps=60000000),
  job("server", "CutOff", {"opt": 1}, ["cut off"]),
  job("server", "Long", {"kinds": TEL, "n": 40, "opt": 1, "special": 511, "mode": [0, 1400]}, ["long"], **BIG),
  job("server", "Framing", {"mix": [0, 2], "mode": 2, "opt": 1}, ["stream"], "thorough"),
  job("server", "Framing", {"mix": [0], "mode": 3, "opt": 1}, ["stream"], "thorough", secs=600),
  job("server", "CutOff", {"opt": 1, "route": 1}, ["cut off"], "thorough"),
 ], ["streams of 3 and 4 packets (with route, without body, refused, telemetry): whole, byte by byte, in 7s, every cut in two (thorough: in three)", "bodies of 65535 bytes"], MODEL)

prop("C18", "Peers that misbehave are disconnected and never take the server down",
 "A connection whose first byte of a packet is not the protocol version, or whose header length is impossible, is closed without an answer; a connection that breaks is closed; refused packets, arbitrary bodies, unwritable answers, transient accept errors and a missing store end neither the server nor other connections. Stopping the server closes the listener and ends the accept loop.",
 ["inputs", "histories"], "every header and body content within the bound, every place of failure",
 "Tests hold well behaved peers only.",
 SRV, HC + [("Server.Run, Stop", S + "server/server.go")])
check("C18", [
  job("server", "Foreign", {"mode": [0, 1], "n": [10, 12], "after": [0, 1], "idle": [0, 1], "opt": 1}, ["foreign"]),
  job("server", "Damaged", {"n": [0, 7, 10], "opt": 1}), job("server", "Damaged", {"n": [3, 7], "pt": 0, "opt": 1}),
  job("server", "OddHeader", {"n": [0, 7], "pt": [0, 1], "opt": 1}, ["tried"]),
  job("server", "CutOff", {"opt": 1}, ["cut off"]), job("server", "Accept", {"opt": 1}, ["accepted"]),
  job("server", "Stop", {"opt": 1}, ["stopped"]), job("server", "NoStore", {"opt": 1}, ["no store"]),
  job("server", "Damaged", {"n": [14], "opt": 1, "route": [0, 1]}, [], "thorough"), job("server", "Damaged", {"n": [12, 16], "pt": 0, "opt": 1}, [], "thorough"),
 ], ["headers of 10 and 12 arbitrary bytes; bodies of up to 10 (16) arbitrary bytes; every header length from 11 to 255 with every flag; up to twelve transient accept errors in a row"], MODEL)

prop("C19", "A terminal that introduces itself gets a successful result code, once",
 "Every application packet with authorisation data or a terminal identity is answered, after its confirmation, with one EGTS_PT_APPDATA packet from the authorisation service that carries exactly EGTS_SR_RESULT_CODE 0; no other packet is, before or after it. The identity's IMEI goes into the record of the same packet.",
 ["inputs", "histories"], "every credential and identity content, every combination of optional identity fields, followed by other packets",
 "The test holds one identity.",
 SRV + [E + "egts_sr_result_code.go"], HC + [("createSrResultCode", S + "server/server.go")])
check("C19", [
  job("server", "Auth", {"opt": 1, "cred": [0, 3], "seq": [0, 1], "tflags": 1}, ["introduced"]),
  job("server", "Auth", {"opt": 1, "with": 1, "again": 1}, ["introduced"]),
  job("server", "Telemetry", {"kinds": 0x1F81, "nsub": 2, "opt": 1}, ["stored", "not stored"]),
  job("server", "Sequence", {"kinds": 0x301, "special": 0x3, "opt": 1}, ["telemetry", "other"]),
  job("server", "Telemetry", {"kinds": 0x301, "nrec": 2, "opt": 1}, ["stored", "not stored"]),
  job("server", "Sequence", {"kinds": 0x101, "special": 0x18, "opt": 1, "len": 3}, ["telemetry", "other"]),
  job("server", "Long", {"kinds": 0x301, "n": 100, "opt": 1, "special": 0x1F8}, ["long"], **BIG),
  job("server", "Auth", {"opt": 1, "tflags": 2, "cred": 6}, ["introduced"], "thorough"),
  job("server", "Sequence", {"kinds": 0x301, "special": 0x7, "opt": 1, "len": 3}, ["telemetry", "other"], "thorough"),
 ], ["credentials of up to 3 (6) arbitrary characters; one, all or no optional identity fields (thorough: all 256 combinations); 200 packets in a row with one arbitrary"], MODEL)

prop("C20", "A connection is closed when, and only when, it was silent for conn_ttl",
 "With conn_ttl set, a connection on which nothing arrives for conn_ttl is closed at that time wherever in the stream it stopped, and one that keeps sending within conn_ttl stays open however long a packet takes; with conn_ttl 0 silence never closes a connection.",
 ["inputs", "schedules"], "every conn_ttl, every place in a packet where the peer falls silent",
 "Needs waiting; the tests never do.",
 SRV, [("ttlReader", S + "server/server.go")])
check("C20", [
  job("server", "Idle", {"opt": 1, "sym": 1}, ["idle"]), job("server", "Idle", {"opt": 1, "ttl": [0, 1, 5]}, ["idle"]),
  job("server", "Idle", {"opt": 1, "before": 1, "kinds": TEL | 0x380, "special": 511, "ttl": [0, 5]}, ["idle"]),
  job("server", "Idle", {"opt": 1, "before": 2, "kinds": 0x301, "special": 0x1FF, "ttl": 5}, ["idle"], "thorough"),
  job("server", "Slow", {"opt": 1, "pieces": [3]}, ["slow"]), job("server", "SlowStore", {"opt": 1}, ["slow store"], wit=3),
  job("server", "Slow", {"opt": 1, "pieces": 3, "vary": 4}, ["slow"], wit=2),
  job("server", "Slow", {"opt": 1, "pieces": [4, 8]}, ["slow"], "thorough"),
 ], ["every whole conn_ttl of 1 s to 10^9 s; every byte position of a packet as the place of silence, and the end of one (thorough: two) arbitrary packets of every kind; packets in up to 5 (10) pieces, 2/5 or 3/4 conn_ttl apart"], MODEL + ["deadlines are honoured by net.Conn as documented"])

prop("C21", "Connections do not affect one another",
 "With several connections at once, every order of their reads, saves and answers leads to the same records and answers as each connection alone: nothing is mixed up, lost or repeated, and a connection that stands still holds up no other.",
 ["inputs", "schedules"], "every interleaving of the operations of the connections, every content",
 "Tests use one connection at a time.",
 SRV, [("state of handleConn", S + "server/server.go"), ("go s.handleConn", S + "server/server.go")])
check("C21", [
  job("server", "Isolation", {"opt": 1}, ["interleaved"]),
  job("server", "Isolation", {"opt": 1, "kinds": 0x300}, ["interleaved"]),
  job("server", "Stalled", {"opt": 1}, ["stalled"]),
  job("server", "Reconnect", {"kinds": 0x385, "special": 0x43, "opt": 1}, ["again"]),
  job("server", "Reconnect", {"kinds": 0x201, "opt": 1, "conns": 3}, ["again"]),
  job("server", "Reconnect", {"kinds": TEL | 0x380, "special": 511, "opt": 1}, ["again"], "thorough"),
  job("server", "Reconnect", {"kinds": 0x301, "special": 3, "opt": 1, "two": 1}, ["again"], "thorough"),
  job("server", "Crowd", {"opt": 1, "n": 150}, ["crowd"], **BIG),
  job("server", "Crowd", {"opt": 1, "n": 2500}, ["crowd"], "thorough", **BIG),
  job("server", "Isolation", {"opt": 1, "kinds": 0x205}, ["interleaved"], "thorough"),
 ], ["two connections of one packet each, every order of their reads, saves and writes; a third party stalled at each of its operations; 2 and 3 connections one after another (thorough: every kind of packet, two packets each); 150 (thorough: 2500) connections open at once, idle, within a packet or broken off, and a new one"], MODEL)

LIBS = ["the client libraries of the stores (nats, nsq, database/sql and pq, amqp, go-redis, go-tarantool, tarantool queue) are models in harness/storelib that record what they are asked and answer as documented; their own code and the services behind them are outside the encoding"]
ST = S + "storage/"
CONN = [ST + "store/%s/connector.go" % k for k in ("nats", "nsq", "postgresql", "rabbitmq", "redis", "tarantool_queue")]

prop("C22", "Every store of the repository gets every record once, failing ones notwithstanding",
 "Repository.Save hands the very record it is given to every store that was added, once and in the order in which they were added, whatever other stores answer; it fails exactly when a store fails, with the first store's error; repositories share nothing.",
 ["inputs", "histories"], "every number of stores within the bound, every pattern of failures over successive saves",
 "No test has two stores or a failing one.",
 [ST + "store.go"], [("Repository.Save, AddStore", ST + "store.go")])
check("C22", [
  job("storage", "FanOut", {"n": 4, "saves": 2}, ["fan out"]),
  job("storage", "FanOut", {"n": 2, "saves": 5}, ["fan out"]),
  job("storage", "FanRun", {"n": 3, "saves": 14}, ["fan run"]),
  job("storage", "FanRun", {"n": 12, "saves": 40}, ["fan run"], "thorough"),
  job("server", "Telemetry", {"kinds": 1, "opt": 1, "fail": 1}, ["stored"]),
  job("storage", "FanOut", {"n": 6, "saves": 2}, ["fan out"], "thorough"),
  job("storage", "FanOut", {"n": 3, "saves": 4}, ["fan out"], "thorough"),
 ], ["up to 4 stores and 2 saves, 2 and 5 (thorough: 6 and 2, 3 and 4) with every failure pattern; 3 stores and 14 saves (12 and 40) with any one of them failing for any run of saves"])

prop("C23", "Sensors and the record number reach the stores under their own numbers",
 "In the stored record, each analog value of EGTS_SR_AD_SENSORS_DATA appears under its position's number 1 to 8 and only if its flag is set, each EGTS_SR_ABS_AN_SENS_DATA value under its number, in order; each liquid level keeps number, module address, error flag and unit and is in ValueMm for units 00 and 01, a tenth in ValueL for unit 10, in neither for 11; the packet id is the packet identifier with its low 24 bits replaced by absolute counter 110 and its high 8 bits by counter 111, whatever their order, and by no other counter or subrecord; nothing carries over to another packet.",
 ["inputs", "histories"], "every sensor content and number, every mix and order of sensor and counter subrecords within the bound",
 "Tests export two captured packets without counters 110 and 111.",
 SRV + [ST + "packet.go"], HC, "records handed to Saver.Save")
check("C23", [
  job("server", "Telemetry", {"kinds": 0x3D, "nsub": 2, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 0x09, "nsub": 3, "opt": 1}, ["stored", "not stored"]),
  job("server", "Telemetry", {"kinds": 0x34, "nrec": 2, "opt": 1, "lead": 1}, ["stored"]),
  job("server", "Telemetry", {"kinds": 0x3D, "nrec": 2, "opt": 1}, ["stored", "not stored"]),
  job("server", "Sequence", {"kinds": 0x3C, "special": 0x1, "opt": 1, "lead": 1}, ["telemetry"]),
  job("server", "Wide", {"kinds": 0x3D, "nrec": 3, "nsub": 100, "opt": 1}, ["wide"], **BIG),
  job("server", "Long", {"kinds": 0x3D, "n": 100, "opt": 1}, ["long"], **BIG),
  job("server", "Telemetry", {"kinds": 0x0D, "nsub": 4, "opt": 1}, ["stored", "not stored"], "thorough"),
  job("server", "Telemetry", {"kinds": 0x3C, "nsub": 3, "opt": 1, "lead": 1}, ["stored"], "thorough"),
 ], ["packets of 1 record with up to 3 (4) subrecords or of 2 records, of positions, sensors and counters in every order", "analog flag bytes with one, all or no sensors", "100 packets in a row with one arbitrary"], MODEL)

prop("C24", "Each store connects to what is configured and publishes exactly the record's bytes",
 "Each connector (nats, nsq, postgresql, rabbitmq, redis, tarantool_queue) opens the configured service with the configured address and credentials, whatever characters these hold, and publishes each record's bytes unchanged, once, to the configured topic, table, queue or exchange; a record that cannot be made, an unreachable service, a refused publication and a missing configuration are reported as errors without a panic, and do not keep later records from being published; Close releases the connection.",
 ["inputs", "histories"], "every value of each configuration parameter within the bound, every failure of the service at connecting and at each of several publications",
 "Needs the six services; no test exists for any connector.",
 CONN, [("Init, Save and Close of each Connector", f) for f in CONN], "calls to the client libraries")
check("C24", [
  job("storage", "Connect", {"kind": [0, 1, 2], "n": 2, "saves": 2}, ["saved", "not saved", "unreachable"]),
  job("storage", "Connect", {"kind": [3], "n": 2, "saves": 2}, ["saved", "not saved", "unreachable"]),
  job("storage", "Connect", {"kind": [4], "n": 2, "saves": 2}, ["saved", "not saved", "refused"]),
  job("storage", "Connect", {"kind": [5], "n": 2, "saves": 2}, ["saved", "not saved", "unreachable", "refused"]),
  job("storage", "NoConfig", None, ["no section"]),
  job("storage", "Connect", {"kind": [0, 1, 2, 3, 4, 5], "long": [40], "saves": 1}, ["saved", "not saved"]),
  job("storage", "ConnRun", {"kind": [0, 1, 2, 3, 4, 5], "saves": [73]}, ["run"], **BIG),
  job("storage", "ConnRun", {"kind": [0, 1, 2, 3, 4, 5], "saves": [150]}, ["run"], "thorough", **BIG),
  job("storage", "Connect", {"kind": [0, 1, 2, 3, 4, 5], "long": [8, 300], "saves": 1}, ["saved", "not saved"], "thorough"),
  job("storage", "Connect", {"kind": [0, 1, 2, 4, 5], "n": 4, "saves": 1}, ["saved", "not saved"], "thorough"),
  job("storage", "Connect", {"kind": [0, 1, 2, 3], "n": 3, "saves": 3}, ["saved", "not saved", "unreachable"], "thorough"),
  job("storage", "Connect", {"kind": [4, 5], "n": 3, "saves": 3}, ["saved", "not saved", "refused"], "thorough"),
 ], ["one parameter at a time is symbolic, of up to 2 (3) printable characters, or absent, or of 40 (8, 300) characters one of which is arbitrary; 2 (3) records, each of which may fail; 73 (150) records of different lengths up to 5000 bytes with a run of failures anywhere"], LIBS)

prop("C25", "Each configured section opens its own store, and no other",
 "LoadStorages opens, for each section, exactly the store the section is named after, with that section's parameters only, and the repository then saves to all of them; no section, an unknown name and a store that cannot be opened are reported, each as its own error, whatever the order in which the sections are visited.",
 ["inputs", "configurations"], "every set of sections within the bound, every name, every failing section, every order of iteration over the sections",
 "The test loads no store; map order is random at run time.",
 [ST + "store.go"], [("LoadStorages", ST + "store.go")])
check("C25", [
  job("storage", "Select", {"max": 3}, ["none", "unknown", "failing", "loaded"]),
  job("storage", "Select", {"max": 3, "permute_maps": 1}, ["none", "unknown", "failing", "loaded"]),
  job("storage", "Name", None, ["known", "unknown"]),
  job("storage", "Select", {"max": 6}, ["none", "unknown", "failing", "loaded"], "thorough"),
 ], ["up to 3 (6) of the six sections and an unknown one, in every order; names of any content of the lengths of the known ones, 1, 2 and 6"], LIBS)

prop("C26", "The server runs with what the configuration file says",
 "The server listens on host:port, closes connections silent for conn_ttl seconds, logs at the level named DEBUG, WARN, ERROR or else INFO and saves to the stores of the storage section; if there is no usable store, records are printed instead; a missing option -c and a file that cannot be read end the program with an error before it listens.",
 ["inputs", "configurations"], "every value of the settings within the bound, every combination of missing ones, every failure",
 "Tests read one file.",
 [S + "config/config.go", S + "main.go"], [("Settings and its getters, New", S + "config/config.go"), ("main", S + "main.go")])
check("C26", [
  job("config", "Getters", {"n": 2}, ["settings"]), job("config", "Load", {"n": 2}, ["loaded", "unreadable"]),
  job("at_cli__receiver", "Main", None, ["running", "trouble"]),
  job("config", "Getters", {"n": 12}, ["settings"], "thorough"), job("config", "Load", {"n": 8}, ["loaded", "unreadable"], "thorough"),
 ], ["host, port and parameters of up to 2 (12) printable characters, any 32-bit conn_ttl, any level of up to 6 characters"],
 LIBS + ["the yaml library is a model that assigns the file's values to the fields of the same yaml name (harness/yamlfile); the server's Run is replaced by a stand-in that notes what it was created with"])

prop("C27", "An exported record is one JSON document that holds every value exactly",
 "NavRecord.ToBytes gives a JSON object with the documented member names and exactly the record's values, any number of sensors and positions in order, without changing the record, and the same when repeated; without a store the record is printed once in the same form.",
 ["inputs"], "every value of every member, every number of list entries within the bound",
 "The test compares one printed record.",
 [ST + "packet.go", ST + "default.go"], [("NavRecord.ToBytes", ST + "packet.go"), ("LogConnector.Save", ST + "default.go")])
check("C27", [
  job("storage", "Export", {"n": 1}, ["exported"]), job("storage", "Print", {"n": 1}, ["printed"]),
  job("storage", "Export", {"n": 2}, ["exported"], "thorough"), job("storage", "Print", {"n": 2}, ["printed"], "thorough"),
 ], ["up to 1 (2) entries in each list; texts of up to 2 characters below 0x80; any integers and finite floats"],
 ["encoding/json is a model in the engine that lists members by their tags (engine/rtreflect.go, harness/storelib/json.go); its text is read back by value"])

prop("C28", "packet-gen sends exactly what it is asked to and reports whether it was confirmed",
 "packet-gen sends one packet with the requested identifier, object, time, signed position and liquid level to the requested server and exits with success exactly if that packet and its record are confirmed within the timeout (5 s unless stated), however the confirmation is cut into parts; values that the packet cannot hold, missing required arguments, an unreachable server, a damaged, foreign, negative, partial or missing confirmation end it with failure and nothing is sent that was not asked for.",
 ["inputs", "histories"], "every 64-bit identifier and level, a set of times and coordinates around the limits, every confirmation content, every cut and every place of silence within the bound",
 "There is no test.",
 ["cli/packet-gen/main.go"], [("main", "cli/packet-gen/main.go")], "bytes sent to the server and the exit status")
check("C28", [
  job("at_cli__packet-gen", "Request", None, ["sent", "refused"]), job("at_cli__packet-gen", "Missing", None, ["required", "optional"]),
  job("at_cli__packet-gen", "Answer", {"n": 2}, ["confirmed", "not confirmed"]),
  job("at_cli__packet-gen", "Answer", {"n": 4}, ["confirmed", "not confirmed"], "thorough"),
 ], ["8 times and 13 coordinates per axis; confirmations of up to 2 (4) record confirmations of any content, and of 101 and 701 records; routed or not"],
 ["the connection, the resolver and the command line are models (harness/at_cli__packet-gen, harness/cliflags); natively the peer is a socket on the loopback"])

prop("C29", "Encoding and decoding share nothing with what was done before",
 "What an encoder returned and what a decoder produced is not changed by any later operation on other values: encoded bytes, decoded packets, records and subrecords stay as they are. A decoder neither changes the bytes it is given nor depends on what becomes of them. Encoding the same value again gives the same bytes, whatever the caller did with the earlier result.",
 ["inputs", "histories"], "every value and packet within the bounds, pairs of subrecords of any two kinds, pairs of packets, damaged packets in between",
 "Tests run one operation at a time on fresh values and never look at earlier results again.",
 ["libs/egts/"], [("Encode/Decode of every type", "libs/egts/")])
check("C29", [
  job("egts", "Apart", {"kind": [0, 1, 3, 4, 5, 6, 8, 9, 10, 11, 12]}, ["apart"]),
  job("egts", "Apart", {"kind": [2, 7]}, ["apart"]),
  job("egts", "ApartPackets", {"mask": [7], "route": [0, 1], "resp": [0, 1]}, ["apart"]),
  job("egts", "ApartPackets", {"kinds": [3], "route": [0]}, ["apart"], "thorough"),
 ], ["one subrecord of any kind and values and one of each kind after it; two packets of one record each, one of them routed, one a confirmation with records"])

prop("C30", "What runs at the same time shares nothing without synchronisation",
 "The goroutines that serve different connections, goroutines that encode and decode values of their own, and goroutines that save different records to one repository or store never access the same memory, one of them writing, without being ordered by a lock, a channel, a Once or an atomic operation: there is no data race, whatever the schedule.",
 ["schedules", "inputs"], "every schedule that is consistent with the program's own synchronisation, for every content on the paths within the bounds",
 "Tests use one connection and one goroutine at a time; a race shows up in no result until the schedule is unlucky.",
 SRV + ["libs/egts/", ST + "store.go"] + CONN, [("handleConn", S + "server/server.go"), ("Encode/Decode of every type", "libs/egts/"), ("Repository.Save, Connector.Save", ST + "store.go")])
check("C30", [
  job("server", "Race", {"kinds": 0x1FFF, "opt": 1}, ["race"]),
  job("server", "Race", {"kinds": 0x1FFF, "opt": 1, "piece": 7, "ttl": 5, "conns": 3}, ["race"]),
  job("egts", "Race", {"sym": [0, 1]}, ["race"]),
  job("storage", "Race", {"kind": [0, 1, 2, 3, 4, 5, 6, 7]}, ["race"]),
  job("storage", "Race", {"kind": [0, 1, 2, 3, 4, 5, 6, 7], "nav": 1, "n": 3}, ["race"]),
  job("egts", "Race", {"sym": 1, "n": 3}, ["race"], "thorough"),
 ], ["2 and 3 connections that each send a packet of every kind of subrecord and every kind of special packet, whole and in pieces of 7 bytes; 2 (3) goroutines that encode and decode a packet, a record with every kind of subrecord and each of these; 2 and 3 goroutines that save two records each to each store, to two stores and to the log",
   "one schedule per path is executed; its accesses are ordered by happens-before (vector clocks), so an unordered pair stands for every schedule in which both accesses happen"],
 MODEL + LIBS + ["synchronisation orders both ways (a lock, Once or atomic operation is treated as acquire and release), which can hide a race but not invent one; accesses by library code on behalf of the repository's count, accesses by the harness do not; Server.Stop is not called"])
prop("C31", "The vendor subrecord carries every documented field",
 "A vendor record (EGTS_SR_EGTS_PLUS_DATA, subrecord 15) is encoded as docs/egts_sr_egtsplus_data.proto says: every field of the record and of each of its 18 messages under its documented number and type, exactly the fields that were given. Decoding it, directly or inside a subrecord list, gives back exactly these fields and values, messages in their order; accessors return each field's value, and zero for one that is absent. A record without one of its required fields, or cut inside a message, is refused both ways; its stated length is that of its encoding; reasons have their documented numbers and names.",
 ["inputs"], "every value of every field, present together with and without the other fields of its message, next to a message of the same or another kind",
 "One test constant holds six of the 110 fields.",
 [E + "egts_sr_egtsplus_data.go", E + "record_data.go"], [("StorageRecord.Encode/Decode/Length", E + "egts_sr_egtsplus_data.go"), ("field accessors, struct tags and descriptor", E + "egts_sr_egtsplus_data.go")])
check("C31", [
  job("egts", "Plus", {"kind": list(range(19))}, ["carried"], maxsteps=100000000), job("egts", "PlusRequired", {}, ["missing"], maxsteps=100000000),
  job("egts", "PlusCut", {}, ["cut"], maxsteps=100000000), job("egts", "PlusNames", {}, ["named"]),
  job("egts", "Plus", {"kind": [0, 2, 12], "buf": [12]}, ["carried"], "thorough", maxsteps=100000000),
 ], ["one arbitrary field per message at a time, the others absent or of fixed values; buffers of up to 3 (12) bytes; real numbers: six values; up to two messages and two reasons per record"],
 ["the protobuf library is replaced symbolically by a model (harness/egts/plus.go) that follows the message's own descriptor and struct tags; every completed path that is replayed, and every counterexample, runs the real library", "the reference is generated from docs/egts_sr_egtsplus_data.proto (tools/gen_plus.py)"])
for i, r in []:
    NA[i] = r
