HOOKS = {"guard": "none", "enable": "", "source_commits": []}
NOTES = "Every check compiles the current /repo sources (through manifests in /verif/mc) and enumerates executions exhaustively within the bounds listed in DESIGN.md."
NOT_APPLICABLE = {}

INPUTS = "the stated input spaces are enumerated completely; inputs outside of them are not covered"
add("chk-plain", "H01 H03 H04 F01 A01 B01 B02", ENUM, "exploration", INPUTS)
add("chk-plain", "H02", "exhaustive enumeration of the outcomes of the scripted random source for all arguments", "model_checking",
    "the random source is replaced by scripts that drive each draw through all 256 leading bytes")
add("chk-plain", "M01", HIST, "model_checking", "up to three timers and two histograms, owned clock")
add("chk-api", "F02 F03 W01 W03 W04 W05 W06 W07 W08 W09 W11 W12 W13", ENUM, "exploration", INPUTS)
add("chk-api", "W10", HIST, "model_checking", "two answering nodes with three records each; up to three (thorough: five) reports; owned clock")
add("chk-store", "S01 S02 S03 S05 S06 S07 S09 S10", HIST, "model_checking", "real SQLite database in memory, four or fewer keys with colliding distances, bounded history length")
add("chk-store", "S04 S08", FAULT, "model_checking", "failures are injected at SQL statement boundaries; torn writes inside SQLite are left to SQLite")
add("chk-valid", "V02 V03 V04 V05 V06 V07 V09 V10 L01 L03 L07", ENUM, "exploration", INPUTS + "; signatures are idealised (a signature verifies only for the message and keys it was made for), hashing and trie encoding are real")
add("chk-valid", "V01 V08 L02", HIST, "model_checking", "bounded history length over a fixed alphabet of messages; signatures are idealised")
add("chk-valid", "L04", ENUM, "exploration", INPUTS + "; HTTP answers are scripted")
add("chk-valid", "L05 L06", FAULT, "model_checking", "the real light client with scripted providers and HTTP answers and an owned clock; signatures are idealised; files live in a scratch directory removed afterwards")
add("chk-net", "W02 O07", ENUM, "exploration", INPUTS)
add("chk-net", "M02", HIST, "model_checking", "two networks and two bridges; up to two reports of all kinds, three (thorough: four) of the ones summed up; durations are not compared")
add("chk-net", "Q01 Q02 Q03 O01 O06", HIST, "model_checking", "bounded number of peers and events; the clock is owned, hash map order and random choices are left free and results compared as sets where the order is open")
add("chk-overlay", "O02 O03 O08 O09 O12", HIST, "model_checking", "the real overlay service with scripted peers, transfers, storage and validator; bounded history length; one fixed polling order of the service loop per history")
add("chk-overlay", "O10 O11 Q04 Q05", FAULT, "model_checking", "the real overlay service with scripted peers, transfers, storage and validator; up to three peers and one node they name; one fixed polling order of the service loop")
add("chk-overlay", "O04 O05", ENUM, "exploration", INPUTS)
add("chk-e2", "E01 E02 E04", ENUM, "exploration", INPUTS)
add("chk-e2", "E03", FAULT, "model_checking", "files are cut at every byte; entries up to a small bound; files live in a scratch directory removed afterwards")
add("chk-writer", "G01 G02 G03", FAULT, "model_checking", "the real writer on a single thread in virtual time with files of four blocks instead of 8192; providers, archives and bucket are scripted, the archive format itself is covered by E02")
add("chk-bridge", "B03 B04 B05", HIST, "model_checking", "the real census on a single thread in virtual time; the overlay networks are scripted; the random choice is run over a set of seeds")
add("chk-bridge", "B06 B07 B08 B09", HIST, "model_checking", "the real bridge and census on a single thread in virtual time; overlay networks, HTTP providers and archives are scripted")
add("chk-provider", "R01 R02", FAULT, "model_checking", "the real clients on a single thread in virtual time; HTTP providers and event sources are scripted, retries below the client (middleware) are left out")
NODE = "all subnetworks, storage, validation and JSON-RPC of one real node on a single thread in virtual time; discv5, uTP, servers and the virtual machine are scripted"
add("chk-node", "N01 N04", ENUM, "exploration", INPUTS + "; " + NODE)
add("chk-node", "N02 N03 N05", HIST, "model_checking", NODE)
add("chk-node", "N06", FAULT, "model_checking", NODE)
add("chk-node", "N07 N09", ENUM, "exploration", INPUTS)
add("chk-node", "N08", HIST, "model_checking", "directories below a scratch directory that is removed afterwards; at most four starts")
EXEC = "the real code over an in-memory stand-in for RocksDB and a toy machine in place of the virtual machine; archives and the clock are scripted"
add("chk-execution", "X01 X02 X04 X07 X08", ENUM, "exploration", INPUTS + "; " + EXEC)
add("chk-execution", "X03", HIST, "model_checking", "bounded history length over eleven kinds of change; " + EXEC)
add("chk-execution", "X05 X06", FAULT, "model_checking", EXEC + "; a crash inside one commit is not modelled")
