"""What each check builds and runs. Paths in groups are relative to /repo, harnesses relative to /verif."""
ASAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
TSAN = ["-O1", "-fsanitize=thread"]
OPT = ["-O2"]

GROUPS = {
    "engine": {"sources": ["fbpcf/engine/*.cpp", "fbpcf/engine/communication/InMemory*.cpp", "fbpcf/engine/communication/SecretShare*.cpp",
                           "fbpcf/engine/tuple_generator/**/*.cpp", "fbpcf/engine/util/*.cpp"], "exclude": ["main.cpp"]},
    "engine_util": {"sources": ["fbpcf/engine/util/*.cpp"]},
    "io": {"sources": ["fbpcf/io/**/*.cpp", "fbpcf/aws/S3Util.cpp", "fbpcf/gcp/GCSUtil.cpp", "fbpcf/exception/*.cpp"]},
    "mpclib": {"sources": ["fbpcf/mpc_std_lib/*/*.cpp"]},
    "encoder": {"sources": ["fbpcf/mpc_std_lib/oram/encoder/*.cpp"]},
    "udp": {"sources": ["fbpcf/mpc_std_lib/unified_data_process/**/*.cpp"]},
    "walr": {"sources": ["fbpcf/mpc_std_lib/walr_multiplication/**/*.cpp"]},
    "scheduler": {"sources": ["fbpcf/scheduler/**/*.cpp"]},
}

CHECKS = {
    "C06": {
        "units": [{"name": "alloc", "harness": ["harness/c06_alloc.cpp"], "opt": ASAN}],
        "rule": "every sequence of allocate/free/overwrite/modify (on first, last and middle live id) to the depth bound, from empty, small and "
                "chunk-boundary starting points, with a plain map as reference; states are (operation history, live set) pairs",
        "assumptions": ["ids are compared only through the allocator interface"],
    },
}

PROGRAM_RULE = ("every program of the suite's gate kinds up to the depth bound, on every input value listed, with every choice of when evaluation is "
                "forced and how results are looked at; states are distinct (program, values) outcomes")


def sched(pid, backends, arith=False):
    return {
        "units": [{"name": "programs", "harness": ["harness/sched.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"],
                   "file_flags": {"sched.cpp": ["-DPROP=\"%s\"" % pid, "-DBACKENDS=" + backends] + (["-DARITH"] if arith else [])}}],
        "rule": PROGRAM_RULE,
        "assumptions": ["multiplication tuples are correct (C12) and channels deliver in order (C15, C16): both are replaced by ideal ones",
                        "protocol outcomes do not depend on the interleaving of the parties, which only exchange blocking messages (schedules are explored in C13/C15)"],
    }


CHECKS["C01"] = sched("C01", "LAZY")
CHECKS["C02"] = sched("C02", "EAGER")
CHECKS["C03"] = sched("C03", "PLAIN,NETPLAIN")
CHECKS["C04"] = sched("C04", "LAZY,EAGER,PLAIN,NETPLAIN", True)

CHECKS["C05"] = {
    "units": [{"name": "wires", "harness": ["harness/c05_wires.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"]}],
    "rule": "every sequence of store operations, and every sequence of handle operations (inputs, copies, moves, self-assignments, swaps, gates with "
            "results overwriting operands, array gates, drops, reveals, share extraction), up to the depth bound; states are distinct histories",
    "assumptions": ["a handle that was moved from is not read again", "tuples and channels are ideal (C12, C15)"],
}

CHECKS["C07"] = {
    "units": [{"name": "gates", "harness": ["harness/c07_gates.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"]}],
    "rule": "every sequence of gate insertions (all gate kinds, operands among the two most recent wires of a type) and rounds, up to the depth bound; "
            "states are distinct (history, group) outcomes",
    "assumptions": ["the store of wires behaves (C05)"],
}

CHECKS["C15"] = {
    "units": [{"name": n, "harness": ["harness/c15_inmemory.cpp"], "opt": o,
               "repo_sources": ["fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp", "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp"]}
              for n, o in (("inmemory", ["-O1"]), ("races", TSAN))],
    "technique": "stateless model checking of the implementation: systematic exploration of thread schedules (preemption-bounded) and data choices, with "
                 "happens-before race detection on every explored schedule in the unit 'races'",
    "rule": "every script and chunking in the suite under every thread schedule within the stated bound on preemptions and spurious wake-ups; states are distinct outcomes",
    "assumptions": ["switching threads at synchronisation operations is enough: no explored schedule has a data race (unit 'races')"],
}

CHECKS["C17"] = {
    "units": [{"name": "prg", "harness": ["harness/c17_prg.cpp"], "opt": ["-O1"],
               "repo_sources": ["fbpcf/engine/util/aes.cpp", "fbpcf/engine/util/AesPrg.cpp", "fbpcf/engine/util/util.cpp"]}],
    "rule": "every byte value at every position of key and block, every batch length, every sequence of generator requests (kind, size around buffer "
            "boundaries, buffer size) up to the depth bound, compared with AES written out from its definition; states are distinct cases",
    "assumptions": ["a 16-byte block is covered one byte at a time, on three backgrounds"],
}

CHECKS["C18"] = {
    "units": [{"name": "reader", "harness": ["harness/c18_reader.cpp"], "groups": ["io"], "opt": ASAN}],
    "rule": "every content up to the length bound, chunk size, split of the source's answers, failing request and sequence of line and block reads; "
            "states are distinct (content, configuration) cases",
    "assumptions": ["a source that is not at its end delivers at least one byte or reports an error",
                    "the cloud SDKs behave like the object store of shim/cloud_fake.h (documented range and error semantics)"],
}

CHECKS["C19"] = {
    "units": [{"name": "writer", "harness": ["harness/c19_writer.cpp"], "groups": ["io"], "opt": ["-O1"]}],
    "rule": "every sequence of write sizes, flushes and close up to the depth bound, with every assignment of success, failure and lost answer to the "
            "storage calls up to the deviation bound; states are distinct (operations, answers) histories",
    "assumptions": ["the cloud SDKs behave like the object store of shim/cloud_fake.h (multipart and resumable upload semantics as documented)",
                    "an object closed by destruction alone cannot report a failure to its caller"],
}

CHECKS["C20"] = {
    "units": [{"name": "paths", "harness": ["harness/c20_paths.cpp"], "groups": ["io"], "opt": ["-O1"]}],
    "rule": "every address of the grammar (styles x buckets x regions x keys), every single-part corruption of each style, every byte range on small "
            "contents, every combination of client options and environment; states are distinct cases",
    "assumptions": ["the cloud SDKs behave like the object store of shim/cloud_fake.h", "folly::Uri is stood in for by a parser with the same grammar"],
}

CHECKS["C08"] = {
    "units": [{"name": "bits", "harness": ["harness/c08_bits.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"]}] + [{"name": "%s-%d" % (n, w), "harness": ["harness/c08_int.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"],
               "file_flags": {"c08_int.cpp": ["-O0", "-DWIDTHS=%d" % w, "-DSIGNED=" + f]}, "thorough_only": w not in (1, 2, 3, 64)}
              for w in (1, 2, 3, 64, 4, 5, 8, 31, 33, 63) for n, f in (("signed", "true"), ("unsigned", "false"))],
    "rule": "every operator on every pair of operand values (all of them up to 4 bits, boundary values above), secret and public operands of every owner, "
            "scalar and batched, on the plaintext, lazy and eager backends; states are distinct (operation, operands, result) triples",
    "assumptions": ["tuples and channels are ideal (C12, C15)", "what holds for operand widths 1 to 5, 8, 31, 33, 63, 64 holds for the widths between"],
}

CHECKS["C09"] = {
    "units": [{"name": "batching", "harness": ["harness/c09_batching.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"]}],
    "rule": "every list of batch sizes up to the bound, every part evaluated or pending, every split into pieces (empty ones and a dropped tail "
            "included), for bits, integers and bit strings on the plaintext, lazy and eager backends; elements carry their position as value; states are distinct (case, result) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)", "asking for more values than a batch has is the caller's error on the lazy backend (documented there)"],
}

CHECKS["C10"] = {
    "units": [{"name": "engine", "harness": ["harness/c10_engine.cpp"], "groups": ["engine"], "opt": ["-O1"]}],
    "rule": "every number of parties, owner of each input and sequence of scheduled operations with executions between them up to the depth bound; "
            "batches hold every combination of operand bits; states are distinct (case, revealed value) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)"],
}

CHECKS["C29"] = {
    "units": [{"name": "widths-%d" % k, "harness": ["harness/c29_intp.cpp"], "opt": ["-O1"], "shards": 1, "file_flags": {"c29_intp.cpp": ["-DFIRST=%d" % k, "-D_GLIBCXX_ASSERTIONS"]}} for k in range(1, 9)],
    "rule": "every width from 1 to 64, signed and unsigned; every pair of values up to 8 bits, values around every power of two above; every native value "
            "outside the range for 8- and 16-bit storage; states are distinct (type, operation, operands, result) tuples",
    "assumptions": ["above 8 bits the operands around powers of two stand for the rest"],
}

CHECKS["C31"] = {
    "units": [{"name": "mac", "harness": ["harness/c31_mac.cpp"], "opt": ["-O1"],
               "repo_sources": ["fbpcf/engine/util/aes.cpp", "fbpcf/engine/util/util.cpp", "fbpcf/primitive/mac/AesCmac.cpp", "fbpcf/primitive/mac/S2v.cpp"]}],
    "rule": "every message length up to the bound x content pattern x key, every value of every byte at lengths around block borders, every sequence of "
            "messages on one authenticator, compared with RFC 4493 and RFC 5297 written out from their text; states are distinct (message, code) pairs",
    "assumptions": ["message contents are covered by patterns and one byte at a time"],
}

CHECKS["C32"] = {
    "units": [{"name": "helpers", "harness": ["harness/c32_helpers.cpp"], "opt": ["-O1"]}],
    "rule": "every length and value pattern of the collection helpers with a function that records its calls, every sequence of recorders (names taken "
            "twice included) and of recorded amounts up to the depth bound; states are distinct cases",
    "assumptions": ["folly::dynamic is stood in for by a value type with the same interface"],
}

CHECKS["C21"] = {
    "units": [{"name": n, "harness": ["harness/c21_permute.cpp"], "groups": ["engine", "scheduler", "mpclib"], "opt": ["-O1"],
               "file_flags": {"c21_permute.cpp": ["-O0", "-DPART=%d" % k]}} for k, n in enumerate(("words", "strings", "pairs", "small"))],
    "rule": "every permutation of every size up to the bound (families of permutations above) x order's owner x values' owner x value type x backend; every "
            "order of small sizes through the switching network; every index list that is no permutation; every pair of shuffle permutations of small "
            "sizes; states are distinct (case, result) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)"],
}

CHECKS["C22"] = {
    "units": [{"name": n, "harness": ["harness/c22_compact.cpp"], "groups": ["engine", "scheduler", "mpclib"], "opt": ["-O1"],
               "file_flags": {"c22_compact.cpp": ["-O0", "-DPART=%d" % k]}} for k, n in enumerate(("words", "small", "bits", "pairs"))],
    "rule": "every label pattern of every size up to the bound x compactor x owners x value type x backend (patterns of larger sizes from families); "
            "states are distinct (case, result) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)", "the insecure dummy compactor is not asked to return nothing on the engines, which refuse empty private inputs"],
}

CHECKS["C23"] = {
    "units": [{"name": n, "harness": ["harness/c23_oram.cpp"], "groups": ["engine", "scheduler", "mpclib"], "opt": ["-O1"],
               "file_flags": {"c23_oram.cpp": ["-O0", "-DPART=%d" % k]}}
              for k, n in enumerate(("words", "small", "aggregations", "parts"))],
    "rule": "every size, pair of indexes, split into batches and splitting of shares up to the bound, for both strategies and every mixture with the dummy "
            "parts; whole-memory histories of up to three batches at sizes around powers of two; every index at every array length up to the bound; "
            "states are distinct (history, position, value) triples",
    "assumptions": ["tuples and channels are ideal (C12, C15)", "indexes are below the size and the indicator width can hold the size (documented requirements)"],
}

CHECKS["C24"] = {
    "units": [{"name": "encoder", "harness": ["harness/c24_encoder.cpp"], "groups": ["io", "encoder"], "opt": ["-O1"],
               "libs": ["-lcrypto", "-lssl", "-lre2", "-ldl", "-lboost_serialization"]}],
    "rule": "every table up to the bound over an alphabet of values whose digits run together, every filter kind x column x threshold, pairs of filters, "
            "every split of the rows into calls, rows of every width; written, read back and decoded; states are distinct (table, filters, ids) cases",
    "assumptions": ["boost's text archive round-trips what is put into it"],
}

CHECKS["C30"] = {
    "units": [{"name": "typed-%d" % k, "harness": ["harness/c30_typed.cpp"], "groups": ["engine", "scheduler", "mpclib"], "opt": ["-O1"],
               "file_flags": {"c30_typed.cpp": ["-O0", "-DPART=%d" % k]}, "shards": 4} for k in range(4)],
    "rule": "every value type x operation (input and open, oblivious swap, recovery from shares, joining and splitting) x owners x receiver x backend on all "
            "values (few bits) or values with every single bit set; every sequence of random draws of the permutation up to the size bound; every bit "
            "of a dishonest opening; states are distinct (case, result) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)"],
}

CHECKS["C25"] = {
    "units": [{"name": "aes", "harness": ["harness/c25_aes.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"]}],
    "rule": "every value of every byte of the block on several keys and backgrounds, every single bit of text, key and each round key, every number of "
            "blocks up to the bound, every combination of sizes to be rejected; on plain bits and on secret bits with every owner, mode and backend; "
            "compared with AES written out from its definition; states are distinct results",
    "assumptions": ["tuples and channels are ideal (C12, C15)", "a 16-byte block is covered one byte and one bit at a time, on several backgrounds"],
}

CHECKS["C26"] = {
    "units": [{"name": n, "harness": ["harness/c26_udp.cpp"], "groups": ["engine", "scheduler", "mpclib", "udp", "io"], "repo_sources": ["fbpcf/primitive/mac/AesCmac.cpp", "fbpcf/primitive/mac/S2v.cpp"], "opt": ["-O1"],
               "file_flags": {"c26_udp.cpp": ["-DPART=%d" % k]}, "libs": ["-lcrypto", "-lssl", "-lre2", "-ldl", "-lboost_serialization"]} for k, n in enumerate(("adapter", "rows"))],
    "rule": "every pair of union maps up to the size bound (families above) x shuffler x roles; every ordered selection of rows, row width around the cipher's "
            "block, split of the rows into batches and of the result into shards, sequence of sessions and call order up to the bound; states are distinct "
            "(case, delivered rows) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)", "every requested row is sent, once, and requested once; every id of the union belongs to a party"],
}

CHECKS["C27"] = {
    "units": [{"name": n, "harness": ["harness/c27_serialization.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O1"],
               "file_flags": {"c27_serialization.cpp": ["-O0", "-D_GLIBCXX_ASSERTIONS", "-DPART=%d" % k]}} for k, n in enumerate(("layouts", "values", "rejections"))],
    "rule": "every list of column types up to the bound, every number of bit columns around the packing, boundary values and every single bit of every type, "
            "every number of rows and array length up to the bound; every way of giving data, definitions or row widths that do not fit; with bounds "
            "checking; states are distinct (case, values) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)"],
}

CHECKS["C28"] = {
    "units": [{"name": n, "harness": ["harness/c28_walr.cpp"], "groups": ["engine", "scheduler", "walr"], "opt": ["-O1"],
               "file_flags": {"c28_walr.cpp": ["-O0", "-D_GLIBCXX_ASSERTIONS", "-DPART=%d" % k]}} for k, n in enumerate(("uint32", "uint64", "narrow"))],
    "rule": "every label vector and feature matrix over a boundary alphabet up to the bound, shapes and generator buffers around each other's sizes, every way "
            "of sharing the labels, repeated calls, every call that does not fit; every 8- and 16-bit number through the number encoding and boundary numbers "
            "for wider types; every choice vector of the underlying transfers; states are distinct (case, result) pairs",
    "assumptions": ["tuples, channels and the underlying correlated transfers are ideal (C12, C14, C15)", "the sums stay within the signed range of the fixed-point type (documented restriction)"],
}

CHECKS["C33"] = {
    "units": [{"name": n, "harness": ["harness/c33_examples.cpp"], "groups": ["engine", "scheduler", "io"], "opt": ["-O1"],
               "repo_sources": ["example/edit_distance/EditDistanceInputReader.cpp", "example/edit_distance/Validator.cpp"],
               "file_flags": {"c33_examples.cpp": ["-DPART=%d" % k] + (["-O0"] if k else ["-O2"])},
               **({"uncompilable": "shares of a string built from share data"} if k == 2 else {})} for k, n in enumerate(("edit-distance", "strings", "string-shares"))],
    "rule": "every pair of words up to the length bound over small alphabets, every pair of lengths and of characters, costs, thresholds around the distance, "
            "every message length; every disagreement between the parties; every triple of boundary amounts; strings over a boundary alphabet; states are "
            "distinct (case, result) pairs",
    "assumptions": ["tuples and channels are ideal (C12, C15)", "totals of amounts fit 32 bits, characters are ASCII without the zero byte"],
}

CHECKS["C16"] = {
    "units": [{"name": "socket", "harness": ["harness/c16_socket.cpp"], "opt": ["-O1"],
               "repo_sources": ["fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp", "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp"]}],
    "technique": "stateless model checking of the implementation over a simulated operating system and TLS library (exhaustive fault injection up to a deviation bound)",
    "rule": "every script of message sizes and cuts of the stream up to the bound, each with every placement of short transfers, interruptions, errors, resets "
            "and ends of stream up to the deviation bound, plain and encrypted; every failure while establishing; every start order, port layout and "
            "taken port of two and three parties; states are distinct (script, outcome) pairs",
    "assumptions": ["the C library's streams are the real ones; system calls and the TLS library's connection functions are replaced by models of their documented behaviour"],
}

CHECKS["C35"] = {
    "units": [{"name": "tls", "harness": ["harness/c35_tls.cpp"], "opt": ["-O1"],
               "repo_sources": ["fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp", "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp"]}],
    "technique": "stateless model checking of the implementation with the real TLS library over simulated sockets (exhaustive enumeration of trust configurations and single tamperings)",
    "rule": "every combination of issuer, name, validity, usage and trusted roots; every key, passphrase and certificate of a server; every range of protocol versions of "
            "a peer; every single flipped, dropped, repeated, inserted byte or cut of both directions of a connection; states are distinct (configuration, outcome) pairs",
    "assumptions": ["OpenSSL's cryptography and the system's clock are trusted"],
}

CHECKS["C14"] = {
    "units": [{"name": "ot", "harness": ["harness/c14_ot.cpp"], "groups": ["engine"], "opt": ASAN}],
    "rule": "every vector of choices up to the length bound for each layer of the stack (base, correlated, chosen-message, single point, multi point, extended), "
            "every single bit of the difference, every sequence of request sizes around the block and refill borders, corner values of every random exponent up to "
            "the deviation bound, every schedule of a chosen-message transfer up to the preemption bound; states are distinct (case, keys) pairs",
    "assumptions": ["each layer is checked over an ideal layer below and over the real stack with small extension parameters", "the emp-ot based transfer is third-party code that is absent here"],
}

CHECKS["C13"] = {
    "units": [{"name": "async", "harness": ["harness/c13_async.cpp"], "groups": ["engine"], "opt": ["-O1"]},
              {"name": "races", "harness": ["harness/c13_async.cpp"], "groups": ["engine"], "opt": TSAN}],
    "technique": "stateless model checking of the implementation: systematic exploration of thread schedules (preemption- or delay-bounded) and data choices, "
                 "with happens-before race detection on every explored schedule in the unit 'races'",
    "rule": "every sequence of requests around the refill border of small buffers, every generation or transfer that fails, under every thread schedule within "
            "the stated bound; states are distinct (history, items) outcomes",
    "assumptions": ["correlated transfers and channels are ideal (C14, C15)", "threads switch at synchronisation operations and at the points where the stand-ins say so"],
}

CHECKS["C12"] = {
    "units": [{"name": "tuples", "harness": ["harness/c12_tuples.cpp"], "groups": ["engine"], "opt": ["-O1"]}],
    "rule": "every sequence of requests (tuples, one-to-many tuples, both) up to the depth bound with amounts around the refill border of small buffers, every "
            "width of one-to-many tuples up to the bound, two to four parties, every combination of factor bits and of boundary integer factors of product shares; "
            "states are distinct (history, tuples) pairs",
    "assumptions": ["correlated transfers and channels are ideal (C14, C15)"],
}

CHECKS["C11"] = {
    "units": [{"name": "views", "harness": ["harness/c11_views.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O2"]},
              {"name": "protocols", "harness": ["harness/c11_protocols.cpp"], "groups": ["engine", "scheduler", "mpclib", "walr", "udp", "io"], "repo_sources": ["fbpcf/primitive/mac/AesCmac.cpp", "fbpcf/primitive/mac/S2v.cpp"], "opt": ["-O1"],
               "libs": ["-lcrypto", "-lssl", "-lre2", "-ldl", "-lboost_serialization"]}],
    "rule": "every program and secret input in the suite with every value of every random bit the protocol consumes (input pads, tuples, shares, masks, choices, permutations); the "
            "complete distribution of what each coalition of parties draws, is dealt, receives and is told is compared between all secrets it may not tell apart; states are (program, secret, coalition, distribution); transitions include one per run of a tape",
    "assumptions": ["pseudo-random generators and tuple generation are ideal here (C12, C14, C17): a generator's output is as good as a fresh random tape per key",
                    "integers are drawn from a subgroup of the 64-bit numbers on which the secrets differ",
                    "library protocols run over an ideal engine: only what they open, draw or send outside it counts, the engine itself is judged by the programs"],
}

CHECKS["C36"] = {
    "units": [{"name": "stacks", "harness": ["harness/c36_stacks.cpp"], "groups": ["engine", "scheduler"], "opt": ["-O2"], "shards": 4, "limit": 400}],
    "rule": "every ready-made engine and scheduler, with the sizes the library gives it, for every number of parties up to the bound and every owner and recipient, on a batch with every "
            "combination of bits and of boundary integers; states are distinct (stack, parties, owners, recipient) cases",
    "assumptions": ["channels deliver in order (C15, C16)"],
}
