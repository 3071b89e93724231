#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit): python3 tools/props.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "fbpcf/scheduler/"; G = S + "gate_keeper/"; E = "fbpcf/engine/"; T = E + "tuple_generator/"; O = T + "oblivious_transfer/"; L = "fbpcf/mpc_std_lib/"; IO = "fbpcf/io/"
p("C01", "Lazy evaluation of boolean programs equals plaintext evaluation",
  "For every program of boolean gates (scalar, batched, one-to-many AND, re-batching, reveal, share extraction and recovery) that both parties build against the lazily evaluated backend, every revealed value equals the value plaintext evaluation gives, no matter when evaluation is triggered. Share extraction yields values whose XOR over the parties is the wire's value, and only the designated party sees an opened value.",
  ["programs", "inputs", "histories"], "every program over the gate alphabet up to a bounded number of gates, every input value, every point at which evaluation is forced",
  "The unit tests run a few fixed circuits; ordering by level, batching and deferred execution interact with every program shape.",
  [S + "LazyScheduler.cpp", G + "GateKeeper.cpp", G + "GateKeeper.h", G + "BatchNormalGate.h", G + "BatchCompositeGate.h", G + "RebatchingGate.h", S + "SchedulerHelper.h"],
  [("gates are levelled by availability and executed level by level", G + "GateKeeper.cpp"), ("evaluation is forced on reads of unavailable wires", S + "LazyScheduler.cpp")],
  ["values returned to each party"])
p("C02", "Eager evaluation of boolean programs equals plaintext evaluation",
  "For every program of boolean gates executed by the immediately evaluating backend, every revealed value equals plaintext evaluation of the same program, in scalar, batched and one-to-many form. Extracted shares XOR to the wire's value and only the designated party sees an opened value.",
  ["programs", "inputs"], "every program over the gate alphabet up to a bounded number of gates, every input value",
  "Tests exercise each gate once with random inputs, not compositions.", [S + "EagerScheduler.cpp", S + "EagerScheduler.h", E + "SecretShareEngine.cpp"],
  [("each call runs the engine at once", S + "EagerScheduler.cpp")], ["values returned to each party"])
p("C03", "Plaintext backends agree with plaintext evaluation for every program",
  "For every program of gates, the plaintext backend and the networked plaintext backend return the same revealed values as direct evaluation; private inputs of one party reach the other, and extracted shares recombine to the value so that a program moved from one backend to another gives the same answers.",
  ["programs", "inputs"], "every bounded program over boolean and integer gates, every input value and owner",
  "Tests run each operation in isolation on the plaintext backends.", [S + "PlaintextScheduler.cpp", S + "NetworkPlaintextScheduler.cpp"],
  [("values are stored unmasked", S + "PlaintextScheduler.cpp"), ("inputs and outputs are exchanged in the clear", S + "NetworkPlaintextScheduler.cpp")])
p("C04", "Integer arithmetic programs equal arithmetic modulo 2^64 on every backend",
  "For every program of integer gates (add, multiply, negate, scalar or batched, mixed public and private operands), every backend reveals the value the same program has in arithmetic modulo 2^64, and extracted shares sum to it.",
  ["programs", "inputs"], "every bounded program over integer gates with wrap-around-critical operand values",
  "Tests use a few hundred random operands on single gates.", [S + "LazyScheduler.cpp", S + "EagerScheduler.cpp", S + "PlaintextScheduler.cpp", G + "ArithmeticGate.h", G + "BatchArithmeticGate.h", E + "SecretShareEngine.cpp"],
  [("additive sharing and multiplication tuples", E + "SecretShareEngine.cpp")])
p("C05", "A wire lives exactly as long as something refers to it",
  "A value handle stays readable, with its value, from creation until its last reference is dropped, whatever copies, moves, overwrites, self-assignments and pending gates happen in between; its storage is then released exactly once. When every handle is gone and evaluation has finished, as many wires were released as were allocated.",
  ["histories", "programs"], "every bounded sequence of create, copy, move, assign, self-assign, gate and drop operations over a few handles",
  "Leak and use-after-free need particular orders of drops and deferred gates; tests destroy everything at scope exit.",
  [S + "WireKeeper.cpp", S + "WireKeeper.h", "fbpcf/frontend/Bit_impl.h", S + "VectorArenaAllocator.h", G + "INormalGate.h"],
  [("reference counts per wire", S + "WireKeeper.cpp"), ("gates hold references while pending", G + "INormalGate.h")], ["wire statistics", "values read through live handles"])
p("C06", "Allocators behave like a map from fresh ids to values",
  "Under every sequence of allocate, read, write and free, each allocated id is distinct from all live ids, reads return the last value written to that id whatever happens to other ids, including growth past a storage chunk, and the checked variants reject reading or writing through an id that was never allocated or already freed.",
  ["histories"], "every bounded operation sequence, including crossing internal chunk boundaries and reuse after free",
  "The tests walk one allocate-use-free history per allocator.", [S + "VectorArenaAllocator.h", S + "UnorderedMapAllocator.h", S + "IAllocator.h"],
  [("chunked arena", S + "VectorArenaAllocator.h"), ("hash map", S + "UnorderedMapAllocator.h")])
p("C07", "Deferred gates run once each, in dependency order, whatever the batching",
  "Every deferred gate is executed exactly once before its result is read, never before the gates it depends on, and results of reordering or splitting execution into rounds never depend on how many gates or batched values wait together. The groups of gates handed out for execution come in strictly increasing dependency depth and are identical for all parties building the same program.",
  ["programs", "histories"], "every bounded sequence of gate insertions (free, non-free, batched, one-to-many, re-batching) interleaved with round extraction and batch-size limits",
  "Tests check one hand-built circuit per gate kind.", [G + "GateKeeper.cpp", G + "GateKeeper.h", S + "LazyScheduler.cpp", S + "WireKeeper.cpp"],
  [("first-available-level bookkeeping", G + "GateKeeper.cpp")], None, [("gates by level", "queue of gate groups, one per dependency depth", G + "GateKeeper.h")])
p("C08", "Secure bit, integer and bit-string operators compute their plaintext meaning",
  "For every operand value, width, signedness and public/private combination, logical and arithmetic operators, comparison, equality, multiplexing, share extraction and recovery, opening and batching on secure bits, integers and bit strings give exactly what the same operation gives on plain values of that width (wrapping at the width). Operands are unchanged by operators that do not assign.",
  ["inputs", "configurations"], "all operand values for small widths (1 to 4 bits), boundary values for wide ones, all ownership combinations, scalar and batched",
  "Tests draw random operands at a few widths; carry, sign and width-one corners are not reached.",
  ["fbpcf/frontend/Bit_impl.h", "fbpcf/frontend/Int_impl.h", "fbpcf/frontend/BitString_impl.h", "fbpcf/frontend/Int.h"],
  [("ripple-carry adders, subtractor and comparator", "fbpcf/frontend/Int_impl.h"), ("operator dispatch by public/private type", "fbpcf/frontend/Bit_impl.h")])
p("C09", "Batching and unbatching keep every element and its position",
  "Joining batches concatenates them in order and splitting a batch by a list of sizes returns consecutive slices, for any sizes including empty ones, evaluated or still pending, and splitting a joined batch by the original sizes gives back the originals.",
  ["inputs", "programs"], "every small list of batch sizes (0 to 3 elements each), evaluated and deferred operands",
  "Tests rebatch one fixed layout.", [G + "RebatchingGate.h", G + "GateKeeper.cpp", S + "LazyScheduler.cpp", S + "EagerScheduler.cpp", S + "PlaintextScheduler.cpp", "fbpcf/frontend/util.h"],
  [("rebatching gates", G + "RebatchingGate.h")])
p("C10", "Secret-sharing engine computes correctly for any number of parties",
  "For two or more parties, any owner of each input, and any order of scheduled operations, secrets shared, combined with XOR, NOT, AND (plain, batched, one-to-many) or integer operations and revealed to a party equal plaintext evaluation for that party, and other parties learn nothing from the reveal call's result.",
  ["programs", "configurations", "inputs"], "2 to 4 parties, all input owners, all bounded schedules of operations, all input bits",
  "Tests schedule one or two fixed batches of operations.", [E + "SecretShareEngine.cpp", E + "SecretShareEngine.h", E + "DummySecretShareEngine.h", E + "communication/SecretShareEngineCommunicationAgent.cpp"],
  [("masked openings against correlated tuples", E + "SecretShareEngine.cpp"), ("only party 0 applies public constants", E + "SecretShareEngine.cpp")])
p("C11", "What a party receives does not depend on the other parties' secrets",
  "For every program and every coalition short of all parties, the joint distribution (over the protocol's randomness) of everything the coalition draws, is dealt, receives and is told is the same for all inputs of the others that agree on what is revealed to the coalition. The same holds for the protocols built on the engine: product shares and tuples by oblivious transfer, compaction (which tells only how many rows are kept), oblivious memories, gradient aggregation; masks of transferred numbers and of encrypted rows are never used twice, and keys of generators shared by two parties never reach a third.",
  ["inputs", "programs"], "all small programs, all secret inputs, all values of the (small) random tapes, enumerated completely",
  "A privacy leak does not change any result, so no functional test can see it.",
  [E + "SecretShareEngine.cpp", E + "communication/SecretShareEngineCommunicationAgent.cpp", T + "ProductShareGenerator.cpp", T + "TupleGenerator.cpp", T + "oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp", L + "compactor/ShuffleBasedCompactor.h", L + "util/secureRandomPermutation.cpp", L + "oram/LinearOram_impl.h", L + "oram/DifferenceCalculator_impl.h", L + "oram/ObliviousDeltaCalculator_impl.h", L + "walr_multiplication/OTBasedMatrixMultiplication_impl.h", L + "unified_data_process/data_processor/UdpUtil.cpp"],
  [("inputs are one-time padded, openings are masked by tuples", E + "SecretShareEngine.cpp"), ("one fresh mask per transfer", T + "ProductShareGenerator.cpp")])
p("C12", "Generated multiplication tuples are valid and used once",
  "Every boolean, one-to-many and integer tuple produced by any generator satisfies its product relation when the parties' parts are combined, for any request sizes in any order across buffer refills; consecutive requests never return the same tuple again, and generators agree on which tuple is the n-th.",
  ["histories", "configurations"], "every bounded sequence of requests against small buffers, 2 and 3 parties, one-to-many sizes on both sides of the expansion threshold",
  "Tests draw one large request; refill boundaries with mixed request kinds are not enumerated.",
  [T + "TwoPartyTupleGenerator.cpp", T + "TupleGenerator.cpp", T + "ArithmeticTupleGenerator.cpp", T + "ProductShareGenerator.cpp", E + "util/AsyncBuffer.h"],
  [("product shares from oblivious transfer", T + "ProductShareGenerator.cpp"), ("refillable buffers", E + "util/AsyncBuffer.h")])
p("C13", "Background generation never deadlocks, loses or reorders items",
  "Under every interleaving of the consumer with the background generator threads of both parties, requests complete, items arrive once each in generation order, correlated generation steps run in the same order at both parties, no two threads touch shared data unordered, and shutting down waits for work in progress; a generation that fails is reported to whoever needs its items and neither ends the process nor leaves anyone waiting.",
  ["schedules", "fault_sequences"], "all interleavings of consumer and generator threads up to a preemption bound, two and three parties with shared channels, any one generation step failing",
  "Tests run under whatever schedule the operating system picks.", [E + "util/AsyncBuffer.h", T + "TwoPartyTupleGenerator.cpp", E + "util/AesPrg.cpp", T + "TupleGenerator.cpp"],
  [("a schedule queue with mutex and condition variable orders generation", T + "TwoPartyTupleGenerator.cpp"), ("futures hand over buffers", E + "util/AsyncBuffer.h")], None,
  [("schedule queue", "order in which the two kinds of tuple must be generated", T + "TwoPartyTupleGenerator.h")])
p("C14", "Oblivious transfer delivers exactly the chosen message",
  "For every choice vector and message length, each oblivious-transfer construction gives the receiver the message it chose and not the other one, correlated variants keep the sender's offset relation and encode the choice in the lowest bit, and extension to longer outputs preserves the relation over any number of consecutive calls, hands out no transfer twice and none that seeds a later extension.",
  ["inputs", "histories"], "all choice vectors up to a small length, lengths around block boundaries, consecutive calls across refills, both roles",
  "Tests compare one random run per construction.", [O + "NpBaseObliviousTransfer.cpp", O + "IknpShRandomCorrelatedObliviousTransfer.cpp", O + "RcotBasedBidirectionObliviousTransfer.cpp", O + "ExtenderBasedRandomCorrelatedObliviousTransfer.cpp", O + "ferret/RcotExtender.cpp", O + "ferret/SinglePointCot.cpp", O + "ferret/RegularErrorMultiPointCot.cpp", O + "ferret/TenLocalLinearMatrixMultiplier.cpp"],
  [("IKNP matrix transpose", O + "IknpShRandomCorrelatedObliviousTransfer.cpp"), ("single-point expansion trees", O + "ferret/SinglePointCot.cpp"), ("refill from the extender", O + "ExtenderBasedRandomCorrelatedObliviousTransfer.cpp")])
p("C15", "In-process channels deliver every byte once and in order",
  "Under every interleaving of senders and receivers and for every way of splitting data into sends and receives, each side receives exactly the bytes the other sent, in order, typed helpers (bits, integers, structures) round-trip for every length, traffic counters equal bytes moved, and the n-th channel one party opens to another is connected to the n-th the other opens back.",
  ["schedules", "inputs"], "all interleavings up to a preemption bound of two parties with small message scripts, all chunkings, all bit lengths up to a bound",
  "Tests send a few fixed messages under one schedule.", [E + "communication/InMemoryPartyCommunicationAgentHost.cpp", E + "communication/InMemoryPartyCommunicationAgentFactory.h", E + "communication/IPartyCommunicationAgent.h", E + "communication/SecretShareEngineCommunicationAgent.cpp"],
  [("queue with mutex and condition variable", E + "communication/InMemoryPartyCommunicationAgentHost.cpp"), ("bit packing", E + "communication/IPartyCommunicationAgent.h")])
p("C16", "A socket channel never returns data the peer did not send",
  "Whatever chunking, short transfer, interruption or loss of connection the operating system reports, a receive either returns exactly the bytes the peer sent or fails visibly, a send either hands over all bytes or fails visibly, counters match, and neither loops forever; a party waits for its peer as long as configured and then fails.",
  ["fault_sequences", "schedules"], "all short-read/short-write/end-of-file/error answers of the stream layer up to a deviation bound, plain and encrypted transport",
  "Loopback tests never see a short transfer or a peer that disappears.", [E + "communication/SocketPartyCommunicationAgent.cpp", E + "communication/SocketPartyCommunicationAgentFactory.cpp"],
  [("receive and send loops", E + "communication/SocketPartyCommunicationAgent.cpp")])
p("C17", "Pseudorandom streams and the block cipher are exact and position-independent",
  "The block cipher and fixed-key hash equal the published algorithms on every path (single, batched, in place), and a seeded generator yields one fixed stream: any way of splitting requests, buffer sizes or kinds of request that consume the same bytes gives the same output, and two generators with the same seed agree.",
  ["inputs", "histories", "schedules"], "all request-size sequences up to a bound around buffer boundaries, all batch lengths up to a bound, every single-byte state against an independent implementation",
  "Tests check one key and a few sizes.", [E + "util/aes.cpp", E + "util/aes.h", E + "util/AesPrg.cpp", E + "util/AesPrg.h", E + "util/util.h", E + "util/util.cpp"],
  [("AES-NI rounds", E + "util/aes.cpp"), ("counter mode with refill buffer", E + "util/AesPrg.cpp")])
p("C18", "Buffered reading returns every byte and every line exactly once",
  "For every content, chunk size and way the underlying source splits its answers, reading lines returns exactly the lines of the content in order, reading blocks returns exactly its bytes, mixed use keeps position, the end is reported after the last byte and not before, and a failure of the source is reported instead of yielding data.",
  ["inputs", "histories", "fault_sequences"], "all contents up to a small length over a 3-letter alphabet including newlines, all chunk sizes, all short-read patterns, all operation sequences",
  "Tests read two fixed files with one or two chunk sizes.", [IO + "api/BufferedReader.cpp", IO + "api/FileReader.cpp", IO + "api/LocalFileReader.cpp", IO + "cloud_util/S3FileReader.cpp", IO + "api/CloudFileReader.cpp"],
  [("refill on buffer exhaustion and line assembly", IO + "api/BufferedReader.cpp")])
p("C19", "Written data arrives whole and in order, or the failure is reported",
  "Whatever sizes data is written in and whatever transfers fail, a file or object that was closed without an error contains exactly the bytes written in order; when a part cannot be stored the writer's caller sees an error, and no incomplete object is published as complete; one refusal of a part does not yet fail an upload to S3.",
  ["fault_sequences", "histories", "inputs"], "all bounded sequences of write sizes, flushes and close with every assignment of success or failure to storage calls",
  "Tests write once to a healthy destination.", [IO + "api/BufferedWriter.cpp", IO + "api/FileWriter.cpp", IO + "api/CloudFileWriter.cpp", IO + "api/LocalFileWriter.cpp", IO + "cloud_util/S3FileUploader.cpp", IO + "cloud_util/GCSFileUploader.cpp", IO + "api/FileIOWrappers.cpp"],
  [("buffer flush", IO + "api/BufferedWriter.cpp"), ("multipart upload state machine", IO + "cloud_util/S3FileUploader.cpp")])
p("C20", "Paths and addresses resolve to the right backend, bucket, key and range",
  "Every file name is treated as local or as cloud storage of the right provider by its form alone, bucket, key and region are extracted exactly for every accepted address style and malformed ones are rejected, and range reads and copies return exactly the requested bytes.",
  ["inputs"], "all addresses from a grammar of schemes, hosts, buckets and keys up to a bound; all (start, end) ranges over small contents",
  "Tests use a handful of well-formed addresses.", [IO + "api/IOUtils.h", "fbpcf/aws/S3Util.cpp", "fbpcf/gcp/GCSUtil.cpp", IO + "FileManagerUtil.cpp", IO + "LocalFileManager.cpp", IO + "cloud_util/CloudFileUtil.cpp"],
  [("regular-expression and URI parsing", "fbpcf/aws/S3Util.cpp")])
p("C21", "Secure permutation and shuffling move values without changing them",
  "For every size and permutation, permuting a batch of secret values with one party's permutation gives exactly the permuted batch, and shuffling gives a permutation of the input with companion values kept together, for every value type supported.",
  ["inputs", "configurations"], "all permutations of all sizes up to 6 (more for chosen families), both owners, all value types; all pairs of shuffle permutations for small sizes",
  "Tests apply one random permutation at one size.", [L + "permuter/AsWaksmanPermuter_impl.h", L + "permuter/AsWaksmanPermuterForBitString_impl.h", L + "permuter/AsWaksmanPermuter.cpp", L + "shuffler/PermuteBasedShuffler.h", L + "permuter/DummyPermuter.h"],
  [("switching network programmed from the permutation", L + "permuter/AsWaksmanPermuter_impl.h")])
p("C22", "Compaction keeps exactly the labelled items",
  "For every label pattern, compaction reveals the number of labelled items and outputs exactly those items (as a multiset, with values attached to the right labels) and nothing else; with no labelled item the result is empty.",
  ["inputs"], "all label patterns and sizes up to 5, all value types",
  "Tests use one random label vector.", [L + "compactor/ShuffleBasedCompactor.h", L + "compactor/DummyCompactor.h", L + "shuffler/PermuteBasedShuffler.h"],
  [("shuffle then reveal labels", L + "compactor/ShuffleBasedCompactor.h")])
p("C23", "Oblivious memory behaves like an array",
  "For every size and every sequence of accumulate, read-and-publish operations with secretly shared indexes and values, oblivious memory ends with exactly the contents a plain array would have, for every supported value type and both addressing strategies; one-hot expansion of an index is correct for every index; and the traffic the memory reports is what moved over its own channels.",
  ["histories", "inputs", "configurations"], "all sizes up to 8, all index and value sequences up to a bound, all share splits of indexes",
  "Tests use one random access sequence per size.", [L + "oram/LinearOram_impl.h", L + "oram/WriteOnlyOram_impl.h", L + "oram/SinglePointArrayGenerator.cpp", L + "oram/DifferenceCalculator_impl.h", L + "oram/ObliviousDeltaCalculator_impl.h"],
  [("single-point arrays from a binary tree", L + "oram/SinglePointArrayGenerator.cpp"), ("linear scan with equality tests", L + "oram/LinearOram_impl.h")])
p("C24", "Breakdown encoding is a bijection on accepted rows",
  "For every table of attribute tuples and every filter combination, rows that pass all filters get the same dense id exactly when their tuples are equal, other rows get the reserved id, the mapping survives being written and read back, and decoding an id returns the tuple that was encoded.",
  ["inputs", "configurations"], "all tables up to 3 rows by 2 columns over a small value alphabet including extremes, all filter kinds and thresholds",
  "Tests encode two fixed tables.", [L + "oram/encoder/OramEncoder.cpp", L + "oram/encoder/OramDecoder.cpp", L + "oram/encoder/IFilter.h", L + "oram/encoder/OramMappingConfig.h"],
  [("first-seen numbering", L + "oram/encoder/OramEncoder.cpp")])
p("C25", "Secure AES equals AES",
  "The secret-shared AES circuit encrypts and decrypts every block exactly as the standard cipher does (every substitution input, every linear layer input basis, any number of blocks and rounds keys), and counter-mode encryption and decryption agree with it and with each other.",
  ["inputs"], "every byte value through every state position, all basis vectors of the linear layers, several keys and block counts",
  "Tests encrypt a few random blocks.", [L + "aes_circuit/AesCircuit_impl.h", L + "aes_circuit/AesCircuitCtr_impl.h"],
  [("boolean S-box circuit and linear layers", L + "aes_circuit/AesCircuit_impl.h")])
p("C26", "Joined records are delivered aligned, whole and only for the intersection",
  "For every pair of union maps, the adapter yields each party's row indexes for exactly the common ids, aligned between parties, and the encrypted data exchange re-shares exactly the requested rows of each party in the requested order, for every row width and index list.",
  ["inputs", "configurations"], "all union maps up to 4 entries, row widths around block boundaries, all index subsets and orders up to a bound",
  "Tests run one random map and one data width.", [L + "unified_data_process/adapter/Adapter_impl.h", L + "unified_data_process/data_processor/UdpUtil.cpp", L + "unified_data_process/data_processor/UdpEncryption.cpp", L + "unified_data_process/data_processor/DataProcessor_impl.h", L + "unified_data_process/data_processor/UdpDecryption.h"],
  [("shuffle and compaction of the union map", L + "unified_data_process/adapter/Adapter_impl.h"), ("counter-mode masks by row index", L + "unified_data_process/data_processor/UdpUtil.cpp")])
p("C27", "Row serialisation round-trips every schema and value",
  "For every row layout and every in-range value, writing rows to bytes and reading them back as secret values (or as plain values) gives the original values, field by field, and out-of-range values or mismatched schemas are rejected, never silently altered.",
  ["inputs", "configurations"], "all layouts of up to 3 columns from every column kind, boundary values, several row counts",
  "Tests round-trip one layout with random values.", [L + "unified_data_process/serialization/RowStructureDefinition.h", L + "unified_data_process/serialization/IntegerColumn.h", L + "unified_data_process/serialization/PackedBitFieldColumn.h", L + "unified_data_process/serialization/FixedSizeArrayColumn.h"],
  [("fixed offsets per column", L + "unified_data_process/serialization/RowStructureDefinition.h")])
p("C28", "Oblivious gradient aggregation equals the clear product",
  "For every feature matrix and secretly shared label vector, the multiplication protocol gives the feature owner the product masked by exactly the noise the label side added, for every matrix shape, and number encoding round-trips within its precision without wrapping for in-range inputs.",
  ["inputs", "configurations"], "all 0/1 label vectors and matrices up to 3 by 3 over a boundary value alphabet",
  "Tests check one random matrix.", [L + "walr_multiplication/OTBasedMatrixMultiplication_impl.h", L + "walr_multiplication/DummyMatrixMultiplication.h", L + "walr_multiplication/util/COTWithRandomMessage.cpp", L + "walr_multiplication/util/NumberMapper.h"],
  [("correlated OT with masked differences", L + "walr_multiplication/OTBasedMatrixMultiplication_impl.h")])
p("C29", "Fixed-width plain integers wrap exactly at their width",
  "For every width and signedness, construction, addition, subtraction, negation and bit conversion of the fixed-width integer type agree with arithmetic modulo two to the width, for all operand pairs, and values outside the range are rejected.",
  ["inputs", "configurations"], "all widths 1 to 8 with all operand pairs, boundary values for larger widths, both signednesses",
  "Tests check two widths with a few values.", [L + "util/Intp_impl.h", L + "util/util.h"],
  [("rounding after native arithmetic", L + "util/Intp_impl.h")])
p("C30", "Typed values survive sharing, masking and recombination",
  "For every value type of the standard library, converting to bits and back, generating from random bits, XOR masking, adding, comparing with zero and opening to a party give the same value as in the clear, and the shared random permutation and seed helpers always yield a permutation, respectively the same seed on both sides.",
  ["inputs"], "all boundary values per type, all random tapes up to a bound for the permutation helper, all tampering patterns of the seed exchange",
  "Tests check one value per type.", [L + "util/uint32_impl.h", L + "util/aggregationValue_impl.h", L + "util/bit_impl.h", L + "util/bitstring_impl.h", L + "util/pair_impl.h", L + "util/secureRandomPermutation.h", L + "util/secureSamplePublicSeed.h", L + "util/util.cpp"],
  [("per-type adapters", L + "util/util.h")])
p("C31", "Message authentication codes equal the standard and bind every byte",
  "For every message length around block boundaries, the authentication code and the string-to-vector derivation equal the published algorithms.",
  ["inputs"], "all message lengths 0 to several blocks, all component counts up to a bound",
  "Tests use published vectors of a few lengths.", ["fbpcf/primitive/mac/AesCmac.cpp", "fbpcf/primitive/mac/S2v.cpp"],
  [("subkey doubling and padding", "fbpcf/primitive/mac/AesCmac.cpp")])
p("C32", "Collection helpers and metrics account for every element",
  "Element-wise maps, reductions and vector arithmetic apply the operation to every element exactly once in order and reject mismatched sizes; metric collection reports every recorder once with its totals.",
  ["inputs", "histories"], "all vector lengths and operand patterns up to a bound, all sequences of recorder updates up to a bound",
  "Tests check one vector per helper.", ["fbpcf/common/FunctionalUtil.h", "fbpcf/common/VectorUtil.h", "fbpcf/util/MetricCollector.h", T + "ITupleGenerator.h"],
  [("map and reduce templates", "fbpcf/common/FunctionalUtil.h")])
p("C33", "Example applications compute what they advertise",
  "For every pair of inputs, the edit-distance application reports the true edit distances and releases a message only when the distance is within the threshold, and the billionaire application reports who is richer, on every backend.",
  ["inputs"], "all string pairs up to length 3 over a small alphabet, all small amounts, thresholds around the distance",
  "Tests run one fixed data set.", ["example/edit_distance/EditDistanceCalculator_impl.h", "example/edit_distance/AsciiString_impl.h", "example/edit_distance/InputProcessor_impl.h", "example/billionaire_problem/BillionaireProblemGame_impl.h"],
  [("dynamic-programming table in the secure domain", "example/edit_distance/EditDistanceCalculator_impl.h")])
p("C34", "The first-generation application layer runs both parties to the same result",
  "Applications built on the first-generation circuit library give both parties the result the plaintext computation gives, through the in-process test channel and through the network channel.",
  ["programs", "schedules"], "all small programs of the first-generation layer", "Its tests run two sample games.",
  ["fbpcf/mpc/EmpGame.h", "fbpcf/mpc/EmpApp.h", "fbpcf/mpc/QueueIO.cpp", "fbpcf/mpc/MpcAppExecutor.h"],
  [("third-party circuit execution", "fbpcf/mpc/EmpGame.h")])
p("C35", "An encrypted channel authenticates the server and cannot be altered",
  "With transport encryption, a client configured with a root certificate connects only to a server that holds the key of a valid certificate issued by that root for the name it was given, over the current protocol version; nothing sent is readable on the wire, and data that somebody altered, dropped, repeated, reordered or cut is never delivered as genuine.",
  ["inputs", "fault_sequences"], "all combinations of issuer, name, validity, usage and roots; all keys, passphrases and protocol ranges of a small set; all single-byte tamperings and whole-record tamperings of both directions",
  "Tests connect two well-configured parties over an honest network.", ["fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp", "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"],
  [("verification settings of the client", "fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp")])
p("C36", "Every ready-made stack works as assembled and accounts for its traffic",
  "Every engine and scheduler the library assembles itself (insecure, classic or extended transfers, bits, integers or both; eager, lazy, plaintext), with the sizes it chooses, computes what plaintext computation gives for every number of parties, owner and recipient it supports, refuses at every party operations it has no tuples for, and the traffic it reports as sent and received is exactly what it moved, offline work included.",
  ["programs", "inputs"], "all ready-made engines and schedulers, two to four parties, all owners and recipients, all combinations of bits and of boundary integers",
  "Tests assemble engines by hand with small sizes, or run one ready-made stack on one program.", [E + "SecretShareEngineFactory.h", S + "SchedulerHelper.h", S + "LazySchedulerFactory.h", S + "EagerSchedulerFactory.h", S + "NetworkPlaintextSchedulerFactory.h", S + "PlaintextSchedulerFactory.h", O + "RcotHelper.h", T + "NullTupleGenerator.h"],
  [("which generator, buffer size and parties each ready-made engine gets", E + "SecretShareEngineFactory.h")])
for x in P: print(json.dumps(x))
