P = []
NA = {}
A = "psi/algorithm/"


def prop(id, title, statement, q, why, files, mech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, note=note, **k))


prop("C03", "SealPIR plaintext encoding loses no byte of a database row",
     "Packing a row's bytes into polynomial coefficients and unpacking them returns exactly the same bytes, for every row length, every offset and every number of bits carried per coefficient. The unused bits of the last coefficient are zero, and every coefficient fits the number of bits it was given.",
     "All byte strings and offsets, every coefficient width the scheme can use.",
     "The tests that reach this code need the SEAL library and sample a few row sizes; the packing depends on the row length, the phase of each byte within a coefficient and every bit pattern.",
     [A + "sealpir/seal_pir.cc", A + "sealpir/seal_pir.h"],
     [("BytesToCoeffs", A + "sealpir/seal_pir.cc"), ("CoeffsToBytes", A + "sealpir/seal_pir.cc"), ("CoefficientsPerElement", A + "sealpir/seal_pir.cc")],
     "Encoder and decoder are each proved against one bit-level specification for every input and length (positions below 2^26) for each width; quick covers widths 13,16,20,24,33, thorough 8..60.")
prop("C04", "All parties run the same, sufficient number of buckets",
     "The bucket count every party computes from the gathered input sizes is the same function of those sizes: zero when any party has no items, and otherwise the least count for which bucket count times bucket size is enough for the largest party.",
     "Any number of parties, any sizes, any bucket size, any rank.",
     "Depends on the sizes of all parties at once; tests use two or three parties with a handful of sizes.",
     ["psi/utils/bucket.cc"], [("NegotiateBucketNum", "psi/utils/bucket.cc")],
     "Proved for any number of parties and all sizes below 2^50; the gathered size list is an assumed contract of the link layer.", over=["inputs", "configurations"])
prop("C05", "SealPIR addressing is a bijection that fits the allocated database",
     "For every database shape, the hypercube dimensions hold all plaintexts, every plaintext number maps to in-range coordinates that address exactly that plaintext, and every row number maps to its own plaintext and offset. The plaintexts allocated hold every row without overflowing a plaintext.",
     "All row counts, row sizes, polynomial degrees, plaintext widths, and 1 to 4 dimensions.",
     "The tests exercise a few database shapes; wrong rounding or an overflowing product only shows at particular sizes.",
     [A + "sealpir/seal_pir.cc"],
     [("GetDimensions", A + "sealpir/seal_pir.cc"), ("ComputeIndices", A + "sealpir/seal_pir.cc"), ("PlaintextsPerDb", A + "sealpir/seal_pir.cc"), ("GetPtIndex", A + "sealpir/seal_pir.cc")],
     "All obligations discharged for 1..4 dimensions; the d-th root of libm enters through an assumed contract that is checked natively on samples.", over=["inputs", "configurations"])
prop("C06", "Spiral plaintext encoding loses no byte of a database row",
     "Packing bytes into coefficients of a given bit width and unpacking them (whole, or a sub-range) returns exactly the same bytes, for every length and width, and no coefficient exceeds its width.",
     "All byte strings, all coefficient widths from 1 to 16, all byte ranges.",
     "The tests that reach this code need SEAL and yacl and sample one width with random strings.",
     [A + "spiral/util.cc"],
     [("ConvertBytesToCoeffs", A + "spiral/util.cc"), ("ConvertCoeffsToBytes", A + "spiral/util.cc")],
     "Proved per width for every length below 2^23 bytes; quick covers widths 6 and 8, thorough 1..16.")
prop("C07", "Spiral modular arithmetic computes the mathematical result",
     "Barrett constants and reductions, modular multiplication, recentering, modulus switching and Chinese-remainder composition return exactly the mathematical value for every operand in range, for the moduli the scheme ships with.",
     "All 64-bit and 128-bit operands, the shipped moduli.",
     "An off-by-one quotient estimate shows only for a vanishing share of operands; tests sample a few.",
     [A + "spiral/arith/arith.h", A + "spiral/params.cc"],
     [("BarrettRawU64", A + "spiral/arith/arith.h"), ("BarrettRawU128", A + "spiral/arith/arith.h"), ("Rescale", A + "spiral/arith/arith.h"), ("CrtCompose", A + "spiral/params.cc")],
     "All obligations discharged for every operand, moduli fixed to the shipped values.")
prop("C01", "ECDH intersection indices are exactly the matching items",
     "Once both parties' encrypted items are stored bin by bin, the computed index list names each of this party's items exactly once if the peer stored an equal encrypted item in the same bin, and no other item; the in-memory list is increasing. The variant that writes to an index file records the same indices, each with the peer's duplicate count, and commits every one.",
     "All bin contents, any number of bins and items (empty bins and repeated data included), any duplicate counts.",
     "The result depends on every bin of both stores at once; tests compare a few random sets whose bins are all populated.",
     ["psi/utils/ec_point_store.cc", "psi/utils/hash_bucket_cache.h"],
     [("FinalizeAndComputeIndices (list)", "psi/utils/ec_point_store.cc"), ("FinalizeAndComputeIndices (IndexWriter)", "psi/utils/ec_point_store.cc")],
     "Proved for any number of bins and items through a ghost occurrence count of an arbitrary index; std::sort, the hash set and the bin files enter through contracts.")
prop("C08", "GF(2^128) arithmetic is the field's on every implementation path",
     "Multiplication of 128-bit field elements returns the product in GF(2)[x]/(x^128+x^7+x^2+x+1) on both the portable and the carry-less-multiply path. Raising to a 64-bit power multiplies the element that many times, and inversion returns the element whose product with the input is one.",
     "All pairs of 128-bit operands, all exponents, both instruction paths.",
     "Only the path of the machine that runs the tests is exercised, on a few operands; two parties on different machines must agree on every product.",
     [A + "rr22/okvs/galois128.cc", A + "rr22/okvs/galois128.h"],
     [("cc_gf128Mul", A + "rr22/okvs/galois128.cc"), ("mm_gf128Reduce", A + "rr22/okvs/galois128.cc"), ("Galois128::Pow", A + "rr22/okvs/galois128.cc"), ("Galois128::Inv", A + "rr22/okvs/galois128.cc")],
     "Products are compared as polynomials over GF(2) in the operand bits; Pow and Inv are proved over the multiplication's contract, with the order of the multiplicative group assumed.")
prop("C09", "RR22 row hashing gives distinct positions, one row or 32 at a time",
     "PaxosHash maps a hash value to a row of exactly `weight` pairwise distinct positions, each below the sparse size; for weights other than three the positions are strictly increasing. Building 32 rows at once gives exactly the 32 rows built one at a time, with and without AVX2. Hashing a batch of blocks of any length with AesCrHash gives for each block the hash of that block alone.",
     "All hash values, weights, sparse sizes that fit the index type, index types from 8 to 128 bits, batch lengths, both code paths.",
     "The two parties may run different code paths and must derive the same rows; the tests need yacl and sample a few weights and sizes.",
     [A + "rr22/okvs/paxos_hash.cc", A + "rr22/okvs/paxos_hash.h", A + "rr22/okvs/aes_crhash.cc"],
     [("PaxosHash::BuildRow", A + "rr22/okvs/paxos_hash.cc"), ("PaxosHash::BuildRow32", A + "rr22/okvs/paxos_hash.cc"), ("DoMod32", A + "rr22/okvs/paxos_hash.h"), ("AesCrHash::Hash", A + "rr22/okvs/aes_crhash.cc")],
     "All weights and sizes below 2^62, any batch length; the batch path for 64- and 128-bit indexes in the thorough tier only; AES and libdivide enter through assumed contracts.", over=["inputs", "configurations"])
prop("C12", "PIR row partitioning keeps every byte and can be undone",
     "Splitting a database into column partitions puts byte p*len+q of every row at byte q of the same row of partition p, zero-pads the last partition and makes exactly as many partitions as the row length needs. Combining the partitions of a row rejects partitions of different lengths and otherwise returns the original row.",
     "All row counts, row lengths, partition lengths and contents.",
     "Tests partition one or two shapes; the rounding at the last partition only shows at particular lengths.",
     [A + "pir_interface/pir_db.cc", A + "pir_interface/pir_db.h"],
     [("RawDatabase::Partition", A + "pir_interface/pir_db.cc"), ("RawDatabase::Combine", A + "pir_interface/pir_db.cc")],
     "All obligations discharged for any shape (sizes below 2^30).")
P.sort(key=lambda p: p["id"])

prop("C02", "The cuckoo index places every input exactly once",
     "After any sequence of insertions that raises no exception, every inserted input is in exactly one bin or stash slot, nothing else is, and the hash function recorded in a filled bin is one in use that maps its input to that bin. The least colliding hash function reported for a filled bin is the smallest that maps its input there.",
     "All hash codes, bin counts, stash sizes, 1 to 5 hash functions, any eviction limit, any number of insertions.",
     "Eviction chains depend on every code at once; tests insert random codes into lightly loaded tables, where long chains, the stash and colliding hash functions hardly occur.",
     ["psi/utils/cuckoo_index.cc", "psi/utils/cuckoo_index.h"],
     [("CuckooIndex::Insert", "psi/utils/cuckoo_index.cc"), ("CuckooIndex::PutToStash", "psi/utils/cuckoo_index.cc"), ("CuckooIndex::MinCollidingHashIdx", "psi/utils/cuckoo_index.cc")],
     "Proved for any state the class invariant allows, through a ghost count of an arbitrary input; the number of bins is an arbitrary positive number.")

prop("C16", "The n-party schedule pairs parties consistently and ends at the receiver",
     "All parties derive the same list from the announced item counts: every rank once with its count, the receiver first, the others ascending by count. In every round the remaining parties are paired mutually, first with last, at most the middle one staying alone; both parties of a pair name the same receiver of the pair, which stays in the list while the other leaves, and each round starts from the outcome of the round before. The final receiver is never eliminated; it alone gets a result, sorted, unless a partial result is empty. Unless a party has no items, every party takes part in exactly one final message.",
     "All party counts, item counts, receiver ranks and outcomes of the pairings, both 2-party protocols.",
     "Every party computes its own copy of the schedule from messages; one disagreement deadlocks the run or sends a result to the wrong party, at particular party counts only. Tests run few parties.",
     ["psi/legacy/nparty_psi.cc", "psi/legacy/nparty_psi.h"],
     [("NpartyPsiOperator::OnRun", "psi/legacy/nparty_psi.cc"), ("NpartyPsiOperator::GetPsiRank", "psi/legacy/nparty_psi.cc"), ("NpartyPsiOperator::GetAllPartyItemSizeVec", "psi/legacy/nparty_psi.cc"), ("NpartyPsiOperator::Run2PartyPsi", "psi/legacy/nparty_psi.cc")],
     "Up to 2^32 parties with an arbitrary party watched; the 2-party protocols, AllGather, SubWorld and Broadcast enter through assumed contracts.", over=["inputs", "configurations"])

prop("C18", "Batch providers deliver every item exactly once with its own data",
     "Reading to the end, the in-memory provider and the shuffling provider deliver every input item exactly once, the in-memory one (plain, labeled, ReadNext) in input order; no batch exceeds the batch size (ReadNext: the requested size), and a smaller one is the last before the end, after which batches are empty. Labels, shuffled index (position in the input) and duplicate count (zero if the source gives none) delivered with an item are that item's own, also when a batch spans several source batches; batch indices count deliveries from zero. ReadAll returns all items in input order.",
     "All item counts, batch sizes, source batch sizes and duplicate counts.",
     "ub-psi and the labeled protocols map results back to rows by these indices; an offset error shows only when batch sizes and source batch sizes interact. Tests use one source batch.",
     ["psi/utils/batch_provider_impl.cc", "psi/utils/batch_provider_impl.h"],
     [("SimpleShuffledBatchProvider::ReadNextShuffledBatch", "psi/utils/batch_provider_impl.cc"), ("SimpleShuffledBatchProvider::ReadAndShuffle", "psi/utils/batch_provider_impl.cc"), ("MemoryBatchProvider::ReadNextShuffledBatch", "psi/utils/batch_provider_impl.cc"), ("MemoryBatchProvider::ReadNextLabeledBatch", "psi/utils/batch_provider_impl.cc"), ("MemoryBatchProvider::ReadNextImpl", "psi/utils/batch_provider_impl.cc")],
     "Every method from an arbitrary state of the class invariant. Shuffling fewer than 2^31 items (std::iota counts in int); std::shuffle, the wrapped provider and std::async enter through assumed contracts.", over=["inputs", "configurations"])

# broad guarantees no contract within reach can decide
prop("C40", "An end-to-end PSI run returns exactly the intersection and nothing else leaks",
     "For any two item sets and any offered protocol the designated receivers learn exactly the intersection, and a party's view can be simulated from its input and output.",
     "All inputs, both parties, every protocol.", "Secrecy is a statement about distributions of views, and correctness of a run spans both parties and the cryptographic libraries.",
     ["psi/algorithm/psi_operator.cc", "psi/interface.cc"], [("PsiOperator::OnRun", "psi/algorithm/psi_operator.cc")], "")
NA["C40"] = "secrecy is a property of distributions over runs of two programs, not a contract of a function; end-to-end correctness rests on yacl elliptic-curve, OT and link code, which is not in this sandbox. The deterministic parts a run is made of are C01, C02, C04, C09, C16."
prop("C41", "An interrupted ub-psi or PSI run resumes to the result of an uninterrupted one",
     "After a crash at any point, running again with recovery enabled yields the result of an uninterrupted run.",
     "All crash points.", "Needs every crash point of a run over files and two parties.",
     ["psi/checkpoint/recovery.cc", "psi/utils/multiplex_disk_cache.cc"], [("RecoveryManager", "psi/checkpoint/recovery.cc")], "")
NA["C41"] = "the state lives in protobuf files and CSV caches written through arrow and yacl I/O, none of which is installed; a contract over an assumed file system would only restate the assumption."
prop("C42", "RR22 encode and decode solve the system for every set of keys",
     "Decoding a key against the OKVS encoding of any set of distinct keys returns the value the key was encoded with.",
     "All key sets, values and seeds.", "The solver's triangulation and dense part depend on the whole key set.",
     ["psi/algorithm/rr22/okvs/paxos.cc", "psi/algorithm/rr22/okvs/baxos.cc"], [("Paxos::Encode", "psi/algorithm/rr22/okvs/paxos.cc")], "")
NA["C42"] = "triangulation, back substitution and the dense Gauss elimination together need an inductive argument over linear algebra on unbounded matrices which the verifier's first-order templates do not reach; the row hash, the batch hash and the field arithmetic it is built from are C08 and C09."
