"""The checks: which harnesses decide which property, within which bounds."""
GROUPS = {
    "direct": {"ir": "harness/direct", "native": "harness/direct_native", "crate": "direct"},
    "utils": {"ir": "harness/utils", "native": "harness/utils_native", "crate": "utils"},
    "crypto": {"ir": "harness/crypto", "native": "harness/crypto_native", "crate": "crypto"},
    "gadgets": {"ir": "harness/gadgets", "native": "harness/gadgets_native", "crate": "gadgets"},
    "snark": {"ir": "harness/snark", "native": "harness/snark_native", "crate": "snark"},
    "sys": {"ir": "harness/sys", "native": "harness/sys_native", "crate": "sys"},
}
BLAKE = "the BLAKE2s compression is an uninterpreted function of (parameter block, last-node flag, key, message); the parameter block is built by a stand-in for blake2s_simd with the same range checks. Counterexamples and sampled paths are run against the real blake2s_simd and an RFC 7693 implementation"
IRSEM = "LLVM IR of rustc (opt-level 1, overflow checks on, panic=abort) has the semantics implemented by /verif/engine; allocation never fails"
PROPS = {}
PROPS["C01"] = dict(
    group="direct",
    quick=["c01_len_a", "c01_len_b", "c01_len_c", "c01_len_d", "c01_len_e", "c01_len_f", "c01_len_g", "c01_len_h", "c01_len_i", "c01_len_j", "c01_len_k", "c01_len_top", "c01_shape", "c01_inputs", "c01_inputs_long", "c01_twice", "c01_thrice"],
    thorough=["c01_deep_a", "c01_deep_b", "c01_deep_c", "c01_deep_d", "c01_deep_e", "c01_deep_f"],
    reach=["xof ok"],
    bounds="any 8-byte domain and any 32-byte input with every output length 0..4167 (thorough: 0..9667) and 15 lengths from 4096 to 65535; every domain length 0..8 with any content, inputs of 0,1,31,33,64,65,128,130 arbitrary bytes, output lengths 0,1,32,33,64,95,96,97; domains of 0,3,8 bytes with every input length 0..140 and output lengths 1,48,96,300; every input length up to 300 and 17 up to 65537 with output lengths 48, 96; sequences of two calls (domains of 0, 8, inputs of 0, 32, 48 bytes, 4 output lengths) and of three calls",
    outside="output lengths not listed; output lengths above 65535 (the parameter block has 16 bits for them)",
    assumptions=[BLAKE, IRSEM])
PROPS["C02"] = dict(
    group="direct",
    quick=["c02_crh", "c02_crh_long", "c02_hash", "c02_hash_lengths", "c02_hash_messages", "c02_compose", "c02_twice", "c02_thrice"],
    reach=["crh ok", "hash ok", "value", "error"],
    bounds="CRH: every domain length 0..8, messages of every length 0..140 and of 20 lengths up to 65537, arbitrary content, all 65536 output lengths at once; hash: every domain length, messages of 0,1,32,63,64,65,130 bytes, 19 output lengths 0..1024; 8-byte domains, 2-byte messages, every output length 0..519 and 25 up to 65535; domains of 0,5,8 bytes, every message length 0..140 and 20 up to 65537, output lengths 1,32,64,96; composition of an arbitrary (possibly failing) CRH and XOF: domains of 0..11 bytes, messages of 0..140 bytes, all 2^64 output lengths at once; sequences of two and three calls of CRH, XOF and hash with arbitrary (equal or different) arguments",
    outside="other message lengths",
    assumptions=[BLAKE, IRSEM])
PROPS["C03"] = dict(
    group="direct",
    quick=["c03_domains", "c03_long_domains", "c03_lengths", "c03_top_lengths", "c03_twice", "c03_messages"],
    reach=["value", "error"],
    bounds="CRH, XOF and hash: domain lengths 0..47 x message lengths 0,1,32,65 x output lengths 0,1,31,32,33,64,96; domain lengths up to 65540 (14 values); every output length 0..329; 7 output lengths up to 65535; message lengths 0..299 and 20 up to 65537; sequences of two calls; all contents arbitrary",
    outside="other lengths",
    assumptions=[BLAKE, IRSEM])
PROPS["C04"] = dict(
    group="utils",
    quick=["c04_to_bytes_a", "c04_to_bytes_b", "c04_to_bytes_sizes", "c04_to_bytes_large", "c04_to_bits_a", "c04_to_bits_b", "c04_to_bits_sizes", "c04_to_bits_large", "c04_twice", "c04_deep_bytes_a", "c04_deep_bytes_b", "c04_deep_bytes_c", "c04_deep_bits_a", "c04_deep_bits_b"],
    reach=["be", "le", "bits", "back"],
    bounds="arbitrary bit strings of every length 0..901 and 25 lengths up to 8192; arbitrary byte strings of every length 0..40 with every number of requested bits 0..8n+9, and 11 lengths up to 1024 bytes with up to 18 numbers of requested bits up to usize::MAX; two conversions in a row of up to 21 bits",
    outside="other lengths",
    assumptions=[IRSEM])
GRP = "the curve library is a model: a group element of order r is its discrete logarithm (an arbitrary element of Fr) with coordinates that are uninterpreted functions of it and an arbitrary projective representative; the pairing is multiplication of discrete logarithms; square roots, curve membership and cofactor clearing are uninterpreted functions with the algebraic facts they satisfy; field elements are exact elements of the BLS12-377 fields"
HASH = "the hash to the group is an arbitrary function of (domain, message, extra data) that may fail"
HASHER = "the hash function's three parts are arbitrary functions of (domain, input, length) that may fail; the CRH has 48 bytes"
RNG = "the random generator returns arbitrary bytes"
PROPS["C05"] = dict(
    group="crypto",
    quick=["c05_all", "c05_elements"], reach=["element"],
    bounds="every element size below 2^50 bytes, and the sizes of the two groups' elements",
    outside="larger sizes (from 2^50 bytes on the double-precision arithmetic rounds)", assumptions=[GRP, IRSEM])
PROPS["C06"] = dict(
    group="crypto",
    quick=["c06_g2_cip", "c06_g2_first", "c06_g1_first", "c06_g1_middle", "c06_g1_last", "c06_cip_first", "c06_cip_middle", "c06_cip_last"],
    thorough=["c06_g1_deep", "c06_cip_deep"], cost={"c06_g2_cip": 60},
    reach=["hashed", "hash error", "no point"],
    bounds="both variants, both groups; arbitrary 8-byte domains, messages of 3 and 0 bytes, extra data of 2 and 0 bytes; arbitrary hash outputs and failures for the counters of a window (0-1, 127-128, 253-255 for the signature group; 0-1 for the key group; thorough: 0-3), all other counters having candidates that are no field element",
    outside="three or more interesting counters (thorough: five); the build without the legacy-compatible feature", assumptions=[GRP, HASHER, IRSEM])
PROPS["C07"] = dict(
    group="crypto",
    quick=["c07_legacy", "c07_cip", "c07_legacy_g2", "c07_cip_g2"], reach=["strings"],
    bounds="all 255 counters, both variants and groups; domains of 3 and 8 bytes, messages and extra data of 0, 1, 33, 97 bytes, arbitrary content",
    outside="other lengths", assumptions=[GRP, HASHER, IRSEM])
PROPS["C08"] = dict(
    group="crypto",
    quick=["c08_sign", "c08_sign_pop", "c08_verify", "c08_verify_pop", "c08_cross"],
    reach=["signed", "sign error", "accepted", "rejected"],
    bounds="all secret keys, public keys and signatures (also zero); messages of 0, 1, 33, 97 and extra data of 0, 1, 7, 40 arbitrary bytes; two texts of different lengths in the cross check",
    outside="other lengths", assumptions=[GRP, HASH, IRSEM])
PROPS["C09"] = dict(
    group="crypto",
    quick=["c09_sums", "c09_verify"], reach=["summed", "altered"],
    bounds="up to 8 arbitrary keys and signatures in the sums; up to 5 signers with one contribution changed, dropped or repeated",
    outside="longer lists", assumptions=[GRP, HASH, IRSEM])
PROPS["C10"] = dict(
    group="crypto",
    quick=["c10_batch", "c10_hashes"], reach=["batch", "uneven"],
    bounds="up to 3 keys against up to 3 texts (messages of 0, 1, 33, extra data of 0, 2 bytes, domains of 0, 8 bytes); up to 5 keys against up to 5 arbitrary hashes",
    outside="longer lists", assumptions=[GRP, HASH, IRSEM])
PROPS["C11"] = dict(
    group="crypto",
    quick=["c11_strict", "c11_sizes", "c11_again", "c11_each", "c11_combine"], thorough=["c11_large"],
    reach=["accepted", "rejected", "each", "combined", "uneven"],
    bounds="batches of 1..4, 5, 7, 8, 9, 16, 17, 32, 33 arbitrary entries (thorough: up to 257); arbitrary exponents",
    outside="other batch sizes; the quality of the random generator", assumptions=[GRP, HASH, RNG, IRSEM])
PROPS["C12"] = dict(
    group="crypto",
    quick=["c12_two", "c12_ones", "c12_pool", "c12_pool_3"], thorough=["c12_pairs", "c12_three", "c12_pool_4"], reach=["aggregated"], cost={"c12_two": 9, "c12_pool_3": 60},
    bounds="three requests for subsets of three distinct arbitrary keys (thorough: two for subsets of four); two requests of up to 2 arbitrary keys with a clear in between or not; four requests of up to 1 key (thorough: two of up to 3, three of up to 2); the keys of one request are distinct, keys of different requests may be equal",
    outside="longer histories; a request that names a key twice (the cache works on sets; the property is stated for distinct keys)", assumptions=[GRP, "hash sets are sets with an arbitrary order", IRSEM])
PROPS["C13"] = dict(
    group="crypto",
    quick=["c13_history", "c13_small", "c13_lengths"], thorough=["c13_deep", "c13_small_deep"], reach=["key", "malformed"],
    bounds="histories of 3 operations (thorough: 4) over arbitrary strings of 96 and 5 bytes, repeated strings and clears, at the default capacity and at capacity 1; two strings of 0, 1, 95, 96, 97, 192 bytes",
    outside="longer histories, other lengths", assumptions=[GRP, "the lru crate is a model with the same contract", IRSEM])
PROPS["C14"] = dict(
    group="crypto",
    quick=["c14_bytes", "c14_keys", "c14_points"], reach=["round trip", "accepted", "rejected"], cost={"c14_bytes": 40},
    bounds="all secret keys, public keys and signatures; arbitrary byte strings of 0, 1, 31..33, 47..49, 95..97, 191..193 bytes",
    outside="other lengths; the arkworks encoding of points itself, which is modelled", assumptions=[GRP, IRSEM])
R1CS = "the constraint system is a model: variables carry field values, enforce_constraint records a*b=c over the prime field, and the r1cs-std gadgets (booleans, field elements, bit decompositions, comparisons, curve points, pairing, hashes) are stand-ins with the documented meaning of the real ones, conditions included (mul_by_inverse, comparisons below half the field); 'every satisfying assignment' runs give each witness an arbitrary hidden value. Group elements are discrete logarithms with coordinates as functions of them; allocated points are normalised and in the prime-order subgroup"
PROPS["C17"] = dict(
    group="gadgets",
    quick=["c17_prover", "c17_any", "c17_kinds_prover", "c17_kinds_any", "c17_any_20", "c17_prover_100", "c17_prover_255", "c17_prover_256", "c17_prover_257"],
    thorough=["c17_kinds_prover_4", "c17_kinds_any_4", "c17_any_24", "c17_any_32", "c17_prover_300", "c17_prover_520"], reach=["prover", "any witness"],
    cost={"c17_any": 12, "c17_any_32": 18, "c17_prover_520": 17},
    bounds="every bitmap of 1..3 (thorough: 4) bits that are variables, negated variables or constants, at least one no constant; every bitmap of 1..12, 16, 17 variable bits (and 20; thorough: 24, 32) with every bound, for the prover's values and for every satisfying assignment; bitmaps of 100, 255, 256, 257 bits (thorough: 300, 520) with six free bits among three runs of equal bits, prover's values; counting zeros, as the caller does",
    outside="counting ones (no caller does); longer bitmaps; bounds above half the field; the empty bitmap",
    assumptions=[R1CS, IRSEM])
PROPS["C18"] = dict(
    group="gadgets",
    quick=["c18_zero_prover", "c18_zero_any", "c18_normalize_prover", "c18_normalize_any", "c18_g1_prover", "c18_g1_any", "c18_g2_prover", "c18_g2_any"],
    reach=["prover", "any witness"],
    bounds="every field element (constants and variables), every y coordinate in the field and its quadratic extension, for the prover's values and for every satisfying assignment",
    outside="-", assumptions=[R1CS, "y=(p-1)/2 is not the y coordinate of a G1 point (-3/4 is not a cube)", IRSEM])
PROPS["C19"] = dict(
    group="gadgets",
    quick=["c19_bitmap_prover_1", "c19_bitmap_prover_2", "c19_bitmap_prover_3", "c19_bitmap_prover_5", "c19_bitmap_any_1", "c19_bitmap_any_2", "c19_bitmap_any_3", "c19_bitmap_any_5", "c19_keys_prover", "c19_keys_any", "c19_verify_prover", "c19_verify_any", "c19_batch_prover", "c19_batch_any"],
    reach=["prover", "any witness"],
    bounds="1, 2, 3, 5 keys (4 for plain aggregation, 3 for verify), constant or variable padding key, every key, bitmap, hash, signature and bound; batches of 0..4 messages with prepared or plain points; prover's values and every satisfying assignment",
    outside="more keys; lists of unequal length (the longer one is cut silently)",
    assumptions=[GRP, R1CS, IRSEM])
PROPS["C23"] = dict(
    group="gadgets",
    quick=["c23_prover_0", "c23_prover_1", "c23_any_witness", "c23_bits_prover", "c23_bits_any"],
    thorough=["c23_prover_2"], reach=["prover", "any witness"],
    cost={"c23_prover_0": 90, "c23_prover_1": 72, "c23_any_witness": 72, "c23_prover_2": 260},
    bounds="messages and extra data of (0,0), (1,0), (3,2), (40,7) bytes with every content, native counter 0; (3,2) bytes with counter 1 (thorough: 2), with and without constraints for the hash; every satisfying assignment (every counter byte) for the non-empty messages; the XOF alone on 1, 2, 8, 33, 64, 65 bytes, 1 to 3 blocks, every personalization. Compat sign bit (the crate's default features)",
    outside="other lengths; a candidate with x = 0 whose unused bits carry the infinity flag, which the native code skips",
    assumptions=[R1CS, BLAKE, GRP, "the Pedersen (Bowe-Hopwood) hash is one uninterpreted function of seed, window parameters and message in both native code and circuit; the larger root y is above (p+1)/2 (that value has no x)", IRSEM])
PROPS["C30"] = dict(
    group="crypto",
    quick=["c30_composite"], reach=["composite"],
    bounds="messages of 0, 1, 32, 65, 130 bytes, domains of 0..8 bytes, 6 output lengths, arbitrary content",
    outside="other lengths; the Pedersen hash itself", assumptions=["the Bowe-Hopwood Pedersen hash is an arbitrary function of (seed, window parameters, message)", BLAKE, GRP, IRSEM])
EPOCH = "the entropies have 16 bytes when present (as the type documents); points are affine coordinates with the curve law that two points with one x are equal or opposite"
PROPS["C15"] = dict(
    group="snark",
    quick=["c15_layout_0_0", "c15_layout_0_2", "c15_layout_1_1", "c15_layout_1_3", "c15_layout_2_1", "c15_injective_inner", "c15_injective_first", "c15_injective_last", "c15_injective_old"],
    thorough=["c15_layout_2_3", "c15_layout_3_3"], reach=["encoded", "compared"],
    cost={"c15_layout_1_3": 50, "c15_injective_last": 80, "c15_layout_2_1": 35, "c15_layout_2_3": 100, "c15_layout_3_3": 110, "c15_injective_old": 40, "c15_injective_inner": 40, "c15_injective_first": 40},
    bounds="all four variants, every value of index, round, bound and entropies (each present or absent); 0..2 arbitrary keys with a maximum of 0..3 (thorough: 3 keys); injectivity over pairs of blocks with one arbitrary key each, four patterns of present entropies",
    outside="more keys; entropies of other lengths", assumptions=[GRP, EPOCH, IRSEM])
PROPS["C16"] = dict(
    group="snark",
    quick=["c16_layout", "c16_representative", "c16_injective", "c16_negation"], reach=["encoded", "compared"],
    bounds="every pair of field coordinates with y nonzero, every projective representative",
    outside="-", assumptions=[GRP, EPOCH, IRSEM])
CIRC = "entropies have 16 bytes when present, the allocated points are normalised, keys are non-zero and in the subgroup (the circuit leaves that to the deployment), the aggregate of the signers' keys and hashes is non-zero, the first candidate of every hash to the group is a point; the circuit's witnesses are the values its own code computes from arbitrary blocks, bitmaps and signature (that the gadgets bind every other witness is C17, C18, C19, C23)"
PROPS["C20"] = dict(
    group="snark", cap=700,
    quick=["c20_1_1_none", "c20_2_1", "c20_2_2_padded", "c20_3_1_padded"],
    thorough=["c20_1_1", "c20_2_2", "c20_3_1", "c20_3_1_any", "c20_2_3"], reach=["chain", "proper chain"],
    cost={"c20_3_1_padded": 196, "c20_2_2_padded": 176, "c20_2_1": 155, "c20_3_1_any": 1000, "c20_2_3": 600},
    bounds="a first block and 1 epoch of one key with every padding pattern (no entropies), 2 epochs of one key with every padding pattern, 2 epochs of two keys with the first one padding, 3 epochs of one key with the middle one padding (thorough: two real epochs of two and three keys, three epochs of one key with every padding pattern); every value of index, round, bound, entropies, keys, bitmaps and signature; both directions (satisfied circuits obey the rules, proper chains satisfy the circuit)",
    outside="more epochs or keys; fewer keys than the circuit has room for; blocks that give entropy only in part",
    assumptions=[R1CS, CIRC, GRP, BLAKE, IRSEM])
PROPS["C21"] = dict(
    group="snark", cap=700,
    quick=["c21_1_1", "c21_2_1", "c21_2_2"],
    thorough=["c21_1_1_none", "c21_2_2_padded", "c21_3_1", "c21_3_1_padded", "c21_3_1_any", "c21_2_3"], reach=["chain"],
    cost={"c21_2_2": 165, "c21_2_1": 130, "c21_3_1_any": 1000, "c21_2_3": 600},
    bounds="1 and 2 epochs of one key with every padding pattern, 2 epochs of two keys (thorough: of three keys, with padding, and 3 epochs of one key with every padding pattern); every value of all fields, keys, bitmaps and the signature",
    outside="more epochs or keys", assumptions=[R1CS, CIRC, GRP, BLAKE, IRSEM])
PROPS["C22"] = dict(
    group="snark", cap=700,
    quick=["c22_bits_0", "c22_bits_1", "c22_bits_1_none", "c22_bits_2", "c22_bits_3", "c22_1_1", "c22_1_1_none", "c22_2_1"],
    thorough=["c22_bits_5", "c22_2_2", "c22_2_2_padded", "c22_3_1_padded", "c22_3_1_any", "c22_2_3"], reach=["chain", "bits"],
    cost={"c22_2_1": 130, "c22_1_1": 40, "c22_3_1_any": 1000, "c22_2_3": 600},
    bounds="the bits of any block of 0 to 3 keys (thorough: 5), each entropy present or absent, against the native encodings; the public inputs of 1 and 2 epochs of one key with every padding pattern (thorough: 2 epochs of two and three keys, 3 of one) against the packed digests of the specified first and last encodings (which the native side meets by C15 and C25)",
    outside="more keys; blocks with fewer keys than the circuit has room for (the circuit's aggregate key covers the padding keys, the native one does not)",
    assumptions=[R1CS, CIRC, GRP, BLAKE, IRSEM])
PROPS["C24"] = dict(
    group="snark", cap=700,
    quick=["c24_none", "c24_many", "c24_keys", "c24_few_keys", "c24_first_keys", "c24_first_few_keys", "c24_bitmap", "c24_short_bitmap", "c24_1_1", "c24_1_2", "c24_1_3", "c24_2_2"],
    thorough=["c24_2_3", "c24_1_2_two", "c24_2_2_two", "c24_3_3", "c24_2_4"], reach=["proved", "refused"],
    cost={"c24_1_2": 94, "c24_1_3": 95, "c24_2_2": 68, "c24_1_1": 28, "c24_2_3": 280, "c24_3_3": 400, "c24_2_2_two": 300, "c24_2_4": 500, "c24_1_2_two": 200},
    bounds="1 transition in circuits for 1, 2, 3 and 2 transitions in one for 2, of one key (thorough: 2 in circuits for 3 and 4, 3 in one for 3, two keys); every value of all blocks, keys, bitmaps and signatures; no transitions, too many, and lists with one key or bitmap entry too many or too few; the setup's and the prover's circuits compared in shape",
    outside="more transitions or keys; the two-proof mode with the helper proof of the hashes; parameters made for another maximum than the one passed; the proof system itself",
    assumptions=["create_proof is replaced by running the circuit's own synthesis and recording whether its constraints hold and what the public inputs are; setup records the shape", R1CS, CIRC, GRP, BLAKE, IRSEM])
PROPS["C25"] = dict(
    group="snark",
    quick=["c25_none", "c25_padded", "c25_one", "c25_two_runs"], reach=["accepted", "rejected", "misfit", "twice"],
    bounds="first and last blocks of no keys (maximum 0 and 1) and of one key, every value of index, round, bound, entropies (both present or both absent) and key, every verifying key of 0..4 elements, every proof, every verdict of the proof system; two verifications in a row that differ in the key, the proof or the blocks",
    outside="blocks of more keys (the encodings themselves are property C15)",
    assumptions=["the proof system is an arbitrary predicate of verifying key, proof and public inputs", BLAKE, GRP, EPOCH, IRSEM])
SYS = "the arkworks, BLAKE2s and Pedersen models of the other properties under the real bls-crypto and epoch-snark; the C caller passes valid pointers and lengths"
FIRST = "the first candidate of every hash to the group is a point (later candidates are property C06)"
PROPS["C26"] = dict(
    group="sys",
    quick=["c26_sign", "c26_verify", "c26_cross", "c26_pop", "c26_hashes", "c26_sums", "c26_batch"],
    reach=["signed", "refused", "verified", "crossed", "pop", "hashed", "summed", "batch"], cost={"c26_hashes": 40, "c26_cross": 9},
    bounds="all flag combinations, all keys and signatures; texts of (1,2), (0,0), (33,0), (97,40) arbitrary bytes; hashes at attempt 0 (direct also 1), inner hashes of 0, 1, 64, 96 bytes; sums and differences of up to 3 distinct keys, 3 signatures; batches of up to 2 messages",
    outside="other lengths; sums naming one key twice (the cache works on sets); generate_private_key",
    assumptions=[SYS, FIRST, GRP, BLAKE, IRSEM])
PROPS["C27"] = dict(
    group="sys",
    quick=["c27_key", "c27_points", "c27_bytes", "c27_compress", "c27_buffers", "c26_hashes", "c29_encode"],
    reach=["private", "public", "signature", "accepted", "rejected", "compressed", "malformed", "buffers", "hashed", "encoded"],
    bounds="all objects; the hashing and epoch encoding entry points (bounds as for C26 and C29); arbitrary byte strings of 0, 1 and one less, equal and one more than the encoded length; coordinates of 0, 1, half and whole length and one off; message views of 0, 1, 2, 33, 40, 97 bytes",
    outside="other lengths; null or dangling pointers other than the documented null cases of the destructors",
    assumptions=[SYS, GRP, IRSEM, "memory is checked on the interpreted code: bounds, lifetime and size of every allocation"])
PROPS["C28"] = dict(
    group="sys",
    quick=["c28_one", "c28_two", "c28_valid"], reach=["all accepted", "some rejected", "uneven", "valid"],
    cost={"c28_two": 30},
    bounds="no batch, one batch of 0..2 keys and 0..2 signatures, two of 0..1 each, valid batches of 0..3; all flag combinations, exponents, keys and signatures",
    outside="more batches", assumptions=[SYS, FIRST, RNG, GRP, BLAKE, IRSEM])
PROPS["C29"] = dict(
    group="sys",
    quick=["c29_convert", "c29_verify_none", "c29_verify_all", "c29_verify_some", "c29_verify_lengths", "c29_encode", "c29_keys"],
    reach=["converted", "malformed", "accepted", "rejected", "encoded", "keys"],
    cost={"c29_verify_none": 50, "c29_verify_all": 50, "c29_verify_some": 50, "c29_verify_lengths": 50},
    bounds="descriptions of 0..3 keys as arbitrary bytes, entropies present or null, every number; proof verification with arbitrary bytes for keys (0, 1 per epoch), verifying key (3 inputs; also one byte more or less, cut short, empty) and proof (also one byte more or less, cut short, empty); encodings of 0..2 keys with up to one padding key",
    outside="more keys; null or dangling pointers for keys, verifying key and proof",
    assumptions=[SYS, GRP, EPOCH, BLAKE, IRSEM, "the proof system is an arbitrary predicate of verifying key, proof and public inputs"])
