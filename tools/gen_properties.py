#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files)-1)]} for i, m in enumerate(mech)], **kw}})
BC='crates/bls-crypto/src/'; BG='crates/bls-gadgets/src/'; ES='crates/epoch-snark/src/'; SY='crates/bls-snark-sys/src/'

p("C01","The direct hasher's XOF is exactly BLAKE2Xs, of the requested length",
  "For every domain of at most 8 bytes, every input and every output length up to 65535 bytes, the XOF of the direct (BLAKE2s-based) hasher returns exactly the requested number of bytes. Byte block i of the output is the BLAKE2s digest of the input under the BLAKE2Xs parameters: fanout 0, depth 0, leaf and inner length 32, node offset i with the total output length in its upper 16 bits (little endian), the domain as personalization, and digest length 32 except for a shorter last block holding the remainder.",
  ["inputs"],"all domains of 0..8 bytes, all inputs, all output lengths",
  "Tests sample four output lengths (2, 95, 96) and two domains; block-boundary lengths, lengths above 255 and other domains are never tried.",
  [BC+"hashers/direct.rs"],["the block loop of the XOF: number of blocks, last-block length","packing of the output length into the BLAKE2 node offset"])
p("C02","Hashing is XOF over CRH, with the CRH bound to the output length",
  "For every domain of at most 8 bytes, message and output length, the CRH of the direct hasher is the 32-byte BLAKE2s digest of the whole message personalised with the domain and with the requested output length stored in bits 32..47 of the node offset. The hash of a message is the XOF, under the same domain and length, of that CRH, and the hasher is deterministic.",
  ["inputs"],"all domains, messages and output lengths up to 65535",
  "Tests compare a handful of fixed vectors, with one domain and three lengths.",
  [BC+"hashers/direct.rs",BC+"hashers/mod.rs"],["CRH parameters","provided composition of CRH and XOF"])
p("C03","Hashing rejects over-long domains with an error and never panics",
  "For every domain length, message and output length up to 65535 the CRH, XOF and hash of the direct hasher return normally. They return a value when the domain has at most 8 bytes and an error naming the domain's length when it is longer; no input makes them panic.",
  ["inputs"],"all domain lengths (0..), inputs, output lengths including 0",
  "No test passes a domain longer than 8 bytes or a zero output length.",
  [BC+"hashers/direct.rs",BC+"hashers/mod.rs"],["domain length check before the BLAKE2 personalization is set"])
p("C04","Bit/byte conversions are exact and mutually inverse",
  "Converting big-endian bits to little-endian bytes yields ceil(n/8) bytes whose little-endian value is the big-endian value of the bits, with zero padding in the last byte; the little-endian-bit variant gives the bytes whose k-th bit is the k-th input bit. Converting bytes to bits yields exactly min(requested, 8*len) bits, the lowest ones, in descending (resp. ascending) order, so that each pair of conversions is a round trip on every input of every length.",
  ["inputs"],"all bit and byte strings of every length, all requested bit counts",
  "The tests only exercise the conversions indirectly, on a few fixed sizes.",
  [BG+"utils.rs"],["chunking by 8, bit weights, reversal, truncation to the requested number of bits"])
p("C05","XOF length for a group element is whole blocks that cover the element",
  "For every requested size in bits (element size, including its flag bit) the number of hash bytes used for try-and-increment is the smallest multiple of the 256-bit hash block that covers it. It is therefore never less than the bytes of a group element, so decoding the candidate never reads outside the hash output.",
  ["inputs"],"all element sizes in bits",
  "The tests check two sizes (the two curves).",
  [BC+"hash_to_curve/mod.rs"],["hash length rounding"])
p("C06","Hash-to-group returns the first valid candidate, deterministically, never zero",
  "For every domain, message, extra data and hash function, try-and-increment returns the cofactor-cleared point of the smallest one-byte counter whose candidate hash decodes to a curve point and whose cleared point is not zero, together with that counter; the y coordinate chosen follows the candidate's sign bit (after moving it out of the last element byte in the legacy-compatible variant). If no counter in 0..254 qualifies it returns an error; it never returns the zero point and never depends on anything but its inputs.",
  ["inputs","configurations"],"all domains, messages, extra data and all hash behaviours (any pattern of failing, zero and valid candidates)",
  "With a real hash the chance of many failures in a row or of a zero point is negligible, so tests never see later counters, exhaustion or zero points.",
  [BC+"hash_to_curve/mod.rs",BC+"hash_to_curve/try_and_increment.rs",BC+"hash_to_curve/try_and_increment_cip22.rs"],["counter loop, candidate layout counter||extra||message, sign-flag extraction, zero check after cofactor clearing"])
p("C07","The two try-and-increment variants hash exactly the specified strings",
  "The legacy variant hashes, for counter c, the domain with c followed by the extra data followed by the message, through the whole hash. The newer variant (CIP22) first compresses the message alone and then expands c followed by the extra data followed by the compressed message; both use the same domain and output length throughout, so two different (extra data, message) inputs of the same extra-data length never share an input to the hash.",
  ["inputs"],"all domains, messages, extra data and counters",
  "Tests compare the two variants with themselves or on fixed vectors; domain, order or length mix-ups that keep the fixed vectors are not visible.",
  [BC+"hash_to_curve/try_and_increment.rs",BC+"hash_to_curve/try_and_increment_cip22.rs"],["composition of the strings passed to CRH and XOF"])
p("C08","A signature verifies exactly under its own key, message, extra data and domain",
  "For every secret key, message and extra data, a signature made with the key verifies under the matching public key with the same message and extra data, and a proof of possession verifies as one. A signature or proof of possession that is not secret-key times the hash of exactly that message and extra data in that domain (message signatures and proofs of possession use different domains) is rejected, and every failure is an error, not a panic.",
  ["inputs"],"all secret keys, signatures, messages, extra data, and both domains",
  "Tests try a few random keys and messages and one wrong key or message.",
  [BC+"bls/secret.rs",BC+"bls/public.rs",BC+"lib.rs"],["signing and the pairing equation","domain constants and order of hash arguments"])
p("C09","Aggregating keys and signatures is the group sum",
  "For every list of public keys (signatures), their aggregate is the sum of the group elements, whatever the order, with the neutral element for an empty list. Hence an aggregate of signatures by any signers over the same message and extra data verifies under the aggregate of exactly their public keys, and fails if any one contribution is missing, doubled or altered by a non-zero element.",
  ["inputs"],"all lists of keys and signatures, up to the stated number",
  "Tests use two to ten random keys.",
  [BC+"bls/public.rs",BC+"bls/signature.rs"],["aggregation loops"])
p("C10","Batch verification checks the product equation over all pairs",
  "Verifying an aggregate signature against many (public key, message, extra data) entries accepts if and only if the signature equals the sum over every entry of secret key times hash of that entry's message with that entry's extra data in the signature domain; each entry counts and is paired with its own key. Lists of different lengths are refused with an error.",
  ["inputs"],"all lists of keys, messages, extra data and signatures, up to the stated number",
  "Tests use random valid batches and one bad entry.",
  [BC+"bls/signature.rs"],["construction of pairing inputs","length check"])
p("C11","Strict batch verification accepts only batches of individually valid entries",
  "When every entry of a strict batch verifies on its own the batch is accepted whatever the random exponents. If some entry does not verify on its own, then for every choice of the other exponents at most one value of that entry's exponent makes the batch accepted, each entry uses its own freshly drawn exponent for both key and signature, and the exponents are drawn from at least 2^128 values; all entries are checked, and no accepted batch ignores a key or signature.",
  ["inputs","histories"],"all batches (keys, signatures, same message and extra data) up to the stated size and all random exponents",
  "Tests run one random valid batch and one with an obvious bad entry; a cancelling pair of bad entries or a repeated exponent is invisible to them.",
  [BC+"bls/batch.rs"],["random linear combination, exponent size and source"])
p("C12","The incremental aggregation cache never changes the aggregate",
  "Whatever the sequence of earlier aggregation requests (and clears) in the process, the cached aggregation of a list of distinct public keys returns exactly the sum of the keys in the current list.",
  ["histories","inputs"],"all histories of requests over distinct keys, up to the stated number of requests and keys",
  "Tests run one or two fixed transitions; the result depends on process-wide state left by every earlier request.",
  [BC+"bls/cache.rs"],["difference between the cached key set and the requested one"])
p("C13","The public-key deserialization cache is transparent",
  "Whatever the history of earlier deserializations, resizes and clears, the cached deserialization of a byte string returns exactly what uncached deserialization returns, including failure on malformed bytes, and never returns the key of another string.",
  ["histories","inputs"],"all histories up to the stated number of operations over arbitrary byte strings",
  "Tests deserialize a few valid keys twice; eviction and failing inputs are not covered.",
  [BC+"bls/cache.rs"],["cache lookup and insertion","global mutable cache"])
p("C14","Keys and signatures survive serialization unchanged",
  "Serializing and then deserializing any secret key, public key or signature, in every supported encoding, gives back an equal value, and the writer receives exactly the declared number of bytes. Malformed input gives an error and never a panic.",
  ["inputs"],"all keys, signatures and byte strings",
  "Tests round-trip one random value each.",
  [BC+"bls/secret.rs",BC+"bls/public.rs",BC+"bls/signature.rs"],["serialization impls delegating to the group element"])
p("C15","Epoch blocks encode to the specified, injective byte layout",
  "An epoch block encodes to bits as index (16 bits), round (8 bits), entropies (128 bits each; all zero when absent), maximum non-signers (32 bits) and public keys, each field in its documented place for the first, last and inner variants, integers and entropies least-significant bit first, padded with the fixed generator key to the maximum number of validators. Two blocks of the same variant and validator count whose encoded fields differ never have the same encoding, except that an absent entropy reads as zero.",
  ["inputs"],"all epoch blocks up to the stated number of validators",
  "Tests compare a single fixed block (and lengths); field order or width errors on other values are not visible.",
  [ES+"epoch_block.rs",ES+"encoding.rs"],["order and widths of encoded fields","padding to the maximum number of validators"])
p("C16","Public key encoding carries x and the lexicographic sign of y",
  "A public key encodes to 755 bits: both components of x, most significant bit first, 377 bits each, then one bit that is 1 exactly when y is lexicographically the larger of y and -y (comparing the second component first, and the first only when the second is zero). Hence a key and its negation encode differently, and different keys never encode alike.",
  ["inputs"],"all non-zero public keys, including those whose y has a zero component",
  "Random keys never have a zero y component, so the tie-break is never reached.",
  [ES+"encoding.rs"],["sign bit comparison with (p-1)/2","bit order of the coordinates"])
p("C17","The circuit bounds the number of absent signers",
  "For every signer bitmap and every bound, the circuit's bitmap constraint is satisfiable exactly when the number of absent signers (bits equal to the checked value) does not exceed the bound, for every bitmap length including lengths above 255.",
  ["inputs"],"all bitmaps up to the stated length, all bounds",
  "Tests use bitmaps of at most a dozen bits.",
  [BG+"bitmap.rs"],["sum of bits and comparison constraint","native occurrence count"])
p("C18","The circuit's sign-of-y bit agrees with the native encoding",
  "For every non-degenerate point, the bit the circuit computes from y equals the bit the native encoding computes, for both groups, and no other witness assignment satisfies the constraints; the zero test in the circuit is 1 exactly on zero.",
  ["inputs"],"all field elements, including zero and the middle of the field, and all witness assignments",
  "Random y values never hit zero or the middle of the field, and tests never try a dishonest witness.",
  [BG+"y_to_bit.rs"],["normalisation against half of the field","lexicographic selection","zero test"])
p("C19","The circuit verifies exactly the keys the bitmap selects",
  "In the circuit the aggregated public key is the sum of exactly the public keys whose bitmap bit says the validator signed, for every bitmap within the allowed number of absent signers, and no public key of the set may be the padding (generator) key among signers. Constraints that let another aggregate, an extra signer or an unbounded number of absent signers through are never satisfiable.",
  ["inputs"],"all bitmaps, keys and witness assignments up to the stated number of validators",
  "Tests run honest provers with a few bitmaps.",
  [BG+"bls.rs"],["bitmap-conditioned sum","maximum non-signers constraint","padding key exclusion"])
p("C20","Every non-padding epoch in the circuit extends the previous one",
  "The circuit's constraints hold only if each epoch that is not padding has the previous non-padding epoch's index plus one, its parent entropy equals the previous epoch's entropy (when entropy is in use), and it is signed by the previous non-padding epoch's validators under that epoch's bound on absent signers. Padding epochs (index 0) change nothing: neither the carried validators, index, entropy and bound nor the aggregate signature equation.",
  ["inputs","histories"],"all sequences of epochs (honest or not, with padding at any place) up to the stated number",
  "Tests prove a few honest chains; dishonest witnesses for every position and padding pattern are out of reach.",
  [ES+"gadgets/single_update.rs",ES+"gadgets/epochs.rs",ES+"gadgets/epoch_data.rs"],["conditional selection on the padding flag","index and entropy constraints"])
p("C21","The circuit's one pairing equation covers every epoch once",
  "The circuit is satisfiable only if the supplied aggregate signature is the sum over all non-padding epochs of the aggregate secret key of that epoch's signers times that epoch's message hash. Every non-padding epoch's key is paired with its own epoch's hash, padding contributes nothing, and no epoch is left out.",
  ["inputs"],"all keys, hashes, signatures, bitmaps and padding patterns up to the stated number of epochs",
  "Tests verify honest aggregates and one wrong signature.",
  [ES+"gadgets/epochs.rs",BG+"bls.rs"],["pairing inputs and preparation","batch verification gadget"])
p("C22","Circuit and native code agree on every encoded epoch and public input",
  "For every epoch block with as many keys as the circuit has room for (the prover refuses others) the bits the circuit derives for the epoch (first, inner and last variants, aggregate key included) are those the native encoding produces, and the packed public inputs the circuit exposes for the first and last epochs equal those the verifier recomputes natively from the blocks.",
  ["inputs"],"all epoch blocks up to the stated number of validators",
  "Tests compare one fixed block.",
  [ES+"gadgets/epoch_data.rs",ES+"gadgets/epoch_bits.rs",ES+"gadgets/pack.rs",ES+"encoding.rs",ES+"epoch_block.rs"],["bit order in both implementations","multipacking capacity"])
p("C23","The circuit's hash-to-group agrees with the native one",
  "For every message and counter that the native hash-to-group accepts, the circuit's gadget is satisfiable with that counter and yields the same group element, and for any counter it only yields the group element obtained from the candidate x coordinate and sign of the XOF output for exactly that counter, extra data and message.",
  ["inputs"],"all messages, extra data and counters up to the stated sizes, and all witness assignments",
  "Tests compare the two on a few random messages.",
  [BG+"hash_to_group.rs",ES+"gadgets/epoch_data.rs"],["layout of XOF input and output bits","sign bit position","cofactor clearing"])
p("C24","The prover builds the statement of exactly the given transitions",
  "For every number of transitions up to the maximum, the prover's circuit contains every transition in order followed by padding up to the maximum, carries the first and last epochs unchanged, aggregates exactly the given signatures, and has the same shape as the circuit used at setup. Lists that do not fit are refused with an error rather than a panic.",
  ["inputs","configurations"],"all transition lists, maxima and validator counts up to the stated size",
  "The end-to-end test proves one configuration.",
  [ES+"api/prover.rs",ES+"api/setup.rs"],["padding of transitions","aggregate signature","shape parameters"])
p("C25","The verifier accepts exactly proofs for the given first and last epochs",
  "Verification hashes the encodings of the given first and last epoch under the output domain, packs the two digests in that order into the public inputs and returns success if and only if the proof system accepts those inputs. Changing any encoded field of either epoch, or swapping them, changes the inputs checked.",
  ["inputs"],"all epochs, keys and proofs",
  "The end-to-end test verifies one proof and a wrong one.",
  [ES+"api/verifier.rs",ES+"epoch_block.rs",ES+"encoding.rs"],["hash_first_last order","packing"])
p("C26","The C API applies the hash variant and domain the caller asked for",
  "For every combination of the composite-hash and CIP22 flags, each signing, verifying and hashing entry point of the C API uses the same hash-to-group variant, so that whatever one signs the matching verification accepts and every other combination, message, extra data or key is rejected. Aggregation and subtraction entry points return the group sum and difference, and each result is written only on success.",
  ["inputs","configurations"],"all flag combinations, keys, messages and extra data",
  "Tests of the C API cover only a few flag combinations and one key.",
  [SY+"signatures.rs",SY+"lib.rs"],["selection of the lazily built hashers","argument order"])
p("C27","The C API's buffers keep ownership, length and content",
  "Every serializing entry point returns a buffer whose pointer and length denote exactly the serialized value, and the matching free entry point releases it without corrupting memory, for every length including zero. Deserializing what was serialized gives an equal object, malformed input returns failure and leaves no object, and no call reads or writes outside the buffers it was given.",
  ["inputs","histories"],"all objects, byte strings and lengths up to the stated size",
  "Tests do not cover empty buffers, malformed input or memory ownership.",
  [SY+"serialization.rs",SY+"utils.rs"],["raw-parts conversion and ownership transfer"])
p("C28","The C API's strict batch verification checks every message",
  "The batch entry point of the C API reads every message with its own list of keys and signatures, and writes for each whether its batch is accepted, and reports success if and only if every one of them is. A failing entry, an unsupported hash setting or lists of unequal length make it report failure; it never skips an entry.",
  ["inputs"],"all batches up to the stated numbers of messages and signers",
  "Tests use one all-valid and one invalid batch.",
  [SY+"signatures.rs",SY+"utils.rs"],["conversion of message contexts","conjunction over messages"])
p("C29","The C API's proof verification sees exactly the caller's epochs",
  "The proof verification entry point converts each caller-supplied epoch (index, round, entropies, bound, keys) field by field and reports success only if deserialization succeeds and the verifier accepts those very epochs. Every malformed or truncated key list, verifying key or proof gives failure, not a panic or an out-of-bounds access, and null entropy pointers mean no entropy; the epoch encoding entry points return the bytes of the native encoding.",
  ["inputs"],"all epoch descriptions and byte strings up to the stated number of validators",
  "The test suite runs one valid call.",
  [SY+"snark/mod.rs",SY+"snark/epoch_block.rs"],["reading raw epoch structures","optional entropy and aggregated key handling"])
p("C30","The composite hasher compresses with the Pedersen hash of fixed parameters",
  "The composite hasher's CRH of any message is the 48-byte serialized x coordinate of the Bowe-Hopwood Pedersen hash of exactly that message, with the parameters generated from the seed that is the BLAKE2s digest of the fixed seed string under the PRNG personalization, the same for every instance. Its XOF is the direct hasher's XOF, and its hash is XOF of CRH under the same domain and length.",
  ["inputs"],"all messages, domains and output lengths",
  "Tests compare a few random messages against fixed vectors.",
  [BC+"hashers/composite.rs",BC+"hashers/mod.rs"],["parameter generation","serialization of the affine point","delegation to the direct hasher"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert x["statement"].count(". ")<=2, x["id"]
print(len(P))
