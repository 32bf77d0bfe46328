#!/usr/bin/env python3
"""Authoring source of /verif/properties.jsonl (one JSON object per line)."""
import json, os
S = "src/"; H = "src/include/sse/crypto/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Authenticated encryption round-trips every message",
 "For every key and every non-empty message, encrypting and then decrypting with the same key, through any of the string or fixed-size-array interfaces, returns exactly the original message. The ciphertext is always exactly 32 bytes longer than the message, begins with a freshly drawn random nonce, and encryption leaves its input unchanged. The ciphertext is the standard ChaCha20-Poly1305 encryption of the message under a key derived from the cipher key and that nonce.",
 ["inputs"], "all keys, nonces, message contents and lengths (1..bound)",
 "Tests encrypt a handful of fixed or random strings; they do not quantify over lengths around buffer boundaries, all byte values, all nonces, or all overloads.",
 [S+"cipher.cpp", H+"cipher.hpp"],
 [("nonce-derived subkey + AEAD with nonce as prefix", S+"cipher.cpp encrypt/decrypt"), ("length arithmetic", H+"cipher.hpp ciphertext_length/plaintext_length")],
 ["Cipher::encrypt", "Cipher::decrypt"])
prop("C02", "Decryption releases plaintext only for authentic ciphertexts",
 "For every key and every byte string offered as a ciphertext, decryption returns a plaintext only when the authentication tag over the entire remaining ciphertext verifies under the key derived from the cipher key and the embedded nonce, and the plaintext is then the one that was authenticated. In every other case it throws, delivers no plaintext to the caller, and leaves the cipher usable. Inputs too short to hold a nonce, a tag and one byte are rejected before anything is read beyond the input.",
 ["inputs"], "all keys and all ciphertext byte strings of length 0..bound, including every modification of a genuine one",
 "Tests flip a few bytes of one ciphertext; authenticity is a claim over every modification, truncation, extension and every key.",
 [S+"cipher.cpp", H+"cipher.hpp"],
 [("tag check result turned into exception", S+"cipher.cpp decrypt"), ("minimum size checks", S+"cipher.cpp decrypt")],
 ["Cipher::decrypt"])
prop("C03", "Hash and HMAC outputs match their definitions for every input",
 "For every input, the hash is the 64-byte BLAKE2b digest of exactly the given bytes, and every truncated or string interface returns a prefix of that same digest. For every key and message, the keyed MAC is the standard nested construction (key zero-padded to the hash block, inner pad 0x36, outer pad 0x5c) over the configured hash, and shorter outputs are prefixes of it. Null buffers or an output longer than the digest are rejected with an exception and nothing is written beyond the requested output length.",
 ["inputs"], "all message contents and lengths up to the bound, all key values, several key sizes, both hash functions, all requested output lengths",
 "Known-answer tests fix a few (key, message, length) triples; length- or content-dependent mistakes elsewhere go unseen.",
 [S+"hash.cpp", S+"hash/blake2b.cpp", S+"hash/sha512.cpp", H+"hash.hpp", H+"hmac.hpp", S+"hmac.cpp"],
 [("ipad/opad construction", H+"hmac.hpp HMac::hmac"), ("truncation and argument checks", S+"hash.cpp Hash::hash")],
 ["Hash::hash", "HMac::hmac"])
prop("C04", "PRF outputs are HMAC of the input, extended in counter mode",
 "For every key and input, a PRF of output size up to the digest size returns the prefix of the keyed MAC of the input; a larger PRF returns the concatenation of the MACs of the input followed by a one-byte block counter 0,1,2,..., cut to size. All input interfaces (raw bytes, string, array) agree, evaluation is deterministic, and a derived key contains exactly the PRF value of its input. A null input is rejected with an exception.",
 ["inputs"], "all keys, all inputs up to the length bound, a family of output sizes around every block boundary",
 "Tests compare overloads and lengths on random samples for a few output sizes; block-boundary and content-dependent behaviour is not quantified.",
 [H+"prf.hpp", S+"prf.cpp", H+"hmac.hpp", H+"key.hpp"],
 [("counter-mode extension", H+"prf.hpp Prf::prf"), ("derive_key", H+"prf.hpp")],
 ["Prf::prf", "Prf::derive_key"])
prop("C05", "PRG output at any offset is a slice of one keystream",
 "For every key, offset and length, pseudo-random output requested at an offset is exactly that slice of the single ChaCha20 keystream (zero nonce) determined by the key, whichever interface is used; nothing outside the output buffer is written. Deriving the i-th key of size K yields the slice starting at i*K, and batch derivation yields the same keys as deriving them one by one. One-shot interfaces consume the key they are given and reject an empty key.",
 ["inputs"], "all keys, all 64-bit offsets for which offset+length does not wrap, all lengths up to the bound, all key indices",
 "Tests compare some offsets against a prefix; the offset/length arithmetic spans the whole 64-bit space and has block-boundary cases.",
 [S+"prg.cpp", H+"prg.hpp"],
 [("block/offset arithmetic", S+"prg.cpp prg_derivation"), ("derive_key(s)", H+"prg.hpp")],
 ["Prg::derive", "Prg::derive_key", "Prg::derive_keys"])
prop("C06", "Constrained PRF keys evaluate exactly like the full key",
 "For every key, tree height, range and leaf in that range, evaluating the key constrained to the range gives the same value as evaluating the unconstrained key. The same holds for keys constrained repeatedly to nested ranges. The value at a leaf is the one obtained by walking the binary derivation tree from the root along the bits of the leaf index, so distinct leaves take distinct tree positions.",
 ["inputs", "histories"], "all keys, all heights up to the bound (plus boundary windows up to the maximum height), all ranges, all leaves, nested constraints",
 "The tests use one height and loop over ranges of a small tree; boundary heights, nested ranges and 64-bit index arithmetic are unreachable by sampling.",
 [H+"rcprf.hpp", S+"rcprf.cpp", S+"prg.cpp"],
 [("tree walk", H+"rcprf.hpp derive_leaf/get_child"), ("cover generation", H+"rcprf.hpp generate_constrained_subkeys_from_node")],
 ["RCPrf::eval", "ConstrainedRCPrf::eval", "constrain"])
prop("C07", "Constrained PRF keys cover exactly their range and nothing else",
 "A key constrained to [min,max] reports exactly that range, evaluates every leaf inside it, and rejects every leaf, sub-range or further constraint that leaves it. Its contents never include key material for a subtree containing a leaf outside the range: its components are disjoint, consecutive subtrees whose union is exactly the range. Invalid requests (inverted, too large, or complete ranges, leaves beyond the tree) are rejected with an exception by the full key as well.",
 ["inputs", "histories"], "all heights up to the bound, all ranges, all leaves including those outside, all invalid arguments",
 "The security of constrained keys is a universal statement on what is not evaluable; tests can only try some leaves.",
 [H+"rcprf.hpp"],
 [("cover generation", H+"rcprf.hpp generate_constrained_subkeys_from_node"), ("range checks", H+"rcprf.hpp eval/eval_range/constrain"), ("element consistency checks", H+"rcprf.hpp ConstrainedRCPrf constructor")],
 ["RCPrf::constrain", "ConstrainedRCPrf::min_leaf/max_leaf/eval"])
prop("C08", "Range evaluation equals point-wise evaluation, in order",
 "For every full or constrained key and every valid range, range evaluation invokes the callback exactly once for every leaf of the range, in increasing order, with the value that single-leaf evaluation returns for that leaf, and for no other leaf. Invalid or out-of-range requests throw without invoking the callback.",
 ["inputs"], "all keys, heights up to the bound, all [min,max] sub-ranges of the full or constrained range",
 "Tests sweep one tree; off-by-one splits at subtree borders depend on the height/range combination.",
 [H+"rcprf.hpp"],
 [("recursive range derivation", H+"rcprf.hpp derive_leaf_range"), ("element iteration", H+"rcprf.hpp ConstrainedRCPrf::eval_range")],
 ["RCPrf::eval_range", "ConstrainedRCPrf::eval_range"])
prop("C09", "Wrapping then unwrapping restores an equivalent object",
 "For every wrapping key and every wrappable object (cipher, PRF, PRG, PRP, full and constrained range PRF), unwrapping the wrapped form with the same wrapping key yields an object that behaves identically to the original, including after repeated wrapping. The wrapped form is exactly 28 bytes longer than the serialised object, starts with a fresh random 16-byte IV, and the original object remains usable. After a successful unwrap the wrapped bytes handed in have been erased.",
 ["inputs", "histories"], "all keys and object states, all random IVs, constrained PRFs of every range up to the height bound",
 "Tests wrap one object of each kind; constrained PRFs have many shapes and every byte of the state must survive.",
 [H+"wrapper.hpp", S+"wrapper.cpp", H+"rcprf.hpp", S+"cipher.cpp", S+"prg.cpp", S+"prp.cpp", H+"prf.hpp"],
 [("SIV-style wrap/unwrap", H+"wrapper.hpp"), ("serialize/deserialize of each class", "each class")],
 ["Wrapper::wrap", "Wrapper::unwrap"])
prop("C10", "Unwrapping accepts only what was wrapped, as the type it was",
 "For every wrapping key and byte string, unwrapping succeeds only if the embedded tag equals the PRF tag over the IV, the type identifier, the public parameters and the complete decrypted payload; otherwise it throws and yields no object. The identifier and parameters of any two different wrappable types (or sizes of the same type) always differ, so an object wrapped as one type is never accepted as another. Input shorter than the fixed overhead is rejected.",
 ["inputs"], "all wrapping keys, all wrapped byte strings up to the bound, all ordered pairs of wrappable types",
 "Tests modify a few bytes and try a few type confusions; tag coverage must include every byte and every pair of types.",
 [H+"wrapper.hpp", S+"wrapper.cpp"],
 [("tag over IV, type byte, context and payload", H+"wrapper.hpp wrap/unwrap"), ("type bytes", H+"wrapper.hpp TypeByte")],
 ["Wrapper::unwrap"])
prop("C11", "Deserialising any payload is memory-safe and all-or-nothing",
 "For every byte string that reaches object reconstruction, deserialisation either throws an exception or produces a well-formed object and reports exactly the number of bytes it consumed; it never reads or writes outside the given buffer and never leaks memory. Truncated payloads, inconsistent heights or ranges and non-consecutive components are rejected.",
 ["inputs"], "all payload byte strings up to the bound for every deserialisable type",
 "Malformed payloads are an exponentially large space; the tests try a few truncations.",
 [H+"rcprf.hpp", H+"wrapper.hpp", S+"cipher.cpp", S+"prg.cpp", S+"prp.cpp", H+"prf.hpp", S+"tdp.cpp"],
 [("size and consistency checks", H+"rcprf.hpp deserialize"), ("consumed-bytes check", H+"wrapper.hpp unwrap")],
 ["deserialize functions", "Wrapper::unwrap"])
prop("C12", "Key memory is inaccessible except while an operation uses it",
 "After construction and after every operation that completes, normally or by throwing, the memory holding any key is protected against all access; no operation ever reads or writes key memory while it is protected, nor writes it while it is read-only. Protected memory is always allocated with guard allocation and released exactly once, on every path.",
 ["inputs", "histories"], "all operations of every keyed class, with valid and invalid arguments, on normal and exceptional paths, and sequences of them",
 "Whether a page is still readable after a call is invisible to functional tests; exceptional paths are rarely exercised.",
 [H+"key.hpp", S+"prg.cpp", S+"cipher.cpp", S+"prp.cpp", H+"hmac.hpp", H+"wrapper.hpp"],
 [("lock/unlock pairs", H+"key.hpp lock/unlock/unlock_get"), ("RAII", H+"key.hpp ~Key")],
 ["memory protection state of each key after each public call"])
prop("C13", "Key ownership: moved-from is empty, sources are wiped, no reuse",
 "Constructing a key from a caller's buffer stores exactly those bytes and overwrites the whole buffer with zeros. Moving or assigning a key transfers its content, leaves the source empty, and destroys any content it replaces; an emptied or erased key makes every later use throw instead of computing with absent or stale content. Default-constructed keys and objects take all their key bytes from the random generator.",
 ["inputs", "histories"], "all key contents and sizes up to the bound, all sequences of moves, assignments, erasures and uses up to the bound, with memory locking enabled and disabled",
 "Histories of moves/erasures and both build configurations are not enumerated by the tests.",
 [H+"key.hpp", S+"key.cpp", H+"hmac.hpp", S+"prg.cpp", S+"prp.cpp"],
 [("constructors, move operations, erase", H+"key.hpp")],
 ["Key constructors/assignment/erase and users of keys"])
prop("C14", "Set hashes depend only on the multiset of elements",
 "For every sequence of insertions and removals of elements or whole sets, the resulting hash value depends only on the resulting multiset: it equals the group sum of the hashed elements, independent of order, grouping and of additions cancelled by removals, and the empty set has the fixed neutral value. Equality compares the complete value; exporting the value and reconstructing from it gives an equal hash, and reconstruction accepts exactly valid group elements and the neutral value.",
 ["inputs", "histories"], "all element contents up to the length bound, all operation sequences up to the length bound, from an arbitrary starting state",
 "Tests try a few orders of random elements; commutation must hold for every history and byte string.",
 [S+"set_hash.cpp", H+"set_hash.hpp"],
 [("hash-to-group and add/sub", S+"set_hash.cpp"), ("validity check on import", S+"set_hash.cpp SetHash(bytes)")],
 ["SetHash::add_element/remove_element/add_set/remove_set/data/==/!="])
prop("C15", "The wide-block PRP is a length-preserving bijection",
 "For every key and every input of every length, decryption inverts encryption and encryption inverts decryption, and the output has the length of the input, with nothing written beyond it. The string, buffer, 32-bit and 64-bit interfaces all compute the same permutation, and the input is left unchanged.",
 ["inputs"], "all keys and tweak-schedule states, all inputs of every length from 1 to the bound (covering every padding and fragment case)",
 "Round trips are tested at a few lengths; the implementation has separate code for every length class, block count and odd length.",
 [S+"aez/aez.c", S+"aez/aez.h", S+"prp.cpp", H+"prp.hpp"],
 [("AEZ core/tiny ciphers", S+"aez/aez.c"), ("wrappers", S+"prp.cpp")],
 ["Prp::encrypt/decrypt/encrypt_64/decrypt_64"])
prop("C16", "Trapdoor permutation inversion and iteration are consistent",
 "For every key pair and message, the private inverse undoes the public evaluation; inverting k times at once equals k successive inversions, and a multi-power pool evaluates order k as k successive public evaluations, for every order it supports. All string and array interfaces agree; inputs of the wrong size and unsupported orders are rejected with an exception. Copies and re-imported keys compute the same function.",
 ["inputs", "histories"], "all messages and orders within the bound, for keys of the modelled sizes",
 "Tests use a few random messages, small orders and one key size; the CRT shortcut and pool indexing have order-dependent cases.",
 [S+"tdp.cpp", S+"tdp_impl/tdp_impl_mbedtls.cpp", S+"mbedtls/rsa.c", H+"tdp.hpp"],
 [("CRT inversion with reduced exponents", S+"tdp_impl/tdp_impl_mbedtls.cpp invert_mult"), ("pool of powers", S+"tdp_impl/tdp_impl_mbedtls.cpp TdpMultPoolImpl_mbedTLS")],
 ["Tdp::eval", "TdpInverse::invert/invert_mult", "TdpMultPool::eval"])
prop("C17", "Big-integer arithmetic is exact",
 "For all operands within the size bound, signed addition, subtraction, multiplication, shifts, comparison, division with remainder, modular reduction and import/export in big-endian bytes give the mathematically exact result, also when the result aliases an operand. Export into a buffer that is too small fails without writing outside it, and division by zero is reported as an error.",
 ["inputs"], "all operand values, signs and limb counts within the bound, all aliasing patterns",
 "Carry and borrow chains are value-dependent with probabilities around 2^-64; random tests never reach them.",
 [S+"mbedtls/bignum.c", S+"mbedtls/bignum.h", S+"mbedtls/bn_mul.h"],
 [("limb arithmetic", S+"mbedtls/bignum.c")],
 ["mbedtls_mpi_* functions"])
prop("C18", "RSA key encoding and decoding are exact inverses",
 "Every public or private RSA key written to DER or PEM is read back with exactly the same component values, and base64 and DER length/integer encodings round-trip for every value. A buffer that is too small is reported as an error and nothing is written outside it.",
 ["inputs"], "all component values and buffer sizes within the bound, all byte strings up to the bound for base64",
 "Round trips are tested on generated keys whose integers all have the same sizes; sign-byte, length-form and padding cases depend on values.",
 [S+"mbedtls/rsa_io.c", S+"mbedtls/asn1write.c", S+"mbedtls/asn1parse.c", S+"mbedtls/base64.c", S+"mbedtls/pem.c", S+"mbedtls/pkparse.c"],
 [("ASN.1 length/integer encoding", S+"mbedtls/asn1write.c"), ("base64 codec", S+"mbedtls/base64.c")],
 ["key export/import of Tdp and TdpInverse", "base64/ASN.1 functions"])
prop("C19", "Parsing untrusted key material never touches foreign memory",
 "For every byte string offered as a PEM, DER, ASN.1 or base64 encoded key, the parser terminates and either returns an error or a fully initialised result; it never reads or writes outside the input or its own buffers, never frees memory twice and leaks nothing once the caller releases the key.",
 ["inputs"], "all byte strings up to the bound",
 "Malformed inputs form an exponentially large space; the tests parse a few malformed keys.",
 [S+"mbedtls/pkparse.c", S+"mbedtls/pem.c", S+"mbedtls/asn1parse.c", S+"mbedtls/base64.c", S+"mbedtls/rsa.c"],
 [("length checks against the end pointer", S+"mbedtls/asn1parse.c")],
 ["mbedtls_rsa_parse_key/public_key", "mbedtls_pem_read_buffer", "mbedtls_base64_decode", "mbedtls_asn1_get_*"])
prop("C20", "Byte-string search finds the first occurrence, within bounds",
 "For every pair of byte strings, the substring search returns the position of the first occurrence of the second in the first, the start when the second is empty, and null when there is none. It never reads outside either string.",
 ["inputs"], "all byte strings up to the length bounds, including self-overlapping patterns",
 "Self-overlapping patterns and matches at the very end are corner cases the few tests do not cover.",
 [S+"utils.cpp", H+"utils.hpp"],
 [("scan with restart", S+"utils.cpp strstrn_uint8")],
 ["strstrn_uint8"])
prop("C21", "Random requests are served completely by the system generator",
 "For every requested size, the random interfaces fill exactly the requested bytes, all of them taken directly from the cryptographic generator with no byte repeated, constant or skipped, and write nothing outside. Two requests never share generator output.",
 ["inputs", "histories"], "all sizes up to the bound, all element types, sequences of requests",
 "A statistical test cannot tell fresh random bytes from reused or partially filled ones.",
 [S+"random.cpp", H+"random.hpp", H+"key.hpp"],
 [("forwarding to the generator", S+"random.cpp")],
 ["random_bytes", "random_string", "generator callback for RSA"])
prop("C22", "Puncturable encryption: unpunctured tags decrypt, punctured ones do not",
 "For every master key and every sequence of punctured tags, a ciphertext whose tag was never punctured decrypts to the original message, and a ciphertext whose tag was punctured is never decrypted. Incremental key generation from the seed gives the same key shares as sequential puncturing.",
 ["inputs", "histories"], "all messages, tags, seeds and puncture histories",
 "Tests puncture a few tags.",
 [S+"puncturable_enc.cpp", S+"ppke/GMPpke.cpp", H+"puncturable_enc.hpp"],
 [("pairing-based scheme over relic", S+"ppke/GMPpke.cpp")],
 ["PuncturableEncryption/PuncturableDecryption"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
