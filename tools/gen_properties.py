#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
p("C01", "SHA-2 digests equal FIPS 180-4 for every message and every chunking",
  "For each of SHA-224, SHA-256, SHA-384 and SHA-512, the digest written for any sequence of update calls equals the FIPS 180-4 digest of the concatenation of their inputs. This holds however the message is split (empty pieces included) and for every length, including lengths whose bit count exceeds 32 bits. The one-call functions give the same digest.",
  ["inputs", "histories"], "all messages, all lengths (byte lengths above 2^29 and 2^32 included), all sequences of update calls",
  "The unit tests hash a few dozen NIST vectors, most in one update; residue/chunk-boundary combinations and lengths beyond the 32-bit counters are never sampled.",
  ["src/sha2.rs"], [("buffered block processing with a running length", "src/sha2.rs: Processor256/Processor512 update, write_digest"), ("compression functions and constants", "src/sha2.rs: K256, K512, initial states")],
  ["HashFunction::update / write_digest", "sha2::sha224..sha512"], [("partial block buffer and its offset", "bytes not yet compressed", "src/sha2.rs"), ("length counter", "total message length, padded at the end", "src/sha2.rs")])
p("C02", "HMAC tags equal RFC 2104 for every key, message, chunking and hash",
  "For any key length (empty, below, at and above the hash's block size), any message and any sequence of update calls, the tag equals RFC 2104 HMAC over the chosen hash. This holds for the four SHA-2 functions, for the one-call functions, and for any other hash function supplied through the public hash trait whose block is at most 128 bytes and whose digest is at most 64 bytes and no longer than its block. The tag object exposes exactly digest-size bytes.",
  ["inputs", "histories"], "all keys, messages, chunkings, and hash functions implementing the trait",
  "The RFC 4231 vectors use seven key lengths and only the four built-in hashes; the key-length boundary at exactly the block size and other block/digest sizes are not swept.",
  ["src/hmac.rs", "src/sha2.rs"], [("key hashing or padding and inner/outer hash", "src/hmac.rs: Hmac::new, keyed_hash_function, write_tag")],
  ["Hmac::new/update/tag", "hmac::hmac_sha*", "Tag deref/as_ref"])
p("C03", "HMAC verification accepts exactly the correct full-length tag",
  "HMAC verification returns true if and only if the supplied tag has exactly the digest length and every byte equals the RFC 2104 tag of that key and message. A tag of any other length (a correct prefix, an extension, the empty tag) or differing in any bit positions is rejected, without a panic.",
  ["inputs"], "all keys, messages and candidate tags of every length, including multi-byte differences that cancel under xor or addition",
  "The tests only verify a right tag and one wrong message; the space of wrong tags (every bit, several bytes at once, every length) is unsampled.",
  ["src/hmac.rs", "src/util.rs"], [("length check and accumulate-all comparison", "src/hmac.rs: verify; src/util.rs: verify_inner")], ["hmac::verify"])
p("C04", "HKDF extract and expand equal RFC 5869 for all legal lengths",
  "For any salt, input key material, info and pseudorandom key at least one digest long, extract and expand produce exactly the RFC 5869 output for every requested length from 0 to 255 digests. A shorter output is a prefix of a longer one, and only the output buffer is written. This holds for the four SHA-2 functions and any other hash function supplied through the public hash trait whose block is at most 128 bytes and whose digest is at most 64 bytes and no longer than its block.",
  ["inputs"], "all salts, key materials, infos, pseudorandom keys, output lengths 0..=255*digest and hash functions",
  "The tests use the RFC 5869 vectors (outputs of 42 and 82 bytes with SHA-256); the block counter beyond 3, the last legal block and partial-block ends are not reached.",
  ["src/hkdf.rs", "src/hmac.rs"], [("block counter loop over output chunks", "src/hkdf.rs: expand"), ("extract", "src/hkdf.rs: extract")], ["hkdf::extract", "hkdf::expand"])
p("C05", "AES-128/192/256 encrypts every block under every key as FIPS 197",
  "For every key of 16, 24 or 32 bytes and every 16-byte block, the block cipher's output equals the FIPS 197 cipher. In particular it is a permutation of blocks for each key, and it depends on nothing but key and block.",
  ["inputs"], "all keys of the three sizes and all blocks; every S-box input in every state position and key-schedule step",
  "Four FIPS 197 vectors exercise a sliver of the S-box positions and of the key-schedule words.",
  ["src/aes.rs"], [("computed S-box, shift rows, mix columns", "src/aes.rs: s_box, shift_rows, mix_columns"), ("key expansion", "src/aes.rs: key_expansion")], ["BlockCipher::new / permute"])
p("C06", "AES-GCM encryption equals SP 800-38D for every input",
  "For every key, 96-bit nonce, associated data and message, encryption writes the SP 800-38D ciphertext and returns its 128-bit tag, over AES and over any block cipher supplied through the public trait. This includes empty inputs, every partial-block remainder of both inputs, lengths whose bit count exceeds 32 bits, and every value of the hash key.",
  ["inputs"], "all keys, nonces, associated data and messages within the length limits; all block ciphers (hence all hash keys)",
  "The GCM specification vectors use four message/AAD shapes; partial-block pairs, block counters above 5 and rare hash-key or accumulator patterns are not reached.",
  ["src/gcm.rs", "src/ghash.rs", "src/aes.rs"], [("counter mode from block 2", "src/gcm.rs: Processor::process"), ("GHASH over padded data, ciphertext and lengths", "src/ghash.rs")], ["AeadCipher::encrypt on Gcm"])
p("C07", "ChaCha20 streams equal RFC 8439 however they are consumed",
  "The byte at position p of a stream equals byte p of the RFC 8439 ChaCha20 keystream for that key and nonce, starting at block 0, for every p below 256 GiB. It does not matter how the stream was consumed before: any mixture of iteration, skipping, encryption and decryption calls of any sizes advances the position by exactly the bytes consumed, and encryption/decryption xor exactly those bytes.",
  ["inputs", "histories"], "all keys, nonces, positions below 2^38 and histories of iterate/skip/encrypt/decrypt calls",
  "The tests encrypt one 114-byte message at one position and check six blocks; call splits across block edges and large counters are unsampled.",
  ["src/chacha20.rs"], [("block function", "src/chacha20.rs: ChaCha20::block"), ("stream position (counter, block index)", "src/chacha20.rs: Stream")], ["chacha20::Stream iterator, encrypt, decrypt"],
  [("counter and block index", "position of the next keystream byte", "src/chacha20.rs: Stream")], "block function at an arbitrary counter (cfg crypto_pure_verif)")
p("C08", "ChaCha20-Poly1305 encryption equals RFC 8439 for every input",
  "For every key, nonce, associated data and message up to 2^38-64 bytes, encryption writes the RFC 8439 ciphertext and returns its tag. This includes inputs for which the authenticator's internal accumulator ends in its rare ranges (values at and above the prime, carries through every limb), and longer messages are refused before anything is read or written.",
  ["inputs"], "all keys, nonces, associated data and messages; all accumulator values reachable by chosen ciphertexts",
  "Two RFC vectors are tested; a final accumulator in the last few values below 2^130 has probability 2^-127 under random data and must be constructed.",
  ["src/poly1305.rs", "src/chacha20.rs"], [("one-time key from block 0, encryption from block 1", "src/poly1305.rs: ChaCha20Poly1305"), ("Poly1305 multiply, squeeze, freeze", "src/poly1305.rs: PolyFunction")], ["AeadCipher::encrypt on ChaCha20Poly1305"], (), "one-shot authenticator under an arbitrary one-time key (cfg crypto_pure_verif)")
p("C09", "AEAD decryption accepts exactly authentic ciphertext and data",
  "For AES-GCM and ChaCha20-Poly1305, decryption returns true if and only if the tag is exactly the 16-byte tag that encryption under the same key and nonce yields for that ciphertext and associated data. Any change to ciphertext, associated data, nonce, key or tag, any truncation, extension or movement of bytes between the inputs, and any tag of another length is rejected without a panic.",
  ["inputs"], "all (key, nonce, data, ciphertext, tag) tuples, including several simultaneous changes and tags of every length",
  "The tests decrypt only authentic inputs (the source carries a TODO to test bad tags).",
  ["src/gcm.rs", "src/poly1305.rs", "src/util.rs"], [("recompute the tag and compare all 16 bytes before processing", "src/gcm.rs: decrypt; src/poly1305.rs: decrypt; src/util.rs: verify_16")], ["AeadCipher::decrypt return value"])
p("C10", "AEAD round trip is exact; rejected input releases nothing",
  "Decrypting what encryption produced under the same key, nonce and data returns true and restores the message exactly. When decryption returns false, the output buffer holds exactly what it held before and at no moment during the call did it hold anything else. Both operations write only the output buffer and leave their inputs unchanged.",
  ["inputs", "histories"], "all AEAD ciphers, inputs, buffer placements and rejected tuples; observed throughout the call",
  "Tests compare the final buffers of a few successful calls; bytes outside the buffer, the buffer after rejection and its content during the call are never looked at.",
  ["src/gcm.rs", "src/poly1305.rs"], [("verify-then-decrypt order", "src/gcm.rs: decrypt; src/poly1305.rs: decrypt")], ["AeadCipher::encrypt/decrypt output buffers, surrounding memory, block-cipher calls made meanwhile"])
p("C11", "X25519 equals RFC 7748 for all 2^256 public keys and secrets",
  "For every 32-byte secret and every 32-byte public key, the shared secret equals RFC 7748 X25519, and the generated public key equals X25519 of the base point. This includes set top bits, non-canonical encodings, points on the twist, low-order points (all-zero result), and results at the edges of the field.",
  ["inputs"], "all secrets and all 32-byte strings as public key; all output values",
  "A handful of RFC vectors are tested; non-canonical, twist and low-order inputs and the rare final-carry outputs (probability about 2^-250 at random) are not.",
  ["src/curve25519.rs"], [("Montgomery ladder over 25.5-bit limbs", "src/curve25519.rs: scalarmult, Fe"), ("final reduction", "src/curve25519.rs: Fe::write_bytes")], ["curve25519::dh", "curve25519::gen_pk"], (), "field operations on encoded elements (cfg crypto_pure_verif)")
p("C12", "Diffie-Hellman parties always agree, in any order and group size",
  "For any two secrets, each party's secret with the other's public key gives the same shared value, and for chains of any number of parties the result does not depend on the order in which the secrets are applied, from any starting point. Secrets differing only in the bits RFC 7748 clamps, and public keys congruent modulo the field prime (top bit ignored), are interchangeable.",
  ["inputs", "histories"], "all pairs and chains of secrets, any starting point, any order of application",
  "The tests contain one two-party exchange.",
  ["src/curve25519.rs"], [("clamping and ladder", "src/curve25519.rs: scalarmult"), ("decoding", "src/curve25519.rs: Fe::assign_from_bytes")], ["curve25519::dh", "curve25519::gen_pk"])
p("C13", "Ed25519 key generation and signing equal RFC 8032, deterministically",
  "For every 32-byte secret key and every message, the public key and the 64-byte signature equal those RFC 8032 Ed25519 defines, byte for byte; they depend on nothing else.",
  ["inputs"], "all secret keys, all messages of every length; all scalars, hence every entry of the fixed-base tables and every reduction carry",
  "The tests use a few vectors out of 2^256 keys; most of the 256 precomputed table entries and nearly all carry patterns of scalar reduction are not exercised.",
  ["src/ed25519.rs", "src/const_curve25519.rs", "src/curve25519.rs", "src/sha2.rs"], [("fixed-base multiplication by table lookup", "src/ed25519.rs: GeP3::from_scalarmult_base; src/const_curve25519.rs: BASE"), ("arithmetic modulo the group order", "src/ed25519.rs: sc_reduce, sc_muladd")], ["ed25519::gen_pk", "ed25519::sign"], (), "scalar reduction, multiply-add and fixed-base multiplication (cfg crypto_pure_verif)")
p("C14", "Ed25519 verification accepts exactly the valid signatures",
  "Verification of a 32-byte public key returns true if and only if the signature has 64 bytes, its scalar half is below the group order, the key decodes to a curve point, and the RFC 8032 equation R = [S]B - [k]A holds exactly as encoded (for public keys in non-canonical encoding, rejecting is also correct). Every honestly produced signature is accepted; no signature stays valid after any change of its bytes, of the message or of the key by one who lacks the secret key. No input makes it panic.",
  ["inputs"], "all messages, all byte strings as signature, all 32-byte strings as public key, including adversarial points and scalars",
  "The tests verify only genuine signatures; forgeries, S+L malleability, small-order and off-curve keys, and adversarial scalars are not sampled.",
  ["src/ed25519.rs", "src/curve25519.rs", "src/const_curve25519.rs"], [("point decompression", "src/ed25519.rs: from_bytes_negate_vartime"), ("double-scalar multiplication with sliding windows", "src/ed25519.rs: from_double_scalarmult_vartime, slide"), ("range checks and comparison of R", "src/ed25519.rs: verify")], ["ed25519::verify"], (), "double-scalar multiplication (cfg crypto_pure_verif)")
p("C15", "No valid input causes a panic, arithmetic overflow or invalid memory access",
  "Every public operation called within its documented preconditions returns normally in builds with overflow checks and debug assertions, never reads outside its input slices or writes outside its output slices, and performs no undefined behaviour. This holds for all input values, lengths, alignments and buffer placements, adversarial ones included.",
  ["inputs", "configurations"], "all operations, all arguments within the documented preconditions, slices flush against unmapped memory on either side",
  "Debug-mode tests see the few sampled inputs only: an overflow or index panic on a rare carry, the last counter value or an odd remainder is missed, and buffers with slack hide out-of-bounds accesses.",
  ["src/aes.rs", "src/chacha20.rs", "src/curve25519.rs", "src/ed25519.rs", "src/gcm.rs", "src/ghash.rs", "src/hkdf.rs", "src/hmac.rs", "src/poly1305.rs", "src/sha2.rs", "src/util.rs"], [("safe Rust with limb bounds kept by carry chains", "src/curve25519.rs, src/ed25519.rs, src/poly1305.rs"), ("slice arithmetic", "all modules")], ["panics, signals, sanitizer and interpreter reports"])
p("C16", "Documented length preconditions are enforced by panic, before any effect",
  "An operation given a key, nonce, output or pseudorandom-key slice of a wrong length, or a message beyond the documented maximum, panics for every such length instead of returning, and leaves the output buffer and the object it was called on as they were. Every length within the documented preconditions is accepted.",
  ["inputs"], "every operation and every wrong length (and combination of them), up to lengths near the address-space limit",
  "The repository has almost no negative tests; truncating or padding silently for some length would pass.",
  ["src/aes.rs", "src/chacha20.rs", "src/curve25519.rs", "src/ed25519.rs", "src/gcm.rs", "src/hkdf.rs", "src/poly1305.rs", "src/sha2.rs"], [("entry assertions", "assert!/assert_eq! at the head of each public function, gcm check_bounds")], ["panic or return of each public function; output buffers afterwards"])
p("C17", "Results are identical across build configurations and targets",
  "Every public operation gives the same result for the same arguments whatever the build: optimised or not, overflow checks and debug assertions on or off, with or without the std feature, 64-bit or 32-bit, little- or big-endian target. The library builds for each of these and, without the std feature, also for targets that have no standard library.",
  ["configurations", "inputs"], "all operations and inputs over the product of build profiles, features, word sizes and endianness",
  "The tests run in one configuration on one target.",
  ["src/lib.rs", "Cargo.toml", "src/gcm.rs", "src/sha2.rs", "src/chacha20.rs", "src/ghash.rs", "src/curve25519.rs"], [("explicit-endian loads and stores, fixed-width integers", "byteorder calls throughout"), ("no_std switch", "src/lib.rs")], ["transcripts of the public API produced by each build"])
p("C18", "Control flow and memory addresses do not depend on secrets",
  "For fixed lengths and public inputs, the sequence of executed branches and of memory addresses accessed by hashing, HMAC, HKDF, AES, GCM, ChaCha20-Poly1305, X25519, Ed25519 key generation and signing is the same for all keys, plaintexts and other secrets. Tag comparison likewise does the same work wherever and however the tags differ.",
  ["inputs"], "all pairs of secrets with equal public inputs (lengths, nonces, ciphertexts, outcome)",
  "Unit tests observe results, not execution traces: an early-exit comparison, a secret-indexed table or a skipped zero digit passes them all.",
  ["src/util.rs", "src/curve25519.rs", "src/ed25519.rs", "src/aes.rs", "src/ghash.rs", "src/poly1305.rs"], [("mask-based selection and accumulation", "src/curve25519.rs: cswap_with, verify_32; src/ed25519.rs: select, cmov; src/util.rs: verify_inner; src/ghash.rs"), ("computed S-box", "src/aes.rs: s_box")], ["edge, load-address and store-address trace of instrumented builds"])
p("C19", "Instances are isolated and shareable; results depend only on own inputs",
  "Any number of hash, MAC, stream and cipher instances used in any interleaving, in one thread or many, each give the result they would give alone, and repeating a call gives the same result. One cipher instance may be used from several threads at once, without data races.",
  ["histories", "schedules"], "all interleavings of operations over many live instances; all thread schedules sharing instances",
  "Each test uses one instance at a time in one thread.",
  ["src/sha2.rs", "src/hmac.rs", "src/chacha20.rs", "src/aes.rs", "src/gcm.rs", "src/poly1305.rs", "src/ed25519.rs"], [("no global or interior-mutable state", "all modules"), ("state held by value in each instance", "all public types")], ["results of interleaved histories against a per-instance shadow model; race detector reports"])
p("C20", "Fixed-length comparison returns true exactly for equal 16-byte inputs",
  "The public comparison of a 16-byte array with a slice returns true if and only if the slice has exactly 16 bytes and all are equal. It never panics, for slices of any length and any pattern of differing bits.",
  ["inputs"], "all 16-byte arrays and all slices of any length, including differences that cancel under xor, addition or truncation of the length",
  "Nine hand-picked pairs are tested; multi-byte differences and lengths congruent to 16 modulo powers of two are not.",
  ["src/util.rs"], [("length check and or-accumulated xor", "src/util.rs: verify_16, verify_inner")], ["util::verify_16"])
p("C21", "Operations need constant memory and work linear in their input",
  "No operation allocates on the heap, and none uses more than 32 KiB of stack, whatever the lengths and contents of its inputs and however input is cut into update calls. The number of instructions executed grows no faster than linearly with the total length of inputs and outputs (and the number of calls), and no content of a signature, public key, tag or ciphertext makes an operation cost a multiple of what an ordinary one of that length costs. Every call terminates.",
  ["inputs", "histories"], "all operations, input lengths and contents, and sequences of update calls",
  "Tests look at results on short inputs; buffering of whole messages, recursion per block or repeated passes give the same results.",
  ["src/sha2.rs", "src/hmac.rs", "src/hkdf.rs", "src/gcm.rs", "src/ghash.rs", "src/chacha20.rs", "src/poly1305.rs", "src/ed25519.rs", "src/lib.rs"], [("fixed-size state and block buffers, no alloc", "all modules"), ("one pass over the input", "sha2, ghash, poly1305, chacha20 loops")], ["allocator calls and painted stack during operations", "instruction counts of whole runs at growing lengths"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
