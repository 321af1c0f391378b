#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (developer tool; no check runs it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ML, MLI, BN = "src/cryptokit.ml", "src/cryptokit.mli", "src/cryptokitBignum.ml"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, level_note))
SMALL = "the 556 stable tests feed fixed vectors, almost all in one call, one object at a time, on one CPU"
TR = "simulation of interleaved client sessions with seeded fragmentation; refinement against independent reference implementations"
NOTE = "Seeded search, not proof: every run compares the real code with an independent executable model (sim/refm.ml). Trusts the model, the OCaml runtime, zarith and zlib."

prop("C01", "Ciphers and encodings equal their standard function under any call history",
 "For every cipher, mode, padding, encoding and composition, the concatenation of all bytes taken from a transform after finish equals the standard's function of the concatenation of all bytes given to it. This holds however the input is cut into calls, whichever entry points carry it, whenever output is taken or flushes are made, and however many other transforms are used in between. Decrypting what was encrypted with the same parameters gives back the message, and the building-block classes compute the same functions.",
 ["inputs", "histories", "schedules", "configurations"], "all keys, IVs, counters, lengths (0 to hundreds of kB), modes (ECB, CBC, CFB n, OFB n, CTR, CTR_N), paddings, cut points, get/flush interleavings, and interleavings of several objects",
 SMALL + "; cut points, partial gets, flushes between blocks, counter carries and 2+ live objects are hardly sampled",
 [ML, MLI, "src/aesni.c", "src/rijndael-alg-fst.c", "src/d3des.c", "src/blowfish.c", "src/arcfour.c", "src/chacha20.c"],
 [("block buffering in cipher / padded ciphers", ML + ": class cipher, cipher_padded_encrypt, cipher_padded_decrypt"), ("chaining modes", ML + ": cbc_*, cfb_*, ofb, ctr"), ("output buffering", ML + ": class buffered_output"), ("stream state carried between calls", "src/chacha20.c, src/arcfour.c"), ("encoders with a partial group", ML + ": Base64, Hexa"), ("composition", ML + ": compose")],
 ["Cipher.*", "Block.*", "Stream.*", "Padding.*", "Base64.*", "Hexa.*", "compose"], NOTE, TR,
 state=[("pending block bytes", "input not yet forming a block", ML), ("output buffer bounds", "bytes produced and not yet taken", ML)])

prop("C02", "Hashes and MACs equal their standard function under any call history",
 "The result of any hash or MAC object equals the standard's digest of the concatenation of everything added, whatever the fragmentation, entry points, interleaving with other objects, and total length. Its size is the announced size.",
 ["inputs", "histories", "schedules", "configurations"], "all algorithms and output sizes, key lengths (empty, block-size edges, longer), message lengths including many buffer multiples, cut points and interleavings",
 SMALL + "; most algorithms see a handful of lengths, and length counters, multi-block fast paths and tree hashing (BLAKE3) are touched at few points",
 [ML, MLI, "src/sha1.c", "src/sha256.c", "src/sha512.c", "src/keccak.c", "src/ripemd160.c", "src/blake2.c", "src/blake3.c", "src/siphash.c", "src/stubs-md5.c"],
 [("partial block buffer + length counter in each context", "src/*.c *_add_data / *_finish"), ("HMAC key preparation and double hashing", ML + ": hmac"), ("CMAC subkeys, CBC-MAC with padding", ML + ": MAC, Block.mac")],
 ["Hash.*", "MAC.*", "hash_string"], NOTE, TR)

prop("C03", "Authenticated transforms compute the standard text and tag under any history",
 "AES-GCM and ChaCha20-Poly1305, and the combinations of a transform with a hash, produce exactly the standard's text and tag for the concatenated input, for every header, IV length and fragmentation. Output taken early is a prefix of the final output, and the tag depends on every byte of header, text and their lengths.",
 ["inputs", "histories", "schedules", "configurations"], "all keys, headers, IV lengths (including IVs whose 32-bit counter is about to wrap), texts chosen so that the authenticator ends at extreme values, fragmentations and interleavings",
 SMALL + "; a few vectors per AEAD, none with counter wrap, extreme authenticator values, or odd fragmentation",
 [ML, MLI, "src/ghash.c", "src/pclmul.c", "src/poly1305-donna.c", "src/chacha20.c", "src/aesni.c"],
 [("GCM transforms", ML + ": module AEAD"), ("incremental GHASH / Poly1305", "src/ghash.c, src/pclmul.c, src/poly1305-donna*.c"), ("transform + hash combinators", ML + ": transform_then_hash, transform_and_hash")],
 ["AEAD.*", "transform_then_hash", "transform_and_hash"], NOTE, TR)

prop("C04", "Over a hostile network, forgeries are refused and genuine packets accepted",
 "A receiver accepts a packet if and only if it is one that the holder of the same key, IV and header would have produced, and then returns exactly the message that was sent. Dropped, duplicated, reordered, misrouted, truncated, extended, spliced or flipped packets and mismatched keys, IVs or headers never lead to acceptance of anything else, and never to an error other than the documented ones. Packets still in flight when the faults stop are accepted.",
 ["inputs", "histories", "fault_sequences"], "all sequences of sends and deliveries over the fault model, all associations (AES-GCM, ChaCha20-Poly1305, cipher plus MAC in both orders)",
 "the tests check two or three tampered strings for one AEAD; no history of several associations, no truncation below the tag, no boundary shift between header and text",
 [ML, MLI, "src/stubs-misc.c"],
 [("tag check before release", ML + ": auth_check_transform_string"), ("tag comparison", ML + ": string_equal")],
 ["auth_transform_string", "auth_transform_string_detached", "auth_check_transform_string", "AEAD.*"], NOTE + " Network, peers and adversary are simulated; the cryptography is real.", "simulated network with message faults; acceptance judged against the reference receiver")

prop("C05", "Channel front ends process exactly the bytes asked for, or report the error",
 "Transforming or hashing a channel consumes exactly the requested length (or everything to the end of file), leaves the rest of the channel untouched, and writes exactly the transformed bytes. Short reads, short writes and interrupted system calls change nothing; a read or write error, a full disk or an early end of file is reported as an exception, never as a shorter or wrong result.",
 ["inputs", "fault_sequences", "histories"], "all transforms and hashes, lengths, positions in a multi-message channel, and sequences of short/failed reads and writes on both descriptors",
 "the tests hash or encrypt a few regular files, where reads are never short and nothing fails",
 [ML, MLI], [("bounded and unbounded copy loops", ML + ": transform_channel, hash_channel")],
 ["transform_channel", "hash_channel"], NOTE + " File descriptors are simulated under the real OCaml channel layer.", "simulated file descriptors with short, interrupted, failing and torn I/O")

prop("C06", "Entropy sources deliver the medium's bytes or fail; never silently less",
 "Every byte returned by the system, device, hardware and default generators comes from the underlying medium, fresh and in the requested range only, and each medium byte is used at most once. When the medium fails, ends, is interrupted or is absent, the request or the opening fails with the documented exception; a generator that the default chain rejects is never used. Closing a generator releases its descriptor.",
 ["fault_sequences", "histories", "configurations"], "all request sizes and offsets, sequences of opens, requests and wipes, platform configurations (with or without getentropy, RDRAND, devices) and medium faults",
 "the tests draw a few bytes from a healthy machine and look that they differ",
 [ML, MLI, "src/stubs-rng.c"], [("256-byte chunking of getentropy", "src/stubs-rng.c"), ("RDRAND retries and stuck-at detection", "src/stubs-rng.c"), ("fallback chain", ML + ": Random.secure_rng"), ("device reads in a loop", ML + ": device_rng")],
 ["Random.secure_rng", "Random.system_rng", "Random.device_rng", "Random.hardware_rng"], NOTE + " Medium (getentropy, devices, RDRAND, CPUID) is simulated; everything above is real.", "simulated entropy media with failures, short reads, stuck hardware",
 hook="RDRAND/CPUID seam in src/stubs-rng.c under CRYPTOKIT_SIM")

prop("C07", "Key generation yields valid keys of the requested size or fails",
 "Whatever a random generator returns, a generated RSA or Paillier key pair or Diffie-Hellman parameter set satisfies its number-theoretic definition (primes of the requested size, distinct, consistent exponents and CRT components, fixed-width fields). If the generator fails at any point, key generation fails with that error and returns no key. Enough random bytes are drawn for the size requested.",
 ["inputs", "fault_sequences", "configurations"], "all key sizes, exponents, generator outputs (including degenerate prefixes) and generator failures at any request",
 "the tests generate a couple of keys of two sizes from a healthy generator",
 [ML, BN, MLI], [("prime search", BN + ": random_prime"), ("RSA / Paillier / DH key generation", ML + ": RSA.new_key, Paillier.new_key, DH.new_parameters")],
 ["RSA.new_key", "Paillier.new_key", "DH.new_parameters", "DH.private_secret"], NOTE + " Primality is judged by zarith's probabilistic test with 25 rounds.", "hostile simulated generator with degenerate output and failure at any request; validity oracle")

prop("C08", "Public-key exchanges agree between the parties for all numbers",
 "RSA encryption, decryption, signing and their CRT variants compute the RSA function on every number below the modulus, in fixed width, and refuse others. Two parties of a Diffie-Hellman exchange derive the same secret and keys from any delivery order, duplication or delay of their messages. Paillier encryption, decryption and homomorphic addition agree with arithmetic modulo n for every operand, and so do the modular power and product utilities.",
 ["inputs", "histories", "fault_sequences"], "all keys, message values (0, 1, n-1, multiples of a factor, n and above, short and over-long encodings), histories of homomorphic operations and message deliveries",
 "the tests round-trip one or two messages per key size",
 [ML, BN, MLI], [("CRT recombination", ML + ": RSA.decrypt_CRT"), ("modular exponentiation", BN), ("fixed-width byte conversions", BN + ": to_bytes")],
 ["RSA.*", "DH.*", "Paillier.*"], NOTE + " zarith arithmetic is trusted.", "multi-party simulation over a faulty network; results checked with exact arithmetic")

prop("C09", "Results do not depend on when garbage collections happen",
 "A minor collection, a major collection or a compaction at any allocation made by the library leaves every result and every live object exactly as if it had not happened.",
 ["schedules", "inputs"], "all placements of minor, major and compacting collections among the allocations of the primitives and between calls",
 "in a test run a collection practically never falls on the few allocations inside the C primitives",
 [ML, "src/stubs-*.c", BN], [("GC roots registered around allocations", "src/stubs-*.c: CAMLparam/CAMLlocal"), ("custom blocks holding context pointers", "src/stubs-*.c")],
 ["every public function"], NOTE, "collection injected at seeded allocation points (memory of the old heap poisoned), results compared with the reference")

prop("C10", "Independent objects used from different threads do not disturb each other",
 "When several threads each use their own objects, every thread's results are the ones it would get alone, for every schedule, including switches inside library calls and in blocking sections. Shared facilities such as the default generator keep their guarantees.",
 ["schedules"], "all interleavings of 2 to 3 threads at operation, allocation and blocking-section granularity",
 "no test uses threads",
 [ML, "src/stubs-*.c"], [("no mutable state shared between objects", ML + ", src/*.c"), ("blocking sections copy what they need", "src/stubs-*.c")],
 ["every public function"], NOTE + " Switch points: between operations, OCaml allocations (Memprof callbacks), stub allocations, blocking sections. Threads are real but only one holds the simulator's baton.", "seeded thread scheduler with preemption at allocation points and blocking sections")

prop("C11", "A failed allocation or an interruption leaves the rest of the system sound",
 "When an allocation fails or an asynchronous exception strikes inside any library call, the exception is reported, no memory is corrupted, the affected object can be wiped and dropped, nothing stays allocated, and all other objects and all later work behave as if it had not happened.",
 ["fault_sequences", "crash_points"], "all allocation points and all interruption points of every operation",
 "no test makes an allocation fail or interrupts a call",
 [ML, "src/stubs-*.c"], [("error checks after allocation", "src/stubs-zlib.c, src/stubs-*.c"), ("finalisation of custom blocks", "src/stubs-*.c")],
 ["every public function"], NOTE + " Small OCaml heap allocations cannot fail in this runtime and are not injected.", "failing allocations and asynchronous exceptions at seeded points, then re-execution and leak accounting")

prop("C12", "Nothing outlives its object: no memory or descriptor is kept",
 "Once an object is dropped, whether it was used to completion, abandoned midway, wiped once or wiped repeatedly, all memory outside the OCaml heap that the library allocated for it is released, exactly once.",
 ["histories"], "all histories of creation, partial use, wiping and dropping",
 "tests do not measure memory", [ML, "src/stubs-*.c"], [("finalisers and explicit release on wipe", "src/stubs-sha3.c, src/stubs-zlib.c, src/stubs-blake3.c, src/stubs-ghash.c ...")],
 ["every class with a wipe method"], NOTE, "accounting of every C-heap block over simulated object lifetimes")

prop("C13", "Wiping leaves no secret behind",
 "After an object is wiped, or a key is erased, or a function that promises to erase returns, nothing reachable from it, nothing the library keeps elsewhere and nothing it freed depends on the keys or data it processed. Strings that belong to the caller are left alone.",
 ["inputs", "histories"], "all objects, points in their history at which wipe is called, and pairs of secrets",
 "no test looks at memory after wipe", [ML, "src/stubs-*.c", BN], [("wipe methods", ML), ("wipe_bytes / wipe_string", ML), ("Bn.wipe", BN)],
 ["#wipe", "RSA.wipe_key", "Paillier.wipe_key", "DH.shared_secret", "hash_string, transform_string and relatives"], NOTE + " Two executions that differ only in secrets are compared (noninterference over reachable memory); garbage left in the OCaml heap by buffer growth is outside the claim.", "paired simulated executions with differing secrets; comparison of reachable and freed memory")

prop("C14", "Results do not depend on which CPU features are present",
 "Every operation gives the same results, errors and state evolution on processors with or without AES and carry-less multiplication instructions, and in portable builds that do not use them.",
 ["configurations", "inputs", "histories"], "all combinations of the CPU features the library looks for, all operations",
 "the tests exercise only the path of the machine they run on", ["src/aesni.c", "src/pclmul.c", "src/stubs-aes.c", "src/stubs-ghash.c", ML],
 [("CPUID dispatch", "src/aesni.c, src/pclmul.c"), ("two implementations of AES and GHASH", "src/rijndael-alg-fst.c, src/ghash.c")], ["Cipher.aes", "MAC.aes*", "AEAD.aes_gcm", "Random.pseudo_rng*"], NOTE + " The simulated CPUID decides the path; the event logs of the same seed are compared across processors.", "same seed on seven simulated machines (six processors and a portable build); logs must be identical")

prop("C15", "Malformed or truncated input is refused, and alike for every fragmentation",
 "Decoding hexadecimal or Base64 text, removing padding or decompressing accepts exactly the well-formed inputs and returns their unique decoding; everything else is refused with the documented exception, whether the damage is at the start, in the middle, at a fragment boundary or a truncation. The verdict does not depend on how the input is cut.",
 ["inputs", "fault_sequences", "histories"], "all corruptions (flips, cuts, insertions, garbage) of well-formed messages and all fragmentations",
 "one or two malformed inputs per decoder, in one piece", [ML, "src/stubs-zlib.c"], [("decoders' finish checks", ML + ": Hexa, Base64"), ("padding strip", ML + ": Padding"), ("inflate end-of-stream detection", ML + ": Zlib")],
 ["Hexa.decode", "Base64.decode", "Padding.*", "Zlib.uncompress"], NOTE, "corruption injected in transit, decoding twice under different schedules, verdict compared with reference decoders")

prop("C16", "Pseudo-random generators are exact, gap-free streams of their seed",
 "A seeded generator produces the documented stream determined by its seed, independently of how the requests are cut and of what other generators do; it never repeats, skips or reuses bytes and writes only the requested range. Seeds that are too short are refused.",
 ["inputs", "histories", "schedules"], "all seeds, request sizes and offsets, and interleavings of generators",
 "tests look at a few requests", [ML, "src/stubs-chacha20.c", "src/stubs-aes.c"], [("pseudo_rng, pseudo_rng_aes_ctr", ML + ": Random")], ["Random.pseudo_rng", "Random.pseudo_rng_aes_ctr"], NOTE, TR)

prop("C17", "Block-cipher counter modes never reuse key stream",
 "A block-cipher counter-mode stream never produces two output blocks from the same counter value. With a counter of n bytes it counts across exactly these n bytes without touching the rest of the initial vector, refuses with Message_too_long once the counter space is used up, and keeps refusing without producing output. Up to that point the output is the standard's.",
 ["inputs", "histories"], "all block ciphers, counter widths and starting counters, fragmentations, and histories up to and beyond exhaustion (wide counters are started near their carries)",
 "tests never reach the end of a counter", [ML, MLI], [("counter arithmetic and exhaustion test", ML + ": class ctr, increment_counter")], ["Cipher.CTR_N", "Cipher.CTR", "Block.ctr"], NOTE + " Exhaustion is reached for 1- and 2-byte counters; wider counters are driven over their carries only.", "simulated long histories (counters started near their end), recorded keystream blocks checked for reuse")

prop("C18", "Ranges, offsets and sizes outside the allowed are refused without damage",
 "Every public entry point that takes a buffer with offset and length, a key, an IV or a size refuses invalid values with an exception (Invalid_argument or the documented error), before reading or writing any memory outside the given ranges and before changing the object or its neighbours: after the refusal the object continues as if the call had not been made. Valid calls touch exactly the ranges given. A character code outside 0..255 is refused likewise or stands for its low eight bits.",
 ["inputs", "histories"], "all offsets and lengths (negative, past the end, overflowing), key and IV sizes, output sizes, on all entry points and states",
 "tests only make valid calls", [ML, MLI, "src/stubs-*.c"], [("range checks before C calls", ML)], ["every method taking (bytes, offset, length)", "every constructor"], NOTE + " Buffers sit in ASan-guarded memory.", "simulated misuse faults against guarded buffers, next to a legitimate neighbour that must stay intact")

prop("C19", "Compression is lossless, and flushing makes everything given so far decodable",
 "Decompressing what was compressed gives back the input, for every level, header choice, fragmentation and flush schedule. After any flush, repeated or not, the output so far decodes to everything given so far. Where the library is built without zlib, every request is refused with Compression_not_supported.",
 ["inputs", "histories", "schedules"], "all data (compressible or not), levels, header options, fragmentations, flush points including consecutive flushes",
 "a few strings, one flush at most", [ML, "src/stubs-zlib.c"], [("deflate/inflate driving loops", ML + ": Zlib"), ("stream objects", "src/stubs-zlib.c")], ["Zlib.compress", "Zlib.uncompress"], NOTE + " The oracle is an independent inflate implementation.", TR)

prop("C20", "Comparisons and tag verification take a time independent of the contents",
 "The execution time of string_equal and bytes_equal is determined by the lengths of their arguments alone: arguments of the same lengths that give the same answer take the same time, wherever and in how many places they differ. In particular the time a receiver takes to refuse a packet does not depend on which bytes of its tag are wrong. The answers are those of equality.",
 ["inputs", "histories"], "all contents of the same lengths and all positions of differences; all forged tags for the same text",
 "tests check the answer, not the time", [ML, MLI], [("comparison that looks at every byte", ML + ": seq_equal"), ("tag verification", ML + ": auth_check_transform_string")],
 ["string_equal", "bytes_equal", "auth_check_transform_string"], NOTE + " Time is the number of instructions executed (single-stepped processor), not wall-clock time: caches, pipelines and the ciphers' own table lookups are outside the claim.", "simulated clock that counts retired instructions; paired executions whose contents differ must take the same simulated time")

prop("C22", "Streams of any length are processed in bounded memory",
 "While a transform, hash, MAC, authenticated transform or generator processes a stream whose output is taken as it comes, the memory the object and the library hold depends on its parameters, on the size of the fragments and on the output not yet taken, not on how much has been processed.",
 ["inputs", "histories"], "all objects, fragmentations and ways of taking the output, over streams of any length",
 "tests process short messages and do not measure memory", [ML, "src/stubs-*.c"], [("output buffers that make room by shifting before they grow", ML + ": class buffered_output"), ("constant-size contexts", "src/stubs-*.c")],
 ["every transform, hash and generator class"], NOTE, "simulated long streams; memory reachable from the objects, the OCaml heap and the C heap measured against a bound in the largest fragment and the pending output")

NA = [
 ("C21", "Generated randomness and primes are of good statistical quality", "Random bytes are unpredictable and generated primes are close to uniformly distributed, and numbers accepted as prime are prime except with negligible probability.", ["inputs"], "all outputs", "a statistical statement", [ML, BN], [("prime search", BN)],
  "A statement about probability distributions, not about any execution: no schedule or fault sequence violates it, so seeded search has no oracle for it (C06 and C07 decide the operational part: provenance, freshness and quantity of the bytes used)."),
]
props = [p for p, _, _ in P]
for id, t, s, o, tx, why, f, m, r in NA:
    props.append(dict(id=id, title=t, statement=s, quantifier=dict(over=o, text=tx), why_tests_cant=why, anchors=dict(files=f, mechanism=[dict(name=a, where=b) for a, b in m])))
with open(HERE + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py setup",
 "hooks": {"guard": "CRYPTOKIT_SIM", "enable": "build.py compiles /repo's C sources with -DCRYPTOKIT_SIM in a scratch directory (RDRAND and CPUID then come from the simulator); all other seams are link-time wraps and force-included macros that need no change in /repo", "source_commits": ["b52182c"]},
 "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
   "technique": "deterministic simulation with fault injection: " + t, "level": "exploration", "level_note": n} for p, t, n in P],
 "not_applicable": [{"property": x[0], "reason": x[8]} for x in NA]}
json.dump(man, open(HERE + "/MANIFEST.json", "w"), indent=1)
