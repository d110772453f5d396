"""The table behind properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (python3 tools/gen.py)."""
SRC = "falcon/nistfalcon/src/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, design, note, observe=(), thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, design=design,
                  note=note, observe=list(observe), thorough=thorough))


LL = ("Symbolic execution of the LLVM IR that clang produces from the current sources (lib/llsym.py), decided by z3; every counterexample "
      "is replayed on a native ASan/UBSan build before it is reported")
TRUST = "Trusted: clang's translation to IR, the IR interpreter in lib/llsym.py, z3, the specification in the harness. "

prop("C01", "Fixed-width key codecs are exact inverses and reject bad encodings",
     "Encoding a vector of in-range public-key or secret-key coefficients and decoding the bytes returns the same vector, with the documented number of bytes consumed and produced. "
     "Decoding succeeds only on canonical encodings: every coefficient in range, unused bits zero, input long enough; otherwise it fails. "
     "Neither direction touches memory outside the documented buffers.",
     ["inputs", "configurations"], "every coefficient vector and every byte string of the encoded length, per degree and field width",
     "The known-answer tests only decode what the encoder produced for honest keys; no malformed encoding is ever offered.",
     [SRC + "codec.c"], [("14-bit public-key packing", SRC + "codec.c modq_encode/modq_decode"), ("16-bit variant", SRC + "codec.c modq_encode16/modq_decode16"),
                         ("fixed-width signed packing", SRC + "codec.c trim_i16_*/trim_i8_*")],
     "modq_encode/decode, modq_encode16/decode16, trim_i8/trim_i16 encode/decode are run on symbolic buffers; the specification is an independent bit-level reading of the encoding. "
     "Bounds: degrees 2..8 fully symbolic plus degree 512 with symbolic windows at the ends; widths 5..8; buffer sizes one short, exact and one long.",
     "Every value of every coefficient/byte within the stated degrees and windows. " + TRUST)
prop("C02", "The compressed signature codec is canonical and bounded",
     "A signature vector within the coefficient range encodes to one byte string that decodes to the same vector; the encoder reports the exact length or failure and never exceeds the buffer. "
     "The decoder accepts only canonical strings (no negative zero, magnitudes within range, zero padding bits) and never reads past the given length, so no two strings decode to the same vector.",
     ["inputs", "configurations"], "every coefficient vector and every byte string up to the stated lengths",
     "Known-answer tests only exercise strings produced by the signer; malleability and truncation are never offered.",
     [SRC + "codec.c"], [("Golomb-Rice encoder", SRC + "codec.c comp_encode"), ("decoder with canonicality checks", SRC + "codec.c comp_decode")],
     "comp_encode and comp_decode are run on symbolic vectors and symbolic bytes for small degrees, forking on the unary runs, against a bit-level specification; plus degree 512 windows.",
     "All vectors/byte strings of the stated small sizes; larger ones through windows. " + TRUST)
prop("C03", "The 16-bit signature decoding yields centred values and rejects the rest",
     "Decoding an expanded signature succeeds exactly when every 16-bit group is below the modulus, and gives the centred representative of each group. "
     "Encoding a centred vector and decoding it is the identity.",
     ["inputs", "configurations"], "every 16-bit group at every position within the stated degrees",
     "The tests decode only honest signatures, in which no group is near 2^15 or above the modulus.",
     [SRC + "codec.c"], [("decoder with range check", SRC + "codec.c comp_decode16"), ("encoder", SRC + "codec.c comp_encode16")],
     "comp_encode16/comp_decode16 on symbolic vectors and bytes, degrees 2..8 and windows of 512.",
     "All 16-bit values at each symbolic position. " + TRUST)
prop("C04", "Opening a signed message accepts only well-framed, verified input",
     "For every variant, opening accepts only if the public key has the right header and decodes, the lengths add up to the received length, the signature has the right header, decodes and consumes its whole body, and the verification equation holds for the nonce and message received. "
     "On acceptance the returned message and its length are exactly the message part of the input; a rejected input is never reported as accepted. "
     "No byte outside the input and output buffers is touched, whatever the input.",
     ["inputs", "configurations"], "every signed-message byte string of the lengths explored, every public key header, every outcome of decoding, hashing and verification",
     "The KATs open honest signatures only; truncated, extended, mis-framed or oversized inputs are never offered.",
     [SRC + "nist.c", SRC + "nist16.c", SRC + "epervier16.c"],
     [("framing", SRC + "nist.c crypto_sign_open"), ("framing, expanded format", SRC + "nist16.c"), ("framing, recovery mode", SRC + "epervier16.c")],
     "The three sign_open functions, with and without the Keccak hash, run on fully symbolic inputs of each length class; decoders, hash and verification are contract stubs that may return anything their own contract (C01-C03, C07, C11, C13) allows and that check their arguments.",
     "All byte values for the signed-message lengths listed in the evidence. " + TRUST + "Callees are stubs constrained by their own properties.")
prop("C11", "Verification computes the Falcon equation for every input",
     "Given a hashed message c, a signature vector s2 and a public key h, verification recomputes s1 = c - s2*h in the ring modulo q and x^n+1, centres it, and accepts exactly when the pair (s1, s2) is within the norm bound. "
     "This holds for every vector of the documented ranges, at every supported degree.",
     ["inputs", "configurations"], "all 3n coefficients over their whole ranges, simultaneously",
     "A known-answer test fixes a handful of honest vectors; an arithmetic error that needs rare coefficient values passes all of them.",
     [SRC + "vrfy.c"], [("NTT, modular arithmetic, final centring", SRC + "vrfy.c verify_raw, mq_NTT, mq_iNTT"), ("public key conversion", SRC + "vrfy.c to_ntt_monty")],
     "The compiled verification is executed with every coefficient symbolic at n=512 (thorough: all degrees). Each scalar modular helper is first proved by z3, for all operands, to be the modular addition, subtraction, halving or (Montgomery) product; residues then become polynomials over Z_q in the inputs and the results must equal the schoolbook product identically (lib/alg.py). Tables of roots are read from the compiled code.",
     "All coefficients of all operands at once, at degree 512. " + TRUST + "The norm predicate is C14.")
prop("C12", "Public-key derivation and secret-key completion are correct",
     "The public key computed from a secret pair (f, g) is g/f in the ring, and derivation fails exactly when f is not invertible. "
     "Completing a secret key from (f, g, F) yields the G determined by the NTRU relation and fails exactly when it does not fit the stored width.",
     ["inputs", "configurations"], "all coefficients of f, g and F over their whole range",
     "Tests use a few generated keys, always invertible and always in range.",
     [SRC + "vrfy.c"], [("division in NTT form", SRC + "vrfy.c compute_public"), ("G = gF/f with range check", SRC + "vrfy.c complete_private")],
     "As C11: symbolic coefficients, proved scalar helpers, polynomial identities; the inverse by exponentiation is related to division by Fermat's theorem; zero divisors are a symbolic case.",
     "All coefficients at the stated degrees. " + TRUST)
prop("C13", "The key-recovery verification modes compute the right key and predicate",
     "In key-recovery mode, verification accepts exactly when the second half of the signature is invertible and the vectors are short, and it recovers h = (c - s1)/s2. "
     "The hint carried by a recovery signature equals the product of the transform values of s2, and counting non-invertible positions or testing invertibility gives the exact answer.",
     ["inputs", "configurations"], "all coefficients of all operands over their whole range",
     "The recovery modes are exercised only by a KAT on honest signatures, with s2 always invertible.",
     [SRC + "vrfy.c"], [("recovery", SRC + "vrfy.c verify_recover, verify_recover_epervier"), ("hint", SRC + "vrfy.c hint_epervier"), ("invertibility", SRC + "vrfy.c is_invertible, count_nttzero")],
     "As C11, for the recovery entry points.",
     "All coefficients at the stated degrees. " + TRUST)
prop("C14", "The norm test accepts exactly the vectors within the bound",
     "A signature is considered short exactly when the true squared Euclidean norm of its two halves is at most the bound of its degree, with no wrap-around for any coefficient values. "
     "The two-step form, given a partial norm, agrees with it, and a saturated partial norm is never short.",
     ["inputs", "configurations"], "every 16-bit value of the symbolic coefficients, including those whose square sum overflows 32 bits",
     "Honest signatures are far below the overflow region and never exactly at the bound.",
     [SRC + "common.c"], [("squared norm with saturation", SRC + "common.c is_short, is_short_half")],
     "is_short/is_short_half run with two or three symbolic coefficients at both ends of the vectors, the others constant so that the sum crosses the bound or 2^31; compared with a 64-bit sum.",
     "All values of the symbolic coefficients; the remaining ones are fixed. " + TRUST)

PY = "pythonref/"
PTRUST = "Trusted: CPython, the proxy integers and bytes of lib/pysym.py, the stubs of outside packages, z3, the specification in the harness. "
prop("P01", "Python: signature compression is canonical and total",
     "Compressing a vector of signature coefficients gives a string of exactly the requested length that decompresses to the same vector, or fails exactly when the encoding does not fit. "
     "Decompressing any byte string either returns False or the coefficients the bits spell out; it refuses strings that are too long, truncated, contain a negative zero or have non-zero bits after the last coefficient, and never raises.",
     ["inputs"], "every vector of up to 3 coefficients and every byte string of the lengths explored",
     "The known-answer tests only round-trip honest signatures; empty, truncated and non-canonical strings are never offered.",
     [PY + "encoding.py"], [("compression", PY + "encoding.py compress"), ("decompression", PY + "encoding.py decompress"), ("16-bit groups", PY + "encoding.py decode16")],
     "compress and decompress run on symbolic coefficients and bytes; the unary parts fork; every path is compared with an independent reading of the bits.",
     "All byte strings of up to 4 (thorough: 6) bytes and 3 (thorough: 4) coefficients, all values up to +-2047, and one symbolic coefficient in a degree-512 vector. " + PTRUST)
prop("P03", "Python: the hash-based PRNG streams do not depend on chunking",
     "KeccakPRNG and Blake2sPRNG output, for any sequence of inputs and reads, the stream H(s||0), H(s||1), ... of 64-bit big-endian counters, where s is the hash of the concatenated input, consumed in order without gaps or repetitions; KeccaXOF likewise outputs the chained hash stream. "
     "Input past the documented buffer, input or finalisation after finalisation, and reading before it are refused.",
     ["inputs", "histories"], "every input byte, every split of the input and every sequence of read lengths within the bounds",
     "The tests read one or two fixed lengths; an error in buffered leftovers needs a particular sequence of lengths.",
     [PY + "keccak_prng.py", PY + "blake2s_prng.py", PY + "keccaxof.py"],
     [("counter stream", PY + "keccak_prng.py KeccakPRNG.extract"), ("input buffer", PY + "keccak_prng.py KeccakPRNG.inject"), ("Blake2s variant", PY + "blake2s_prng.py"), ("chained variant", PY + "keccaxof.py")],
     "The classes run on symbolic bytes with the hash as an unknown function; sizes of inputs and reads are free choices within ranges; the bytes returned must be those of the specified stream.",
     "Two to four reads of up to 36 (thorough: 70) bytes, two or three inputs of up to 40 bytes and around the buffer limit. " + PTRUST + "The hash functions are unknown functions.")
prop("P04", "Python: Keccak-f[1600], the sponge and SHAKE follow FIPS 202",
     "The permutation implemented in keccak.py is Keccak-f[1600] on every state. KeccakHash and SHAKE output the sponge of the concatenated input with the right padding, whatever the lengths of the pieces absorbed and squeezed.",
     ["inputs", "histories"], "every 1600-bit state; every input byte, split and read length within the bounds",
     "Test vectors cover a few messages absorbed in one or two pieces.",
     [PY + "keccak.py", PY + "shake.py"], [("permutation", PY + "keccak.py Keccak.F1600"), ("sponge", PY + "keccak.py KeccakHash"), ("SHAKE wrapper", PY + "shake.py")],
     "The permutation runs on 1600 unknown bits in XOR normal form (lib/gf2.py: canonical, so equality of normal forms is equality of functions) against a specification written from FIPS 202; the sponge runs on symbolic bytes with the permutation unknown.",
     "All states; lengths up to two blocks + 2, splits across block boundaries, rates 72, 136, 168. " + PTRUST)
prop("P05", "Python: hash_to_point is the specified rejection sampling",
     "hash_to_point absorbs the salt (hashed first for Blake2s) and then the message, and maps the stream to the n first 16-bit big-endian groups below 5q, reduced modulo q, in order, for each of the hash functions offered.",
     ["inputs"], "every stream of draws within the bounds, every salt and message byte",
     "A few fixed messages are hashed by the tests; a boundary value (5q-1, 5q) occurs once in 65536 draws.",
     [PY + "falcon.py"], [("rejection sampling", PY + "falcon.py hash_to_point")],
     "hash_to_point runs on a stream of symbolic bytes (a caller-supplied XOF), and on the real XOF classes over unknown hash functions.",
     "Degrees 2..8 with 8 (thorough 11) free draws, 512 and 1024 with a window of 5. " + PTRUST)
prop("P06", "Python: key codecs are exact inverses and refuse bad keys",
     "Encoding public-key coefficients (14 bits) or secret-key coefficients (5 to 8 bits, signed) and decoding gives the same vector; coefficients out of range, short inputs, values >= q, the value -2^(w-1) and "
     "non-zero spare bits are refused. PublicKey.from_bytes accepts exactly the keys whose header, length and coefficients belong to Falcon-512 or Falcon-1024, and reads back what encode_public_key writes; "
     "decoding a NIST secret key yields f, g, F as encoded and the G that completes them modulo q.",
     ["inputs"], "every coefficient vector and byte string of small degree; windows of full-size keys; every header and the lengths around both parameter sets",
     "The tests decode honest known-answer keys only, and no Falcon-1024 key.",
     [PY + "falcon_codec.py", PY + "falcon.py", PY + "scripts/generate_kat_rsp.py"],
     [("14-bit packing", PY + "falcon_codec.py modq_encode/modq_decode"), ("signed packing", PY + "falcon_codec.py trim_i8_encode/trim_i8_decode"), ("completion", PY + "falcon_codec.py complete_private"),
      ("public key parsing", PY + "falcon.py PublicKey.from_bytes"), ("NIST key formats", PY + "scripts/generate_kat_rsp.py encode_public_key, decode_secret_key_nist")],
     "The codecs run on symbolic coefficients and bytes against a bit-level reading of the formats; full-size keys have symbolic windows.",
     "Degrees 1..4 (thorough 8) fully symbolic; 512 and 1024 with windows. " + PTRUST + "The polynomial package is a stub.")
prop("P07", "Python: verification is the Falcon predicate; signing emits only what meets it",
     "PublicKey.verify accepts exactly when the encoding after the salt is valid and the centred pair (c - s1*h, s1), c being the hash of the message with the salt, is within the norm bound of the degree. "
     "SecretKey.sign returns the header, the salt used for hashing and the encoding of the first sampled preimage that is short and encodable, each attempt driven by fresh randomness of the chosen source.",
     ["inputs", "histories"], "every coefficient, residue, salt and message byte; every outcome of decoding, compression and sampling",
     "Tests sign and verify honest messages; a sample at the bound, a failed compression or a second attempt practically never occurs in them.",
     [PY + "falcon.py"], [("verification predicate", PY + "falcon.py PublicKey.verify"), ("signing loop and layout", PY + "falcon.py SecretKey.sign")],
     "verify and sign run with hashing, sampling and compression replaced by free values; polynomial products are free residues shared by both sides; the answer and the emitted bytes are compared with the predicate.",
     "Degree 2 (thorough 4) fully symbolic, 512 and 1024 with windows; up to two free samples. " + PTRUST + "The polynomial package is a stub (ring operations).")
prop("P13", "Python: recovery modes return the address of the only key that fits",
     "In both recovery modes, recover returns the address (Keccak-256, last 20 bytes) of h = (c - s0)/s1 exactly when the encoding is valid, the hint is the reduced inverse of s1 and (s0, s1) is short; otherwise False. "
     "verify accepts exactly when a key is recovered and has the expected address. sign emits header, salt, encoding and inverse of the first sample that is short, invertible and encodable; the secret key's address is that of its public key.",
     ["inputs", "histories"], "every coefficient, hint byte, residue and address; every outcome of decoding, hashing, compression and sampling",
     "The tests recover from honest signatures; wrong or non-canonical hints, undecodable strings and special addresses are never offered.",
     [PY + "falcon_recovery.py", PY + "falcon_epervier.py"],
     [("recovery predicate", PY + "falcon_recovery.py RecoveryModePublicKey.recover"), ("transform-domain variant", PY + "falcon_epervier.py EpervierPublicKey.recover"), ("signing", PY + "falcon_epervier.py EpervierSecretKey.sign")],
     "As P07, with the Keccak permutation as an unknown function.",
     "Degree 2 (thorough 4) fully symbolic; key addresses also at degree 8. " + PTRUST + "The polynomial package is a stub (ring operations and transform).")

prop("P08", "Python: exact integer parts of the Gaussian samplers",
     "basesampler counts the table entries above a 72-bit random value; approxexp evaluates the FACCT polynomial with truncation; berexp accepts exactly when a lazily drawn 64-bit fraction is below the probability; "
     "samplerz returns the first accepted signed candidate shifted by the integer part of the centre. mkgauss sums table-driven signed samples; polynomials drawn with it lie within +-127 and have an odd coefficient sum.",
     ["inputs", "histories"], "every random byte, every outcome of acceptance, every sequence of samples",
     "The known-answer tests follow a few seeds; table boundaries, ties of the lazy comparison and redraws are hit by chance only.",
     [PY + "samplerz.py", PY + "mkgauss.py"],
     [("base sampler", PY + "samplerz.py basesampler"), ("Bernoulli trial", PY + "samplerz.py berexp, approxexp"), ("rejection loop", PY + "samplerz.py samplerz"), ("key coefficients", PY + "mkgauss.py mkgauss, poly_small_mkgauss")],
     "The samplers run on free random bytes against table look-ups written in the harness; approxexp on free fixed-point numbers; the parts below the one examined are replaced by free values.",
     "All random bytes; centres and deviations from a list, since floating point is not symbolic; two attempts, up to 6 coefficients. " + PTRUST)
prop("P11", "Python: the ChaCha20 generator is the reference stream",
     "The generator's output is ChaCha20 keyed by the seed words with the counter words mixed in, eight blocks interleaved word by word, the 64-bit counter advancing by one per block and wrapping; "
     "requested bytes are handed out in order, a request larger than what is left dropping the rest of the buffer.",
     ["inputs", "histories"], "every seed, counters across the 32- and 64-bit wrap, every read size up to 512",
     "Tests use few seeds whose counters never cross 2^32 and do not vary the read sizes.",
     [PY + "rng.py"], [("block function", PY + "rng.py ChaCha20.update, qround"), ("interleaving and buffer", PY + "rng.py block_update, randombytes")],
     "The real generator runs on a symbolic key and is compared with ChaCha20 written in the harness; the buffer is checked with free block words.",
     "All 384 key bits, two counters (wraps); up to five reads. " + PTRUST)
prop("P12", "Python: AES-256 CTR_DRBG follows SP 800-90A",
     "Instantiation from 48 bytes of entropy (given or drawn) and up to 48 bytes of personalisation, generation of any number of bytes with optional additional input, and the state update after every request, are those of CTR_DRBG "
     "without derivation function, the 128-bit counter wrapping; other lengths are refused and output stops after 2^48 requests.",
     ["inputs", "histories"], "every seed, personalisation and additional input; lengths around block and seed sizes; request sequences",
     "The known-answer tests use one request pattern, no personalisation, no additional input.",
     [PY + "drbg/aes256_ctr_drbg.py"], [("instantiate, update, generate", PY + "drbg/aes256_ctr_drbg.py AES256_CTR_DRBG")],
     "The class runs over AES as an unknown function and is compared with CTR_DRBG written in the harness.",
     "Up to three (thorough five) requests of up to 64 bytes. " + PTRUST + "AES is an unknown function.")
prop("P15", "Python: BLAKE2s compression and the hash of field elements",
     "blake2s_compress is the compression function of RFC 7693 for every state, message, counter and flag; the hash of field elements encodes each element (2 words below 2^63 or 8 words with the top flag when encoding, else 8), in the chosen word order, "
     "pads and counts blocks as BLAKE2s does and reduces the digest modulo the prime.",
     ["inputs"], "every chaining value and message; every list of elements within the bounds",
     "Tests hash a handful of lists.",
     [PY + "blake2s/blake2s.py"], [("compression", PY + "blake2s/blake2s.py blake2s_compress"), ("field elements", PY + "blake2s/blake2s.py calculate_blake2s_hash_from_felt252s")],
     "The compression function runs on free words; the felt hash runs over the compression as an unknown function with free elements.",
     "Up to 7 (thorough 12) elements, 9 small ones. " + PTRUST)

NA = [
    ("Z01", "Signatures follow the discrete Gaussian the security proof needs",
     "The distribution of signatures produced with a uniform seed is statistically close to the specified lattice Gaussian, so signatures leak nothing about the secret key.",
     "A statement about a probability distribution over floating-point computations; it is not an assertion over bounded executions that an SMT solver can decide.",
     ["falcon/nistfalcon/src/sign.c", "pythonref/samplerz.py"]),
    ("Z02", "Signing takes time independent of the secret key",
     "The time and memory access pattern of signing and key expansion do not depend on secret values.",
     "A hyperproperty of the compiled machine code and processor; the sources' symbolic execution says nothing about the instructions actually emitted, and the Python and Solidity parts make no such claim.",
     ["falcon/nistfalcon/src/sign.c"]),
]
