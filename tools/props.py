import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
BN="src/com/bignumber.c"
p("C01","Big-number add, subtract, multiply, shift and compare are exact",
 "Every successful big-number addition, subtraction, multiplication, squaring, doubling, addition/subtraction/multiplication by a machine word, left/right shift and comparison yields exactly the mathematical integer result (shifts act on the magnitude), for operands of every size and sign and also when the result object is an operand of an addition, subtraction or doubling. The same holds for the additions and subtractions of magnitudes in place, and the observers (length, capacity, low words, highest bit, zero/one/two/even/negative tests) report the value. The result is left in normal form (no leading zero words), and a zero result compares equal to zero whatever its history.",
 ["inputs","histories"],"all operand values, signs and lengths, word boundary patterns (carry/borrow chains, all-ones words), and all chains of operations feeding results to later operations",
 "The tests print most big-number results without checking them and check only a handful of fixed values; carry/borrow propagation, negative word operands, zero and sign corner cases depend on rare word patterns.",
 [BN,"src/include/racrypt_bn.h"],[("number value","sign and magnitude words of a big number","struct RaBigNumber in src/include/racrypt_bn.h")],
 [("magnitude add/sub with carry","_BnAdd/_BnSub/_BnAddUInt/_BnSubUInt in "+BN),("schoolbook product","BnMul/BnSqr in "+BN),("shifts","BnShiftL/BnShiftR in "+BN)],
 ["return of each big-number call: result sign, length and words"])
p("C02","Big-number division and remainder satisfy the division identity",
 "Full division returns quotient and remainder with dividend = quotient*divisor + remainder, quotient rounded down (floored) whenever both are given as signed numbers, and remainder smaller in magnitude than the divisor; remainder-only gives the remainder of the magnitudes with the dividend's sign. Division or remainder by a machine word gives the exact truncated magnitude quotient and the non-negative magnitude remainder. The results may be stored in the dividend or the divisor; all other operands keep their values.",
 ["inputs"],"all dividends and non-zero divisors of all lengths and signs, including quotient-digit overestimates, divisors whose top word is a power of two, equal operands, and divisor longer than dividend",
 "The quotient-digit correction steps run for about one in 2^63 random operands; tests use few fixed values and print remainders without checking.",
 [BN],[("quotient/remainder","values of the two results","BnDiv, BnMod, BnDivInt, BnDivUInt, BnModUInt in "+BN)],
 [("normalised long division with digit estimate","BnDiv/BnMod in "+BN),("double-word division","_BnDiv128 in "+BN)],["return of each division/remainder call"])
p("C03","Big-number byte encodings are exact, minimal and mutually inverse",
 "Decoding big-endian bytes as two's-complement or as unsigned gives exactly the encoded integer; encoding gives the minimal two's-complement big-endian form, or a zero-padded fixed-width unsigned form for non-negative numbers. Asking for the length without a buffer returns exactly the number of bytes that encoding needs, an insufficient buffer or an unrepresentable number yields 0, and decode after encode is the identity.",
 ["inputs"],"all byte strings (leading 00/FF runs, sign bytes, word-boundary lengths) and all integers, positive and negative, and all buffer sizes",
 "The tests convert a few fixed positive values; negative numbers, sign-byte boundaries and partial top words are not covered.",
 [BN],[("number value","integer denoted by bytes","_BnSetByteArray, BnToByteArray, BnToFixedByteArray in "+BN)],
 [("two's complement conversion","_BnSetByteArray/BnToByteArray in "+BN)],["return value and bytes of encode/decode calls"])
p("C04","Big-number results that do not fit are reported and never overrun storage",
 "With assertions compiled out, every big-number operation either succeeds with the exact result or reports the size error, and it succeeds whenever the result object has room for the result and for each operand (for a product: for the sum of the operands' bit lengths). In neither case does it read or write outside the storage of the objects involved. A number created for a size has at least that capacity, a copy at least that of its value, and a size of zero or less gives the documented default capacity.",
 ["inputs","configurations"],"all operand lengths against all capacities of the result object, assertions compiled out",
 "Tests always use generously sized results, and in the test build an undersized result aborts on an assertion instead of returning the documented error.",
 [BN],[("capacity","words allocated to a number","struct RaBigNumber.max_length")],
 [("capacity checks","entry of each Bn* operation in "+BN)],["return codes; memory outside the number's words (sanitized build)"])
p("C05","Greatest common divisor and modular inverses are exact",
 "For positive inputs the gcd computation returns the greatest common divisor, and the extended form returns coefficients a and b with a*m + b*n equal to it (in unsigned mode each returned coefficient is non-negative and congruent to such a coefficient modulo the other input). In particular, when the inputs are coprime the first coefficient is the inverse of the first input modulo the second. A single result may be stored in one of the inputs, and both inputs may be the same object.",
 ["inputs"],"all positive pairs: m<n, m=n, one dividing the other, common factors, very different lengths, consecutive Fibonacci-like pairs",
 "Tests try two or three pairs; the sign bookkeeping of the coefficients depends on the number of division steps and their quotients.",
 ["src/com/gcd.c",BN],[("gcd and coefficients","results of GetGCD/GetGCDEx","src/com/gcd.c")],[("Euclid's algorithm","GetGCD/GetGCDEx in src/com/gcd.c")],["results of the gcd calls"])
p("C06","Modular exponentiation is exact for every odd modulus",
 "For every odd modulus greater than one, every non-negative base that is not longer than the modulus, and every non-negative exponent, modular exponentiation returns exactly base^exponent mod modulus, reduced below the modulus, also when the result object is the base or the exponent or the modulus object is changed after the context was created. A modulus for which the method is undefined (zero, even) or a base longer than the modulus is reported as an error.",
 ["inputs","histories"],"all odd moduli (one word to many words, all-ones words, top-bit patterns), all bases up to the modulus length, all exponents including 0, 1, window boundaries and multi-word, and repeated use of one modulus context",
 "Tests exercise it only through RSA with random primes and exponent 65537 and never compare with an independent result.",
 ["src/com/montexpmod.c"],[("modulus context","precomputed constants of the modulus","struct RaMontCtx in src/com/montexpmod.c")],
 [("Montgomery reduction","MontREDC in src/com/montexpmod.c"),("sliding window","RaMontExpMod in src/com/montexpmod.c")],["result of RaMontExpMod"])
p("C07","The primality test never rejects a prime and rejects composites",
 "The primality test always terminates, accepts every prime, and rejects zero, one, negative numbers, even numbers above two and odd composites (for odd composites up to the stated Miller-Rabin error probability). Composites built to defeat weaker tests, such as Carmichael numbers, are rejected.",
 ["inputs"],"all integers: small primes, word-boundary sizes, Mersenne and other special primes, Carmichael numbers, squares, products of two close primes",
 "The tests only feed large random probable primes; small and boundary-size numbers, where witness selection is delicate, are never tried.",
 ["src/com/prime.c"],[("verdict","result of RaIsPrimeNumber","src/com/prime.c")],[("Miller-Rabin","CheckMillerRabin in src/com/prime.c")],["result of the primality test"])
p("C08","Prime generation yields primes of exactly the requested size",
 "Prime generation that succeeds and is not stopped returns a prime with exactly the requested number of bits, for every random stream, and is reproducible from an explicitly seeded generator. The progress callback is called once per candidate with increasing counts starting at one, and a non-zero return stops the generation.",
 ["inputs","histories"],"all bit sizes from 2 up, all seeds and generator algorithms, all callback decisions",
 "Tests generate a few large primes from the system seed and do not check size or primality independently; overflow of the candidate search happens for rare random streams.",
 ["src/com/prime.c",BN],[("candidate","number under test and search offset","GenProbablePrimeNumber in src/com/prime.c")],[("sieve by small primes","GenProbablePrimeNumber"),("random of given bit length","BnGenRandom/BnGetRandomRSA in "+BN)],["returned prime, callback invocations"])
p("C09","RSA encryption, decryption, signing and verification agree",
 "For every consistent key, encryption of m<n is m^e mod n, decryption and signing are c^d mod n, decryption undoes encryption and encryption undoes decryption. Verification accepts exactly the pairs with signature^e mod n equal to the message, reports anything else as invalid (never accepting because an internal step failed), and a public-only key refuses decryption and signing.",
 ["inputs","histories"],"all keys of all sizes, imported or generated, all messages including 0, 1, n-1 and values at or above n, all signatures including oversized ones, any order of operations on one key object",
 "Tests try one random message per generated key and never a wrong or oversized signature.",
 ["src/pk/rsa.c","src/com/montexpmod.c"],[("key","modulus and exponents","struct RaRsaKeyPair in src/pk/rsa.c")],[("exponentiation with the key","RaRsaEncrypt/Decrypt/Sign/Verify in src/pk/rsa.c")],["return codes and results of RSA operations"])
p("C10","RSA key generation and key verification agree on what a valid key is",
 "Every generated key has a modulus of exactly the requested number of bits that is the product of two distinct primes, a private exponent inverse to 65537 modulo (p-1)(q-1), and matching CRT components. Key verification accepts every such key, and rejects a private key in which any component was altered. With verification on import configured, importing accepts the keys that verification accepts and refuses every other.",
 ["inputs"],"all supported key sizes, all random streams, every single-component alteration of a valid key",
 "Tests check only freshly generated keys of a few sizes, never an inconsistent one.",
 ["src/pk/rsa.c"],[("key components","n,e,d,p,q,dp,dq,qinv","struct RaRsaKeyPair in src/pk/rsa.c")],[("key generation","RaRsaCreateKeyPair"),("consistency check","RaRsaVerifyKey")],["exported key components, verdict of RaRsaVerifyKey"])
p("C11","RSA key export is canonical DER and re-imports to the same key",
 "Exporting a private or public key yields exactly the DER encoding (PKCS#8 / SubjectPublicKeyInfo with minimal lengths and integers) of the key's numbers, and importing that encoding gives a key with the same numbers. The length query returns exactly the exported length, a buffer that is too small yields the buffer error without writing beyond it, and exporting a private key from a public-only key is refused.",
 ["inputs"],"all keys: every component size, top-bit patterns (leading 00), every DER length form boundary (127/128, 255/256, 65535), every buffer size",
 "Tests round-trip a few generated keys of fixed size; DER length-form and sign-byte boundaries depend on component sizes.",
 ["src/pk/rsa.c",BN],[("encoded key","DER bytes","RaRsaPrivKeyToByteArray/RaRsaPubKeyToByteArray in src/pk/rsa.c")],[("back-to-front DER writer","src/pk/rsa.c"),("length encoding","ASN1EncodeLength in src/pk/rsa.c")],["exported bytes, lengths, return codes"])
p("C12","Key import accepts well-formed keys exactly and rejects everything else",
 "Importing any byte string either fails with an error or yields a key holding exactly the integers encoded at the key positions of the BER structure that the bytes begin with (definite lengths in any form, or indefinite lengths), which carries the RSA algorithm identifier; a well-formed key is always accepted. It never reads outside the given bytes, crashes, hangs or leaks, whatever the bytes are.",
 ["inputs"],"all byte strings: truncations, over-long and non-minimal lengths, indefinite lengths, nesting, wrong tags, wrong algorithm identifiers, empty and huge integers, trailing bytes",
 "Tests import two valid keys only.",
 ["src/pk/asn1.c","src/pk/rsa.c"],[("parse position","element boundaries and nesting","struct RaAsn1Ctx in src/pk/asn1.c")],[("TLV parser","ASN1Parse/ASN1Read/ASN1Push/ASN1Pop in src/pk/asn1.c"),("key structure walk","RaRsaCreateKey* in src/pk/rsa.c")],["return code and re-exported numbers; memory outside the input (sanitized build)"])
p("C13","Block-cipher streaming does not depend on how the data is split",
 "For every block cipher, mode and direction, feeding a message in any sequence of pieces (including empty ones) produces the same output bytes as feeding it at once, each call returning exactly the bytes of the whole blocks it completes. The bytes are those of the standard ECB, CBC, full-block CFB and OFB modes over the block permutation, starting from the set IV (all-zero after initialisation).",
 ["inputs","histories"],"all ciphers, modes, directions, message lengths and all partitions of the message into calls, including in-place operation",
 "Tests stream only a few chunk sizes in CBC for some ciphers; the carry-over buffer has blocksize x chunk-length transitions per mode and direction.",
 ["src/cipher/block_cipher.c"],[("carry buffer","bytes accepted but not yet processed","struct RaBlockCipher in src/include/racrypt_cipher.h"),("chaining value","current IV","struct RaBlockCipher.iv")],
 [("buffering","RaBlockCipherEncrypt/Decrypt in src/cipher/block_cipher.c"),("mode step","RaBlockCipherEncryptBlock/DecryptBlock")],["return value and output bytes of each call"])
p("C14","Padding and finalisation are exact in every mode",
 "Finishing an encryption appends the selected padding (none: an incomplete block is discarded; zero: filled with zeros only if incomplete; PKCS#7: always 1 to blocksize bytes) and reports the exact output length; finishing a decryption with PKCS#7 strips exactly a valid padding and leaves invalid padding data unstripped. Encrypt-then-decrypt with PKCS#7 returns every message, including the empty one, and after finalisation no input bytes remain buffered.",
 ["inputs","histories"],"all ciphers, modes, paddings, message lengths modulo the block size, splits before the final call, and malformed padded data",
 "Tests use PKCS#7 one-shot on long messages; other paddings, empty and aligned inputs, and corrupt padding are not covered.",
 ["src/cipher/block_cipher.c"],[("carry buffer","incomplete block","struct RaBlockCipher")],[("pad and flush","RaBlockCipherEncryptFinal/DecryptFinal in src/cipher/block_cipher.c")],["return value and output of final calls"])
p("C15","IV state chains across calls and cipher contexts are cleanly reusable",
 "The readable IV of a cipher context is always the chaining value after the blocks processed so far (never changed in ECB), and it continues across finalisation. Setting an IV makes that IV the start value and drops incomplete input, and re-initialising a context makes it indistinguishable from a new one.",
 ["histories"],"all interleavings of initialise, set IV, get IV, encrypt, decrypt and finalise calls on one context, for all ciphers and modes",
 "Tests use each context for one message with one IV.",
 ["src/cipher/block_cipher.c","src/cipher/aes.c","src/cipher/des.c","src/cipher/seed.c","src/cipher/aria.c","src/cipher/blowfish.c"],
 [("chaining value","IV words of the context","struct RaBlockCipher.iv")],[("IV handling","RaBlockCipherSetIV/GetIV/Init in src/cipher/block_cipher.c")],["bytes returned by the IV getter, subsequent output"])
p("C16","AES, DES, 3DES, SEED, ARIA and Blowfish match their standards",
 "For every key of every supported size and every block, each block cipher computes the permutation defined by its standard (FIPS 197, FIPS 46-3, RFC 4269, RFC 5794, Blowfish with 1 to 56 byte keys), and decryption is its inverse. This holds for the portable and the hardware-accelerated implementation alike.",
 ["inputs","configurations"],"all keys, key sizes and blocks; portable and accelerated builds, both table variants",
 "Known-answer tests cover AES-128, DES, SEED, ARIA-128 and Blowfish with one key each; 192/256-bit schedules, 3DES variants and the portable AES code are only tested for self-consistency or not at all.",
 ["src/cipher/aes.c","src/cipher/aes_x86.c","src/cipher/des.c","src/cipher/seed.c","src/cipher/aria.c","src/cipher/blowfish.c"],
 [("round keys","expanded key","Ra*Init in src/cipher/*.c")],[("key schedules and rounds","src/cipher/*.c")],["ECB output of single blocks"])
p("C17","RC4 produces the standard keystream across any call pattern",
 "For every key of any positive length, the concatenated outputs of any sequence of calls equal the concatenated inputs xored with the RC4 keystream of that key; each call returns its length. Re-initialising restarts the keystream, and encryption and decryption are the same operation.",
 ["inputs","histories"],"all keys (1 to more than 256 bytes), message lengths and call splits, in-place use, reuse after initialisation",
 "Tests check one or two published vectors in one call.",
 ["src/cipher/rc4.c"],[("keystream state","permutation and two indices","struct RaRc4Ctx")],[("key schedule and output","RaRc4Init/_RaRc4 in src/cipher/rc4.c")],["output bytes and return values"])
D=["src/digest/md2.c","src/digest/md4.c","src/digest/md5.c","src/digest/sha1.c","src/digest/sha2.c","src/digest/has160.c"]
p("C18","Digests do not depend on how the message is split, and contexts are reusable",
 "For MD2, MD4, MD5, SHA-1, all SHA-2 variants and HAS-160, the digest after any sequence of updates (including empty ones) equals the one-shot digest of the concatenation. Re-initialising a context at any point, mid-message or after finishing, makes it behave as new, and distinct contexts do not influence each other.",
 ["histories","inputs"],"all partitions of messages into update calls, every buffer fill level times chunk length, re-initialisation at any point, interleaved contexts",
 "Tests update once or with two fixed splits; each digest has 64x128 or more buffer-fill/chunk-length transitions.",
 D,[("carry buffer","bytes not yet compressed","Ra*Ctx.buffer in src/include/racrypt_digest.h"),("total length","byte count","Ra*Ctx.totalLen*")],[("buffering","Ra*Update in src/digest/*.c")],["digest bytes"])
p("C19","Digests match their standards for every message length",
 "Each digest of every message equals the value defined by its standard (RFC 1319/1320/1321, FIPS 180-4, TTAS.KO-12.0011), for all lengths including empty, padding boundaries and messages beyond 512 MiB and 4 GiB. Finishing writes exactly the digest length of the algorithm.",
 ["inputs","configurations"],"all message contents and lengths, including block-boundary and bit-length-overflow lengths; unrolled and accelerated compression variants",
 "Tests check two short messages per digest; the padding branch boundaries and the length-carry code are never reached.",
 D+["src/digest/sha1_x86.c","src/digest/sha2_x86.c"],[("chaining value","hash state","Ra*Ctx.h")],[("compression and padding","Ra*Process/Ra*Final in src/digest/*.c")],["digest bytes and bytes beyond them"])
p("C20","The seeded random generator is a deterministic, chunk-independent stream",
 "For each generator algorithm, the byte stream is a function of the algorithm and seed only: it equals the documented hash chain over the seed and block counter, whatever sequence of request lengths draws it. Two generators with equal seeds give equal streams and do not influence each other.",
 ["inputs","histories"],"all four algorithms (and the default for unknown values), all seeds including empty, all request-length sequences crossing internal blocks",
 "Tests only print random numbers.",
 ["src/com/random.c"],[("output block and counter","current hash output, offset, block count","struct RaRandom in src/include/racrypt_random.h")],[("block refill","RaRandomUpdate/RaRandomBytes in src/com/random.c")],["bytes returned by RaRandomBytes"])
p("C21","Derived random values stay in range and use the stream as specified",
 "A random real is the next four stream bytes scaled into the open unit interval (never zero or one), and a random integer is that real scaled onto the range, lying between minimum and maximum inclusive for every valid pair. A random big number of k bits is non-negative, below 2^k and uses the stream bytes for every bit below that; the odd variant is odd, and the fixed-size variant also has bit k-1 set.",
 ["inputs"],"all ranges including full 32-bit and single-value ranges, all bit counts including those not divisible by the word size, all streams",
 "Tests print some values of one range; bit counts whose top word has more than 32 bits and full ranges are not covered.",
 ["src/com/random.c",BN],[("stream position","bytes consumed","struct RaRandom")],[("scaling","RaRandom/RaRandomInt in src/com/random.c"),("masking","BnGenRandom in "+BN)],["returned values against the byte stream of an equal generator"])
p("C22","Allocation failure at any point is reported without crash or leak",
 "If any single memory allocation inside a library call fails, the call returns the out-of-memory error, does not crash, and releases everything it allocated. Objects that existed before the call stay usable, and without failures everything allocated by a create/use/destroy sequence is released; destroying an object that was never created (a null handle) does nothing.",
 ["fault_sequences"],"every allocation site of every public operation, failing the k-th allocation for each k",
 "Tests never make an allocation fail.",
 ["src/com/bignumber.c","src/com/montexpmod.c","src/com/prime.c","src/com/gcd.c","src/com/random.c","src/pk/rsa.c","src/pk/asn1.c","src/cipher/aes.c","src/digest/sha2.c"],
 [("outstanding allocations","blocks allocated and not freed","malloc/free")],[("cleanup paths","_EXIT sections of the functions")],["return codes and the allocation log"])
p("C23","Secret state is erased before memory is released",
 "Destroying a cipher, digest, random-generator, modulus or key context, or clearing a big number, overwrites the object's own memory blocks before giving them back, also in an optimised build. In particular no key, round key, private exponent, prime or generator state bytes of a destroyed object remain in the memory it owned. An import of a private key that fails for lack of memory leaves none of the private numbers in the memory it gives back.",
 ["inputs","configurations"],"all context kinds, after any use, in an optimised build",
 "Tests cannot see memory after it is released.",
 ["src/com/bignumber.c","src/com/montexpmod.c","src/com/random.c","src/pk/rsa.c","src/cipher/aes.c","src/cipher/des.c","src/cipher/seed.c","src/cipher/aria.c","src/cipher/blowfish.c","src/cipher/rc4.c"]+D,
 [("released block","content of memory at release","free")],[("wipe","Ra*Destroy, BnClearFree")],["content of blocks passed to free"])
p("C24","Independent objects can be used concurrently",
 "Operations on distinct objects, run from different threads or interleaved in one thread in any order, give the same results as when each object is used alone. No library call changes the result of calls on unrelated objects.",
 ["schedules","histories"],"all interleavings of operations on two or more contexts of the same or different kinds, including first use of each algorithm",
 "Tests use one context at a time in one thread.",
 ["src/cipher/aes.c","src/cipher/aria.c","src/cipher/seed.c","src/cipher/block_cipher.c","src/digest/sha1.c","src/digest/sha2.c","src/com/bignumber.c","src/com/montexpmod.c"],
 [("per-object state","everything a call may read or write","context structures")],[("absence of shared mutable state","src/*")],["results of interleaved operations"])
p("C25","All build configurations compute the same results",
 "The 32-bit and 64-bit word builds, the builds with and without native 128-bit integers, with and without hardware acceleration, and with full and reduced tables compute the same results for the same calls. Differences are limited to word-size dependent capacities and to the choice of random candidates.",
 ["configurations","inputs"],"all supported compile-time configurations, and all inputs to them",
 "The tests are built in one configuration on one machine; the others are never compiled or run.",
 [BN,"src/com/montexpmod.c","src/com/prime.c","src/cipher/aes.c","src/cipher/aes_x86.c","src/include/racrypt.h","src/include/racrypt_bn.h"],
 [("configuration","compile-time switches","src/include/racrypt.h, src/include/racrypt_bn.h")],[("fallback 128-bit arithmetic","_BnMul128/_BnDiv128"),("portable AES","src/cipher/aes.c")],["results of the same call script in every configuration"])
p("C26","Generators without a seed start from the system's entropy",
 "A random generator created without a seed, and the internal generator of key and prime generation, is seeded with at least 128 bits from the system's entropy source whenever that source is available, in every process environment (for example when standard input is closed): different entropy bytes give different streams even at the same clock value. When the source is missing or fails, creation still succeeds; in no case does it leave a file descriptor open.",
 ["inputs","fault_sequences"],"all generator algorithms, all entropy bytes, all clock values, descriptor tables with and without free low descriptors, missing and failing source",
 "Tests print a few random numbers; a predictable seed looks just as random, and the environments in which it occurs are never set up.",
 ["src/com/random.c",BN],[("automatic seed","entropy bytes and clock value","default_seed of RaRandomInit in src/com/random.c")],[("reading the entropy source","RaRandomGetRandomSeedBytes in src/com/random.c")],["first bytes of the stream against the bytes the source delivered; open descriptors"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
