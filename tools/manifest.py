import json
TECH = {
 "C01": ("TLA+ spec of big-number arithmetic; TLC trace validation of recorded call chains", "operands drawn from word-boundary patterns; exact results by the integer module of the spec"),
 "C02": ("TLA+ spec of division; TLC trace validation; Knuth-D digit model checked exhaustively on small words", "operands aimed at digit overestimates; three word configurations"),
 "C03": ("TLA+ codec spec; TLC trace validation; exhaustive small-word codec model", "byte strings up to 100 bytes, all buffer sizes around the exact one"),
 "C04": ("TLA+ spec with capacities; TLC trace validation on address-sanitized builds", "capacities of 1..6 words"),
 "C05": ("TLA+ gcd/Bezout spec; TLC trace validation; extended Euclid model checked exhaustively", "all small pairs, Fibonacci-like and multi-word pairs"),
 "C06": ("TLA+ modular power spec; TLC trace validation; Montgomery/window model checked exhaustively on small words", "all small cases, boundary moduli up to 17 words"),
 "C07": ("TLA+ primality spec; exhaustive Miller-Rabin model; TLC trace validation with acceptance frequencies", "every small integer, Carmichael numbers, strong pseudoprimes, worst-case composites; composites are judged by their known factor and by frequency"),
 "C08": ("TLA+ prime generation spec; exhaustive candidate-search model; TLC trace validation", "every size from 2 bits to 40 and up to 256; primality decided by Miller-Rabin with twenty fixed bases in the spec"),
 "C09": ("TLA+ RSA spec; toy-key model checked exhaustively; TLC trace validation", "keys of 12 to 512 bits, all messages of a small key; failing calls and failing allocations included"),
 "C10": ("TLA+ key consistency spec; TLC trace validation of generated and altered keys", "key sizes up to 512 bits; every component altered"),
 "C11": ("TLA+ DER spec; TLC trace validation on sanitized builds", "component and total lengths around every change of the length form; every buffer length"),
 "C12": ("TLA+ BER spec (recursive); TLC trace validation on sanitized builds; iterative parser model checked against it", "truncations, wrong lengths, shapes, mutations"),
 "C13": ("TLA+ cipher context spec; TLC-enumerated control states replayed, traces validated", "every transition of the control model, five ciphers x four modes; exhaustive toy model StreamModel"),
 "C14": ("TLA+ cipher context spec; TLC-enumerated control states replayed, traces validated", "all paddings and endings, nearly valid paddings from two-phase sessions"),
 "C15": ("TLA+ cipher context spec; TLC-enumerated control states replayed, traces validated", "SetIV/GetIV/Init in every control state"),
 "C16": ("TLA+ definitions of the ciphers; TLC trace validation", "single-bit keys, random keys, all Blowfish key lengths; known finding for DES S1"),
 "C17": ("TLA+ definition of RC4; TLC trace validation", "key lengths 1..600, all piece sizes"),
 "C18": ("TLA+ digest context spec; TLC-enumerated control states replayed, traces validated", "every transition of the control model; exhaustive toy model DigestModel"),
 "C19": ("TLA+ definitions of the digests; TLC trace validation", "boundary lengths and hundreds of others in quick, all to three blocks in thorough; messages beyond 4 GiB are checked by inverting the final step"),
 "C20": ("TLA+ hash-chain spec; TLC trace validation", "every block offset and request length around block ends"),
 "C21": ("TLA+ spec of derived values; TLC trace validation", "extreme stream words reached by searched seeds"),
 "C22": ("TLA+ heap ownership spec (model with faulty libraries checked exhaustively); every allocation failed once; TLC trace validation", "allocation failures enumerated per call; key generation sampled"),
 "C23": ("TLA+ heap ownership spec; TLC trace validation of released blocks", "optimised builds; the released block is compared with its content before the call"),
 "C24": ("TLA+ spec as a product of independent objects; TLC trace validation of interleaved and threaded runs", "random interleavings and eight threads; race reports of the sanitizer are events the spec does not allow"),
 "C26": ("TLA+ spec of automatic seeding; the entropy source and the clock are replaced at the system-call boundary; TLC trace validation", "source bytes differing in one bit; descriptor 0 free; missing and failing source"),
 "C25": ("one TLA+ spec; TLC trace validation of the same scripts in every build configuration", "eight build configurations on one machine (ARM code is not built)"),
}
M = {"version": 1, "setup_cmd": "python3 bin/setup.py", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks build /repo's sources unchanged", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "python3 bin/check.py %s --thorough" % p, "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in sorted(TECH.items())],
     "not_applicable": []}
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
