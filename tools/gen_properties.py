import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
SP="proof_of_space/src/proof_of_space/"; CI="proof_of_space/src/circuit/"; MI="proof_of_space/src/mimc/"
ST="proof_of_storage/src/proof_of_storage/"; VD="proof_of_storage/src/vde/"
p("C01","The marked space is exactly the delay function's preimage table",
 "After preparing and marking a space of parameter n, the file holds 2^n slots of n+1 bits, slot s being all zero if no x below 2^n has a delay-function image whose low n bits are s, and otherwise a set flag and such an x. Marking one slot never disturbs a neighbouring slot, and the file has exactly the claimed size, whatever the file held before.",
 ["inputs","configurations","histories"],"every n, key, m and round constants; every earlier content of the file",
 "The only test marks one space with random parameters at n=20 and never looks at the file.",
 [SP+"prover.rs",SP+"convert.rs"],[("prepare_space / mark_space",SP+"prover.rs")],["bytes of the marked file, decoded slot by slot"])
p("C02","The first response answers exactly the answerable challenges, correctly",
 "For any marked space and any list of challenges, the first response walks the challenges in order and answers each one whose slot is filled with the x stored there, stopping as soon as the required number of answers is reached; it neither skips an answerable challenge nor answers an empty slot. The digest returned is the keyed hash of exactly the answered x values in that order, and responding does not change the space.",
 ["inputs","configurations","histories"],"every space content (including slots crossing byte borders), every challenge list with repetitions, any order, any length",
 "The test calls it once and checks nothing about the answers: a wrong x, a skipped challenge or a wrong digest goes unnoticed as long as nothing panics.",
 [SP+"prover.rs",MI+"mimc_hash.rs"],[("response_1",SP+"prover.rs"),("multi_mimc5_hash",MI+"mimc_hash.rs")],["values returned by the first response"])
p("C03","An honest space prover is always accepted",
 "A prover that really holds a correctly marked space and answers the required number of challenges produces a proof that the verifier accepts, for every key, seed, round constants and challenge list with enough answerable challenges.",
 ["inputs","histories"],"every key, m, constants, challenge list with at least the required number of answerable challenges",
 "The end-to-end test draws a handful of random parameters, never edge values (zero, minus one, repeated challenges, slot 0 or the last slot) and accepts regardless of the pairing check.",
 [SP+"pospace.rs",SP+"prover.rs",SP+"verifier.rs",CI+"pospace_circuit.rs"],[("pospace pipeline",SP+"pospace.rs"),("construct_circuit / response_2",SP+"prover.rs"),("verify",SP+"verifier.rs")],["verdict of the verifier on real proofs"])
p("C04","The space verifier accepts a proof only for the statement it proves",
 "The verifier rejects a proof when the key, the seed, the digest, any answered challenge, the set or order of answered indices, their number, the proof itself or the verifying key differ from those the proof was made for. It also rejects any claim that answers one challenge more than once.",
 ["inputs","histories"],"every proof and every altered statement: each public value perturbed, indices permuted, dropped, repeated or out of range, proof elements swapped, proofs replayed from another session",
 "No test ever presents a wrong proof or a wrong statement; all check only that an honest run does not panic.",
 [SP+"verifier.rs"],[("verify",SP+"verifier.rs")],["accept/reject verdict of the verifier"])
p("C05","No witness convinces the space circuit of a false statement",
 "Every assignment that satisfies the constraints the space circuit generates is a true statement: for each answered challenge there is a value whose keyed delay-function image has that challenge as its low n bits, and the public digest is the keyed hash of those same values under the public key and seed. No choice of private values satisfies the constraints for any other public values.",
 ["inputs","programs"],"every assignment of the private and public variables, honest or malicious",
 "Tests only synthesise the circuit with an honest witness; a missing or weakened constraint leaves every test green.",
 [CI+"pospace_circuit.rs",CI+"equal_circuit.rs"],[("PospaceDemo constraints",CI+"pospace_circuit.rs"),("enforce_canonical_bits",CI+"equal_circuit.rs")],["constraint matrices and assignments of the synthesised circuit"])
p("C06","Delay functions and hashes compute their MiMC definition",
 "The two delay functions are the MiMC-Feistel networks with exponents 3 and 5 over all their rounds and constants, and the two keyed hashes are MiMC with exponents 5 and 7 chained over the message in Miyaguchi-Preneel mode, exactly, for every input. A constant list of the wrong length for a delay function is refused.",
 ["inputs"],"every left/right input, key, message of any length (including empty), constant list; edge field elements",
 "Tests print the result or discard it; none compares with a reference value.",
 [MI+"mimc_df.rs",MI+"mimc_hash.rs"],[("mimc3_df / mimc5_df",MI+"mimc_df.rs"),("mimc5_hash / mimc7_hash / multi_*",MI+"mimc_hash.rs")],["function results"])
p("C07","Component circuits accept every honest witness and agree with the native code",
 "For every input, the delay-function, hash, bit-decomposition and exponentiation circuits are satisfied by the honest witness, their public outputs equal what the native functions compute, and proofs made from them verify for exactly those outputs.",
 ["inputs","configurations"],"every input, constants, message length, bit count and exponent",
 "The tests use fixed sizes and one exponent, and two of them ignore the verifier's answer.",
 [CI+"mimc3_df_circuit.rs",CI+"mimc5_df_circuit.rs",CI+"mimc5_hash_circuit.rs",CI+"mimc7_hash_circuit.rs",CI+"equal_circuit.rs",CI+"pow_circuit.rs"],[("generate_constraints of each circuit",CI)],["satisfaction of the constraint system, instance assignment, verifier verdicts"],"cfg(verif_hooks) constructors of the MiMC circuits")
p("C08","No witness convinces a component circuit of a false output",
 "In the delay-function, hash, bit-decomposition and exponentiation circuits the private inputs determine the public outputs: every satisfying assignment has outputs equal to the native function of some private input, every bit is 0 or 1, and a bit decomposition is the unique one below the field's modulus, so the public low bits are those of the public value.",
 ["inputs","programs"],"every assignment of the private and public variables, honest or malicious",
 "Tests only synthesise with honest witnesses, so a dropped, weakened or unlinked constraint goes unseen.",
 [CI+"mimc3_df_circuit.rs",CI+"mimc5_df_circuit.rs",CI+"mimc5_hash_circuit.rs",CI+"mimc7_hash_circuit.rs",CI+"equal_circuit.rs",CI+"pow_circuit.rs"],[("generate_constraints of each circuit",CI),("enforce_canonical_bits",CI+"equal_circuit.rs")],["constraint matrices and assignments"],"cfg(verif_hooks) constructors of the MiMC circuits")
p("C09","Bit, byte and integer conversions are exact little-endian inverses",
 "Bytes to bits is the little-endian expansion of every byte and bits to bytes its inverse, padding the last partial byte with zeros; bits to integer and integer to n bits are exact for every width up to the machine word, the latter keeping the low n bits.",
 ["inputs"],"every byte string, every bit string of length 0 to 64 for integers and any length for bytes, every width",
 "Two tests on a two-bit vector.",
 [SP+"convert.rs"],[("bytes_to_bits, bits_to_bytes, bits_to_usize, usize_to_bits",SP+"convert.rs")],["function results"])
p("C10","Challenges are always well formed and cover the whole range",
 "Space challenges are the requested number of values, each within the slots of the space; storage challenges are the requested number of distinct ascending indices within the given range. Every value of the range, first and last included, can be drawn, no value is markedly favoured, and successive draws differ.",
 ["inputs","histories"],"every count and range, every random draw",
 "Tests draw once and never inspect the challenges.",
 [SP+"verifier.rs",ST+"verifier.rs"],[("create_challenges",SP+"verifier.rs"),("create_challenges",ST+"verifier.rs")],["returned challenge lists, over many draws"])
p("C11","The delay encoding is an exactly invertible permutation",
 "One round takes a quadratic residue to its even square root and a non-residue to the odd square root of its negation, then swaps odd values with their even successor, keeping 0 fixed. For every supported prime and every value below it, any number of rounds stays within the field, is undone exactly by the same number of inverse rounds, and is injective; the quadratic-residue symbol is the Legendre symbol, and the two big-integer implementations agree everywhere. The byte encoding keeps the requested width and also inverts exactly.",
 ["inputs","configurations"],"every prime congruent to 3 mod 4 including the built-in ones, every field element including 0, 1 and p-1, every round count",
 "The repository's own tests of this crate are not run here and draw random values for one prime only; 0 and the neighbours of p are never reached.",
 [VD+"rug_sloth.rs",VD+"sloth.rs",VD+"rug_vde.rs",VD+"compare_modpow.rs"],[("single_sloth / single_sloth_inv / legendre",VD+"rug_sloth.rs"),("vde / vde_inv",VD+"rug_vde.rs"),("fast_modpow",VD+"compare_modpow.rs")],["function results"])
p("C12","Unsealing a sealed file always returns the original data",
 "Padding, sealing, unsealing and compressing a file returns it byte for byte, for every content, size in whole blocks, block and unit size, number of sealing and delay rounds and every long and short dependency mode and count; the sealed replica has exactly the padded size, and every block of it differs from the padded block it replaces.",
 ["inputs","configurations"],"every content (zeros, 0xff, random), every valid combination of parameters",
 "The crate's tests run one parameter set and are disabled here (the crate did not build); dependency modes other than random are never exercised.",
 [ST+"prover.rs",ST+"depend.rs",ST+"common.rs",ST+"postorage.rs",VD+"rug_vde.rs"],[("copy_and_pad, seal, unseal, copy_and_compress",ST+"prover.rs"),("seal_and_unseal",ST+"postorage.rs")],["files before and after"])
p("C13","Any subset of blocks can be recovered, alone, in batch or in parallel",
 "For every sealed file, every set of blocks and every number of worker threads, single, batch and parallel recovery all return the original units of exactly the requested blocks in the requested order, whatever the thread schedule, and always terminate.",
 ["inputs","configurations","schedules"],"every subset and order of blocks, byte ranges, thread counts, scheduler interleavings",
 "The pipeline test uses one range and one thread count, compares nothing across implementations, and is not run here.",
 [ST+"verifier.rs"],[("single_unseal_prepare, batch_unseal_prepare",ST+"verifier.rs"),("batch_unseal, batch_unseal_parallel",ST+"verifier.rs")],["returned blocks"])
p("C14","A storage audit accepts honest storage and rejects any lost or altered data",
 "Auditing any set of blocks succeeds when the replica is intact, and fails when the recovered data of any audited block differs from the original in even one bit, wherever the damage is: in the audited sealed block itself, in the block it chains from, in a block it depends on, in the original, or in the secret parameters.",
 ["inputs","configurations","histories"],"every position and kind of damage (bit flip, zeroed or swapped blocks, truncation, wrong key or iv), every configuration",
 "No test ever audits damaged data.",
 [ST+"verifier.rs",ST+"postorage.rs"],[("batch_verify, batch_unseal_and_verify",ST+"verifier.rs"),("test_unseal_single_and_verify",ST+"postorage.rs")],["accept/reject verdict"])
p("C15","A sealed replica binds its secret, the chain before it and its dependencies",
 "Every sealed unit is the delay encoding of the unit plus the digest of, in order, the same-position units of the blocks it depends on, the units of its own block it depends on, and for a block's first unit the initial secret or the digest of the previous sealed block, repeated for every sealing round; sealing returns the digest of every sealed block. Hence changing the secret or one bit of the data changes every sealed block from there on.",
 ["inputs","configurations"],"every content, secret, parameters and dependency mode",
 "Nothing compares sealed bytes with a specification: dropping the chaining, a dependency, a round or the secret from both directions keeps the round trip intact.",
 [ST+"prover.rs",ST+"depend.rs",ST+"common.rs"],[("seal",ST+"prover.rs")],["bytes of the sealed file and the returned block digests"])
p("C16","Dependency selection is total, in range, acyclic and deterministic",
 "For every index, count and number of items, long dependencies name only earlier blocks and short dependencies only other units of the same block, at most as many as asked for and following the published distance rules; random selections depend only on their seed data, contain no duplicates and come back sorted. No selection panics or overflows.",
 ["inputs","configurations"],"every index, item count from 1 to beyond 65536, dependency count from 0 to hundreds, every mode and seed",
 "Three tests check one small example each.",
 [ST+"depend.rs",ST+"prover.rs"],[("long_mode_*, short_mode_*, *_random",ST+"depend.rs"),("create_long_depend, create_short_depend",ST+"prover.rs")],["returned index lists"])
p("C17","A Merkle commitment covers every byte and only true leaves verify",
 "The root and leaf list computed from a file depend on every byte of the file and on leaf order, and equal those computed from the same leaves in memory. A membership proof for any set of leaves verifies against that root, and fails for an altered leaf, index, root or proof.",
 ["inputs","configurations"],"every file, leaf size, leaf count (also not a power of two, one, or a last partial leaf), every index set and alteration",
 "The only test hashes random data and checks that an honest proof does not fail; it is not run here and cannot see that a region of the file is not covered.",
 [ST+"merkle_tree.rs",ST+"postorage.rs"],[("generate_merkle_tree_from_file / _from_data, generate_merkle_proof, verify_merkle_proof",ST+"merkle_tree.rs"),("merkle_tree_proof",ST+"postorage.rs")],["leaf digests, root, verdicts"])
p("C18","Public parameters survive saving and loading exactly",
 "Loading returns exactly the key and secret of the last save, whatever was saved at that path before; a file cut short is refused, never read as other parameters, and no damaged file ends the process or takes memory out of proportion to its size. Generated parameters use the built-in prime of the unit's width, a prime congruent to 3 modulo 4, larger than every padded unit, and a fresh random 128-byte secret each time.",
 ["inputs","histories"],"every key, secret of any length, every sequence of saves of longer and shorter values to one path, every supported unit width",
 "Never tested in isolation.",
 [ST+"postorage.rs",VD+"rug_sloth.rs"],[("save_data, load_data, prepare_params",ST+"postorage.rs")],["loaded values, generated parameters"])
p("C19","I/O faults never silently corrupt sealed, recovered or committed data",
 "When the operating system returns short reads or writes, interrupts a call or reports an error during padding, sealing, unsealing, auditing, committing, marking or responding, the operation either produces exactly the fault-free result or fails visibly; it never completes with a different result, and it does not retry a call that keeps failing for ever.",
 ["fault_sequences","inputs"],"every placement and combination of short transfers, interruptions and errors on the files involved",
 "Tests run on a healthy file system where every read and write completes in one call.",
 [ST+"common.rs",ST+"prover.rs",ST+"verifier.rs",ST+"merkle_tree.rs",SP+"prover.rs"],[("read_file",ST+"common.rs"),("write_all / unwrap on every transfer",ST+"prover.rs"),("prepare_space, mark_space, response_1",SP+"prover.rs")],["system calls intercepted in the process; resulting files and values"])
p("C20","Byte, unit and modular helpers are exact and width-preserving",
 "Splitting data into units and joining them are inverse (data that is not whole units is refused, never cut), xor works bytewise and keeps the longer operand's tail, modular addition and subtraction of little-endian values are exact, inverse to each other and keep the operand's width, range reads return exactly the requested bytes, padded with zeros past the end, random files have exactly the requested size, and the two digests equal their published standards.",
 ["inputs"],"every byte string, width, file position and modulus, operands of modular arithmetic being below the modulus",
 "No test covers them.",
 [ST+"common.rs"],[("read_file, to_units, com_units, vecu8_xor, modadd, modsub, md5_hash, blake3_hash",ST+"common.rs")],["function results"])
p("C21","Sealing touches only the replica; audits and responses change nothing",
 "Padding and sealing never modify the original file, compressing never modifies the replica, and auditing, recovering blocks, committing, loading parameters and responding to challenges leave every file byte for byte as it was; repeating any of them gives the same answer, and an audit may be interleaved any number of times before a full unseal.",
 ["histories","configurations"],"every interleaving of audits, commitments and recoveries between sealing and unsealing, every configuration",
 "Tests never compare files before and after an operation.",
 [ST+"prover.rs",ST+"verifier.rs",ST+"merkle_tree.rs",ST+"postorage.rs",SP+"prover.rs"],[("read-only opens in the verifier",ST+"verifier.rs"),("copy_and_pad / copy_and_compress",ST+"prover.rs")],["contents of all files around every call"])
p("C22","The whole storage protocol runs to acceptance in every supported configuration",
 "Driving the storage protocol end to end (create data, commit, seal, publish the sealed commitment, repeated challenge rounds with digest, membership proof, recovery and comparison, final full unseal and root comparison) succeeds at every step for every predefined and generated configuration and thread count, and the protocol drivers report failure as soon as the replica or the parameters are tampered with between steps.",
 ["configurations","histories"],"every configuration of at least ten blocks (the recovery driver reads ten), every challenge history, tampering between any two steps",
 "The pipeline test is one fixed configuration, only honest, and is not run here.",
 [ST+"postorage.rs",ST+"common.rs"],[("test_postorage, seal_and_unseal, merkle_tree_proof, test_unseal_single_and_verify",ST+"postorage.rs"),("gen_posdata",ST+"common.rs")],["completion or failure of every step, files produced"])
p("C23","Threaded recovery is free of data races and memory errors",
 "Under a race detector and a memory checker, parallel recovery, sealing and proving perform no unsynchronised conflicting access, no invalid or uninitialised memory access and leave no thread behind, for every number of threads and blocks; nor do these operations and the helpers beneath them when their arguments are ill-formed.",
 ["schedules","inputs"],"every thread count and schedule explored under instrumentation",
 "Ordinary tests cannot observe races or invalid accesses that happen not to change the result.",
 [ST+"verifier.rs",VD+"rug_vde.rs"],[("shared state behind reader-writer locks, join before reading",ST+"verifier.rs")],["sanitizer reports"])
p("C24","A prover with a lost or damaged space is accepted only for true answers",
 "A prover whose space was damaged, wiped, truncated, shifted, made up or marked under another key is accepted in a session if and only if it answers the required number of different challenges and every answer it proves is a value whose delay-function image has that challenge as its low bits; damage to slots nobody asked about does not matter.",
 ["inputs","histories"],"every content of the space file, every key and challenge list",
 "The tests only run an honest prover on the space it has just marked.",
 [SP+"prover.rs",SP+"verifier.rs",CI+"pospace_circuit.rs"],[("response_1, response_2",SP+"prover.rs"),("verify",SP+"verifier.rs")],["verdict of the verifier against the truth of the answers"])
p("C25","Secrets, challenges, random files and proofs are fresh in every call",
 "Sealing secrets, keys, seeds, round constants, challenge lists and random files are drawn afresh from an unpredictable source in every call, thread and process: no two draws coincide, no byte of them is fixed, biased or derived from a neighbouring byte or an earlier draw. Circuit parameters are made from fresh randomness each time, and two proofs of the same statement share no element.",
 ["histories","schedules"],"every sequence of draws in one thread, in threads and in processes started at the same moment",
 "A fixed or guessable seed passes every test: nothing is ever drawn twice and compared.",
 [SP+"pospace.rs",SP+"prover.rs",SP+"verifier.rs",ST+"postorage.rs",ST+"verifier.rs"],[("prepare_params",SP+"pospace.rs"),("prepare_params",ST+"postorage.rs"),("create_challenges, create_random_file",ST+"verifier.rs"),("create_challenges",SP+"verifier.rs"),("construct_circuit, response_2",SP+"prover.rs")],["drawn values, circuit parameters and proofs, compared across calls, threads and processes"])
p("C26","Operations running at the same time do not disturb each other",
 "Sealing, unsealing and marking different files at the same time, and any number of audits, recoveries, commitments, responses, delay and hash computations on the same or different files at the same time, each give exactly the result they give alone and leave all files as a sequential run would.",
 ["schedules","configurations"],"every mix of operations and thread interleavings on different files, and of reading operations on the same files",
 "The tests never run two operations at once.",
 [ST+"prover.rs",ST+"verifier.rs",ST+"merkle_tree.rs",ST+"depend.rs",ST+"common.rs",VD+"rug_vde.rs",SP+"prover.rs",MI+"mimc_df.rs",MI+"mimc_hash.rs"],[("no state shared between calls",ST),("no state shared between calls",SP)],["results and files of operations recorded as overlapping"])
p("C27","The protocol drivers keep a complete and truthful record of every run",
 "A storage or space driver run that is asked to keep a record appends exactly one record after whatever the record file held, leaving earlier records untouched. The recorded sizes, counts, rounds, modes and success rate are those of the run; every duration is a finite non-negative number, the parts of a step lie within the step and the steps within the run; the statistics row repeats the values of the run record. A run not asked for a record, or that did not unseal, adds no record or no row, a failed run leaves no record of success, and a run whose record cannot be written fails visibly.",
 ["histories","configurations"],"every sequence of runs, configuration, choice of steps and previous content of the record files",
 "No test reads a record back.",
 [ST+"postorage.rs",ST+"prover.rs",SP+"pospace.rs",SP+"prover.rs"],[("test_postorage, seal_and_unseal",ST+"postorage.rs"),("pospace",SP+"pospace.rs")],["bytes appended to the record files, against the configuration and the monitor's clock"])
p("C28","The helper scripts tell the truth about recovered files and primes",
 "The comparison script reports a recovered file as right if and only if it is byte for byte the original, otherwise it reports how many bytes differ, counting missing and surplus bytes, and a file that is missing or cannot be read is never reported as right. The prime script returns, afresh in every call, numbers of exactly the asked width (two bits or more) that are prime and congruent to 3 modulo 4; its primality test never refuses a prime and accepts a composite with probability at most 4^-5.",
 ["inputs","histories"],"every pair of files (also of different length, empty, missing), every width, every number offered to the primality test",
 "The scripts have no tests.",
 [ST+"file_compare.py",VD+"prime.py"],[("comparison of the two files",ST+"file_compare.py"),("is_prime, get_prime",VD+"prime.py")],["output and exit status of the script run on generated files; numbers returned"])
p("C29","A process that dies at any point leaves nothing unrecoverable",
 "Wherever a process is killed, the original file is unaltered and padding, sealing, compressing, preparing, marking or a driver repeated from the start gives exactly the result of an undisturbed run. Blocks whose sealing was cut off are refused by audits, blocks already finished are accepted or refused for their true content; a cut-off unsealing loses at most the block being written and a cut-off marking leaves at most one slot wrongly flagged. After a cut-off save, loading gives the old or the new parameters, whole; earlier records stay.",
 ["crash_points","histories"],"every system call that changes a file, cut before, within or after it, in every operation and configuration",
 "Tests always run to the end.",
 [ST+"prover.rs",ST+"postorage.rs",SP+"prover.rs"],[("seal, unseal, copy_and_pad, copy_and_compress",ST+"prover.rs"),("save_data, seal_and_unseal",ST+"postorage.rs"),("prepare_space, mark_space",SP+"prover.rs")],["files left behind by a process killed at a chosen system call, and what the next run makes of them"])
p("C30","Operations give back everything they take",
 "Once any operation has returned or failed, the process holds no more open files, threads, temporary files or memory than before, however often it is repeated. Parallel recovery runs at most the asked number of workers at a time, and no operation needs more than a few files open at once, whatever the number of blocks, leaves or challenges.",
 ["histories","configurations"],"every operation, also failing, repeated any number of times; every number of blocks and workers",
 "Tests call each operation once in a process that then ends.",
 [ST+"prover.rs",ST+"verifier.rs",ST+"postorage.rs",ST+"merkle_tree.rs",SP+"prover.rs",SP+"verifier.rs"],[("files opened per operation",ST+"common.rs"),("thread pool of batch_unseal_parallel",ST+"verifier.rs"),("response_1, mark_space",SP+"prover.rs")],["open files, threads, heap in use and directory entries of the process around repeated operations"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
