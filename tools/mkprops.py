#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
E = "src/electionguard/"
I = "include/electionguard/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("G01", "Modular arithmetic over P and Q is exact",
 "For all elements a, b, c in range, every modular operation of the library (addition, subtraction, negation, multiplication of two or many elements, a+b*c, and exponentiation with either kind of exponent) returns exactly the integer result reduced modulo P or Q. The answer does not depend on whether the base is marked for fixed-base acceleration, on the generator shortcut, or on how many times the base was used before.",
 ["inputs", "histories"], "all operand values in [0,P) or [0,Q), including carries, borrows, leading-zero limbs, 0, 1, modulus-1, and any history of accelerated bases",
 "Unit tests use a handful of small constants; carry/borrow/limb-boundary and table-window errors only show for particular operand bit patterns.",
 [E+"group.cpp", E+"lookup_table.hpp", E+"facades/Hacl_Bignum256.cpp", E+"facades/Hacl_Bignum4096.cpp", "src/karamel/Hacl_Bignum4096.c", "src/karamel/Hacl_Bignum256.c"],
 [("add_mod_p/mul_mod_p/pow_mod_p/add_mod_q/sub_mod_q/a_plus_bc_mod_q/sub_from_q", E+"group.cpp"), ("LookupTableContext::pow_mod_p", E+"group.cpp"), ("LookupTable::pow_mod_p", E+"lookup_table.hpp")])

prop("G02", "Group elements encode, decode, compare and range-check correctly",
 "Converting an element to hex or bytes and back yields the same number for every value, decoding a hex string or a byte string yields the big-endian integer it denotes, and equality, inequality and ordering of elements agree with the integers. Decoding a value above the modulus, an over-long value or (for hex) text that is not hexadecimal is rejected with an exception instead of producing some other element, and the bounds and residue tests accept exactly 0 < x < modulus and exactly the members of the order-Q subgroup.",
 ["inputs"], "all element values, all byte strings up to and beyond the element size, all hex strings with upper or lower case and leading zeros, and malformed strings",
 "Encoding faults appear only for particular lengths, leading zero nibbles/bytes/limbs or characters.",
 [E+"group.cpp", E+"convert.hpp", E+"convert.cpp", E+"utils.hpp"],
 [("fromHex/toHex/toBytes/bytes_to_p/bytes_to_q", E+"group.cpp"), ("sanitize_hex_string/hex_to_bytes/bytes_to_hex", E+"convert.hpp")])

prop("G03", "Random elements are in range, unpredictable and never repeat",
 "Every randomly generated element is a valid member of its range, successive draws never repeat within or across threads, and no bit position of the draws is constant. The entropy used really comes from the operating system's source: different system randomness gives different elements, and a failing source is reported, never replaced by a fixed value.",
 ["histories", "schedules", "fault_sequences"], "all sequences of draws, from any number of threads, and any outcome of the system entropy source",
 "A unit test draws one or two values and compares them; bias, shared state and ignored entropy need many draws and injected entropy.",
 [E+"random.hpp", E+"group.cpp", "src/karamel/Lib_RandomBuffer_System.c", "src/karamel/Hacl_HMAC_DRBG.c"],
 [("Random::getBytes", E+"random.hpp"), ("rand_p/rand_q", E+"group.cpp"), ("Lib_RandomBuffer_System_randombytes", "src/karamel/Lib_RandomBuffer_System.c")])

prop("H01", "Hashing follows the specified encoding for every argument list",
 "For every list of arguments (absent values, numbers, strings, byte strings, elements mod P and Q, hashable objects, and lists of these) the hash equals SHA-256 over '|' followed by each argument's canonical text and '|', reduced modulo Q, where absent, zero and empty values encode as 'null' and lists hash recursively. Equal arguments give equal hashes however they are passed (pointer, reference, const reference, or single argument versus one-element list).",
 ["inputs"], "all argument lists of every supported type, any length and nesting one level deep, including empty, zero, long and separator-containing values",
 "Tests only compare a few hashes with each other; nothing in the suite pins the encoding for most types, lengths or block boundaries.",
 [E+"hash.cpp", E+"facades/hash.cpp", "src/karamel/Hacl_Hash.c", "src/karamel/Hacl_Streaming_SHA2.c"],
 [("hash_elems/push_hash_update/hash_inner_vector", E+"hash.cpp")])

prop("H02", "Nonce sequences are deterministic, indexable and collision free",
 "A nonce sequence is a pure function of its seed and headers: reading item i by index, in a batch, with or without headers, or by iterating (which continues after the item read last) gives the same specified value regardless of the order of earlier reads. Different indices, seeds or headers never give the same nonce, and every nonce is a valid exponent.",
 ["inputs", "histories"], "all seeds, headers of every supported type, indices up to 2^64-1, and all interleavings of indexed, batched and sequential reads",
 "The suite only checks a few low indices; independence of read order and of header type needs generated histories.",
 [E+"nonces.cpp", E+"nonces.hpp"],
 [("Nonces::get/next", E+"nonces.cpp")])

prop("E01", "ElGamal encryption decrypts correctly and adds homomorphically",
 "For every key pair, nonce and message bit, the ciphertext is exactly (g^r, g^m*K^r), decrypts to the message under the matching secret key, and is the same whether computed directly or from precomputed exponentiations. Combining any non-empty list of ciphertexts gives a ciphertext that encrypts the sum of the messages under the sum of the nonces; a zero nonce is rejected.",
 ["inputs", "histories"], "all secret keys in (0,Q), nonces in (0,Q), bits, and lists of ciphertexts in any order",
 "Unit tests use key 2 and nonce 1; errors in particular exponent patterns or with several ciphertexts are invisible.",
 [E+"elgamal.cpp", E+"facades/elgamal.cpp"],
 [("elgamalEncrypt/elgamalEncrypt_with_precomputed/elgamalAdd/ElGamalCiphertext::decrypt", E+"elgamal.cpp"), ("ElGamalKeyPair::fromSecret", E+"elgamal.cpp")])

prop("E02", "Hashed ElGamal returns the message and rejects any tampering",
 "Every message encrypted with the byte-oriented scheme decrypts to the same bytes under the right key and context hash, for every length the mode allows, with padding added and removed (or data truncated only when truncation was allowed) and the ciphertext length fixed by the mode. Ciphertexts follow the specified key derivation (HMAC-SHA-256 for every key, message and counter), and decrypting with any altered pad, data byte, MAC byte, key or context hash fails with an error instead of returning bytes.",
 ["inputs"], "all messages of length 0..2000, keys, nonces, context hashes, padding modes, truncation flags, and all single-position alterations",
 "Tests cover one or two lengths per mode and a couple of tampered fields; boundary lengths and every byte position need generation.",
 [E+"elgamal.cpp", E+"hmac.cpp"],
 [("hashedElgamalEncrypt", E+"elgamal.cpp"), ("HashedElGamalCiphertext::decrypt", E+"elgamal.cpp"), ("get_hmac", E+"hmac.cpp")])

prop("C01", "Zero-or-one proofs: honest proofs verify, everything else is refused",
 "For every key, nonce, seed, context hash and bit, the proof produced for an encryption of that bit (random, seeded or precomputed) is accepted by the library's verifier and by an independent implementation of the specification, and a seeded proof is the specified function of its seed. For any mutated, recombined or mismatched proof, ciphertext, key or context hash the library's verdict equals the independent verifier's verdict, which is refusal.",
 ["inputs"], "all statements and witnesses, and all single- and multi-field mutations of proof, ciphertext, key and header, including out-of-range and non-subgroup values",
 "The suite checks a few honest proofs and almost no forged ones; a verifier that skips one equation passes every test.",
 [E+"chaum_pedersen.cpp", I+"chaum_pedersen.hpp"],
 [("DisjunctiveChaumPedersenProof::make/make_zero/make_one/make_with_precomputed", E+"chaum_pedersen.cpp"), ("DisjunctiveChaumPedersenProof::isValid", E+"chaum_pedersen.cpp")])

prop("C02", "Selection-limit proofs: honest proofs verify, everything else is refused",
 "For every key, aggregate nonce, seed, context hash and total, the proof that an aggregate ciphertext encrypts that total is the specified function of its inputs and is accepted by the library's verifier and by an independent implementation of the specification. For a wrong total or any mutated, recombined or mismatched proof, ciphertext, key or context hash the library's verdict equals the independent verifier's verdict, which is refusal.",
 ["inputs"], "all totals, keys, nonces, headers and all single- and multi-field mutations, including out-of-range and non-subgroup values",
 "The suite checks few honest proofs and very few forged ones.",
 [E+"chaum_pedersen.cpp", I+"chaum_pedersen.hpp"],
 [("ConstantChaumPedersenProof::make", E+"chaum_pedersen.cpp"), ("ConstantChaumPedersenProof::isValid", E+"chaum_pedersen.cpp")])

prop("B01", "An encrypted ballot decrypts to exactly the voter's choices",
 "For every valid election and every acceptable ballot, decrypting each selection of the encrypted ballot gives exactly the vote the voter marked (omitted contests and selections as zero), placeholders make every contest total equal its selection limit, and the stored total is the homomorphic sum of the selections. An overvoted contest is recorded as all zeros with its original marks and every write-in text of a chosen write-in option recoverable from the contest's fixed-size encrypted extra data (up to its capacity of 510 bytes).",
 ["inputs"], "all manifests, ballot styles and ballots: undervotes, full votes, blank, overvotes, write-ins of any text and length, contests and selections in any order",
 "Tests encrypt a few fixed ballots; order of selections, several elected, partial omission, overvotes and write-in combinations need generation and a decryption oracle.",
 [E+"encrypt.cpp", E+"ballot.cpp", I+"encrypt.hpp"],
 [("encryptBallot/encryptContest/encryptSelection/emplaceMissingValues", E+"encrypt.cpp"), ("CiphertextBallotContest::make/elgamalAccumulate", E+"ballot.cpp")])

prop("B02", "Every ballot the library encrypts verifies, independently too",
 "Every encrypted ballot is accepted by the library's own verification and by an independent verifier that recomputes the hash of every selection, contest and ballot, the ballot code, every selection proof and every contest-limit proof from public data only. This holds whether or not precomputed values were used, with or without in-line proof checking, and after the ballot is serialized and parsed back.",
 ["inputs", "configurations"], "all valid manifests, styles and ballots, encryption options and serialization formats",
 "Tests call the library's verifier on a few ballots; an encrypt/verify pair that agree with each other but not with the specification passes.",
 [E+"encrypt.cpp", E+"ballot.cpp", E+"chaum_pedersen.cpp", E+"ballot_code.cpp", E+"serialize.hpp"],
 [("CiphertextBallot::make/isValidEncryption", E+"ballot.cpp"), ("CiphertextBallotContest/Selection::isValidEncryption", E+"ballot.cpp")])

prop("B03", "Verification refuses every altered ballot",
 "Starting from a genuine encrypted ballot, changing any verified part (a selection or contest identifier or description hash, a ciphertext, a proof component, a stored hash, the accumulated total, the manifest hash, the ballot identifier, adding, dropping, duplicating or exchanging selections or contests, or checking against another key, base hash or manifest) makes verification report failure (false or an exception). The verdict on every such ballot equals that of an independent verifier, and verification never crashes.",
 ["inputs", "fault_sequences"], "all genuine ballots and all alterations of their public content at any position",
 "The suite has almost no negative verification tests; each skipped comparison is invisible to tests on honest ballots.",
 [E+"ballot.cpp", E+"chaum_pedersen.cpp"],
 [("CiphertextBallotSelection::isValidEncryption", E+"ballot.cpp"), ("CiphertextBallotContest::isValidEncryption", E+"ballot.cpp"), ("CiphertextBallot::isValidEncryption", E+"ballot.cpp")])

prop("B04", "A device's ballot codes form one unbroken hash chain",
 "Over any history of encryptions through one encryption mediator of a device, the first ballot is chained to the device's hash and every later ballot to the previous ballot's code, whichever mix of full and compact encryption and of failed attempts occurred. Every ballot code is the specified hash of its chain seed, timestamp and ballot hash, so any change of order, timestamp or content changes the codes.",
 ["histories", "fault_sequences"], "all sequences of full/compact encryptions and rejected ballots on one device, any device parameters",
 "Tests encrypt one or two ballots; chain breaks after errors, mixed modes or longer histories are not sampled.",
 [E+"encrypt.cpp", E+"ballot_code.cpp", E+"ballot.cpp"],
 [("EncryptionMediator::encrypt/compactEncrypt", E+"encrypt.cpp"), ("BallotCode::getBallotCode/getHashForDevice", E+"ballot_code.cpp")])

prop("B05", "Ballot encryption is reproducible from its nonce and never reuses one",
 "Without precomputed values, encrypting the same ballot with the same manifest, context, chain seed, timestamp and nonce always gives the same ciphertexts, hashes and ballot code, and every nonce inside the ballot follows the specified derivation from the ballot nonce. No two ciphertexts in a ballot, and no two ballots with different nonces or identifiers, share a nonce or a pad, and without a supplied nonce every encryption is fresh.",
 ["inputs", "histories"], "all ballots, nonces, pairs of ballots and repeated encryptions",
 "Nonce reuse is catastrophic but invisible to functional tests; it depends on colliding sequence orders, hashes or headers across contests and ballots.",
 [E+"encrypt.cpp", E+"nonces.cpp", E+"ballot.cpp"],
 [("encryptSelection/encryptContest nonce derivation", E+"encrypt.cpp"), ("CiphertextBallot::nonceSeed", E+"ballot.cpp")])

prop("B06", "Compact ballots expand to the identical full ballot",
 "Compressing a ballot keeps every vote and write-in, and expanding a compact plaintext ballot yields the ballot normalised to its style. Expanding the compact encrypted form of a complete ballot reproduces the same ciphertexts, hashes, ballot code, timestamp and chain seed as encrypting the ballot in full, also after the compact form is serialized and parsed, and expansion of a compact form whose votes, identifier, nonce, chain seed, timestamp or code was altered fails with an error.",
 ["inputs", "configurations"], "all manifests, styles and ballots, and all serialization formats of the compact form",
 "Tests use one sample ballot; order of contests, omissions and write-ins are not varied.",
 [E+"ballot_compact.cpp", E+"encrypt.cpp", E+"serialize.hpp"],
 [("CompactPlaintextBallot::make/compressSelections/expandSelections", E+"ballot_compact.cpp"), ("expandCompactCiphertextBallot/encryptCompactBallot", E+"ballot_compact.cpp")])

prop("B07", "Malformed ballots are refused and acceptable ones are classified right",
 "A contest is classified valid, overvoted or invalid exactly according to its identifier, number of selections, marked votes and limits. A ballot of an unknown style is refused with an error, contests and selections that are not on the ballot's style have no effect, and a vote other than 0 or 1 never reaches a ciphertext: the ballot is refused or the contest counts as overvoted. No malformed ballot, however constructed, crashes the encrypter or yields an encrypted ballot that differs from the voter's marks.",
 ["inputs"], "all well-formed and malformed ballots relative to any manifest",
 "Only a few malformed ballots are in the suite, each with a single defect.",
 [E+"ballot.cpp", E+"encrypt.cpp", E+"manifest.cpp"],
 [("PlaintextBallotContest::isValid", E+"ballot.cpp"), ("PlaintextBallotSelection::isValid", E+"ballot.cpp"), ("encryptContest/encryptBallotContests", E+"encrypt.cpp")])

prop("S01", "Ballots survive serialization in every format",
 "Serializing any plaintext, encrypted, submitted or compact ballot to JSON, BSON or MessagePack and reading it back gives a ballot with the same identifiers, votes, write-ins, ciphertexts, proofs, hashes, ballot code, timestamp, chain seed and state (an absent nonce reads back as zero), and serializing again gives the same document. The formats agree with each other, and each encrypted ballot still verifies after the trip.",
 ["inputs", "configurations"], "all ballots of every kind, all three formats, with and without nonces",
 "Round-trip tests use one sample file; optional fields, empty values, leading-zero bytes and unusual text need generation.",
 [E+"serialize.hpp", E+"ballot.cpp", E+"ballot_compact.cpp"],
 [("Serialize::PlaintextBallot/CiphertextBallot/SubmittedBallot/CompactBallot", E+"serialize.hpp")])

prop("S02", "Manifest, context and device data survive serialization unchanged",
 "Serializing any election manifest or internal manifest to JSON, BSON or MessagePack, or any election context or encryption device to JSON or BSON, and reading it back gives an object with the same content and the same cryptographic hash, and serializing again gives the same document. An absent optional part stays absent.",
 ["inputs", "configurations"], "all manifests with any combination of optional parts, all contexts and devices, and every format the type supports",
 "Tests read a few sample files; the many combinations of optional fields and values are not sampled.",
 [E+"serialize.hpp", E+"manifest.cpp", E+"election.cpp", E+"encrypt.cpp"],
 [("Serialize::ElectionDescription/InternalManifest/Context/EncryptionDevice", E+"serialize.hpp")])

prop("S03", "Published ballots never reveal secrets",
 "The serialized form of an encrypted ballot for publication contains, in any format, none of the ballot nonce, nonces of contests or selections, proof secrets, plaintext votes or write-in text, and the serialized form of a cast or spoiled ballot obtained from an encrypted ballot carries none either. Only the form explicitly requested with nonces contains them, and then exactly the right ones.",
 ["inputs", "configurations"], "all ballots, formats and the cast/spoil/with-nonces options",
 "No test searches the published bytes for secrets derived from the ballot.",
 [E+"serialize.hpp", E+"ballot.cpp"],
 [("CiphertextBallot::toJson(withNonces)", E+"ballot.cpp"), ("SubmittedBallot::from", E+"ballot.cpp")])

prop("S04", "Malformed serialized input is rejected cleanly, never crashes",
 "Feeding any byte sequence, or any structurally mutated document, to any of the parsers either yields an object that can be hashed, serialized, verified and destroyed safely or raises an ordinary exception; impossible dates and excessively deep nesting are refused. Reading a document twice gives the same object, and what was accepted, written out and read again is stable. Parsing never reads or writes out of bounds, aborts the process, exhausts the stack or hangs.",
 ["inputs"], "all byte strings and all structural mutations of valid documents, for every type and format",
 "Tests only feed well-formed sample documents.",
 [E+"serialize.hpp", E+"convert.hpp", E+"group.cpp", E+"manifest.cpp", E+"ballot.cpp"],
 [("Serialize::* fromJson/fromBson/fromMsgPack", E+"serialize.hpp"), ("fromHex", E+"group.cpp")])

prop("M01", "Manifest validation accepts exactly the well-formed elections",
 "The validity verdict on a manifest equals these rules evaluated independently: identifiers of units, styles, parties, candidates and contests non-empty and unique, contest sequence orders unique, every contest's district a unit, every style with at least one unit and only known units, every candidate's party empty or known; and per contest, selection ids and candidate ids non-empty and unique, selection sequence orders unique, number elected at most the number of selections, and votes allowed either zero (unlimited) or at least the number elected. A single inconsistency anywhere makes the manifest invalid; nothing else does.",
 ["inputs"], "all manifests: valid ones and ones with any number of injected inconsistencies",
 "Tests have one valid sample and few invalid ones.",
 [E+"manifest.cpp"],
 [("Manifest::isValid", E+"manifest.cpp"), ("ContestDescription::isValid", E+"manifest.cpp")])

prop("M02", "The manifest hash is the specified hash of all its hashed content",
 "The cryptographic hash of a manifest and of each of its parts equals the specified composition over its fields, computed independently. Changing any hashed field of any part to a value with another canonical text, or adding, removing or reordering parts, changes the manifest hash, while copying, sharing or re-reading an object never does.",
 ["inputs"], "all manifests and parts with any combination of optional fields, and all single changes",
 "Tests compare the hash with itself after a round trip; nothing pins which fields it covers.",
 [E+"manifest.cpp", E+"hash.cpp"],
 [("crypto_hash of every manifest type", E+"manifest.cpp")])

prop("M03", "The internal manifest matches the manifest and every ballot style",
 "The internal manifest derived from a manifest keeps its hash, units, styles and contests, and gives every contest exactly as many placeholder selections as its selection limit, with distinct identifiers and with sequence orders that no selection of the contest has. For every ballot style it returns exactly the contests whose district belongs to the style, in sequence order, and an unknown style is reported as an error.",
 ["inputs"], "all manifests, styles and contests, including sparse and large sequence orders",
 "Tests use two sample manifests.",
 [E+"manifest.cpp"],
 [("InternalManifest::generateContestsWithPlaceholders/getContestsFor/getBallotStyle", E+"manifest.cpp"), ("generatePlaceholderSelectionsFrom", E+"manifest.cpp")])

prop("X01", "The election context is bound to the group, keys and manifest",
 "The context's base hash and extended base hash equal the specified hashes of the group parameters, guardian numbers, manifest hash and commitments, for every construction route, and changing any of those inputs changes them. The context returns exactly the key, hashes, counts and settings it was given, and an encryption mediator refuses a manifest other than the one its context is bound to.",
 ["inputs", "configurations"], "all guardian counts, keys, hashes, manifests and context settings",
 "Tests construct one or two contexts.",
 [E+"election.cpp", I+"election.hpp"],
 [("CiphertextElectionContext::make", E+"election.cpp")])

prop("V01", "Copies are equal and independent of their source",
 "For every value type of the library and each of copying, cloning, assigning and moving that the type defines (manifests only move), the resulting object is indistinguishable from the original (content, hash, validity, serialization), the source of a copy is unchanged, and destroying or overwriting one never affects the other. Copying is safe for objects with any combination of optional parts.",
 ["inputs", "histories"], "all value types, all contents, and all sequences of copy, clone, assign, move, swap and destroy",
 "Tests rarely copy objects and never compare every field afterwards.",
 [E+"group.cpp", E+"elgamal.cpp", E+"chaum_pedersen.cpp", E+"ballot.cpp", E+"manifest.cpp", E+"election.cpp"],
 [("clone()/copy constructors/operator=", E+"*.cpp")])

prop("W01", "Secrets are wiped from the memory that is released",
 "Destroying or overwriting a group element, however it was used before (read, printed as hex, hashed, copied, cloned), or destroying an object that owns elements (key pairs, precomputed values, nonce sequences, encrypted ballots and contests with nonces) leaves no part of the element's value, binary or as text, in the heap memory that this releases. The one-time keys derived for each block and for the MAC of the byte-oriented encryption are likewise gone from released memory when encrypting, decrypting or refusing a ciphertext returns.",
 ["inputs", "histories"], "all element values, all uses before the end of life, all owning types, all messages and keys",
 "Tests cannot see what released memory holds.",
 [E+"group.cpp", E+"hmac.cpp", E+"elgamal.cpp", "src/karamel/Lib_Memzero0.c"],
 [("ElementModP::Impl::~Impl/ElementModQ::Impl::~Impl", E+"group.cpp"), ("get_hmac", E+"hmac.cpp"), ("hashedElgamalEncrypt/HashedElGamalCiphertext::decrypt", E+"elgamal.cpp")])

prop("L01", "The log never contains secrets or tells how someone voted",
 "Whatever acceptable or refused ballots are encrypted, compacted, expanded, verified (also against wrong inputs or after being altered), decrypted, serialized or read back, and whatever keys, nonces, proofs, precomputed or random values are made, nothing the library writes to standard output or standard error, at any log level, contains a secret key, a ballot nonce or a nonce or seed derived from it, a proof secret, a precomputed exponent, a write-in text or a message of the byte-oriented encryption. For two acceptable ballots that differ only in which options are marked the messages are the same apart from public numbers.",
 ["inputs", "histories"], "all elections, ballots, keys and nonces, all operations on them, every log level",
 "Tests never look at the log, and run without the trace and debug levels.",
 [E+"log.cpp", E+"encrypt.cpp", E+"ballot.cpp", E+"elgamal.cpp", E+"chaum_pedersen.cpp", E+"hash.cpp", E+"nonces.cpp"],
 [("Log::trace/debug/info/warn/error", E+"log.cpp"), ("encryptBallot/encryptContest/encryptSelection", E+"encrypt.cpp"), ("isValidEncryption", E+"ballot.cpp")])

prop("K01", "Precomputed values are correct and each is handed out at most once",
 "Over any history of initialising, filling, stopping, draining and emptying the buffers, every value handed out satisfies the algebraic relations for the key it was filled with, no value or nonce is ever handed out twice, and sizes and limits are as reported. When values run out the caller gets nothing rather than a stale value, and encryption falls back and stays correct.",
 ["histories", "configurations"], "all histories of buffer operations and encryptions",
 "Tests fill once and read a few values.",
 [E+"precompute_buffers.cpp", E+"encrypt.cpp", I+"precompute_buffers.hpp"],
 [("PrecomputeBuffer::populate/getTriple/getTwoTriplesAndAQuadruple", E+"precompute_buffers.cpp")])

prop("K02", "Concurrent use gives the same results as sequential use",
 "Threads that encrypt, decrypt, verify, hash, exponentiate, draw random elements and read or write documents at the same time with shared keys, manifests, contexts and ballots, while buffers are being filled, stopped and drained, get exactly the results sequential execution gives, with no data race. No precomputed value reaches two threads and every operation terminates.",
 ["schedules", "histories"], "all thread interleavings of the documented concurrent operations",
 "The suite is single threaded apart from the buffer filler.",
 [E+"group.cpp", E+"lookup_table.hpp", E+"precompute_buffers.cpp", E+"hash.cpp"],
 [("LookupTableContext", E+"group.cpp"), ("PrecomputeBuffer locks", E+"precompute_buffers.cpp")])

prop("T01", "Queued tasks run exactly once and every result is delivered",
 "Over any number of threads, the library's asynchronous queue hands out every pushed item exactly once, whole and in order per producer, and nothing when it is empty. A thread pool (with at least one thread) or the scheduler runs every submitted task exactly once, also when the pool is destroyed right after the submission, and its future delivers the task's value or exception; waiting for all tasks gives each result once; a semaphore never admits more holders than it has places and loses none. All of this terminates, without data races.",
 ["schedules", "histories"], "all thread interleavings and histories of submissions, pushes, pops, locks and waits",
 "No test of the repository touches the asynchronous helpers.",
 [E+"async.hpp"],
 [("AsyncQueue", E+"async.hpp"), ("ThreadPool", E+"async.hpp"), ("AsyncSemaphore", E+"async.hpp"), ("wait_all", E+"async.hpp")])

prop("A01", "The C interface gives the same answers as the C++ interface",
 "For every operation exposed through the C interface, success is reported exactly when the C++ operation succeeds and the returned handles and buffers hold the same values, and a failure is reported as an error status instead of a crash or an escaping exception. Returned strings and buffers have the reported length, dates are milliseconds, every declared function can be linked, freeing a handle leaves no other handle broken (handles given to a constructor are moved from and still freed by the caller), and no call leaks memory, also when it fails.",
 ["inputs", "histories"], "all argument values and call sequences of the C interface",
 "C tests cover one call each with fixed arguments and hardly any failure status.",
 [E+"facades/group.cpp", E+"facades/elgamal.cpp", E+"facades/hash.cpp", E+"facades/chaum_pedersen.cpp", E+"facades/ballot.cpp", E+"facades/encrypt.cpp", E+"facades/election.cpp", E+"facades/manifest.cpp", E+"facades/ballot_compact.cpp", E+"facades/ballot_code.cpp"],
 [("eg_* functions", E+"facades")])

prop("A02", "The C string list behaves as a list over any history",
 "Over any history of appending, deleting the last string, reading by position, counting and freeing, the list agrees with an ordinary sequence model: contents, order, counts and returned statuses. A position out of range is reported and freeing nothing is harmless; a failed memory allocation is reported and leaves the list unchanged. Memory is neither leaked nor touched out of bounds.",
 ["histories", "inputs", "fault_sequences"], "all operation sequences and string contents, and a failed allocation at any point",
 "The single unit test performs one fixed sequence.",
 [E+"facades/collections.c", I+"collections.h"],
 [("eg_linked_list_*", E+"facades/collections.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
