#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
H='lib/high/'; L='lib/low/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["observe_at"]=[state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every Keccak-p[1600] implementation computes the standard permutation",
  "For every 1600-bit state and every supported number of rounds, applying the permutation yields exactly the value the FIPS 202 definition of Keccak-p[1600, number of rounds] prescribes (the last rounds of Keccak-f). This holds for every implementation the package offers (reference, compact, generic, assembler, SIMD, ARM), for single states and for each instance of a parallel group of states.",
  ["inputs","configurations"],"all states, all round counts 1..24 (or those the implementation offers), all build targets and individual low-level implementations",
  "The unit tests hash one chained sequence of states per round count into one checksum and only exercise the implementation that each of the named targets selects; several implementations and round counts are never executed, and no independent definition is compared.",
  [L+"KeccakP-1600",L+"KeccakP-1600-times2",L+"KeccakP-1600-times4",L+"KeccakP-1600-times8"],
  [("permutation functions of the single-state interface",L+"KeccakP-1600/*/"),("permute-all functions of the parallel interface",L+"KeccakP-1600-times{2,4,8}/*/")],
  "the 1600-bit state, through byte-wise insertion and extraction")
p("C02","Every Xoodoo implementation computes the specified permutation",
  "For every 384-bit state and every number of rounds from 1 to 12 that the implementation offers, applying Xoodoo yields exactly the value given by the Xoodoo specification (the last rounds of the 12-round constants). This holds for every implementation, for single states and for each instance of the 4-, 8- and 16-way parallel versions.",
  ["inputs","configurations"],"all states, all supported round counts, all implementations (reference, plain, SSE2, AVX512, ARM, parallel ones)",
  "Tests compare a checksum of a few chained states; parallel 12-round functions and most N-round counts are not tied to any independent definition.",
  [L+"Xoodoo",L+"Xoodoo-times4",L+"Xoodoo-times8",L+"Xoodoo-times16"],
  [("permute functions",L+"Xoodoo/*/"),("permute-all functions",L+"Xoodoo-times*/")],"the 384-bit state")
p("C03","A permutation state behaves as an array of bytes for every offset and length",
  "Adding, overwriting, zeroing and extracting bytes of a state act exactly like XOR, assignment, zeroing and copy on the corresponding range of a byte array, for every legal offset and length including zero, and change no other byte of the state. Extraction combined with addition writes input XOR state to the output (also in place) and leaves the state unchanged; results are the same whatever internal representation an implementation uses and survive interleaving with permutations.",
  ["inputs","histories","configurations"],"all sequences of state operations with all (offset, length) pairs with offset+length within the state, all implementations of Keccak-p[1600] and Xoodoo",
  "The unit test walks offsets and lengths with fixed patterns and checks only a checksum against one recorded value; mixed sequences (for instance overwriting zeroes in the middle of a bit-interleaved or lane-complemented state after a permutation) are sampled at very few points.",
  [L+"KeccakP-1600",L+"Xoodoo",L+"common/SnP-Relaned.h","doc/SnP-documentation.h"],
  [("byte addressing of the single-state interface",L+"KeccakP-1600/*/KeccakP-1600-SnP.h and sources"),("same for Xoodoo",L+"Xoodoo/*/")],"state contents seen through byte extraction")
p("C04","Parallel states are independent byte arrays, with lane-interleaved bulk access",
  "In a group of parallel states every per-instance operation affects exactly the addressed instance as it would a single state, and no other instance. The bulk lane operations act on the first lanes of all instances with data of consecutive instances spaced by the given lane offset, and permuting the group permutes each instance independently.",
  ["inputs","histories","configurations"],"all sequences of operations, instance indexes, offsets, lengths, lane counts and lane offsets; Keccak-p[1600] x2/x4/x8 and Xoodoo x4/x8/x16 implementations",
  "The tests use one checksum over regular patterns; they hit few lane-count/lane-offset combinations and no adversarial interleavings between instances.",
  [L+"KeccakP-1600-times2",L+"KeccakP-1600-times4",L+"KeccakP-1600-times8",L+"Xoodoo-times4",L+"Xoodoo-times8",L+"Xoodoo-times16","doc/PlSnP-documentation.h"],
  [("parallel interface functions",L+"KeccakP-1600-times*/*/"),("parallel Xoodoo functions",L+"Xoodoo-times*/*/")],"contents of each instance seen through extraction")
p("C05","Fast absorbing loops equal the block-by-block loop and report what they consumed",
  "For every lane count, data length and stride (a stride no larger than the data one iteration reads), the optimized loops that absorb many blocks into one or several states give the same states as repeatedly adding one block and permuting. They return exactly the number of bytes consumed, which is the largest whole number of blocks that the data length allows, and touch nothing else.",
  ["inputs","configurations"],"all lane counts 1..25, data lengths around multiples of the block size and of the strides, both 24- and 12-round loops, single and parallel",
  "The tests only reach the lane counts used by the standard functions plus a few, with checksum comparison.",
  [L+"KeccakP-1600",L+"KeccakP-1600-times2",L+"KeccakP-1600-times4",L+"KeccakP-1600-times8"],
  [("fast loop absorb functions","*_FastLoop_Absorb in "+L+"KeccakP-1600*"),],"states after the loop and returned length")
p("C06","Sponge output depends only on message and suffix bits, not on the call pattern",
  "For every rate that is a multiple of 8 bits, the bytes squeezed are a prefix of the stream that the sponge construction with the given suffix bits and pad10*1 defines for the concatenation of all absorbed bytes, however absorbing and squeezing are cut into calls (including empty ones). The one-shot call gives the same bytes, and absorbing after squeezing has started or giving invalid parameters is refused without changing the output stream.",
  ["inputs","histories","configurations"],"all rates 8..1600 step 8, all messages, suffixes of 0..7 bits, all splits of input and output into calls, all targets",
  "Tests sample random splits for a handful of rates with known checksums; the property quantifies over all splits, rates and suffix positions (e.g. suffix in the last byte of a block).",
  [H+"Keccak/KeccakSponge.inc",H+"Keccak/KeccakSponge.c",H+"Keccak/KeccakSponge.h","doc/KeccakSponge-documentation.h"],
  [("incremental absorb/pad/squeeze",H+"Keccak/KeccakSponge.inc"),("one-shot sponge",H+"Keccak/KeccakSponge.inc")],"bytes output and return codes")
p("C07","SHA-3 and SHAKE results equal FIPS 202 for any bit length and call pattern",
  "The six one-shot functions and the incremental hash interface produce the FIPS 202 value of the concatenated message bits, with a message length in bits, for all splits of the message into updates (all but the last being whole bytes). A fixed-length hash outputs exactly its digest length at finalization, an extendable function any number of bytes over any number of calls forming one stream; illegal orders and lengths return an error without disturbing the instance.",
  ["inputs","histories"],"all messages and bit lengths, all update/squeeze splits, all six instances and user-defined rate/capacity/suffix combinations",
  "Known-answer files stop at short messages, one update per message except one random test, and never check trailing partial bytes together with block boundaries after several updates for every suffix.",
  [H+"Keccak/FIPS202/KeccakHash.c",H+"Keccak/FIPS202/KeccakHash.h",H+"Keccak/FIPS202/SimpleFIPS202.c",H+"Keccak/KeccakSponge.inc"],
  [("bit-level update",H+"Keccak/FIPS202/KeccakHash.c"),("one-shot functions",H+"Keccak/FIPS202/SimpleFIPS202.c")],"digest bytes and return codes")
p("C08","TurboSHAKE matches its definition for any capacity, domain and call pattern",
  "TurboSHAKE with any byte-multiple capacity up to 512 bits and any non-zero domain byte outputs the 12-round sponge stream of RFC 9861 for the concatenation of the absorbed data, independently of how absorbing and squeezing are split into calls. One-shot and incremental interfaces agree, and a zero domain, an out-of-range capacity and out-of-order calls are refused.",
  ["inputs","histories","configurations"],"all capacities, domains, messages, splits, targets",
  "The test suite has no TurboSHAKE test at all: it is only reached through the 0x06/0x07/0x0B domains of KangarooTwelve.",
  [H+"TurboSHAKE/TurboSHAKE.c",H+"TurboSHAKE/TurboSHAKE.h",H+"Keccak/KeccakSponge.inc"],
  [("TurboSHAKE wrappers",H+"TurboSHAKE/TurboSHAKE.c"),("12-round sponge",H+"Keccak/KeccakSponge.inc")],"bytes output and return codes")
p("C09","A duplex object maps its whole input history to outputs, however inputs are fed",
  "Each duplexing call outputs the first bits of the permuted state determined by all inputs so far, padded with pad10*1 at the rate (any rate, byte-aligned or not); feeding parts of an input before the call, adding or overwriting bytes or zeroes, and fetching the output in several pieces act exactly as the corresponding byte-range operations on the rate part. Output bits beyond the rate are never revealed (they are masked to zero), input that would exceed the maximum is refused, and refused calls change nothing.",
  ["inputs","histories","configurations"],"all rates 3..1599 (multiples of 8 or not), all sequences of feed/overwrite/duplexing/get-output calls with all lengths",
  "Tests check random sequences for a few rates against a recorded checksum; limits for trailing bits, non-byte rates combined with partial feeding, and zero-length outputs are not examined.",
  [H+"Keccak/KeccakDuplex.inc",H+"Keccak/KeccakDuplex.h","doc/KeccakDuplex-documentation.h"],
  [("duplexing and partial input/output",H+"Keccak/KeccakDuplex.inc")],"output bytes and return codes")
p("C10","Sponge-based PRG output depends only on what was fed and fetched, and forgets",
  "Every fetched byte is the one determined by the duplex-based generator definition from the exact history of fed, fetched and forget operations; fetching n bytes in one call or in several gives the same stream, and so does feeding the same bytes in one or several calls. A forget operation erases the rate part so that the earlier state cannot be recomputed from the later one, and is refused when the rate is smaller than the capacity.",
  ["inputs","histories"],"all capacities allowed, all sequences of feed/fetch/forget with all lengths including zero",
  "One recorded checksum per capacity over random sequences; forget is exercised only in that stream and rejections not at all.",
  [H+"Keccak/PRG/KeccakPRG.inc",H+"Keccak/KeccakDuplex.inc","doc/KeccakPRG-documentation.h"],
  [("feed/fetch/forget",H+"Keccak/PRG/KeccakPRG.inc")],"fetched bytes and return codes")
p("C11","cSHAKE and KMAC equal SP 800-185 for any strings, lengths and call pattern",
  "cSHAKE and KMAC (128 and 256) output the SP 800-185 value for every function name, customization string, key and message bit length and output length, including XOF mode with output in several pieces, independently of how the message is split. With empty name and customization cSHAKE equals SHAKE; calls out of order or updates after a non-byte-multiple update are refused.",
  ["inputs","histories"],"all name/customization/key/message bit lengths (spanning several rate blocks and length-encoding sizes), output lengths, splits",
  "Tests use a few published samples and checksum loops over limited lengths on three targets only; multi-byte length encodings, long keys and bit-granular strings are sampled sparsely.",
  [H+"Keccak/SP800-185/SP800-185.c",H+"Keccak/SP800-185/SP800-185.inc",H+"Keccak/SP800-185/SP800-185.h"],
  [("string and length encodings",H+"Keccak/SP800-185/SP800-185.c"),("cSHAKE and KMAC",H+"Keccak/SP800-185/SP800-185.inc")],"output bytes and return codes")
p("C12","TupleHash depends on the exact sequence of strings and nothing else",
  "TupleHash (128 and 256) outputs the SP 800-185 value of the sequence of bit strings, whether the tuple is given in one call or spread over several updates, for every element count and element bit length including empty elements, every customization and output length, fixed or XOF. Two different tuples are never encoded to the same absorbed bit string.",
  ["inputs","histories"],"all tuples, element bit lengths, update splits",
  "Tests cover two or three small fixed tuples and a checksum of regular ones.",
  [H+"Keccak/SP800-185/SP800-185.inc",H+"Keccak/SP800-185/SP800-185.c"],
  [("TupleHash",H+"Keccak/SP800-185/SP800-185.inc")],"output bytes and return codes")
p("C13","ParallelHash is independent of input split and of available parallelism",
  "ParallelHash (128 and 256) outputs the SP 800-185 value for every input length, block size, customization and output length, however the input is cut into updates and whatever degree of parallelism the build uses. Block counts and output lengths are encoded correctly for all sizes, and no block size makes a call hang or read outside its input.",
  ["inputs","histories","configurations"],"all block sizes (tiny to larger than the input, up to the largest size_t), all splits, block counts beyond 255 and 65535, targets with 1/2/4/8-way parallelism",
  "Tests use block lengths up to a few KB with limited block counts on three targets.",
  [H+"Keccak/SP800-185/SP800-185.inc",H+"Keccak/SP800-185/SP800-185.c"],
  [("ParallelHash update and leaf processing",H+"Keccak/SP800-185/SP800-185.inc")],"output bytes and return codes")
p("C14","KangarooTwelve equals its definition for all lengths, splits and parallelism",
  "KT128 and KT256 output the value of RFC 9861 for every message, customization string and output length, independently of how the message is cut into updates, the output into squeezes and which parallel code processes the leaves. Lengths are right-encoded correctly for any customization length and leaf count, and out-of-order calls are refused.",
  ["inputs","histories","configurations"],"all message lengths (0 to beyond 256 and 65536 leaves), customization lengths (0 to several chunks), splits, targets with 1/2/4/8-way parallelism",
  "Tests compare checksums over lengths up to a few chunks; leaf counts above 255 and long customization strings are not reached.",
  [H+"KangarooTwelve/KangarooTwelve.c",H+"KangarooTwelve/KangarooTwelve.h",H+"TurboSHAKE/TurboSHAKE.c",L+"KeccakP-1600-times8/AVX512"],
  [("leaf scheduling and final node",H+"KangarooTwelve/KangarooTwelve.c"),("parallel leaves","ProcessLeaves in "+L+"KeccakP-1600-times8/AVX512")],"output bytes and return codes")
p("C15","Kravatte is a function of key and string sequence only",
  "Kravatte outputs, for every key and every sequence of bit strings, the bits the Farfalle construction prescribes, whether each string is given in one call or in many and the output is taken in one call or in many (all but the last cut at whole bytes). Options to restart, mark the last part, or select the short variant have precisely their documented effect, and results do not depend on how many blocks are processed in parallel.",
  ["inputs","histories","configurations"],"all key/input/output bit lengths, string sequences, call splits and flag combinations, targets with 1/2/4/8-way parallelism",
  "Checksum tests follow one fixed pattern of lengths and splits per length, and short-variant or multi-string use is barely sampled.",
  [H+"Kravatte/Kravatte.c",H+"Kravatte/Kravatte.h",L+"KeccakP-1600-times4",L+"KeccakP-1600-times8"],
  [("mask derivation, compression, expansion",H+"Kravatte/Kravatte.c"),("fast loops","KravatteCompress/KravatteExpand in "+L+"KeccakP-1600-times{4,8}")],"output bits and return codes")
p("C16","Xoofff is a function of key and string sequence only",
  "Xoofff outputs, for every key and every sequence of bit strings, the bits the Farfalle construction with Xoodoo prescribes, whether each string is given in one call or many and the output is taken in one call or many. Restart, last-part and Xoofffie options have precisely their documented effect, and results do not depend on how many blocks are processed in parallel.",
  ["inputs","histories","configurations"],"all key/input/output bit lengths, string sequences, call splits and flag combinations, targets with 1/4/8/16-way parallelism",
  "Checksum tests follow one fixed pattern of lengths and splits.",
  [H+"Xoofff/Xoofff.c",H+"Xoofff/Xoofff.h",L+"Xoodoo-times4",L+"Xoodoo-times8",L+"Xoodoo-times16"],
  [("mask derivation, compression, expansion",H+"Xoofff/Xoofff.c"),("fast loops","CompressFastLoop/ExpandFastLoop in "+L+"Xoodoo*")],"output bits and return codes")
p("C17","SANE sessions: synchronized round trips, forged messages rejected and wiped",
  "Two parties sharing key and nonce that process the same sequence of messages stay synchronized: every ciphertext and tag is the one the Farfalle-SANE mode defines for the whole history, and unwrapping returns the plaintext for any bit lengths of plaintext and metadata, empty ones included. If ciphertext, metadata, tag or any earlier message differ, unwrapping reports failure and leaves no decrypted data in the output buffer.",
  ["inputs","histories","fault_sequences"],"all sequences of messages with all combinations of empty/non-empty, byte- and bit-granular data and metadata, for both the Keccak and Xoodoo based schemes; all single corruptions",
  "Tests run regular length patterns through one checksum and never present a forged message or a session whose empty/non-empty pattern changes.",
  [H+"Kravatte/KravatteModes.c",H+"Xoofff/XoofffModes.c"],
  [("SANE",H+"Kravatte/KravatteModes.c and "+H+"Xoofff/XoofffModes.c")],"ciphertext, plaintext, tag bytes and return codes")
p("C18","SANSE sessions: synchronized round trips, forged messages rejected and wiped",
  "Two parties sharing a key that process the same sequence of messages stay synchronized: every ciphertext and synthetic tag is the one the Farfalle-SANSE mode defines for the whole history, and unwrapping returns the plaintext for any bit lengths of plaintext and metadata. If ciphertext, metadata, tag or any earlier message differ, unwrapping reports failure and leaves no decrypted data in the output buffer.",
  ["inputs","histories","fault_sequences"],"all sequences of messages with all combinations of empty/non-empty, byte- and bit-granular data and metadata, for both schemes; all single corruptions",
  "Tests run regular patterns through one checksum and never present a forged message.",
  [H+"Kravatte/KravatteModes.c",H+"Xoofff/XoofffModes.c"],
  [("SANSE",H+"Kravatte/KravatteModes.c and "+H+"Xoofff/XoofffModes.c")],"ciphertext, plaintext, tag bytes and return codes")
p("C19","Wide block ciphers: decipher inverts encipher; forgeries rejected and wiped",
  "For every key, tweak and bit length, enciphering gives the ciphertext the Farfalle-WBC definition prescribes, of the same length, and deciphering it gives back the plaintext. The authenticated variant enciphers plaintext followed by redundancy, returns the plaintext on success and, when ciphertext or metadata were changed, reports failure and does not leave the deciphered data in the output buffer.",
  ["inputs","fault_sequences"],"all data bit lengths (around the block-size and split boundaries of the two branches), tweak/metadata lengths, keys, both schemes; single corruptions",
  "Tests run a regular pattern of lengths into a checksum and never present a modified ciphertext.",
  [H+"Kravatte/KravatteModes.c",H+"Xoofff/XoofffModes.c"],
  [("WBC, WBC-AE and the split function",H+"Kravatte/KravatteModes.c and "+H+"Xoofff/XoofffModes.c")],"ciphertext/plaintext bytes and return codes")
p("C20","Xoodyak hash mode follows the Cyclist specification for every call sequence",
  "In hash mode, every squeezed byte is the one that the Cyclist mode with the Xoodyak parameters defines for the exact sequence of absorb and squeeze calls, for all lengths including zero and multiples of the block size. The optimized multi-block paths give the same result as processing block by block.",
  ["inputs","histories","configurations"],"all sequences of absorb/squeeze calls with all lengths, all Xoodoo implementations",
  "The tests follow fixed length patterns against a checksum; the known-answer file only has absorb once then 32-byte squeeze.",
  [H+"Xoodyak/Cyclist.inc",H+"Xoodyak/Xoodyak.c",L+"Xoodoo"],
  [("Cyclist calls",H+"Xoodyak/Cyclist.inc"),("full-block loops",L+"Xoodoo/*/Xoodyak-full-block*")],"squeezed bytes")
p("C21","Xoodyak keyed mode follows Cyclist; decryption inverts encryption",
  "In keyed mode, for every key, identifier and counter and every sequence of absorb, encrypt, decrypt, squeeze, squeeze-key and ratchet calls with any lengths, all outputs are those the Cyclist specification defines. A peer mirroring encrypt by decrypt stays in the same state, recovers the plaintexts and obtains the same tags; a change anywhere in the history changes later tags.",
  ["inputs","histories","configurations"],"all call sequences and lengths (around rate multiples), keys/ids/counters of all legal lengths, in-place buffers, all Xoodoo implementations",
  "Tests follow fixed patterns against a checksum; counters, ids, ratchet and squeeze-key in arbitrary order and block-boundary lengths are sampled at few points.",
  [H+"Xoodyak/Cyclist.inc",H+"Xoodyak/Xoodyak.c",L+"Xoodoo"],
  [("Cyclist calls",H+"Xoodyak/Cyclist.inc"),("full-block loops",L+"Xoodoo/*/Xoodyak-full-block*")],"output bytes")
p("C22","Invalid parameters and out-of-order calls are refused and change nothing",
  "Every call whose parameters or order violate the documented conditions that the interface reports (rates and capacities that do not add up or are not supported, invalid suffix or domain bytes, absorbing after squeezing, squeezing before finalizing, bit-granular pieces before the last one, output of zero where a fixed length is required, oversize duplex input, unsupported security level) returns its error code. It writes no output and leaves the instance such that the remaining valid calls give the same results as if the refused call had never been made.",
  ["inputs","histories"],"all reachable phases of every incremental interface x all invalid calls that the interface is documented to report",
  "The unit tests make almost no invalid call.",
  [H+"Keccak/KeccakSponge.inc",H+"Keccak/KeccakDuplex.inc",H+"Keccak/PRG/KeccakPRG.inc",H+"Keccak/FIPS202/KeccakHash.c",H+"Keccak/SP800-185/SP800-185.inc",H+"TurboSHAKE/TurboSHAKE.c",H+"KangarooTwelve/KangarooTwelve.c",H+"Kravatte/Kravatte.c",H+"Xoofff/Xoofff.c"],
  [("parameter and phase checks","entry of each public function in "+H)],"return codes and all later outputs")
p("C23","Calls touch only the memory they are given, at any alignment",
  "A call reads no byte outside the ranges given as input, modifies neither inputs nor any byte outside the instance and the stated output range, and its results do not depend on the alignment or neighbourhood of any buffer, on buffers being in place where the interface allows it, or on previous contents of the output or of an instance about to be initialized.",
  ["inputs","histories","configurations"],"all public functions x all lengths x buffer positions (flush against inaccessible pages on either side, all alignments) x all targets",
  "Tests allocate generously sized and aligned static buffers and never look at the bytes around them.",
  [H,L],
  [("all public functions",H+" and "+L)],"bytes around the buffers, access faults, input bytes after the call")
p("C24","Instances are independent: interleaved, copied or used from several threads",
  "The results obtained from an instance depend only on the calls made on that instance: other instances used in between or concurrently in other threads have no influence, and a byte-wise copy of an instance continues exactly like the original from the point of the copy. One-shot functions may be called concurrently.",
  ["schedules","histories"],"all interleavings of calls on several instances of all schemes, on one or several threads, and copies at any point of a history",
  "Every test uses one instance at a time in one thread.",
  [H,L],
  [("absence of shared mutable state; self-contained instance structures",H+" and "+L)],"output bytes")
p("C25","Lengths beyond 32 bits are processed correctly",
  "Inputs, outputs and block counts that exceed what fits in 32 bits (in bytes or in bits), wherever the type of the length argument can express them, are processed like any other: the result of one huge call equals that of the same data in smaller calls and the value the definition gives. No length is silently truncated.",
  ["inputs","histories"],"message, customization and output lengths around 2^29, 2^31, 2^32 bytes on 64-bit targets",
  "Tests never exceed a few hundred kilobytes.",
  [H],
  [("length handling in absorb/update/squeeze",H),],"output bytes")
p("C26","The standalone compact implementations agree with the standards",
  "The self-contained implementations shipped beside the library (three compact C versions of FIPS 202, a Python version, a Rust version of KangarooTwelve) give the FIPS 202 or KangarooTwelve value for every byte message, output length and, where supported, rate, capacity, suffix and customization string.",
  ["inputs","programs"],"all message lengths around block boundaries, all instances, output lengths of several blocks, custom rate/capacity/suffix where the interface takes them",
  "Tests run short known-answer messages with one output length.",
  ["Standalone/CompactFIPS202/C","Standalone/CompactFIPS202/Python","Standalone/KangarooTwelve/Rust"],
  [("compact C","Standalone/CompactFIPS202/C"),("compact Python","Standalone/CompactFIPS202/Python"),("Rust KangarooTwelve","Standalone/KangarooTwelve/Rust/k12.rs")],"output bytes")
p("C27","All build targets behave identically on any history of library calls",
  "For any sequence of calls to the high-level interfaces, mixing all schemes and instances, every build target (reference, compact, generic 32/64-bit, SIMD and ARM) gives the same outputs and return codes, those the specification gives. Choosing a target never changes results.",
  ["histories","configurations"],"all mixed histories x all build targets that can run here, ARM ones through an emulator",
  "Each target is tested separately with the same short patterns, and the slow groups are skipped on several targets and all ARM ones.",
  ["Makefile.build","lib/HighLevel.build","lib/LowLevel.build",H,L],
  [("selection of parallelism and fast paths by configuration",H+" (conditional code on available low-level services)")],"outputs and return codes per call")
p("C28","KeccakSum prints the digests that its command line asks for",
  "The program KeccakSum processes its arguments from left to right: for every file name, - and --string it prints one line with the digest of exactly those bytes under the function, output length and ParallelHash block size that the options before it select (the last one that sets a parameter decides, a function option sets its own defaults), shown in hexadecimal or base64, followed by two spaces and the name; without file names it hashes standard input. Invalid arguments end it with a nonzero status after the lines already due, and without another one. KeccakSum.py prints the same lines for the options it has.",
  ["inputs","histories","configurations"],"all sequences of options, files, strings and standard input; file sizes around block, chunk and buffer boundaries; digests up to 65536 bytes; every build target",
  "No test builds or runs the program.",
  ["util/KeccakSum","Standalone/CompactFIPS202/Python/KeccakSum.py"],
  [("options, hashing of files and strings","util/KeccakSum/KeccakSum.c"),("display","util/KeccakSum/base64.c"),("Python","Standalone/CompactFIPS202/Python/KeccakSum.py")],"standard output and exit status")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
