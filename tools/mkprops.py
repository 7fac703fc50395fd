import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=list(obs)
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
L="lib/low/"
H="lib/high/"
p("C01","Every Keccak-p[1600] implementation computes the standard permutation",
"Each implementation of Keccak-p[1600,nr] in the package (reference, 32-bit and 64-bit, compact, lane-complementing, in-place bit-interleaved, XOP, AVX2, AVX-512, x86-64), for every round count it offers, maps every 1600-bit state to the value that FIPS 202 defines. No two implementations differ on any state, and the permutation touches nothing but the state.",
["inputs","configurations"],"all 2^1600 states, all round counts 1..24 (or the fixed ones offered), all C and x86-64 implementations in the build description",
"Known-answer tests exercise a handful of states per implementation; an error confined to a rare lane combination, to one round count or to one unrolling variant is invisible to them.",
[L+"KeccakP-1600"],[("rounds, unrolling, lane complementing, bit interleaving",L+"KeccakP-1600/*/*.c, *.s, common/KeccakP-1600-64.macros, KeccakP-1600-unrolling.macros")],
[("state","25 lanes in an implementation-specific representation","KeccakP1600_state")],["KeccakP1600_Permute_Nrounds","KeccakP1600_Permute_12rounds","KeccakP1600_Permute_24rounds"])
p("C02","Keccak-p[1600] state access acts on exactly the addressed bytes",
"Adding, overwriting, zeroing, extracting and extract-and-adding bytes at any offset and length within the 200-byte state affects or returns exactly bytes [offset, offset+length) of the standard byte string of the state and leaves all other state bytes unchanged, whatever internal representation an implementation uses. Nothing outside the given buffers is read or written, also when input and output alias.",
["inputs","configurations"],"all (offset,length) with offset+length<=200, all states and data, all C and x86-64 implementations",
"Tests sample some offsets/lengths on one pseudo-random state; partial-lane, lane-crossing and representation-specific cases (complemented lanes, bit interleaving, permuted lane order) form a product no test enumerates.",
[L+"KeccakP-1600",L+"common/SnP-Relaned.h"],[("SnP byte interface over lanes",L+"common/SnP-Relaned.h; KeccakP1600_*InLane/*Lanes in each implementation")],
[("state","representation map to 200 bytes","KeccakP1600_state")],["KeccakP1600_AddByte/AddBytes/OverwriteBytes/OverwriteWithZeroes/ExtractBytes/ExtractAndAddBytes"])
p("C03","Fast absorbing loops equal block-by-block absorbing",
"The fast absorbing loops of Keccak-p[1600] process exactly the whole blocks present in the data, for every rate in lanes and any data length, return the number of bytes consumed, and leave the same state as XORing each block and applying the permutation. They read no byte beyond the consumed data.",
["inputs","configurations"],"all laneCount 1..25, all data lengths, all states and data, 24- and 12-round versions, all implementations offering them",
"Only the rates of standard instances and short messages are exercised; special-cased rates and the loop's exit condition at particular lengths are not.",
[L+"KeccakP-1600"],[("FastLoop_Absorb","KeccakF1600_FastLoop_Absorb, KeccakP1600_12rounds_FastLoop_Absorb in plain-64bits, XOP, AVX512/C, AVX2, AVX512, x86-64")],(),["return value and state"])
p("C04","Parallel Keccak-p[1600] instances are independent and equal to scalar ones",
"Every x2, x4 and x8 implementation of Keccak-p[1600] behaves, for each round count and each byte- or lane-wise state access, as that many independent scalar states: the addressed instance changes exactly as the scalar one would, and no other instance is affected. Lane-parallel access reads and writes exactly laneCount lanes per instance at the given stride.",
["inputs","configurations"],"all states, instance indices, offsets, lengths, lane counts and lane strides, all SIMD implementations and serial fallbacks",
"Tests use one pseudo-random content with few strides and lengths; cross-instance leakage or a wrong shuffle in one special-cased lane count needs specific parameters.",
[L+"KeccakP-1600-times2",L+"KeccakP-1600-times4",L+"KeccakP-1600-times8",L+"common/PlSnP-Fallback.inc"],[("SIMD transposition and rounds",L+"KeccakP-1600-times*/**/*.c"),("serial fallback",L+"common/PlSnP-Fallback.inc")],
(),["KeccakP1600times{2,4,8}_*"])
p("C05","Keccak-p[1600] bulk kernels equal their scalar definition",
"The parallel bulk kernels built on Keccak-p[1600] (multi-instance absorbing loops, KT128/KT256 leaf processing, Kravatte compression and expansion) produce, for every input, exactly what processing each block with the scalar permutation and the specified rolling function gives, consume or produce exactly the number of bytes they report, and touch only those bytes; strides are at most the span of the instances.",
["inputs","configurations"],"all inputs, states, rolling keys, lane counts, strides and data lengths; all SIMD implementations",
"Reached only indirectly by tests through long messages of fixed pattern; an error in one parallel slot or one lane of the rolled key at some block index escapes.",
[L+"KeccakP-1600-times2",L+"KeccakP-1600-times4",L+"KeccakP-1600-times8"],[("KravatteCompress/KravatteExpand","KeccakP1600times*_Kravatte*"),("ProcessLeaves","KeccakP1600times*_KT*ProcessLeaves"),("multi-instance FastLoop","KeccakF1600times*_FastLoop_Absorb, KeccakP1600times*_12rounds_FastLoop_Absorb")])
p("C06","Every Xoodoo implementation computes Xoodoo and addresses exact state bytes",
"Each implementation of Xoodoo (reference, plain, SSE2, AVX-512) maps every 384-bit state to the value of Xoodoo[nr] for each round count it offers, and its byte-wise state access functions act on exactly the bytes [offset, offset+length) of the 48-byte state for every offset and length. Nothing else is read or written.",
["inputs","configurations"],"all 2^384 states, all supported nr, all (offset,length) with offset+length<=48, all C implementations",
"Known-answer tests sample a few states; partial-lane combinations and single round-count variants are not enumerated.",
[L+"Xoodoo"],[("Xoodoo rounds and SnP interface",L+"Xoodoo/{ref,plain,SSE2,AVX512}")],(),["Xoodoo_Permute_*","Xoodoo_AddBytes etc."])
p("C07","Parallel Xoodoo instances and Xoofff kernels equal their scalar definition",
"Every x4, x8 and x16 implementation of Xoodoo behaves as that many independent scalar states for each permutation and state access, and the Xoofff bulk compression and expansion kernels give exactly the result of processing the blocks one by one with the scalar permutation and the specified rolling functions, consuming or producing exactly the bytes they report.",
["inputs","configurations"],"all states, instance indices, offsets, lengths, lane counts/strides, rolling states and data lengths; all SIMD implementations",
"Tests sample one content and few lengths; slot-specific or shuffle errors need particular parameters.",
[L+"Xoodoo-times4",L+"Xoodoo-times8",L+"Xoodoo-times16"],[("SIMD transposition, rounds, CompressFastLoop/ExpandFastLoop",L+"Xoodoo-times*/**/*.c")])
p("C08","Xoodyak full-block kernels equal the generic Cyclist block loop",
"The accelerated Xoodyak full-block functions (absorb, squeeze, encrypt, decrypt, hash and keyed) transform state and data exactly as the generic per-block Cyclist operations do, for every length, and report exactly the bytes they processed. In-place encryption and decryption are supported.",
["inputs","configurations"],"all states, data and lengths; plain, SSE2 and AVX-512 implementations",
"Tests compare a few lengths of fixed patterns only.",
[L+"Xoodoo/plain/Xoodyak-full-blocks.c",L+"Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c",L+"Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c"],[("Xoodyak_*FullBlocks",L+"Xoodoo/*/Xoodyak-full-block*")])
p("C10","Sponge output depends only on the message, not on how it is fed",
"For every valid rate/capacity, message, domain-separation suffix and output length, the sponge (24-round and 12-round) outputs exactly what the sponge construction of FIPS 202 defines. Any division of the message over absorb calls and of the output over squeeze calls, empty pieces included, gives the same bytes as one call.",
["inputs","histories","configurations"],"all rates multiple of 8, messages, suffixes, output lengths and all sequences of absorb/absorb-last-few-bits/squeeze calls; with and without fast loops",
"Tests split messages in a few fixed ways at a few rates; state left at a particular fill level followed by a particular piece length is not reached.",
[H+"Keccak/KeccakSponge.inc",H+"Keccak/KeccakSponge.c"],[("queue of partial blocks",H+"Keccak/KeccakSponge.inc SpongeAbsorb/SpongeSqueeze"),("padding",H+"Keccak/KeccakSponge.inc SpongeAbsorbLastFewBits")],
[("byteIOIndex","bytes of the current block already absorbed/squeezed","SpongeInstance"),("squeezing","phase","SpongeInstance")],["KeccakWidth1600_Sponge*"])
p("C11","Sponge and hash misuse is refused without effect",
"Invalid parameters (rate+capacity not the width, rate zero, above the width or not a multiple of 8, empty or over-long delimited suffix) and calls out of phase (absorbing after squeezing has started) are reported as failure and leave the instance and all output buffers unchanged; valid calls report success.",
["inputs","histories"],"all parameter values (full integer ranges) and call sequences of the sponge and FIPS 202 hash interfaces",
"Tests never pass invalid parameters or out-of-order calls.",
[H+"Keccak/KeccakSponge.inc",H+"Keccak/FIPS202/KeccakHash.c"],[("parameter and phase checks",H+"Keccak/KeccakSponge.inc SpongeInitialize, SpongeAbsorb, SpongeAbsorbLastFewBits; KeccakHash.c")])
p("C12","FIPS 202 functions match the standard for every bit string and call pattern",
"SHA3-224/256/384/512 and SHAKE128/256, in one call or incrementally, return for every message, including messages whose length is not a multiple of 8 bits, and every output length the value FIPS 202 defines. Only the last piece of a message may be non-byte-aligned (precondition).",
["inputs","histories"],"all messages (bit lengths), all splits into updates, all output lengths, all suffix/hash-length parameters accepted",
"Short-message KATs cover each length once with one content and one or few splits.",
[H+"Keccak/FIPS202/KeccakHash.c",H+"Keccak/FIPS202/KeccakHash.h",H+"Keccak/FIPS202/SimpleFIPS202.c"],[("bit-level update and delimited suffix",H+"Keccak/FIPS202/KeccakHash.c Keccak_HashUpdate/Final/Squeeze"),("one-call functions",H+"Keccak/FIPS202/SimpleFIPS202.c")])
p("C13","TurboSHAKE matches its specification for any feeding pattern",
"TurboSHAKE with any capacity up to 512 that is a multiple of 8 and any non-zero domain byte outputs, for every message and output length and any division over calls, the 12-round sponge value with that domain separation; a zero domain byte is refused without effect.",
["inputs","histories"],"all messages, domain bytes, capacities, output lengths, splits",
"Only a few fixed vectors exist.",
[H+"TurboSHAKE/TurboSHAKE.c",H+"TurboSHAKE/TurboSHAKE.h"],[("TurboSHAKE over 12-round sponge",H+"TurboSHAKE/TurboSHAKE.c")])
p("C14","KangarooTwelve output is independent of call splitting and parallelism",
"KT128 and KT256 output for every message, customization string and output length equals RFC 9861's definition, whether computed in one call or by any sequence of updates and squeezes, and whichever parallel implementation is selected. Finalising or updating out of order is refused.",
["inputs","histories","configurations"],"all messages (any number of 8192-byte chunks), customizations, output lengths, update splits; all parallelism configurations",
"Vectors cover a few lengths; chunk boundaries combined with splits, multi-byte length encodings and >=8-leaf batches after partial chunks are not exercised.",
[H+"KangarooTwelve/KangarooTwelve.c"],[("leaf queueing and final node encoding",H+"KangarooTwelve/KangarooTwelve.c KangarooTwelve_Update/Final, length_encode (right_encode)")],
[("queueAbsorbedLen","bytes of the current chunk absorbed","KangarooTwelve_Instance"),("blockNumber","chunks started","KangarooTwelve_Instance")])
p("C15","cSHAKE, KMAC and TupleHash match SP 800-185 for every argument and split",
"cSHAKE, KMAC(XOF) and TupleHash(XOF), one-shot and incremental, return for every key, message/tuple, name, customization string and output length the value SP 800-185 defines, including the injective left/right length encodings for every size; splitting the input over updates does not change it and out-of-phase calls are refused.",
["inputs","histories"],"all keys, messages, tuples, N/S strings, output lengths (bit lengths where supported), update splits",
"Vectors cover a few fixed lengths, all with one- or two-byte length encodings.",
[H+"Keccak/SP800-185/SP800-185.inc",H+"Keccak/SP800-185/SP800-185.c"],[("left_encode/right_encode/encode_string/bytepad",H+"Keccak/SP800-185/SP800-185.inc"),("phases",H+"common/Phases.h")])
p("C16","ParallelHash result depends only on message and block length",
"ParallelHash(XOF)128/256 returns for every message, block length, customization and output length the value SP 800-185 defines, regardless of how the message is split over updates and how many blocks are hashed in parallel.",
["inputs","histories","configurations"],"all messages, block lengths, customizations, output lengths, splits; x1/x2/x4/x8 configurations",
"Tests use few block sizes and no adversarial update splits across the parallel batch boundary.",
[H+"Keccak/SP800-185/SP800-185.inc"],[("parallel block processing",H+"Keccak/SP800-185/SP800-185.inc ParallelHash*_Update, ParallelProcessing")])
p("C17","Duplex object implements the duplex construction within its rate",
"For every rate and every sequence of duplexing calls, partial feeds and partial outputs, the duplex object's outputs are those of the duplex construction on the concatenated inputs; input never reaches the capacity part and output never exceeds the rate; inputs or requests that would exceed the available rate are refused without effect. Output is read before further input is queued over it.",
["inputs","histories"],"all rates 3..1599, all sequences of Duplexing, feed-partial (add, overwrite, zeroes), get-further-output (and add) with any lengths and delimited inputs",
"Tests use byte-aligned patterns that never approach the refusal boundary after partial feeding and rates not multiple of 8 only superficially.",
[H+"Keccak/KeccakDuplex.inc",H+"Keccak/KeccakDuplex.c"],[("byteInputIndex/byteOutputIndex and range checks",H+"Keccak/KeccakDuplex.inc")],
[("byteInputIndex","bytes fed since last duplexing","DuplexInstance"),("byteOutputIndex","bytes output since last duplexing","DuplexInstance")])
p("C18","KeccakPRG feed/fetch/forget follow the duplex-based generator definition",
"The pseudo-random generator's fetched bytes depend only on the sequence of bytes fed, fetched and forget operations, not on how feeds and fetches are split into calls, and equal the duplex-based definition for every valid rate; forget makes earlier output unrecoverable and is refused when the rate is too small. A feed, even an empty one, discards output not yet fetched from the previous duplexing.",
["inputs","histories"],"all capacities, all feed/fetch/forget sequences and lengths",
"Tests compare two splits only.",
[H+"Keccak/PRG/KeccakPRG.inc",H+"Keccak/PRG/KeccakPRG.c"],[("Feed/Fetch/Forget",H+"Keccak/PRG/KeccakPRG.inc")])
p("C19","Kravatte equals the Farfalle definition for every input and output pattern",
"Kravatte's output for any key, any sequence of input strings (each in pieces, only the last piece of a string non-byte-aligned) and any output length and division over calls equals the Farfalle construction with the specified permutations and rolling functions. Results are identical for every degree of parallelism available; output is requested only between strings and the unused bits of a partial last input byte are zero.",
["inputs","histories","configurations"],"all keys (bit lengths), input string sequences, piece divisions, output lengths; all parallelism configurations",
"Tests compare checksums for some lengths in one order.",
[H+"Kravatte/Kravatte.c",H+"Kravatte/Kravatte.h"],[("Kra/Vatte queues and rolling",H+"Kravatte/Kravatte.c")],
[("queueOffset","bytes queued","Kravatte_Instance")])
p("C20","Kravatte-SANE/SANSE decrypt what they encrypt and reject any other tag",
"For every key, nonce (SANE), sequence of (metadata, plaintext) messages and lengths, ciphertext and tag follow the specification, unwrapping returns the plaintext and success, and a message whose tag differs is reported as failure with the output plaintext erased. Sender and receiver sessions stay synchronised over any number of messages, up to the first rejected one.",
["inputs","histories"],"all keys, nonces, metadata, plaintexts, bit lengths, session histories, all altered tags",
"Tests wrap/unwrap fixed patterns and never present a wrong tag.",
[H+"Kravatte/KravatteModes.c",H+"Kravatte/KravatteModes.h"],[("SANE/SANSE wrap/unwrap",H+"Kravatte/KravatteModes.c")])
p("C21","Kravatte-WBC is an invertible tweakable cipher; WBC-AE rejects modified data",
"Kravatte-WBC enciphering follows its specification and deciphering inverts it for every key, tweak and length; WBC-AE additionally returns success exactly when the redundancy is intact, and erases the output otherwise.",
["inputs"],"all keys, tweaks, plaintext bit lengths, all altered ciphertexts",
"Round trips on some lengths only; split boundaries per length are many.",
[H+"Kravatte/KravatteModes.c"],[("four-round Feistel, split",H+"Kravatte/KravatteModes.c Kravatte_WBC_*")])
p("C22","Xoofff equals the Farfalle definition for every input and output pattern",
"Xoofff's output for any key, any sequence of input strings in any pieces and any output length and division over calls equals the Farfalle construction with Xoodoo and the specified rolling functions, with identical results for every degree of parallelism available. Output is requested only between strings; unused bits of a partial last input byte are zero.",
["inputs","histories","configurations"],"all keys, input sequences, piece divisions, output lengths; all parallelism configurations",
"Tests compare checksums for some lengths in one order.",
[H+"Xoofff/Xoofff.c",H+"Xoofff/Xoofff.h"],[("compress/expand queues and rolling",H+"Xoofff/Xoofff.c")])
p("C23","Xoofff-SANE/SANSE decrypt what they encrypt and reject any other tag",
"For every key, nonce (SANE), sequence of (metadata, plaintext) messages and lengths, ciphertext and tag follow the specification, unwrapping returns the plaintext and success, and a message whose tag differs is reported as failure with the output plaintext erased. Sender and receiver sessions stay synchronised over any number of messages, up to the first rejected one.",
["inputs","histories"],"all keys, nonces, metadata, plaintexts, bit lengths, session histories, all altered tags",
"Tests wrap/unwrap fixed patterns and never present a wrong tag.",
[H+"Xoofff/XoofffModes.c",H+"Xoofff/XoofffModes.h"],[("SANE/SANSE wrap/unwrap",H+"Xoofff/XoofffModes.c")])
p("C24","Xoofff-WBC is an invertible tweakable cipher; WBC-AE rejects modified data",
"Xoofff-WBC enciphering follows its specification and deciphering inverts it for every key, tweak and length; WBC-AE additionally returns success exactly when the redundancy is intact, and erases the output otherwise.",
["inputs"],"all keys, tweaks, plaintext bit lengths, all altered ciphertexts",
"Round trips on some lengths only.",
[H+"Xoofff/XoofffModes.c"],[("four-round Feistel, split",H+"Xoofff/XoofffModes.c Xoofff_WBC_*")])
p("C25","Xoodyak follows Cyclist in every call sequence and decrypts what it encrypts",
"In hash and keyed mode, every sequence of Xoodyak operations (absorb, encrypt, decrypt, squeeze, squeeze key, ratchet) with any lengths produces the outputs the Cyclist mode defines, decryption inverts encryption including in place, for key and identifier of at most 43 bytes together. Results do not depend on whether full-block acceleration is compiled in.",
["inputs","histories","configurations"],"all keys, ids, counters, data, lengths and operation histories",
"Tests run pseudo-random sequences with one checksum; rare phase/length combinations are not enumerated.",
[H+"Xoodyak/Cyclist.inc",H+"Xoodyak/Xoodyak.c"],[("Up/Down phases and block loops",H+"Xoodyak/Cyclist.inc")],
[("phase","up or down","Cyclist instance"),("mode","hash or keyed","Cyclist instance")])
p("C26","Results do not depend on the build target",
"For every public function and every sequence of calls, all build targets (reference, compact, generic, SSSE3 to AVX-512) return the same bytes and the same status codes.",
["configurations","inputs","histories"],"all pairs of x86 build targets, all public functions, inputs and histories",
"Each target is tested against the same vectors, whose coverage of target-specific fast paths is small.",
["Makefile.build","lib/LowLevel.build","lib/high"],[("implementation selection",  "Makefile.build, lib/LowLevel.build; *_supported macros in the SnP headers")])
p("C27","Functions read and write only the memory their arguments designate",
"For every argument allowed by the documentation, a public function reads only the given input ranges and the instance, writes only the given output ranges and the instance, and does not write past a requested length, whatever the lengths, offsets and alignments.",
["inputs","histories"],"all lengths, offsets, alignments and call histories of all public functions",
"Tests run without bounds instrumentation and with generously sized static buffers.",
["lib/high","lib/low"],[("length arithmetic in every loop","lib/high/**, lib/low/**")])
p("C28","Control flow and memory addresses do not depend on secret data",
"In permutations, state access, absorbing, squeezing, encryption and decryption, branches and memory addresses depend only on lengths, offsets, parameters and public phase information, never on keys, messages or state contents, except for the final accept/reject decision.",
["inputs"],"all secret values for every public length/parameter combination",
"A functional test cannot observe timing or addresses.",
["lib/high","lib/low"],[("bitwise code without tables or data-dependent branches","lib/low/**/*.c, lib/high/**/*.c")])
p("C29","Standalone compact C implementations compute the FIPS 202 functions",
"The standalone compact C implementations of SHA-3/SHAKE return, for every message and every output length they accept, the same value as FIPS 202 defines.",
["inputs"],"all messages, output lengths and rates of the three standalone C implementations",
"Short-message KATs only, built as demonstrations.",
["Standalone/CompactFIPS202/C/Keccak-more-compact.c","Standalone/CompactFIPS202/C/Keccak-readable-and-compact.c","Standalone/CompactFIPS202/C/TweetableFIPS202.c"],[("LFSR-generated round constants, byte-wise sponge","Standalone/CompactFIPS202/C/*.c")])
p("C30","Standalone Python and Rust implementations compute the same functions",
"The standalone Python (FIPS 202) and Rust (KangarooTwelve) implementations return, for every message and output length, the same value as the specifications define.",
["inputs"],"all messages, customizations and output lengths",
"The Python files are only parsed and the Rust file has a few vectors.",
["Standalone/CompactFIPS202/Python/CompactFIPS202.py","Standalone/KangarooTwelve/Rust/k12.rs"],[("compact re-implementations","Standalone/CompactFIPS202/Python, Standalone/KangarooTwelve/Rust")])
p("C31","ARM and AVR assembler implementations compute the same functions",
"The assembler implementations for ARM (ARMv6, ARMv6-M, ARMv7-M, ARMv7-A NEON, ARMv8-A) and AVR of the Keccak-p[1600] and Xoodoo permutations, state access and bulk kernels behave exactly as their C counterparts for every state, offset and length.",
["inputs","configurations"],"all states, offsets, lengths; all ARM and AVR assembler files",
"Emulated known-answer tests at most.",
[L+"KeccakP-1600/ARM",L+"KeccakP-1600/ARMv7A-NEON",L+"KeccakP-1600/ARMv8A",L+"KeccakP-1600/AVR8",L+"Xoodoo/ARM",L+"Xoodoo/ARMv7A-NEON",L+"Xoodoo/AVR8"],[("assembler","lib/low/**/{ARM*,AVR8}/*.s")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,x['id']
print(len(P))
