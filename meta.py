#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (both committed)."""
import json, os
from checks import CHECKS

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None,
         technique=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, level_note=level_note, technique=technique, na=na,
                  observe=observe or []))


EXH = "exhaustive bounded enumeration of inputs on the real code (explicit-state, no sampling)"
SCHED = "stateless model checking of the real code under a controlled scheduler"
FAULT = "exhaustive fault-point enumeration on the real code"
MODEL = "explicit-state model, every state and transition replayed on the real code"

prop("C01", "An accepted JPEG is reproduced byte for byte",
     "Whenever a JPEG file is accepted by the JPEG parser and the Brunsli encoder accepts the result, decoding the produced Brunsli stream and serialising it gives back exactly the bytes of the original file. "
     "This holds for every combination of image geometry, sampling factors, number of components, sequential and progressive scan script, entropy tables, quantisation tables, restart intervals, padding bits, coefficients and markers, and for both coefficient-context revisions of the format.",
     ["inputs", "configurations"],
     "Every JPEG file the reader accepts; checked on every member of the enumerated file families (geometry x sampling x scan script x restart interval, coefficient patterns, marker sequences, padding patterns, tables, ...).",
     "The unit tests round-trip a handful of fixed photographs and hand-made files; losslessness is a statement about every file.",
     ["c/enc/jpeg_data_reader.cc", "c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc"],
     [("coefficient, metadata and table sections of the stream", "c/enc/brunsli_encode.cc"),
      ("their parsers", "c/dec/brunsli_decode.cc"),
      ("JPEG serialisation from the parsed structure", "c/dec/jpeg_data_writer.cc")],
     "Every file of the listed finite families is taken through read, encode, decode, write; the oracle is the input file itself. Outside the families (bigger pictures, longer marker sequences) nothing is claimed.",
     EXH)

prop("C02", "Ordinary conforming JPEG files are accepted",
     "A JPEG file that follows the baseline, extended-sequential or progressive Huffman-coded 8-bit format, with one to four components whose sampling factors divide the largest ones and coefficients in the legal range, is accepted by the parser and by the encoder and can be transcoded. "
     "It is never rejected on account of its geometry, scan order, restart intervals, padding bits, table layout, marker order or trailing bytes.",
     ["inputs"],
     "Every conforming file; checked on the members of the enumerated families that are constructed to be conforming.",
     "Tests use a few files written by one encoder; a rejection of a rare but legal layout goes unnoticed.",
     ["c/enc/jpeg_data_reader.cc", "c/enc/brunsli_encode.cc", "c/enc/jpeg_huffman_decode.cc"],
     [("marker and scan parsing", "c/enc/jpeg_data_reader.cc"), ("encoder's admission checks", "c/enc/brunsli_encode.cc")],
     "All conforming members of the families are enumerated; conformance is by construction of an independent JPEG writer that shares no code with the repository.",
     EXH)

prop("C03", "Fallback streams wrap and restore arbitrary bytes",
     "Any byte string, JPEG or not and including the empty one, can be wrapped in a fallback Brunsli stream, and decoding that stream, in one go or in pieces of any size, yields exactly the same bytes. "
     "The wrapping function fails, without touching memory outside the buffer, exactly when the destination is too small for the result it would produce.",
     ["inputs"],
     "Every byte string, every destination capacity and every way of cutting the stream; checked on all short byte strings over a hostile alphabet, all lengths around field-width changes and every capacity near the needed one.",
     "One fixed string is wrapped in one test; length-field boundaries and capacities are not exercised.",
     ["c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc"],
     [("fallback encoder", "c/enc/brunsli_encode.cc (BrunsliEncodeJpegBypass)"), ("fallback section decoder", "c/dec/brunsli_decode.cc"),
      ("fallback serialisation", "c/dec/jpeg_data_writer.cc")],
     "All byte strings of the listed lengths and alphabets, with all nearby capacities, under AddressSanitizer.", EXH)

prop("C04", "Streaming decoding equals one-shot decoding however data is cut",
     "However the Brunsli stream is divided into input pieces and whatever the sizes of the output buffers offered, the streaming decoder produces exactly the bytes of the one-shot decoder followed by serialisation, and finishes successfully exactly when those succeed. "
     "This includes pieces of zero bytes, pieces that end inside any field, and input buffers that are reused or freed as soon as a call returns.",
     ["inputs", "histories"],
     "Every stream and every schedule of input and output buffer sizes; checked on every single cut, every pair of cuts (small streams), every partition of a sliding window, uniform sizes and all short repeating schedules, for valid, truncated and damaged streams.",
     "The tests feed a few streams byte by byte with large outputs; the state machine has a suspension point at nearly every field.",
     ["c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc", "c/dec/ans_decode.cc", "c/dec/brunsli_input.h", "c/dec/serialization_state.h"],
     [("resumable section decoders", "c/dec/brunsli_decode.cc"), ("resumable serialiser", "c/dec/jpeg_data_writer.cc"),
      ("public streaming facade", "c/dec/brunsli_decode.cc (BrunsliDecoder)")],
     "The listed schedule spaces are walked completely for every stream of a 38-file corpus, under AddressSanitizer with exact heap blocks.", EXH)

prop("C05", "A truncated Brunsli stream is never taken for a complete one",
     "Every proper prefix of a valid Brunsli stream is refused by the one-shot decoder, and the streaming decoder given only that prefix never reports completion but keeps asking for more input. "
     "Whatever the streaming decoder has output so far is a prefix of the original file.",
     ["crash_points", "inputs"],
     "Every prefix length of every stream, with any chunking; checked at every byte of every stream of the families and corpus.",
     "A couple of truncation points are tested; data loss in transit can cut at any byte.",
     ["c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc"],
     [("section length bookkeeping and final status", "c/dec/brunsli_decode.cc")],
     "Every cut position of every enumerated stream is tried.", FAULT)

prop("C06", "Damaged or hostile Brunsli input is handled safely",
     "For every byte string offered as a Brunsli stream the decoder and the serialiser finish, without reading or writing outside the caller's and their own buffers, without undefined behaviour such as null dereference or division by zero, and without hanging or crashing; the outcome is either a clean error or a JPEG file. "
     "This holds for the one-shot and the streaming interface.",
     ["inputs"],
     "Every byte string; checked on every one-byte substitution, deletion, duplication, section splice, section truncation and header value combination over a corpus of streams, and on all short section bodies.",
     "Fuzzing and tests sample; a missing bound check needs a specific byte at a specific place.",
     ["c/dec/brunsli_decode.cc", "c/dec/ans_decode.cc", "c/dec/context_map_decode.cc", "c/dec/histogram_decode.cc", "c/dec/huffman_decode.cc", "c/dec/arith_decode.h", "c/dec/bit_reader.h", "c/dec/jpeg_data_writer.cc"],
     [("bound checks of section decoders", "c/dec/brunsli_decode.cc"), ("histogram and Huffman table validation", "c/dec/histogram_decode.cc, c/dec/huffman_decode.cc"),
      ("serialiser's validation of the parsed structure", "c/dec/jpeg_data_writer.cc")],
     "All listed mutations of the corpus under AddressSanitizer plus bounds/null/division checks, with a per-case time limit. Streams needing two or more independent changes are covered only where listed.", EXH)

prop("C07", "Damaged or hostile JPEG input is refused or reproduced, safely",
     "For every byte string offered as a JPEG file the parser finishes without out-of-bounds access, undefined behaviour or hanging, and either refuses it or yields a structure that serialises back to exactly those bytes. "
     "If in addition the encoder accepts the structure, decoding its output also gives exactly those bytes; a damaged file is never silently altered.",
     ["inputs"],
     "Every byte string; checked on every one-byte substitution, truncation, deletion and insertion over a corpus of JPEG files, and on all short entropy-coded segments.",
     "Tests hold a handful of broken files; silent alteration needs a particular damaged field.",
     ["c/enc/jpeg_data_reader.cc", "c/enc/jpeg_huffman_decode.cc", "c/dec/jpeg_data_writer.cc", "c/enc/brunsli_encode.cc"],
     [("bound and consistency checks of the JPEG parser", "c/enc/jpeg_data_reader.cc")],
     "All listed mutations of the corpus; the oracle is the mutated file itself.", EXH)

prop("C08", "Encoding respects the destination size and its size bound",
     "The encoder never writes outside the destination buffer, whatever its size, and reports failure when the result does not fit; on success the reported length is what was written. "
     "A destination of the size given by the bound function always suffices for a picture the encoder accepts.",
     ["inputs", "fault_sequences"],
     "Every picture and every destination size; checked for every size from 0 past the needed one on small pictures and for the bound on the families and on worst-case contents.",
     "Tests always pass a generous buffer.",
     ["c/enc/brunsli_encode.cc", "c/enc/write_bits.h", "c/enc/ans_encode.cc"],
     [("storage accounting of the section encoders", "c/enc/brunsli_encode.cc"), ("size bound", "c/enc/brunsli_encode.cc (GetMaximumBrunsliEncodedSize)")],
     "Every destination size for the corpus under AddressSanitizer with exactly sized blocks; bound checked on every family member.", FAULT)

prop("C09", "The container grammar is enforced the same way everywhere",
     "A Brunsli stream is accepted only if it follows the container grammar: signature, header first with each known value exactly once and of the proper kind, every required section exactly once after the sections it depends on, sections filling exactly their declared length, and nothing after the coefficient data. "
     "Unknown sections and values are skipped without changing the decoded file, and the streaming decoder gives the same verdict as the one-shot decoder.",
     ["inputs", "histories"],
     "Every sequence of container elements; checked on all reachable states of an automaton of the grammar with every element tried in every state.",
     "Tests cover the one order the encoder writes.",
     ["c/dec/brunsli_decode.cc", "c/common/constants.h", "docs"],
     [("section state machine and masks", "c/dec/brunsli_decode.cc"), ("tags", "c/common/constants.h")],
     "Breadth-first exploration of the automaton of the grammar; each transition is replayed on the real decoder, one-shot and streaming.", MODEL)

prop("C10", "A failing output sink is always reported",
     "When the output callback accepts fewer bytes than offered at any of its invocations, the operation that was writing (decoding to a sink, encoding to a sink, or serialising a JPEG) reports failure and never success. "
     "When every byte is accepted, the concatenation of what the callback received is the complete result.",
     ["fault_sequences"],
     "Every invocation index and every short count; checked exhaustively on the corpus for the decode, encode and write entry points.",
     "No test has a failing sink.",
     ["c/dec/jpeg_data_writer.cc", "c/dec/decode.cc", "c/enc/encode.cc"],
     [("propagation of the sink's return value", "c/dec/jpeg_data_writer.cc, c/dec/decode.cc, c/enc/encode.cc")],
     "Every call index with short counts from 0 to n-1 is enumerated.", FAULT)

prop("C13", "Parsing a JPEG yields exactly what the file says",
     "The structure produced by the JPEG parser holds exactly the coefficients, dimensions, components, tables, scans, restart intervals, markers and tail data present in the file, and serialising it without any Brunsli step returns the file unchanged. "
     "The structure obtained after a Brunsli round trip describes the same picture.",
     ["inputs"],
     "Every accepted file; checked on the enumerated families against the description each file was generated from.",
     "Round-trip tests cannot see a compensating pair of errors, and there is no independent oracle in the tests.",
     ["c/enc/jpeg_data_reader.cc", "c/enc/jpeg_huffman_decode.cc", "c/dec/jpeg_data_writer.cc", "c/include/brunsli/jpeg_data.h"],
     [("entropy decoding of sequential and progressive scans", "c/enc/jpeg_data_reader.cc"), ("serialiser", "c/dec/jpeg_data_writer.cc")],
     "Coefficients and fields are compared with the generator's own description on every family member.", EXH)

prop("C16", "Permutation coding is a bijection on valid codes",
     "For every permutation of up to 64 elements the Lehmer code computed for it decodes back to the same permutation, and distinct permutations have distinct codes. "
     "Decoding an invalid code (a digit out of range) is reported as failure, with no access outside the given arrays.",
     ["inputs"],
     "All permutations of up to 8 elements, all digit strings of short lengths, structured permutations of 64 elements.",
     "Tests decode a few samples.",
     ["c/common/lehmer_code.cc", "c/common/lehmer_code.h"],
     [("encoder and decoder", "c/common/lehmer_code.cc")],
     "Complete for small lengths; structured families at full length.", EXH)

prop("C17", "The bit reader delivers the same bits for every access pattern",
     "Reading a byte string through the bit reader yields its bits in order, whatever the sequence of peek, drop, read and byte-suspension operations and wherever the data is split; asking for more bits than exist makes the reader unhealthy and never touches memory beyond the input. "
     "After finishing, the reader has consumed exactly the bytes the requested bits occupy and flags non-zero padding.",
     ["histories", "inputs"],
     "All operation sequences up to a depth over all small data sizes and splits, against a bit-list model.",
     "Tests run two fixed scripts.",
     ["c/dec/bit_reader.h", "c/dec/bit_reader.cc"],
     [("bit accumulator, suspension and resumption", "c/dec/bit_reader.h")],
     "All operation sequences up to the stated depth compared with an independent model.", MODEL)

prop("C18", "Metadata, inter-marker bytes and trailing data survive unchanged",
     "Application and comment segments of any content, number and length, including colour profiles that resemble the built-in templates, bytes between markers, and data after the end-of-image marker are restored exactly by a Brunsli round trip. "
     "Nothing is added to or taken from files that have none.",
     ["inputs"],
     "Every metadata content; checked on all single-byte variations of the recognised template segments, all lengths around limits, all short marker sequences and tails.",
     "Tests have two images with ordinary metadata; the template shortcuts depend on exact bytes.",
     ["c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc", "c/common/constants.cc"],
     [("template substitution", "c/enc/brunsli_encode.cc, c/common/constants.cc"), ("metadata decoder", "c/dec/brunsli_decode.cc")],
     "Every listed variation is enumerated and compared byte for byte.", EXH)

prop("C19", "Quantisation tables survive unchanged",
     "Every set of quantisation tables in a JPEG the encoder accepts (8 and 16 bit, any values, any number, order and grouping in segments, redefinitions, unused tables) is restored exactly by a Brunsli round trip. "
     "Tables close to, equal to or far from the built-in standard tables are treated alike.",
     ["inputs"],
     "Every table; checked on all quality scalings of the standard tables, all single-entry changes, extreme values and segment groupings.",
     "Tests cover tables of one encoder at few qualities.",
     ["c/common/quant_matrix.cc", "c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc"],
     [("table prediction", "c/common/quant_matrix.cc"), ("difference coding", "c/enc/brunsli_encode.cc, c/dec/brunsli_decode.cc")],
     "Every listed table is enumerated and compared byte for byte.", EXH)

prop("C20", "Huffman tables and scan structure survive unchanged",
     "Every set of Huffman tables (shapes, symbol orders, slots, grouping in segments, redefinitions, unused tables) and every legal scan structure (order, spectral selection, successive approximation, component grouping, end-of-band runs, redundant zero runs, restart markers) is restored exactly by a Brunsli round trip. "
     "The entropy-coded bytes are regenerated bit for bit, padding bits included.",
     ["inputs"],
     "Every table and script; checked on the enumerated families.",
     "Tests cover the tables and scripts of a couple of encoders.",
     ["c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc", "c/enc/jpeg_data_reader.cc"],
     [("stock table matching and table coding", "c/enc/brunsli_encode.cc, c/dec/brunsli_decode.cc"), ("scan regeneration", "c/dec/jpeg_data_writer.cc")],
     "Every family member is enumerated and compared byte for byte.", EXH)

prop("C21", "The parallel executor runs every task exactly once and terminates",
     "Under every interleaving of its threads, submitting a batch to the parallel executor runs each task exactly once, returns only after all of them finished with their effects visible, can be repeated, and destroying the executor terminates its threads without deadlock. "
     "No data race occurs in the executor itself.",
     ["schedules"],
     "All thread schedules up to a preemption bound for small numbers of workers, batches and tasks.",
     "Tests observe the schedules the operating system happens to produce.",
     ["c/experimental/groups.cc", "c/experimental/groups.h"],
     [("task queue, condition variable and shutdown flag", "c/experimental/groups.cc (ParallelExecutor)")],
     "The real executor code runs on cooperative threads with every schedule up to the bound explored; data races by vector clocks on every memory access.", SCHED)

prop("C22", "Group-parallel coding is lossless under every schedule",
     "Encoding a picture in groups and decoding it, with any group sizes, executor and interleaving of the group tasks, restores the same picture as sequential execution; the encoded bytes do not depend on the schedule. "
     "A failing group makes the whole operation fail under every schedule, and no data race occurs.",
     ["schedules", "configurations"],
     "All schedules up to a preemption bound for small pictures and group sizes; all task orders; all group-size combinations over small geometries.",
     "Tests run one group size on a few images with whatever schedule occurs.",
     ["c/experimental/groups.cc", "c/dec/brunsli_decode.cc", "c/enc/brunsli_encode.cc"],
     [("tiling of states and joining of results", "c/experimental/groups.cc")],
     "Every schedule up to the bound on tiny pictures, every permutation of task order and every group-size combination on small ones.", SCHED)

prop("C23", "Encoding is deterministic",
     "The encoded bytes and the decoded bytes depend only on the input and the options: not on earlier calls, on the previous contents of the destination buffer or of fresh memory, nor on the alignment of any buffer. "
     "Encoding the same picture twice gives identical streams.",
     ["histories", "configurations"],
     "All orders of short call histories over a corpus, all fill patterns and alignments listed.",
     "Tests never compare two runs under different memory conditions.",
     ["c/enc/brunsli_encode.cc", "c/enc/write_bits.h", "c/dec/brunsli_decode.cc"],
     [("bit writer relying on zeroed storage", "c/enc/write_bits.h"), ("per-call state initialisation", "c/enc/state.h, c/dec/state.h")],
     "All histories up to the stated length, all fills and alignments, compared byte for byte.", EXH)

prop("C24", "The command-line tools never report success on failed I/O",
     "If opening, reading, measuring, writing, flushing or closing a file fails at any point, the compressing and decompressing tools exit with a failure status and do not crash; a transfer that moves fewer bytes than asked is either continued or reported. "
     "When all I/O succeeds and the input is valid, the output file holds exactly the expected bytes and the exit status is success.",
     ["fault_sequences"],
     "Every I/O call index crossed with every failure kind, for valid and invalid inputs and argument forms.",
     "No test runs the tools against failing I/O.",
     ["c/tools/cbrunsli.cc", "c/tools/dbrunsli.cc"],
     [("file helpers", "c/tools/cbrunsli.cc, c/tools/dbrunsli.cc")],
     "Every single fault is enumerated at every I/O call the tools make.", FAULT)

prop("C25", "Partial parsing modes agree with the full parse",
     "Reading only the headers or only the tables of a JPEG reports the same dimensions, components and tables as a full read of the same file, the headers also the segments and the restart interval that stand before the frame header, and each succeeds whenever the full read does. "
     "A partial read never hangs or reads outside the file, whatever its bytes.",
     ["inputs", "configurations"],
     "Every accepted file in every mode, checked on the families and on damaged files.",
     "Only the full mode is tested.",
     ["c/enc/jpeg_data_reader.cc"],
     [("mode-dependent early exits", "c/enc/jpeg_data_reader.cc")],
     "Every family member and corpus mutation in all modes.", EXH)

prop("C26", "The stream format stays compatible",
     "Streams written by the current encoder decode to the same file with the released decoder, and streams written by the released encoder decode to the same file with the current decoder. "
     "The two decoders agree on which of the streams derived from them by small damage are acceptable, except where the released one is known to misbehave.",
     ["inputs"],
     "All family members and corpus streams, in both directions, and all one-byte damages of corpus streams.",
     "Tests have no second implementation; a symmetric format change passes every round-trip test.",
     ["c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/common/constants.h", "c/common/context.cc", "c/common/predict.cc"],
     [("constants and models shared by both sides", "c/common")],
     "Cross-checked against a frozen copy of the sources kept in the verification tree.", EXH)

prop("C27", "The C and Java interfaces agree with the C++ interface",
     "The C entry points for encoding and decoding succeed exactly when the C++ interface does and deliver the same bytes to their sink; the Java classes and their native bindings likewise accept the same inputs and deliver the same bytes, within the arrays they allocate. "
     "Wrong arguments are reported, not dereferenced.",
     ["inputs"],
     "Every input; checked on the corpus, all listed damages of it and listed JPEG families.",
     "The C entry points have one test, the Java layer none that runs here.",
     ["c/dec/decode.cc", "c/enc/encode.cc", "java/dev/brunsli"],
     [("wrappers", "c/dec/decode.cc, c/enc/encode.cc, java")],
     "Every listed input through C++, C and JNI; the Java classes in a real virtual machine on the corpus and a subset of the damages.", EXH)

prop("C28", "The streaming decoder's status protocol is sound",
     "Each call of the streaming decoder consumes and produces within the given buffers and says truthfully why it stopped: more input is requested only if it could use none of what was left and has no output pending for the space left, more output only if the buffer is full. "
     "Progress is guaranteed, and once success or failure has been reported the verdict stays.",
     ["histories"],
     "Every state of the decoder and every buffer pair; checked over the schedules of the streaming spaces.",
     "Tests use the statuses in one loop shape.",
     ["c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc"],
     [("status computation", "c/dec/brunsli_decode.cc (BrunsliDecoder::Decode)")],
     "A monitor checks every call of every enumerated schedule.", EXH)

prop("C29", "Independent codec calls can run concurrently",
     "Encoders, decoders and parsers working on different data in different threads give the same results as when run alone, under every interleaving, and share no mutable state without synchronisation. "
     "This includes the very first use of each in a process.",
     ["schedules"],
     "All schedules up to a preemption bound at accesses to shared memory, for pairs of operations.",
     "Tests are single-threaded.",
     ["c/common/constants.cc", "c/common/context.cc", "c/enc", "c/dec"],
     [("one-time initialised tables", "c/common, c/enc")],
     "Every access to memory shared between two operations is a scheduling point and is checked for races by vector clocks.", SCHED)

prop("C30", "The web server modules serve the pre-compressed file exactly when they should",
     "A request for a name is answered with the regular file NAME.j and type image/x-j if the client lists image/x-j in its Accept header (the nginx module also needs brunsli_static on, a GET or HEAD main request and no final slash, or is set to always and then asks nothing of the client), and is otherwise left untouched to the rest of the server without sending anything. "
     "The nginx answer carries the file's size, time, entity tag and bytes, Content-Encoding: identity, and Vary when it depends on the client and gzip_vary is on; a failing call into the server is reported as a failure after which nothing is sent, and no header value crashes a module.",
     ["inputs", "faults"],
     "Every request, configuration, file and server failure; checked on all listed combinations, all lists of up to three media ranges, all short header strings and each call into the server failing.",
     "The modules are neither compiled nor tested by the build.",
     ["contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c", "contrib/mod_brunsli/mod_brunsli.c"],
     [("nginx content handler", "contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c"), ("Apache translation hook", "contrib/mod_brunsli/mod_brunsli.c")],
     "The modules' own source runs against stand-ins for the servers written from their documented interfaces; the servers themselves are not installed, so their side is an assumption. Weights (q=0) and wildcards are outside the statement.",
     FAULT)
prop("C31", "The functions exported to JavaScript agree with the C++ interface",
     "The one-shot and streaming functions that the WebAssembly build exports give data exactly when the C++ interface succeeds, deliver the same bytes for every way of cutting the input, and report completion, errors and the need to go on as the C++ decoder does. "
     "Everything they allocate is released by the matching release function, and null handles are tolerated.",
     ["inputs", "histories"],
     "Every input and piece size; checked on the corpus, all listed damages, long results and listed JPEG families.",
     "The wrapper is not even compiled by the test build.",
     ["wasm/codec.cc"], [("exported one-shot functions", "wasm/codec.cc (BrunsliToJpeg, JpegToBrunsli)"), ("exported streaming decoder", "wasm/codec.cc (BrunsliDecoderInit, BrunsliDecoderProcess, BrunsliDecoderCleanup)")],
     "The wrapper is compiled natively with all its memory below 4 GiB, so that its 32-bit handles are exact; emscripten is not available, so the generated WebAssembly itself is not run.",
     EXH)
prop("C32", "Signature test and memory estimate agree with the decoder",
     "Every stream the decoder accepts is recognised by the signature test and gets a non-zero memory estimate, which is not less than what the decoder then holds at its peak and not out of proportion to it. "
     "Data without the signature is not recognised, and truncated streams, streams with a refused header and missing input get the estimate 0.",
     ["inputs"],
     "Every byte string; checked on listed JPEG families, all truncations of a corpus, and all listed damages of short streams.",
     "The probes have no test at all; a user who admits or refuses work by the estimate depends on it for every input.",
     ["c/dec/brunsli_decode.cc", "c/include/brunsli/brunsli_decode.h"],
     [("signature test", "c/dec/brunsli_decode.cc (IsBrunsli)"), ("memory estimate", "c/dec/brunsli_decode.cc (BrunsliEstimateDecoderPeakMemoryUsage)")],
     "Peak measured by counting the C++ heap while decoding; a tolerance of a tenth and 64 KiB is granted downwards, input, output and 1 MiB upwards; memory inside the brotli library is not measured.", EXH)


prop("C33", "The Python patches make image libraries read Brunsli files",
     "After the patch package is imported, reading a file that starts with the Brunsli signature through OpenCV, imageio, Pillow or PythonMagick gives what the library reads from the JPEG the converter makes of it, with all further arguments passed on; every other file and call reaches the library unchanged. "
     "A failed conversion is an error and the library is not called, no temporary file remains whatever happens, and importing patches every loaded copy of a library and nothing else, or says that there is no converter.",
     ["inputs", "faults"],
     "Every file, argument list, converter and set of loaded modules; checked on all single-byte variations of the signature, all listed converter behaviours and failures, all subsets of module situations, and the corpus with the real converter.",
     "The package has no test.",
     ["contrib/py/jxl_library_patches/__init__.py", "contrib/py/jxl_library_patches/jxl_utils.py", "contrib/py/jxl_library_patches/jxl_pillow.py", "contrib/py/jxl_library_patches/jxl_imageio.py", "contrib/py/jxl_library_patches/jxl_pythonmagick.py"],
     [("wrappers and module scan", "contrib/py/jxl_library_patches/__init__.py"), ("conversion", "contrib/py/jxl_library_patches/jxl_utils.py")],
     "The package's own code runs next to stand-ins for the four libraries written from their documented interfaces (for Pillow that of 5.1, which the code refers to); none of them is installed.",
     FAULT)

prop("C34", "Prefix codes: construction, transmission and lookup agree",
     "For every symbol histogram within the format's limits the constructed prefix code is complete, no longer than the limit allows, gives every occurring symbol a code and no other, and is of least cost when the limit does not bind; its transmitted description stands for exactly these code lengths, and the codes assigned to symbols are the canonical ones. "
     "The lookup table built from any complete code, for every table width, maps every bit pattern to the symbol whose code it begins with, fills exactly the size it reports, and building it never writes outside its memory.",
     ["inputs"],
     "Every histogram, list of code lengths and table width; checked on all histograms of up to 6 symbols over listed counts, all short lists of lengths, all runs between listed lengths, and all complete codes of small size with extreme ones.",
     "Tests build three codes.",
     ["c/enc/huffman_tree.cc", "c/enc/huffman_tree.h", "c/dec/huffman_table.cc", "c/dec/huffman_table.h"],
     [("construction and run-length description", "c/enc/huffman_tree.cc (CreateHuffmanTree, WriteHuffmanTree, ConvertBitDepthsToSymbols)"), ("two-level lookup table", "c/dec/huffman_table.cc (BuildHuffmanTable)")],
     "All listed histograms, length lists and tables compared with definitions; longer alphabets by structured families.", EXH)

prop("C35", "Binary arithmetic decoding recovers every coded bit",
     "Whatever bits were coded with whatever probabilities, in the coder the format defines, the decoder returns the same bits and takes no word of the input beyond the coded ones, and the adaptive estimates of probability follow the format's counters in every state they can reach, without overflow. "
     "The words and the raw bits read beside the coded data come out in order; reading beyond the end is flagged as an error and never touches memory beyond the input.",
     ["inputs", "histories"],
     "Every sequence of probabilities and bits, and every history of an estimate; checked on all reachable estimate states, all short sequences behind listed histories, and all short sequences of reads.",
     "Tests code a few sequences of 50 000 bits.",
     ["c/dec/arith_decode.h", "c/common/distributions.h", "c/dec/brunsli_input.h"],
     [("interval arithmetic", "c/dec/arith_decode.h (BinaryArithmeticDecoder)"), ("estimates", "c/common/distributions.h (Prob)"), ("words and raw bits", "c/dec/brunsli_input.h (WordSource, BitSource)")],
     "The estimate's state graph is explored completely, in step with a model; the coder within bounds on sequence length.", MODEL)

prop("C36", "Decoding with a header known beforehand gives what the whole stream gives",
     "A caller that supplies the header's values itself and feeds the decoder the rest of the stream, at once or in pieces of any sizes, gets the status, the structure and the JPEG file that the whole stream gives, for intact, truncated and damaged data alike; the block grid computed from the header's values is the one JPEG defines, or they are refused as too large. "
     "Sections the caller asks to skip are passed over without any effect on the others, and a section the caller declares as already met is refused as a duplicate.",
     ["inputs", "histories"],
     "Every stream, header, way of cutting and set of sections; checked on a corpus with every truncation, every cut, every listed one-byte damage, all sets of sections, and the grid of all listed sizes and sampling factors.",
     "One test decodes one stream this way and looks only at the status.",
     ["c/dec/state.h", "c/dec/state.cc", "c/dec/brunsli_decode.cc"],
     [("preparation of the state", "c/dec/brunsli_decode.cc (UpdateSubsamplingDerivatives, PrepareMeta)"), ("sections met and skipped", "c/dec/brunsli_decode.cc (ProcessSection, ParseSection)")],
     "All listed bodies are decoded both ways and compared.", EXH)

prop("C37", "ANS coding: histograms are normalised, transmitted and coded without loss",
     "Every histogram of symbol counts is normalised to the format's total with every occurring symbol kept and no other added, in counts the format can represent; its description is read back as exactly these counts, and any sequence of occurring symbols coded with them decodes to the same sequence, ending in the initial state after exactly the coded words. "
     "Reading an arbitrary description either gives counts that add up to the total and are the ones the bits stand for, or refuses it; counts that do not fill the decoding table are refused.",
     ["inputs", "histories"],
     "Every histogram, description and sequence of symbols; checked on all histograms of few symbols over listed counts, all pairs of counts up to 700, families on the full alphabet, all beginnings of descriptions, decoder steps at every frequency from the borders of the state range, and all short sequences.",
     "No test looks at this layer; files reach a small part of the histograms.",
     ["c/enc/ans_encode.cc", "c/enc/ans_encode.h", "c/enc/histogram_encode.cc", "c/dec/ans_decode.cc", "c/dec/ans_decode.h", "c/dec/histogram_decode.cc"],
     [("normalisation and description", "c/enc/histogram_encode.cc (NormalizeCounts, EncodeCounts)"), ("its reader", "c/dec/histogram_decode.cc (ReadHistogram)"), ("coder and decoder", "c/enc/ans_encode.h (ANSCoder), c/dec/ans_decode.h (ANSDecoder, ANSDecodingData)")],
     "Coder and decoder run in step with a model of the format from all listed states; histograms and descriptions within bounds.", MODEL)

prop("C38", "Context maps are transmitted without loss",
     "Every map from contexts to at most 256 clusters that the encoder writes stands, by the format's rules of move-to-front, runs of zeros and prefix codes, for exactly that map, and is read back as it by the decoder, which stops right behind it. "
     "A sequence of symbols and runs, in whatever way an encoder chose them, is read as the map it stands for, or refused if a run goes beyond the end, without writing outside the map.",
     ["inputs"],
     "Every map and every description; checked on all short maps over four clusters, all run lengths up to 420 next to listed others, up to 256 clusters in several orders, all short sequences of items, and every prefix of run lengths with runs that just fit and just do not.",
     "No test looks at this layer; files reach a small part of the maps.",
     ["c/enc/context_map_encode.cc", "c/dec/context_map_decode.cc"],
     [("writer", "c/enc/context_map_encode.cc (EncodeContextMap)"), ("reader", "c/dec/context_map_decode.cc (DecodeContextMap)")],
     "All listed maps and descriptions compared with the format's rules; longer maps by structured families.", EXH)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        if p["id"] in CHECKS:
            checks.append(dict(property=p["id"],
                               quick_cmd="python3 run.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                               technique=p["technique"],
                               level=CHECKS[p["id"]]["level"], level_note=p["level_note"]))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
    m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=na,
             notes="Every check compiles what it needs from /repo's working tree into /verif/build (git-ignored).")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
