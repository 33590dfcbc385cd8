#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": hook}})

D = "src/vcdecoder.cc"
prop("C01", "Encode then decode reproduces the target",
 "For any dictionary and any target, decoding with the same dictionary the delta that the encoder produced yields exactly the target, byte for byte, and reports success. This holds for every combination of format extensions and target matching, however the target was cut into chunks when encoding and however the delta is cut into chunks when decoding.",
 ["inputs", "configurations", "histories"],
 "all dictionaries, targets, format flags, target matching on/off, encoder and decoder chunkings",
 "The unit tests encode a handful of fixed strings and a few repository files with fixed buffer sizes; the interplay of block alignment, match extension, compound opcodes, address caches and chunk edges needs far more shapes.",
 ["src/vcdiffengine.cc", "src/blockhash.cc", "src/encodetable.cc", "src/addrcache.cc", "src/vcencoder.cc", D],
 [("block-hash match search and ADD/COPY generation", "src/vcdiffengine.cc EncodeInternal, EncodeCopyForBestMatch"),
  ("instruction serialisation", "src/encodetable.cc VCDiffCodeTableWriter"),
  ("window decoding", "src/vcdecoder.cc DecodeBody/DecodeAdd/DecodeRun/DecodeCopy")],
 observe=["VCDiffEncoder::Encode", "VCDiffStreamingEncoder::EncodeChunk", "VCDiffStreamingDecoder::DecodeChunk"])
prop("C02", "The decoder computes the target RFC 3284 assigns to any well-formed delta",
 "For every well-formed delta file - not only those this encoder emits - decoding succeeds and yields the target defined by RFC 3284 plus the documented interleaved/checksum extension. That includes runs, copies that overlap their own output or cross from source into target, every address mode, two-instruction opcodes, source segments taken from anywhere in the dictionary or in earlier target data, and any number of windows.",
 ["inputs", "configurations"],
 "all well-formed delta files in both section layouts, all dictionaries",
 "Tests decode a few hand-written deltas that use a small part of the 256 opcodes, nine address modes and source-segment placements.",
 [D, "src/headerparser.cc", "src/decodetable.cc", "src/addrcache.cc", "src/codetable.cc", "src/varint_bigendian.cc"],
 [("window header parsing", "src/headerparser.cc"), ("opcode reader", "src/decodetable.cc GetNextInstruction"),
  ("address decoding", "src/addrcache.cc DecodeAddress"), ("execution", "src/vcdecoder.cc DecodeBody")],
 observe=["VCDiffStreamingDecoder::DecodeChunk/FinishDecoding", "VCDiffDecoder::Decode"])
prop("C03", "Decoding does not depend on how the delta is split into chunks",
 "For any byte sequence supplied to the streaming decoder - valid or not - the overall verdict and, on success, the complete output are the same for every way of cutting it into consecutive chunks, including empty and one-byte chunks.",
 ["inputs", "histories"],
 "all byte sequences and all of their chunkings",
 "Tests use whole-file, byte-by-byte and a few fixed chunk sizes on a few deltas; there are 2^(n-1) chunkings and resumption state is kept in several objects.",
 [D, "src/headerparser.h", "src/decodetable.h"],
 [("left-over input buffering", "src/vcdecoder.cc DecodeChunk unparsed_bytes_"),
  ("resuming an interleaved window", "src/vcdecoder.cc DecodeWindow, UpdateInterleavedSectionPointers"),
  ("putting an instruction back", "src/decodetable.h UnGetInstruction/UpdatePointers")],
 [("unparsed bytes, partially decoded window, pending second instruction", "what is carried from one call to the next", D)],
 ["return value and output of every DecodeChunk call and of FinishDecoding"])
prop("C04", "Malformed or truncated delta files are never accepted",
 "If the supplied bytes are not a complete, well-formed delta file for the dictionary - wrong header, truncated anywhere, inconsistent lengths, a source segment or copy address out of range, instructions that do not produce exactly the declared window, left-over data - then decoding reports failure at the latest when it is finished. A failed decoding stays failed until it is started anew.",
 ["inputs"],
 "all byte sequences that are not well-formed delta files",
 "Tests flip bits of two or three sample deltas and accept several outcomes; each individual consistency rule and each truncation point of each layout needs to be tried.",
 [D, "src/headerparser.cc", "src/addrcache.cc", "src/varint_bigendian.cc"],
 [("header consistency checks", "src/headerparser.cc"), ("body checks", "src/vcdecoder.cc DecodeBody"),
  ("completeness at finish", "src/vcdecoder.cc IsDecodingComplete")],
 observe=["return values of DecodeChunk, FinishDecoding, VCDiffDecoder::Decode"])
prop("C05", "Window checksums are produced when requested and enforced when present",
 "With the checksum extension the encoder attaches to every window the Adler-32 value (started from zero) of exactly the bytes of that window, and without it none. The decoder reports failure for every window that carries a checksum different from that of the data it decoded, so that decoding with a wrong dictionary or of altered data is not reported as success, and accepts windows whose checksum matches.",
 ["inputs", "configurations"],
 "all targets, dictionaries (right or wrong), window sizes, chunkings, and all 2^32 checksum values",
 "Tests check a few fixed windows of a few dozen bytes; wrong results for particular lengths, values or partial chunks are not reached.",
 [D, "src/headerparser.cc", "src/encodetable.cc", "src/vcencoder.cc", "src/checksum.h", "src/zlib/adler32.c"],
 [("checksum comparison", "src/vcdecoder.cc DecodeBody"), ("checksum field", "src/headerparser.cc ParseChecksum"),
  ("checksum emission", "src/vcencoder.cc EncodeChunk, src/encodetable.cc Output")],
 observe=["delta bytes emitted by EncodeChunk", "DecodeChunk verdict"])
prop("C06", "Configured target size limits are never exceeded",
 "The decoder never delivers more target bytes in total than the maximum target file size, nor accepts a window larger than the maximum window size: a delta that would exceed a limit is rejected as soon as the window header declares it, while every delta within the limits is accepted. The limits default to 64 MB, can be changed at any time, apply to whatever is decoded afterwards, and survive finishing and restarting.",
 ["inputs", "configurations", "histories"],
 "all limits, delta files, and points in the history at which limits are changed",
 "Tests try a few limits around one sample target, always set before decoding.",
 [D, "src/google/vcdecoder.h"],
 [("limit check per window", "src/vcdecoder.cc TargetWindowWouldExceedSizeLimits"), ("setters", "src/vcdecoder.cc SetMaximumTarget*")],
 [("total of target window sizes", "sum over windows so far", D)],
 ["DecodeChunk verdict and output size", "SetMaximumTargetWindowSize result"])
prop("C07", "No input can crash, hang or corrupt the decoder process",
 "Whatever bytes, dictionary, chunking and settings are given, every decoder call returns, within time and memory bounded by the input and the configured limits, without reading or writing outside its buffers and without undefined behaviour. Destroying the decoder releases everything it held. (Builds without NDEBUG end the process on purpose when calls are made out of order or a delta declares cache sizes out of range, as the test suite demands; that is not counted.)",
 ["inputs", "configurations"],
 "all byte sequences, dictionaries, settings and chunkings",
 "Tests run without sanitizers on a few fuzzed variants of sample deltas; out-of-bounds reads typically go unnoticed.",
 [D, "src/headerparser.cc", "src/addrcache.cc", "src/decodetable.cc", "src/varint_bigendian.cc"],
 [("range checks before every access", "src/vcdecoder.cc, src/headerparser.cc, src/addrcache.cc")],
 observe=["sanitizer reports, signals and time-outs while replaying"])
prop("C08", "Target data serves as source only where permitted",
 "When target-as-source windows are disallowed, every delta that contains such a window is rejected, and all other deltas decode to the same output as when they are allowed. When they are allowed (the default), such a window may use any range of all the target data decoded before it, and nothing beyond.",
 ["inputs", "configurations", "histories"],
 "all deltas with any mix of window kinds, all chunkings, both settings, across restarts",
 "Tests use one or two fixed target-source windows.",
 [D, "src/headerparser.cc"],
 [("permission and range check", "src/headerparser.cc ParseWinIndicatorAndSourceSegment"), ("retention or flushing of target data", "src/vcdecoder.cc FlushDecodedTarget")],
 observe=["DecodeChunk verdict and output"])
prop("C09", "Custom code tables and cache sizes are applied, and invalid ones rejected",
 "A delta that carries its own code table and address cache sizes is decoded with exactly that table and those sizes, wherever chunk boundaries fall. A delta whose cache sizes are out of range, or whose embedded table is not a complete valid code table (or itself carries a code table), is rejected.",
 ["inputs", "configurations"],
 "all code tables, all near/same cache sizes 0..255 and beyond, all chunkings",
 "One hand-written custom table with fixed cache sizes is tested.",
 [D, "src/codetable.cc", "src/decodetable.cc", "src/addrcache.cc"],
 [("nested decoding of the table", "src/vcdecoder.cc InitCustomCodeTable/ReadCustomCodeTable"), ("validation", "src/codetable.cc Validate")],
 observe=["DecodeChunk verdict and output"])
prop("C10", "A decoder object carries nothing over from earlier decodings",
 "After any history of calls - completed, failed, abandoned or out-of-order - a newly started decoding behaves exactly as on a fresh object with the same settings. Calls made out of order are refused and have no effect on output, and settings persist across decodings.",
 ["histories"],
 "all finite sequences of API calls on one decoder object",
 "Tests use fresh objects almost everywhere, plus two or three fixed reuse sequences.",
 [D, "src/decodetable.h", "src/google/vcdecoder.h"],
 [("Reset", "src/vcdecoder.cc VCDiffStreamingDecoderImpl::Reset, VCDiffDeltaFileWindow::Reset")],
 [("every member of the decoder objects", "must be re-initialised by start", D)],
 ["all public methods of VCDiffStreamingDecoder and VCDiffDecoder"])
prop("C11", "Encoder output depends only on dictionary, settings and chunks",
 "An encoder started anew after any history produces exactly the bytes a fresh encoder produces for the same dictionary, settings and sequence of chunks; the settings of a one-shot encoder are those in force when Encode is called. Encoding or finishing without a started encoding is refused and appends nothing; empty chunks change nothing.",
 ["histories", "inputs"],
 "all finite sequences of API calls on encoder objects sharing a dictionary",
 "Tests reuse an encoder in two or three fixed sequences.",
 ["src/vcencoder.cc", "src/encodetable.cc", "src/jsonwriter.cc", "src/vcdiffengine.cc"],
 [("phase flag", "src/vcencoder.cc encode_chunk_allowed_"), ("writer re-initialisation", "src/encodetable.cc Init, Output")],
 observe=["all public methods of VCDiffStreamingEncoder and VCDiffEncoder"])
prop("C12", "Encoder output conforms to the requested format",
 "Without extensions the output is a plain RFC 3284 file any conforming decoder can read; with extensions it is marked as such and uses exactly the requested ones. Each non-empty chunk yields exactly one complete, consistent window appended to the output that decodes to that chunk alone, so a receiver can decode everything encoded so far.",
 ["inputs", "configurations", "histories"],
 "all dictionaries, targets, chunkings and flag combinations",
 "Tests compare with a few expected byte strings.",
 ["src/encodetable.cc", "src/vcencoder.cc", "src/instruction_map.cc", "src/addrcache.cc"],
 [("header and window emission", "src/encodetable.cc WriteHeader/Output/CalculateLengthOfTheDeltaEncoding"), ("one window per chunk", "src/vcencoder.cc EncodeChunk")],
 observe=["bytes appended by StartEncoding, EncodeChunk, FinishEncoding"])
prop("C13", "Copies refer only to data the chosen mode allows",
 "Every copy the encoder emits lies completely inside the dictionary or starts inside the part of the current window already produced, and reproduces the target bytes at its position; it never spans the end of the dictionary. With target matching off, every copy lies inside the dictionary.",
 ["inputs", "configurations"],
 "all dictionaries, targets, both target matching settings",
 "Tests look at the instruction streams of a few fixed strings.",
 ["src/vcdiffengine.cc", "src/blockhash.cc"],
 [("match extension bounds", "src/blockhash.cc MatchingBytesToLeft/Right, FindBestMatch")],
 observe=["instructions passed to a user-supplied code table writer"])
prop("C14", "Long matches are found and copied instead of being sent literally",
 "If the target contains 32 or more consecutive bytes that occur in the dictionary (with none of their 16-byte blocks repeated often in it, and fewer than sixteen different blocks sharing their place in the hash table), they are never all sent as literal data; a piece that is only copied elsewhere in a longer match counts as found. With target matching the same holds for 47 or more consecutive bytes repeated from earlier in the same chunk, and no copy is emitted for fewer than 32 bytes.",
 ["inputs"],
 "all dictionaries and targets with bounded block repetition",
 "Tests check a few aligned examples and total sizes on repository files.",
 ["src/blockhash.cc", "src/vcdiffengine.cc", "src/rolling_hash.h"],
 [("block index and chain search", "src/blockhash.cc FindBestMatch"), ("rolling hash", "src/rolling_hash.h"), ("scan over all positions", "src/vcdiffengine.cc EncodeInternal")],
 observe=["instructions passed to a user-supplied code table writer"])
prop("C15", "Encoder and decoder agree on copy addresses for all cache sizes",
 "For every pair of valid near/same cache sizes, every sequence of copies and every valid address, the address the decoding side reconstructs is the one the encoding side was given, whichever address mode was chosen. Both sides keep their caches in step for the whole window, start every window with empty caches, and no out-of-range address is ever produced.",
 ["inputs", "configurations", "histories"],
 "all cache sizes with at most 256 modes, all address sequences",
 "Tests use the default sizes and some fixed sequences.",
 ["src/addrcache.cc", "src/addrcache.h"],
 [("cache update", "src/addrcache.cc UpdateCache"), ("mode selection", "src/addrcache.cc EncodeAddress"), ("decoding", "src/addrcache.cc DecodeAddress")],
 observe=["delta windows written by a code table writer with custom cache sizes"])
prop("C16", "Written instruction streams mean what the caller asked for",
 "For every valid code table, any sequence of add, run and copy requests given to the code table writer produces a window whose decoding performs exactly those effects in that order, in both section layouts, with or without checksum. Requests in one window do not affect the encoding of later windows.",
 ["inputs", "configurations", "histories"],
 "all valid code tables, all instruction sequences and sizes",
 "Tests check short fixed sequences with the default and one custom table.",
 ["src/encodetable.cc", "src/instruction_map.cc", "src/codetable.cc", "src/varint_bigendian.cc"],
 [("opcode selection and merging", "src/encodetable.cc EncodeInstruction"), ("reverse code table", "src/instruction_map.cc")],
 observe=["bytes produced by VCDiffCodeTableWriter"])
prop("C17", "JSON output is valid JSON that rebuilds the target",
 "For 7-bit ASCII dictionaries and targets the JSON output is a syntactically valid array of strings and offset/length pairs, from which the target can be rebuilt by concatenating the strings and the referenced ranges of dictionary followed by target; an empty target yields no output. Dictionaries or chunks with other bytes are refused without output.",
 ["inputs", "configurations", "histories"],
 "all dictionaries, targets, chunkings, target matching settings, reuse of the encoder",
 "There is no JSON decoder in the repository; tests compare a few fixed strings.",
 ["src/jsonwriter.cc", "src/google/jsonwriter.h", "src/vcencoder.cc"],
 [("escaping", "src/jsonwriter.cc JSONEscape"), ("ASCII check", "src/jsonwriter.cc IsAscii")],
 observe=["bytes appended by an encoder with the JSON format flag"])
prop("C18", "The vcdiff command round-trips files and reports failure truthfully",
 "For any files (input, dictionary and output distinct, the target within the size limits in force) and any combination of the delta format options, encoding followed by decoding restores the target file exactly, whatever the buffer size and whether files or standard streams are used. The command exits with status 0 only if the complete output was produced and written (or, for the test command, the delta was produced and decodes back to the target), and with a non-zero status otherwise; it always terminates.",
 ["inputs", "configurations", "fault_sequences"],
 "all dictionary/target/delta files (also empty or corrupt), options, buffer sizes, unwritable or full outputs",
 "The shell test runs a fixed list of commands on repository files.",
 ["src/vcdiff_main.cc"],
 [("read/encode/write loop", "src/vcdiff_main.cc Encode/Decode/DecodeAndCompare"), ("error returns", "src/vcdiff_main.cc main")],
 observe=["exit status, standard streams and output files of the vcdiff program"])
prop("C19", "Concurrent use of a shared dictionary is safe and has no influence",
 "Any number of threads, each with its own encoder or decoder, may work at the same time with one initialised dictionary. Whatever the interleaving, there is no data race and each thread obtains exactly the output it would obtain alone.",
 ["schedules"],
 "all interleavings of encoders and decoders sharing one constant dictionary",
 "All tests are single-threaded.",
 ["src/google/vcencoder.h", "src/vcencoder.cc", "src/vcdiffengine.cc", "src/instruction_map.cc", "src/rolling_hash.h"],
 [("const use of the dictionary", "src/vcdiffengine.cc Encode() const"), ("one-time initialisation of shared tables", "src/instruction_map.cc GetDefaultInstructionMap, src/rolling_hash.h Init")],
 observe=["outputs per thread", "race detector reports"])
prop("C20", "Decoded data is delivered promptly, in order and append-only",
 "After each successful chunk the total output delivered is exactly what the bytes received so far determine: all complete windows and, in the interleaved layout, every instruction whose bytes have arrived. Earlier output is never changed, data is only appended, and the same bytes are delivered to every kind of output object.",
 ["inputs", "histories"],
 "all deltas, all chunkings, all output objects",
 "Tests look at the final output only, apart from a few fixed positions.",
 [D, "src/google/output_string.h", "src/google/vcdecoder.h"],
 [("delivery at the end of each call", "src/vcdecoder.cc AppendNewOutputText, FlushDecodedTarget")],
 observe=["output object after each DecodeChunk call"])
prop("C21", "No input can crash, hang or corrupt the encoder process",
 "Whatever the dictionary, the chunks and the order of the calls, every encoder call returns. The work per byte of target is bounded by a constant, however repetitive the data or the hash values; memory is proportional to the dictionary and to the largest chunk, not to the number of chunks or encodings; nothing outside the given buffers is read, nothing uninitialised decides anything, the caller's buffers are not used after the call that received them, and destroying the objects releases everything.",
 ["inputs", "histories", "configurations"],
 "all dictionaries, chunks, flag combinations and call sequences",
 "Tests use small ordinary data; exhausted limits on chains and candidates, buffer edges and leaks show with particular data, sizes and repetitions only.",
 ["src/blockhash.cc", "src/vcdiffengine.cc", "src/encodetable.cc", "src/vcencoder.cc", "src/jsonwriter.cc"],
 [("limits on chains and candidates", "src/blockhash.cc SkipNonMatchingBlocks, TooManyMatches"), ("per-chunk target hash", "src/vcdiffengine.cc EncodeInternal"),
  ("copy of the dictionary", "src/vcdiffengine.cc VCDiffEngine::VCDiffEngine")],
 observe=["return of every public call of HashedDictionary, VCDiffStreamingEncoder, VCDiffEncoder", "memory allocated by them", "sanitizer and memcheck reports"])
prop("C22", "Deltas are compact",
 "Whatever the data, the window for a chunk is at most 64 bytes longer than the chunk (binary formats). Every copy the encoder emits is as long as it can be: the byte after it in the target differs from the byte after its source (or one of them ends there), and, if literal data precedes it, so do the bytes before it. Of a few sources for the same 16-byte block, equally aligned, the one that gives the longest copy is taken. Literal data between two copies is one instruction, and an instruction takes at most 11 bytes besides its literal data.",
 ["inputs", "configurations"],
 "all dictionaries, chunks, flag combinations, target matching settings",
 "Tests compare sizes for a few files and fixed strings only.",
 ["src/blockhash.cc", "src/vcdiffengine.cc", "src/encodetable.cc", "src/varint_bigendian.cc"],
 [("match extension", "src/blockhash.cc FindBestMatch, MatchingBytesToLeft, MatchingBytesToRight"), ("instruction and size encoding", "src/encodetable.cc EncodeInstruction, AddSize")],
 observe=["instructions passed to a user-supplied code table writer", "bytes appended by EncodeChunk"])
prop("C23", "Streaming takes memory for one window, not for the whole file",
 "A streaming encoder, and the vcdiff program when encoding, hold the dictionary and memory in proportion to the largest chunk, however many chunks go through them. A streaming decoder that does not permit target-as-source windows holds no target data of earlier windows, not even while it decodes a single chunk with many windows: its memory is in proportion to the largest window, its delta and the chunk. Consumed delta bytes are never kept. Nothing is left when the objects are destroyed.",
 ["inputs", "histories", "configurations"],
 "all streams of any length, all chunkings, both layouts",
 "No test looks at memory, and none streams more than a few windows.",
 [D, "src/google/vcdecoder.h", "src/vcencoder.cc", "src/vcdiffengine.cc", "src/encodetable.cc", "src/jsonwriter.cc", "src/vcdiff_main.cc"],
 [("flushing after each window", "src/vcdecoder.cc FlushDecodedTarget"), ("unparsed bytes", "src/vcdecoder.cc DecodeChunk unparsed_bytes_"), ("per-window buffers", "src/encodetable.cc Output")],
 observe=["memory allocated during the public calls", "resident memory of vcdiff encode"])
prop("C24", "Errors are reported by the call that reveals them",
 "A decoder refuses an invalid delta with the very call that supplies the byte that reveals it, whatever the chunking: a wrong magic number or header with the first wrong byte; a wrong, inconsistent or excessive window header field or length as soon as that field is complete; an error in an instruction of an interleaved window as soon as the instruction has arrived; errors inside windows of the standard layout, and wrong checksums, at the latest with the last byte of the window. Nothing is put off to a later chunk or to FinishDecoding, and until then only target data has been delivered that the valid part determines.",
 ["inputs", "histories"],
 "all invalid deltas, all chunkings, all limits",
 "Tests look at where an error is reported for a few fixed deltas only.",
 [D, "src/headerparser.cc", "src/decodetable.cc", "src/addrcache.cc"],
 [("header fields", "src/headerparser.cc VCDiffHeaderParser, src/vcdecoder.cc ReadDeltaFileHeader"), ("window header checks", "src/vcdecoder.cc ReadHeader, SetUpWindowSections"),
  ("interleaved instructions", "src/vcdecoder.cc DecodeBody")],
 observe=["return value of, and output delivered by, each DecodeChunk call"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
