#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Encode then decode returns the exact target",
  "For every dictionary and target (any bytes, any sizes including empty), every combination of format extensions (standard, interleaved, checksum, both), target matching on or off, and every way of splitting the target into encode calls, encoding succeeds and decoding the resulting delta with the same dictionary succeeds and reproduces the target byte for byte. This holds through both the one-shot and the streaming interfaces. A dictionary, or a dictionary and chunk together, of 2 GiB or more, for which the format's 31-bit sizes do not suffice, is refused (Init or the encode call returns false) and never yields a delta that cannot be decoded.",
  ["inputs", "configurations"],
  "all dictionaries, targets, format flags, target-matching settings and encode-chunk splits, up to the decoder's size limits",
  "The tests round-trip a handful of fixed texts and one family of synthetic cases; whether a particular combination of match position, instruction size, address mode and window layout survives depends on input content no fixed sample covers.",
  ["src/vcencoder.cc", "src/vcdiffengine.cc", "src/blockhash.cc", "src/rolling_hash.h", "src/encodetable.cc", "src/instruction_map.cc", "src/addrcache.cc", "src/varint_bigendian.cc", "src/decodetable.cc", "src/vcdecoder.cc"],
  [("match search and ADD/COPY emission", "src/vcdiffengine.cc EncodeInternal; src/blockhash.cc FindBestMatch"),
   ("opcode selection and window output", "src/encodetable.cc EncodeInstruction, Output"),
   ("symmetric address cache", "src/addrcache.cc EncodeAddress/DecodeAddress"),
   ("instruction execution", "src/vcdecoder.cc DecodeBody, DecodeCopy")],
  ["google/vcencoder.h", "google/vcdecoder.h"])

p("C02", "Decoder reconstructs what RFC 3284 says for every well-formed delta",
  "Every well-formed delta - any mixture of ADD, RUN and COPY instructions written with any opcode (single or paired) and any address mode, windows with a dictionary segment, an earlier-target segment or no segment, in the RFC layout or the interleaved/checksummed extension - is accepted and decodes to exactly the target defined by RFC 3284. This includes deltas the project's own encoder never produces.",
  ["inputs"],
  "all well-formed delta files (all 256 opcodes, all address modes, any window sequence) and dictionaries",
  "The tests decode a few hand-written deltas; the space of opcode/mode/size/segment combinations and of address-cache histories is not sampled by them.",
  ["src/vcdecoder.cc", "src/decodetable.cc", "src/codetable.cc", "src/addrcache.cc", "src/headerparser.cc", "src/varint_bigendian.cc", "src/checksum.h"],
  [("default code table", "src/codetable.cc kDefaultCodeTableData"),
   ("opcode reader", "src/decodetable.cc GetNextInstruction"),
   ("address modes and cache reset per window", "src/addrcache.cc DecodeAddress, Init"),
   ("window header and segments", "src/headerparser.cc; src/vcdecoder.cc ReadHeader, DecodeCopy")],
  ["google/vcdecoder.h"])

p("C03", "Decoding does not depend on how the delta is split into chunks",
  "For every byte string offered as a delta - well-formed, truncated or corrupt - and every way of splitting it into consecutive decode calls (including empty and single-byte calls), the overall verdict is the same as when it is supplied in one call. When it is accepted, the concatenated output is the same too, and each call's input buffer may be reused as soon as the call returns.",
  ["inputs", "histories"],
  "all delta byte strings and all partitions of them into decode calls",
  "Existing tests split a few fixed deltas at one granularity; a resumption bug needs a boundary inside a particular varint, compound opcode, address, literal or code-table byte.",
  ["src/vcdecoder.cc", "src/decodetable.cc", "src/headerparser.cc"],
  [("carry-over of unparsed bytes", "src/vcdecoder.cc DecodeChunk"),
   ("resuming an interleaved window", "src/vcdecoder.cc DecodeWindow, UpdateInstructionPointer; src/decodetable.h UnGetInstruction, UpdatePointers")],
  ["google/vcdecoder.h"])

p("C04", "Arbitrary and malicious delta bytes are handled safely and judged correctly",
  "For every byte string given as a delta, with any dictionary and any chunking, the decoder terminates without reading or writing outside its buffers, without undefined behaviour and without exhausting the stack, and reports failure unless the bytes are a well-formed delta whose every length, address, segment and section boundary is consistent. Data it accepts decodes to what the format defines.",
  ["inputs"],
  "all byte strings and all dictionaries; in particular all single and multiple mutations of well-formed deltas",
  "The fuzz-bits tests flip bits of fixed deltas and only look for crashes on the sampled seeds; the verdict on a malformed length, address or section needs an independent judge over all inputs.",
  ["src/vcdecoder.cc", "src/headerparser.cc", "src/decodetable.cc", "src/addrcache.cc", "src/varint_bigendian.cc", "src/codetable.cc"],
  [("length and overflow checks", "src/headerparser.cc ParseSectionLengths, ParseSourceSegmentLengthAndPosition"),
   ("address validation", "src/addrcache.cc IsDecodedAddressValid"),
   ("size checks before executing an instruction", "src/vcdecoder.cc DecodeBody"),
   ("leftover detection", "src/vcdecoder.cc DecodeBody end-of-window checks")],
  ["google/vcdecoder.h"])

p("C05", "Decoder size limits are exact and bound what a delta can make it produce",
  "A delta is rejected if any single target window exceeds the configured window limit or the total target exceeds the configured file limit (64 MB each by default), and is never rejected for its size when both are within the limits, including exactly at them. Rejection happens before the offending window produces any output, and an out-of-range window limit is refused leaving the old limit in force. Sizes a delta merely announces never make the decoder allocate memory beyond a fixed multiple of the limits plus the input.",
  ["inputs", "configurations"],
  "all limit settings and all sequences of window sizes, including sums that only exceed the limit in a late window",
  "Tests set a couple of limits around one fixed delta; off-by-one, accumulation and reset errors need chosen window-size sequences relative to chosen limits.",
  ["src/vcdecoder.cc", "src/google/vcdecoder.h", "src/headerparser.cc"],
  [("limit check on each window header", "src/vcdecoder.cc TargetWindowWouldExceedSizeLimits"),
   ("running total", "src/vcdecoder.cc AddToTotalTargetWindowSize")],
  ["google/vcdecoder.h SetMaximumTargetFileSize/SetMaximumTargetWindowSize"])

p("C06", "Checksummed deltas never yield silently wrong data",
  "When a delta carries per-window checksums, decoding succeeds only if every window's decoded bytes match that window's Adler-32 value; any corruption of literals, addresses, dictionary contents or the checksum field that changes a window's Adler-32 relation makes decoding fail. The encoder asked for checksums writes, for every window, the checksum of exactly that window's target bytes.",
  ["inputs", "fault_sequences"],
  "all targets, dictionaries, corruptions of the delta and substitutions of the dictionary, in every window position",
  "Tests check one wrong checksum and one checksum value; whether every window, size and layout is verified is a universal claim.",
  ["src/vcdecoder.cc", "src/checksum.h", "src/zlib/adler32.c", "src/encodetable.cc", "src/vcencoder.cc", "src/headerparser.cc"],
  [("checksum computation", "src/checksum.h ComputeAdler32; src/zlib/adler32.c"),
   ("verification at end of window", "src/vcdecoder.cc DecodeBody"),
   ("emission", "src/vcencoder.cc EncodeChunk; src/encodetable.cc Output")],
  ["google/vcencoder.h VCD_FORMAT_CHECKSUM", "google/vcdecoder.h"])

p("C07", "A reused decoder behaves like a fresh one",
  "Whatever a decoder object has done before - successful streams, failed streams, abandoned streams that were then finished, custom code tables, different dictionaries and formats - the next stream it decodes gives the same verdict and output as a newly constructed decoder with the same settings. Calls outside the documented start/decode/finish order are refused without harming later correct use, and settings persist across streams.",
  ["histories"],
  "all call histories over start, decode, finish and the setters, followed by any stream",
  "Tests reuse a decoder a few times in fixed orders; leakage of state needs a specific earlier stream followed by a specific later one.",
  ["src/vcdecoder.cc", "src/decodetable.cc", "src/decodetable.h"],
  [("state reset", "src/vcdecoder.cc VCDiffStreamingDecoderImpl::Reset, StartDecoding, VCDiffDeltaFileWindow::Reset"),
   ("code table selection", "src/decodetable.cc UseCodeTable")],
  ["google/vcdecoder.h"])

p("C08", "Encoder output is conformant VCDIFF with exactly the requested features",
  "Every delta the encoder produces parses strictly under RFC 3284 (plus the documented extensions): correct header for the requested flags, consistent lengths, no leftover bytes in any section, every address valid, and it can be decoded by an independent RFC decoder to the target. Checksums and interleaving appear exactly when requested, no copy straddles the dictionary/target boundary, and with target matching off no copy refers to target data.",
  ["inputs", "configurations"],
  "all dictionaries, targets, chunkings and format flags",
  "Tests compare a few complete byte strings; decoding by the project's own decoder cannot reveal an encoder and decoder that agree on a non-conformant format.",
  ["src/encodetable.cc", "src/vcencoder.cc", "src/vcdiffengine.cc", "src/instruction_map.cc", "src/codetable.cc", "src/addrcache.cc"],
  [("header", "src/encodetable.cc WriteHeader"),
   ("window layout", "src/encodetable.cc Output, CalculateLengthOfTheDeltaEncoding"),
   ("target matching switch", "src/vcdiffengine.cc Encode")],
  ["google/vcencoder.h"])

p("C09", "Encoding is a function of its arguments, not of history or of caller memory",
  "Encoding the same chunks against the same dictionary contents with the same settings always yields the same bytes, no matter what the encoder object or the shared hashed dictionary was used for before, and no matter what the caller does to its dictionary buffer after construction. Streaming output is only appended and calls outside start/encode/finish order are refused, while the one-shot interface replaces the output and uses the settings last given to it.",
  ["histories", "inputs"],
  "all histories of encode operations on shared dictionaries and reused encoders, in and out of order",
  "Tests encode a target twice in one or two fixed patterns; history dependence needs a specific earlier operation.",
  ["src/vcencoder.cc", "src/google/vcencoder.h", "src/encodetable.cc", "src/vcdiffengine.cc", "src/jsonwriter.cc"],
  [("writer re-initialisation", "src/encodetable.cc Init, Output; src/jsonwriter.cc Init"),
   ("call-order guard", "src/vcencoder.cc encode_chunk_allowed_"),
   ("private copy of the dictionary", "src/vcdiffengine.cc constructor")],
  ["google/vcencoder.h"])

p("C10", "JSON output is valid JSON that reconstructs the target",
  "For every 7-bit ASCII dictionary and target, the JSON output is a syntactically valid array of strings and offset/length pairs which, applied in order to the dictionary followed by the target produced so far, reconstructs the target exactly; an empty target yields empty output; none of this depends on the process's locale. Dictionaries or targets with non-ASCII bytes are refused.",
  ["inputs", "configurations", "histories"],
  "all ASCII dictionaries and targets (including every control character), flag combinations and histories; any chunking when copies come from the dictionary only, one chunk when target matching is on",
  "Tests compare a few literal JSON strings; escaping and separators must be right for every byte and every instruction sequence.",
  ["src/jsonwriter.cc", "src/google/jsonwriter.h", "src/vcencoder.cc"],
  [("escaping", "src/jsonwriter.cc JSONEscape"),
   ("separators and brackets", "src/jsonwriter.cc Add, Copy, Run, Output, FinishEncoding"),
   ("ASCII check", "src/jsonwriter.cc IsAscii, VerifyChunk, VerifyDictionary")],
  ["google/vcencoder.h VCD_FORMAT_JSON", "google/jsonwriter.h"])

p("C11", "A hashed dictionary can be shared by concurrent encoders",
  "Once initialised, one hashed dictionary may be used simultaneously by any number of encoders (and independent decoders) on different threads without data races, and each produces exactly the output it would produce alone.",
  ["schedules", "inputs"],
  "all interleavings of concurrent encodes and decodes sharing one initialised dictionary",
  "No existing test uses threads.",
  ["src/vcencoder.cc", "src/google/vcencoder.h", "src/vcdiffengine.h", "src/blockhash.cc", "src/instruction_map.cc", "src/rolling_hash.h"],
  [("const engine", "src/vcdiffengine.h; src/google/vcencoder.h HashedDictionary comment"),
   ("lazily created shared default instruction map", "src/instruction_map.cc GetDefaultInstructionMap")],
  ["google/vcencoder.h"])

p("C12", "Custom code tables and cache sizes work exactly as the delta declares",
  "A delta that carries its own valid code table and address-cache sizes decodes according to that table and those sizes, for that delta only; a delta whose table is invalid, whose sizes are out of range, or whose embedded table is itself malformed is rejected. Windows produced by the code table writer configured with a valid custom table and cache sizes decode to the instructions given to it.",
  ["inputs", "configurations"],
  "all valid and invalid code tables, cache sizes, embedded table encodings and instruction sequences",
  "Tests use one alternative table and one pair of cache sizes, always valid.",
  ["src/vcdecoder.cc", "src/codetable.cc", "src/decodetable.cc", "src/encodetable.cc", "src/instruction_map.cc", "src/addrcache.cc"],
  [("reading the table", "src/vcdecoder.cc InitCustomCodeTable, ReadCustomCodeTable"),
   ("validation", "src/codetable.cc Validate"),
   ("writer with custom table", "src/encodetable.cc; src/instruction_map.cc")],
  ["google/vcdecoder.h", "google/encodetable.h"])

p("C13", "The command-line tool round-trips files and agrees with the library",
  "For every dictionary and target file (including empty ones), every supported option combination and buffer size, and whether files or standard streams are used, encode then decode exits with success and restores the target exactly, the test command succeeds, and the delta is one any conforming decoder accepts. Options take effect as documented: format options change the format, size limits and the earlier-target restriction are enforced on decode.",
  ["inputs", "configurations"],
  "all file contents, option combinations, buffer sizes and file/stream choices",
  "The shell test runs one pair of files through a fixed list of invocations.",
  ["src/vcdiff_main.cc", "man/vcdiff.1"],
  [("encode, decode and compare loops", "src/vcdiff_main.cc Encode, Decode, DecodeAndCompare"),
   ("buffer sizing", "src/vcdiff_main.cc OpenFileForReading")],
  ["vcdiff executable"])

p("C14", "The command-line tool exits with failure whenever the result is not complete",
  "If an input file cannot be opened or read, the delta is corrupt, truncated or fails its checksum, a limit is exceeded, the output cannot be fully written, or the arguments are unusable, the tool ends with a non-zero exit status, terminating promptly. A zero exit status means the complete, correct output was written, and the test command reports success only if the target matches.",
  ["fault_sequences", "inputs"],
  "all combinations of command, file/stream choice and injected fault (missing, unreadable, full, truncated, corrupt, wrong dictionary, closed stream), at every write position",
  "The shell test exercises a fixed list of failures, none in writing the output.",
  ["src/vcdiff_main.cc"],
  [("error propagation to exit status", "src/vcdiff_main.cc main, WriteOutput, ReadInput, CompareOutput")],
  ["vcdiff executable"])

p("C15", "Forbidding earlier-target segments is enforced and changes nothing else",
  "With earlier-target segments disallowed, every delta containing a window with such a segment is rejected, and every other delta gives the same verdict and the same output as with them allowed, whatever the chunking and number of windows. With them allowed, such windows see exactly the target decoded so far.",
  ["inputs", "configurations", "histories"],
  "all deltas mixing window kinds, both settings and all chunkings",
  "Tests use two fixed deltas; discarding or retaining target data wrongly needs specific window and chunk sequences.",
  ["src/vcdecoder.cc", "src/headerparser.cc"],
  [("flag check", "src/headerparser.cc ParseWinIndicatorAndSourceSegment"),
   ("flushing decoded windows", "src/vcdecoder.cc FlushDecodedTarget, AppendNewOutputText")],
  ["google/vcdecoder.h SetAllowVcdTarget"])

p("C16", "Partial input yields only correct prefixes and truncation is always reported",
  "While a well-formed delta is being supplied piece by piece, the output at every moment is a prefix of the true target, every fully received window has been output by the end of the call that completed it, and in the interleaved format every instruction received completely has been output. If the supply stops anywhere other than at a window boundary after the header, finishing reports failure; at such a boundary (or when nothing at all was supplied) it reports success with exactly the windows received.",
  ["crash_points", "inputs", "histories"],
  "every truncation point of every well-formed delta under every chunking",
  "Tests truncate a few fixed deltas by one or a few bytes and check only the verdict.",
  ["src/vcdecoder.cc", "src/headerparser.cc"],
  [("incremental output", "src/vcdecoder.cc AppendNewOutputText, DecodeChunk"),
   ("completeness test", "src/vcdecoder.cc IsDecodingComplete, FinishDecoding")],
  ["google/vcdecoder.h"])

p("C17", "Duplicated data is actually compressed and overhead is bounded",
  "Data that repeats an unrepetitive dictionary in stretches of at least 32 bytes, at whatever alignment, is encoded as copies rather than literals, and the same holds for repetition inside one encode call's target when target matching is on. The delta is never larger than the target plus a small bounded overhead per encode call, and enabling target matching never loses dictionary matches of an unrepetitive target.",
  ["inputs", "configurations"],
  "all dictionaries and targets built from long dictionary slices separated by unrelated bytes, at every alignment and size",
  "Tests assert the compressed size of one text; a match finder that misses particular alignments, positions or dictionary sizes still round-trips and passes.",
  ["src/blockhash.cc", "src/blockhash.h", "src/rolling_hash.h", "src/vcdiffengine.cc", "src/encodetable.cc"],
  [("block hash lookup and extension", "src/blockhash.cc AddAllBlocks, FindBestMatch"),
   ("rolling hash", "src/rolling_hash.h UpdateHash"),
   ("minimum match size", "src/vcdiffengine.h")],
  ["google/vcencoder.h"])

p("C18", "Any output sink receives the same bytes, appended only, with few resizes",
  "Encoder and decoder deliver the same bytes to every implementation of the output interface, never modify or remove what a streaming caller already has in it, and the one-shot interfaces replace it. While decoding, the sink's size grows at most once in advance per window regardless of the number of calls, and announced reservations are sufficient for the window they announce.",
  ["inputs", "configurations"],
  "all sinks implementing the interface, prior contents, deltas, targets and chunkings",
  "Tests use std::string and a rope with a fixed text.",
  ["src/google/output_string.h", "src/output_string_crope.h", "src/vcdecoder.cc", "src/vcencoder.cc", "src/encodetable.cc"],
  [("output interface", "src/google/output_string.h"),
   ("reservation", "src/vcdecoder.cc AppendNewOutputText; src/encodetable.cc Output")],
  ["google/output_string.h"])

p("C19", "Work is proportional to the data, even for adversarial inputs",
  "The work done to encode grows at most linearly (with a fixed constant) with dictionary plus target size for every input, including highly repetitive or hash-colliding ones, and the work to decode grows at most linearly with the delta plus target size when supplied in reasonably sized pieces. No input of a few kilobytes can make either side perform work quadratic or worse in its size.",
  ["inputs"],
  "all dictionaries, targets and deltas, in particular ones built to collide, repeat or nest",
  "Timing tests cover two fixed inputs; removing a search bound only shows on adversarial data and never fails a functional test.",
  ["src/blockhash.cc", "src/blockhash.h", "src/vcdiffengine.cc", "src/vcdecoder.cc"],
  [("bounded probing", "src/blockhash.cc SkipNonMatchingBlocks, TooManyMatches"),
   ("doubling copy and bulk append", "src/vcdecoder.cc DecodeCopy")],
  ["google/vcencoder.h", "google/vcdecoder.h"])

p("C20", "Memory is given back and stays proportional to the data in use",
  "Destroying encoders, decoders and hashed dictionaries releases all memory they obtained, whatever they did before: successful, failed, refused or abandoned streams, custom code tables, supplied writers. The memory an object holds does not grow with the number of streams or chunks it has processed: an encoder's stays within a fixed multiple of the dictionary plus the largest chunk, a decoder's within a fixed multiple of the target so far plus pending input, and when earlier-target segments are disallowed within a fixed multiple of the largest window plus pending input.",
  ["histories", "inputs"],
  "all histories of encode and decode operations, all dictionaries, chunks and deltas",
  "No test looks at memory; a leak on one failure path or a buffer that is never emptied changes no output.",
  ["src/vcdecoder.cc", "src/vcencoder.cc", "src/vcdiffengine.cc", "src/blockhash.cc", "src/encodetable.cc", "src/jsonwriter.cc", "src/decodetable.cc"],
  [("flushing decoded windows", "src/vcdecoder.cc FlushDecodedTarget, DecodeChunk"),
   ("target hash per chunk", "src/vcdiffengine.cc EncodeInternal"),
   ("section buffers emptied after each window", "src/encodetable.cc Output; src/jsonwriter.cc Output"),
   ("ownership", "src/vcencoder.cc; src/vcdecoder.cc destructors and Reset")],
  ["google/vcencoder.h", "google/vcdecoder.h"])

p("C21", "A caller-supplied writer sees exactly the instructions that make up the delta",
  "A streaming encoder given its own code table writer drives it in the documented order: starting a stream initialises it, has it verify the dictionary and write the header with the given flags; each non-empty chunk is verified, then described completely by additions, copies and runs (with its checksum if that extension is on) and ended by exactly one output call; finishing is passed on once. The instructions reconstruct the chunk and are the same an ordinary encoder writes into its delta. Whatever the writer refuses is reported as failure with nothing emitted, a failed or missing start makes later calls fail, and the writer is owned by the encoder and destroyed exactly once with it.",
  ["histories", "inputs"],
  "all dictionaries, chunk sequences, flags, call orders and refusals by the writer",
  "Tests use one mock writer with fixed data in the engine's tests; completeness, order and refusals must hold for every input and history.",
  ["src/vcencoder.cc", "src/google/codetablewriter_interface.h", "src/vcdiffengine.cc"],
  [("driving the writer", "src/vcencoder.cc StartEncoding, EncodeChunk, FinishEncoding"),
   ("instruction emission", "src/vcdiffengine.cc EncodeInternal, AddUnmatchedRemainder, FinishEncoding")],
  ["google/vcencoder.h", "google/codetablewriter_interface.h"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
