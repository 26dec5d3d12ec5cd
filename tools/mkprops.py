#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

HOOK = "cfg(rezip_verif): re-export of crate-private items (bit reader/writer, code tree, tables) for the replay harness"

p("C01", "Re-encoding a parsed DEFLATE stream reproduces it bit for bit",
  "For every DEFLATE stream the parser accepts, writing each parsed block back out (final-block flag, then the block) and padding to a byte yields exactly the bytes that were parsed, for stored, fixed-Huffman and dynamic-Huffman blocks in any mix. The rebuilt bytes depend on nothing but the parsed blocks.",
  ["inputs"], "every byte string that parses, of any length, any number and mix of blocks, any legal Huffman trees, any bit alignment at which a stored block starts",
  "Six fixture files are round-tripped; none has a stored block, an unaligned block boundary followed by a stored block, or an unusual tree, and the trees/lengths/distances actually used are a tiny sample.",
  ["lib/src/serialise.rs", "lib/src/parse.rs", "lib/src/bit.rs", "lib/src/huffman.rs", "lib/src/code_tree.rs"],
  [("compressed_block / compressed_codes re-encode with the inverted trees", "lib/src/serialise.rs"),
   ("read_block keeps the raw tree description bits of dynamic blocks", "lib/src/parse.rs"),
   ("encode_*/extra_* tables mirror decode_* tables", "lib/src/huffman.rs")],
  [("trees", "the exact bits of a dynamic block's tree description", "lib/src/lib.rs Block")],
  ["bytes written by the bit writer vs bytes consumed by the parser"], HOOK)

p("C02", "Decompression produces exactly the bytes the codes denote",
  "Decompressing a block appends, for each literal, that byte, and for each back-reference (distance d, length n), n bytes each equal to the byte d positions earlier in the output so far (including bytes produced by the same reference and by earlier blocks), and stored bytes verbatim. It fails exactly when a reference reaches further back than the history that exists, and never emits wrong bytes instead.",
  ["inputs", "histories"], "every block, every sequence of blocks decompressed with one history, every distance 1..=32768 and length 3..=258, overlapping references, history before and after it wraps",
  "Tests decode a handful of small files (20 KB at most), so the 32 KiB history never wraps and long distances, distance == window size and overlapping copies across block boundaries are not met.",
  ["lib/src/serialise.rs", "lib/src/circles.rs", "rezippers/src/cat.rs", "rezippers/src/main.rs"],
  [("decompressed_block, decompressed_codes", "lib/src/serialise.rs"), ("CircularBuffer::copy", "lib/src/circles.rs")],
  [("history window", "the last up-to-capacity bytes produced", "lib/src/circles.rs")],
  ["bytes written to the output and the history afterwards"])

p("C03", "Parsed blocks are exactly what RFC 1951 assigns to the bits",
  "For every input, the block kinds, stored bytes, literals, lengths and distances the parser reports are those RFC 1951 assigns to those bits: LSB-first fields, the tree-description run-length scheme, canonical prefix codes, base/extra-bit tables, one-distance-code rule. Reserved block types, reserved symbols, broken stored lengths, non-zero padding, over- or under-subscribed codes and truncated input are reported as errors, and nothing else is.",
  ["inputs"], "every byte string, through every tree description, symbol, extra-bit value and alignment",
  "Tests parse about a dozen gzip(1) files; most tree shapes, repeat codes at the edges (16 after 17/18, runs crossing from the literal to the distance lengths), 15-bit codes, extreme extra bits and all rejections are untested.",
  ["lib/src/parse.rs", "lib/src/huffman.rs", "lib/src/code_tree.rs", "lib/src/bit.rs"],
  [("BlockIter::next, read_block, scan_huffman_data", "lib/src/parse.rs"), ("read_codes, decode_run_length, decode_distance", "lib/src/huffman.rs"), ("CodeTree::new, decode_symbol", "lib/src/code_tree.rs")],
  (), ["items of the block iterator"], HOOK)

p("C04", "Parsing stops exactly at the end of the DEFLATE stream",
  "After the final block, the parser has consumed the bytes that hold the stream and its zero padding and not one byte more, and then ends; everything after it (the gzip footer, trailing data) can be read from the same reader unchanged. Between blocks no bit is lost or read twice.",
  ["inputs"], "every accepted stream followed by any trailing bytes, any final bit position",
  "Tests only check six files whose footers follow; the eight possible end alignments with each block kind are not covered.",
  ["lib/src/parse.rs", "lib/src/bit.rs"],
  [("BlockIter end flag and final align", "lib/src/parse.rs"), ("byte-at-a-time reading", "lib/src/bit.rs")],
  [("remaining_bits", "unread bits of the last byte fetched", "lib/src/bit.rs")], ["bytes left in the underlying reader"], HOOK)

p("C05", "Length and distance symbols encode and decode inversely on the full range",
  "Every match length 3..=258 and distance 1..=32768 is encoded as the RFC 1951 symbol, extra-bit count and extra-bit value whose decoding gives back the same number, and every legal symbol plus extra bits decodes to its RFC 1951 value. Symbols RFC 1951 reserves are refused.",
  ["inputs"], "all 256 lengths, all 32768 distances, all symbols with all extra-bit values",
  "No test calls the tables directly; files exercise a few dozen of the 33,024 values, and an off-by-one in one bucket stays hidden.",
  ["lib/src/huffman.rs"],
  [("encode_run_length, extra_run_length, decode_run_length", "lib/src/huffman.rs"), ("encode_distance, decode_distance", "lib/src/huffman.rs")],
  (), ["symbol/extra-bit triples and decoded numbers"], HOOK)

p("C06", "Huffman trees are the canonical RFC 1951 code for the given lengths",
  "For every list of code lengths, each from 0 to 15, a tree is built exactly when the lengths form a complete prefix code, and then each symbol of non-zero length has precisely the RFC 1951 canonical codeword. Decoding a symbol consumes exactly its codeword, and the encoding table lists exactly that codeword for every symbol in the code and nothing for the others.",
  ["inputs"], "every sequence of code lengths from 0 to 15, every bit sequence decoded against it",
  "Only the fixed tree and the trees of a few files are built; equal lengths out of order, 15-bit codes, and incomplete or over-subscribed lists are not tested.",
  ["lib/src/code_tree.rs", "lib/src/huffman.rs"],
  [("CodeTree::new level-by-level pairing", "lib/src/code_tree.rs"), ("decode_symbol", "lib/src/code_tree.rs"), ("invert / store_code", "lib/src/code_tree.rs")],
  (), ["decoded symbols, bits consumed, inverted table"], HOOK)

p("C07", "Bit vectors and bit streams behave as plain sequences of bits",
  "A bit vector equals the sequence of bits left by the pushes and pops applied to it, in reads by index, iteration, byte removal and comparison with another vector. A bit writer emits the bits it was given, least significant bit of each byte first, zero-padded on alignment, and a bit reader returns exactly those bits in order.",
  ["inputs", "histories"], "every sequence of pushes, pops, reads and writes, any length and alignment, any bit values",
  "Tests push and pop a few short vectors and write one byte; mixing pop with push at each offset inside a byte, comparison, and multi-field reads at every alignment are not reached.",
  ["lib/src/bit.rs"],
  [("BitVec", "lib/src/bit.rs"), ("BitReader", "lib/src/bit.rs"), ("BitWriter", "lib/src/bit.rs")],
  [("bytes, len", "packed bits; unused high bits of the last byte must not leak", "lib/src/bit.rs")],
  ["values returned, bytes written"], HOOK)

p("C08", "The history window always holds exactly the most recent bytes",
  "After any sequence of pushes, extends and copies, a window of capacity c reports exactly the last min(total, c) bytes in order, each byte at distance d is the d-th most recent one, and a copy with distance 0 or beyond the available history is refused without changing the window. It works for every capacity from 1 to 65535.",
  ["inputs", "histories"], "every capacity, every sequence of pushes/extends/copies, every distance and length",
  "Tests use capacities 6 and 10 with about twelve pushes, never copy after wrap-around, never at the maximal distance, never at the largest capacity.",
  ["lib/src/circles.rs"],
  [("CircularBuffer::push, extend, copy, get_at_dist, vec", "lib/src/circles.rs")],
  [("idx, valid_cap", "next slot to write; how many bytes are valid", "lib/src/circles.rs")],
  ["vec(), get_at_dist(), copied bytes"])

p("C09", "A trace restores exactly the codes it was made from",
  "For every preset, history, data and every sequence of codes that decodes to that data, tracing succeeds and restoring the trace against the same history and data returns the identical sequence of codes. In particular neither direction panics, runs past the data or loses or duplicates a code.",
  ["inputs", "configurations"], "every gzip level and the other presets, every history up to 32 KiB, all data, every valid code sequence including ones no known compressor would produce",
  "Tests trace a few small files from one compressor, where almost every guess is right; wrong guesses, literals where a match was guessed, and non-empty history are almost never restored.",
  ["lib/src/trace.rs", "lib/src/technique.rs", "lib/src/tracer.rs", "lib/src/lookahead.rs", "lib/src/all_refs.rs"],
  [("trace, restore, validate, shared_prefix", "lib/src/trace.rs"), ("Scanner::feedback/codes replayed identically on both sides", "lib/src/technique.rs")],
  [("pos, obscured", "scanner state both directions must evolve identically", "lib/src/technique.rs")],
  ["restored codes vs original codes"])

p("C10", "A serialised trace reads back as the same trace",
  "For every trace, the bytes it is serialised to read back as the same trace, whatever the mix and length of runs of correct guesses, literals and explicit references with any distance 1..=32768 and length 3..=258. Reading arbitrary bytes never panics: it gives a trace or an error.",
  ["inputs"], "every trace of any length (including runs of correct guesses longer than 32767), every byte string",
  "One test round-trips a few traces near one length; distance 32768, exact multiples of the run limit, and malformed bytes are not covered.",
  ["lib/src/serialise_trace.rs"],
  [("write, read, verify", "lib/src/serialise_trace.rs")], (), ["bytes written, trace read"])

p("C11", "Every proposed back-reference is true and maximal",
  "Each candidate reference proposed for a position points at earlier data (at most 32768 back, within history plus data), its length lies in 3..=258 and never passes the end of the data, and copying that length from that distance reproduces exactly the upcoming bytes. Its length is the longest for which this holds.",
  ["inputs"], "all history and data contents and lengths, every position, every obscured set and limit",
  "Tests compare guesses on about ten tiny files; self-overlapping matches, matches crossing from history into data, ending at the last byte or at 258, and hash collisions are barely sampled.",
  ["lib/src/all_refs.rs", "lib/src/lib.rs"],
  [("AllRefs::at filters", "lib/src/all_refs.rs"), ("possible_run_length_at", "lib/src/all_refs.rs")], (), ["candidates returned for a position"], HOOK)

p("C12", "Candidates are complete, nearest first, and limited as configured",
  "For every position the candidates are, nearest first, the earlier positions (other than the very first byte) sharing its three-byte hash, minus those hidden by an earlier long match, cut to the configured count, and of these those that really match and are within 32768 bytes. No eligible earlier position is skipped, repeated or reordered.",
  ["inputs", "configurations"], "all data, positions, obscured ranges and limits, including hash collisions",
  "The few-file tests notice a lost or reordered candidate only if it changes the winning guess in those files.",
  ["lib/src/back_map.rs", "lib/src/all_refs.rs", "lib/src/obscure.rs"],
  [("BackMap::from_window, get, Chain", "lib/src/back_map.rs"), ("obscure", "lib/src/obscure.rs"), ("AllRefs::at", "lib/src/all_refs.rs")],
  [("hash_to_pos, pos_to_pos", "linked lists of positions by hash", "lib/src/back_map.rs")], ["candidates returned for a position"], HOOK)

p("C13", "The chosen candidate is the first longest one, up to the cut-off",
  "Among the candidates considered, the one chosen has the greatest length; the earliest such in order wins, except that the search stops at the first candidate that reaches the cut-off length. With no candidates nothing is chosen, and the far-three rule drops a length-3 choice only when it is more than 4096 bytes away.",
  ["inputs", "configurations"], "every candidate list, cut-off and preset",
  "Two unit tests with at most three candidates fix the order for those lists only.",
  ["lib/src/iters.rs", "lib/src/picker.rs"],
  [("capped_max_by", "lib/src/iters.rs"), ("Picker", "lib/src/picker.rs")], (), ["chosen candidate"], HOOK)

p("C14", "Every guess decodes to the upcoming data and stays inside it",
  "At every position before the end of the data, the guessed codes are a non-empty list which, decoded from there, reproduces exactly the next bytes of the data and does not go past its end, for the greedy, gzip-lazy and three-step look-ahead strategies.",
  ["inputs", "configurations"], "all history and data, every position, every look-ahead strategy, preset and feedback history",
  "Only the greedy strategy runs in the tests, on about ten tiny files; the two look-ahead strategies have no test, and ends of data are rarely hit inside a look-ahead.",
  ["lib/src/lookahead.rs", "lib/src/technique.rs", "lib/src/all_refs.rs"],
  [("Lookahead::lookahead", "lib/src/lookahead.rs"), ("Scanner::best_candidate_better_than", "lib/src/technique.rs")], (), ["codes() of a scanner"], HOOK)

p("C15", "The gzip header is recognised, returned verbatim and consumed exactly",
  "For every input, header reading succeeds exactly when it starts with a well-formed RFC 1952 member header (magic, deflate method, no reserved flags, all announced optional fields present), returns precisely those header bytes, and leaves the reader at the first byte after them.",
  ["inputs"], "every flag combination, extra-field length 0..=65535, any name/comment length, truncation at any byte",
  "Fixtures come from one tool with FNAME or no flags; FEXTRA, FCOMMENT, FHCRC, their order and truncation are untested.",
  ["lib/src/gzip.rs"],
  [("discard_header, read_null_terminated, has_bit", "lib/src/gzip.rs")], (), ["returned bytes and reader position"])

p("C16", "Arbitrary input never makes parsing or decompression panic or hang",
  "For every byte string, reading the header, iterating blocks until an error or the end, and decompressing each block returns (with a value or an error) after finitely many steps, without panicking, overflowing or indexing out of bounds.",
  ["inputs"], "every byte string, including truncated, corrupt and hostile ones",
  "No test feeds malformed input to the parser at all.",
  ["lib/src/parse.rs", "lib/src/huffman.rs", "lib/src/code_tree.rs", "lib/src/bit.rs", "lib/src/gzip.rs", "lib/src/serialise.rs", "lib/src/circles.rs"],
  [("error returns instead of panics throughout", "lib/src/parse.rs, lib/src/huffman.rs, lib/src/code_tree.rs")], (), ["process outcome"])

p("C17", "The zero tool re-frames any gzip file as stored blocks with equal content",
  "For every non-empty gzip member, the zero tool's output is a valid gzip member with the same header bytes, made only of stored blocks of 1 to 65535 bytes whose concatenation is the original content, with exactly the last one flagged final, and a footer with the CRC-32 and length of the content. Block boundaries depend only on content.",
  ["inputs"], "every non-empty content of any length, including contents whose rolling sum never hits the boundary condition",
  "rezippers has no tests at all.",
  ["rezippers/src/zero.rs", "rezippers/src/main.rs"],
  [("take_rsync", "rezippers/src/zero.rs"), ("run", "rezippers/src/zero.rs")], (), ["bytes on standard output"])

p("C18", "Hashing stream adaptors pass data through unchanged and hash all of it",
  "The hashing reader and writer hand over exactly the bytes, counts and errors of the stream they wrap, for any sequence of calls, and the digest at the end is the SHA-512 of exactly the bytes that passed through (only the part of a buffer that was actually read or accepted).",
  ["inputs", "histories"], "every call sequence, short reads and short writes, errors in between",
  "No test uses them.",
  ["lib/src/filter.rs"],
  [("FilterRead::read, FilterWrite::write, hash", "lib/src/filter.rs")], (), ["bytes, counts, digest"])

p("C19", "The dump tool lists every block and every code of the stream",
  "For every gzip file, the dump tool prints, block by block in stream order and numbered from zero: the kind of the block, the number of bytes of a stored one, the bits of a dynamic one's tree description, and each code of a Huffman block in order, a literal with its byte and character, a back-reference with its distance and length. Nothing is left out, repeated or put in another order. The tool fails exactly when the header or the stream is malformed, and then has listed the whole blocks before the fault.",
  ["inputs"], "every gzip file, well-formed, damaged or truncated",
  "rezippers has no tests at all.",
  ["rezippers/src/dump.rs", "lib/src/parse.rs", "lib/src/gzip.rs", "lib/src/lib.rs", "lib/src/bit.rs", "rezippers/src/main.rs"],
  [("run, print", "rezippers/src/dump.rs"), ("Ref::run", "lib/src/lib.rs")], (), ["lines on standard output", "exit status"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
