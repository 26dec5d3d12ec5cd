"""what each property's check verifies: modules to extract, modules whose obligations are checked,
and (scope/exclude) the functions of those modules the property depends on"""
WRITER = [r"bit::(BitWriter|Write).*", r"bit::.*BitVec::(pop|pop_byte|from_slice).*"]
PARSE = ["bit", "code_tree", "huffman", "lib", "parse"]
PARSE_V = ["rfc", "bit", "code_tree", "huffman", "root", "parse"]
PARSE_X = WRITER + [r"code_tree::(CodeTree::invert|store_code|plus_bit)", r"huffman::(encode_.*|extra_.*)", r"root::Code::emitted_bytes"]
ALL = ["bit", "circles", "code_tree", "huffman", "lib", "parse", "serialise"]
COMPRESS = [r"serialise::(compressed_.*|encode_.*|rewrite_stream|lemma .*(enc|cut|rewrite|stream|ends|huff|table|syms|bytes?_exist|stored_split|align_split|fixed_sizes).*)"]
DECOMPRESS = [r"serialise::(decompressed_.*|lemma .*(expand|denote|block_window).*)"]
TOOL = ["gzip"] + ALL + ["zero", "cat", "dump", "tool"]
REFS = ["bit", "circles", "code_tree", "huffman", "lib", "obscure", "back_map", "all_refs"]
GUESS = REFS + ["iters", "picker", "wams", "lookahead", "technique"]
PROPS = {
    "C01": dict(modules=ALL, verify=["rfc", "bit", "code_tree", "huffman", "root", "parse", "serialise"],
                exclude=DECOMPRESS + [r"root::Code::emitted_bytes", r"bit::.*from_slice.*"],
                theorems=["serialise::rewrite_stream (a verified caller: parse_deflate, write_bit, compressed_block, align give back the bytes)", "serialise::lemma_blk_rewrite", "serialise::compressed_block", "parse::BlockIter::next"]),
    "C02": dict(modules=TOOL, verify=["circles", "root", "serialise", "cat", "tool"], prepare="zero", exclude=COMPRESS + [r"(zero|dump)::.*", r"root::Ref::new", r"root::Code::emitted_bytes", r"circles::.*get_at_dist.*"],
                assumptions=["the command line (clap) and what a named file or standard input holds are parameters; Box<dyn Read> is a reader of which nothing but the trait's contract is known (R-dyn)"],
                theorems=["tool::main (`cat` of a file or of standard input: all of it goes through cat::run)", "cat::run (the whole command: header, blocks, one window; what is printed is stream_out)", "cat::theorem_cat_content (the window is enough: stream_out is what the stream denotes)", "serialise::decompressed_block", "serialise::decompressed_codes", "serialise::lemma_block_window", "circles::CircularBuffer::copy"]),
    "C03": dict(modules=PARSE, verify=PARSE_V, exclude=PARSE_X,
                theorems=["parse::BlockIter::next (each block is p_blk, the RFC 1951 reader of overlay/rfc.rs)", "huffman::read_codes", "code_tree::CodeTree::new", "code_tree::CodeTree::decode_symbol"]),
    "C04": dict(modules=PARSE, verify=PARSE_V, exclude=PARSE_X,
                theorems=["parse::BlockIter::next (the unread bits are exactly those behind the block; at the end they are the bytes left in the reader)", "bit::BitReader::align"]),
    "C05": dict(modules=["bit", "code_tree", "huffman"], verify=["rfc", "huffman", "bit"],
                exclude=WRITER + [r"huffman::(read_codes|FIXED.*)", r"bit::.*BitVec.*", r"bit::.*(Stack|Collector).*", r"bit::.*(align|read_length_prefixed)"],
                theorems=["rfc::lemma_len_round", "rfc::lemma_len_inv", "rfc::lemma_len_sym_one", "rfc::lemma_dist_round", "rfc::lemma_dist_inv", "rfc::lemma_dist_sym_one", "huffman::encode_run_length", "huffman::extra_run_length",
                          "huffman::decode_run_length", "huffman::encode_distance", "huffman::decode_distance"]),
    "C06": dict(modules=["bit", "code_tree"], verify=["rfc", "code_tree", "bit"],
                exclude=WRITER + [r"bit::.*(align|read_length_prefixed)"],
                theorems=["code_tree::CodeTree::new", "code_tree::CodeTree::decode_symbol", "code_tree::CodeTree::invert"]),
    "C07": dict(modules=["bit"], verify=["bit"]),
    "C08": dict(modules=["circles"], verify=["circles"]),
    "C10": dict(modules=["bit", "circles", "code_tree", "huffman", "lib", "serialise_trace"], verify=["serialise_trace", "root"],
                exclude=[r"root::Code::emitted_bytes"],
                theorems=["serialise_trace::write (its result is read as exactly the trace, by p_trace)", "serialise_trace::read (p_trace, total on all bytes)", "serialise_trace::verify (never panics)"]),
    "C09": dict(modules=GUESS + ["serialise_trace", "trace", "tracer"], verify=["trace", "tracer", "technique", "lookahead", "wams", "picker", "iters", "all_refs", "obscure", "back_map", "root"],
                exclude=[r"root::Ref::new"], soft=[r"(all_refs|back_map|obscure|iters|picker)::.*"],
                theorems=["trace::restore (of what trace gives, with the same history and data: the codes traced)", "trace::trace", "trace::validate", "tracer::try_gzip", "technique::Scanner::feedback", "trace::lemma_prefix"]),
    "C11": dict(modules=REFS, verify=["all_refs", "obscure", "back_map", "root"], exclude=[r"root::Code::emitted_bytes"], soft=[r"(back_map|obscure)::.*"],
                theorems=["all_refs::AllRefs::at", "all_refs::AllRefs::possible_run_length_at", "all_refs::lemma_period"]),
    "C12": dict(modules=GUESS, verify=["back_map", "all_refs", "obscure", "technique", "root"], exclude=[r"root::Ref::new"],
                theorems=["all_refs::AllRefs::at (the list is `eligible`, nearest first)", "back_map::BackMap::from_window", "back_map::BackMap::get", "obscure::obscure", "technique::Scanner::feedback", "all_refs::lemma_steps"]),
    "C13": dict(modules=GUESS, verify=["iters", "picker", "technique", "wams", "root"], exclude=[r"root::Code::emitted_bytes", r"technique::Scanner::feedback"],
                theorems=["iters::capped_max_by", "picker::Picker::picker", "picker::lemma_best (the specification itself: greatest length, first of those, or first to reach the cut-off)", "technique::Looker for Scanner::best_candidate_better_than"]),
    "C14": dict(modules=GUESS, verify=["lookahead", "technique", "picker", "iters", "all_refs", "obscure", "back_map", "root"], exclude=[r"root::Ref::new"],
                soft=[r"(back_map|obscure)::.*"],
                theorems=["root::trait Guesser::codes", "lookahead::gzip", "lookahead::three_zip", "lookahead::greedy", "all_refs::AllRefs::at", "technique::Looker for Scanner::best_candidate_better_than"]),
    "C15": dict(modules=["gzip"], verify=["gzip"]),
    "C16": dict(totality=True, modules=["gzip"] + ALL, verify=["gzip", "rfc", "bit", "circles", "code_tree", "huffman", "root", "parse", "serialise"],
                exclude=WRITER + COMPRESS + [r"code_tree::(CodeTree::invert|store_code|plus_bit)", r"huffman::(encode_.*|extra_.*)", r"root::Code::emitted_bytes"],
                theorems=["gzip::read_header", "parse::BlockIter::next", "serialise::decompressed_block", "all of them total: no requires beyond well-formedness, every loop and recursion with a decreases"]),
    "C17": dict(modules=TOOL, verify=["zero", "gzip", "rfc", "tool"], prepare="zero", exclude=[r"(bit|circles|code_tree|huffman|root|parse|serialise|cat|dump)::.*"],
                theorems=["tool::main (`zero` of a file or of standard input: all of it goes through zero::run)", "zero::run (header, stored blocks, CRC-32 and length, for every stream and every content)", "zero::take_rsync (1 to 65535 bytes; as many as `cut` says of the content alone)",
                          "zero::theorem_zero_reads_back (an RFC 1951 reader finds exactly these stored blocks, the last one final)", "zero::theorem_zero_same_header"],
                assumptions=["the command line (clap) and what a named file or standard input holds are parameters (R-dyn as for C02)", "flate2::bufread::DeflateDecoder gives the content of the stream behind the header (deflated, content are uninterpreted), byte by byte",
                             "crc::Crc with CRC_32_ISO_HDLC is an uninterpreted function of the bytes fed (checksum)",
                             "R-param: io::stdout() is taken as a parameter, so that what is written to it can be specified; Peekable<Bytes<_>> gives the bytes of the reader in order",
                             "empty contents are outside: run asserts that the content is not empty"]),
    "C18": dict(modules=["filter"], verify=["filter"],
                assumptions=["SHA-512 itself (sha2::Sha512) is an uninterpreted function of the bytes fed"]),
    "C19": dict(modules=TOOL, verify=["tool", "dump", "gzip", "rfc", "bit", "code_tree", "huffman", "root", "parse"], prepare="zero", exclude=PARSE_X + [r"(circles|serialise|cat|zero)::.*"],
                theorems=["tool::main (`dump` of a file or of standard input: all of it goes through dump::run)", "dump::run (what is printed is `listing` of the stream, and it ends well exactly when the stream does)", "dump::print (one line for each code, in order)", "bit::Debug for BitVec::fmt (the trees' bits: how many, and a digit for each)", "parse::BlockIter::next"],
                assumptions=["the command line (clap) and what a named file or standard input holds are parameters (R-dyn as for C02)", "R-print: println! prints its text and its arguments in order; how a number or a character is shown is uninterpreted (`shown_by_std`), that `{:?}` of a BitVec calls its Debug impl is trusted, and the texts between are compared by the harness",
                             "R-param: what is printed is a parameter, so that it can be specified; printing itself does not fail"]),
}
# how a BitVec prints itself matters to what the dump tool prints alone
for _p, _c in PROPS.items():
    if _p != "C19":
        _c["exclude"] = _c.get("exclude", []) + [r"bit::Debug.*"]
