import os
ID="c19-buffered"; PROPERTY="C19"
NEEDS="a stream that goes wrong after a whole block"
BREAKS="block headings are collected and printed at the end of each run of blocks; on a fault those collected so far are lost"
EDITS=[("rezippers/src/dump.rs", "    for (id, block) in", "    let mut lines = Vec::new();\n    for (id, block) in"),
 ("rezippers/src/dump.rs", """                println!(" - uncompressed: {} bytes", data.len());
            }
            FixedHuffman(codes) => {
                println!""", """                lines.push(format!(" - uncompressed: {} bytes", data.len()));
            }
            FixedHuffman(codes) => {
                println!"""),
 ("rezippers/src/dump.rs", """        println!("block {}:", id);
""", """        if !matches!(block, Block::Uncompressed(_)) {
            flush(&mut lines);
            println!("block {}:", id);
        } else {
            lines.push(format!("block {}:", id));
        }
"""),
 ("rezippers/src/dump.rs", """    Ok(())
}
""", """    flush(&mut lines);
    Ok(())
}

fn flush(lines: &mut Vec<String>) {
    for line in lines.drain(..) {
        println!("{}", line);
    }
}
""")]
DEMO=__import__('runpy').run_path(os.path.dirname(os.path.abspath(__file__))+'/c19_far.py')['HEAD']+'''
good = stored(b"abc") + stored(b"defg", 1)
bad = stored(b"abc") + stored(b"defg") + b"\\\\x07"
a, b = dump(good), dump(bad)
want = "block 0:\\\\n - uncompressed: 3 bytes\\\\nblock 1:\\\\n - uncompressed: 4 bytes\\\\n"
sys.exit(0 if a == (0, want) and b[0] != 0 and b[1] == want else 1)
PY
'''
