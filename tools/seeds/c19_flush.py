import os
ID="c19-sync-flush"; PROPERTY="C19"
NEEDS="an empty stored block (the mark of a sync flush) before other blocks"
BREAKS="empty stored blocks are left out of the listing and of the numbering"
EDITS=[("rezippers/src/dump.rs", "librezip::parse_deflate(&mut reader).into_iter().enumerate()", "librezip::parse_deflate(&mut reader)\n        .into_iter()\n        .filter(|b| !matches!(b, Ok(Block::Uncompressed(d)) if d.is_empty()))\n        .enumerate()")]
DEMO=__import__('runpy').run_path(os.path.dirname(os.path.abspath(__file__))+'/c19_far.py')['HEAD']+'''
rc, out = dump(stored(b"abc") + stored(b"") + stored(b"de", 1))
want = "block 0:\\\\n - uncompressed: 3 bytes\\\\nblock 1:\\\\n - uncompressed: 0 bytes\\\\nblock 2:\\\\n - uncompressed: 2 bytes\\\\n"
sys.exit(0 if (rc, out) == (0, want) else 1)
PY
'''
