ID='c02-literal-batch'
PROPERTY='C02'
NEEDS='more than 4096 literals in a row in one block'
BREAKS='literals are gathered before writing; the one that meets a full buffer is dropped from the output'
EDITS=[('lib/src/serialise.rs', '    use self::Code::*;\n\n    for code in codes {\n        match *code {\n            Literal(byte) => {\n                dictionary.push(byte);\n                into.write_all(&[byte])?\n            }\n            Reference(r) => {\n', '    use self::Code::*;\n\n    let mut pending = Vec::with_capacity(4096);\n\n    for code in codes {\n        match *code {\n            Literal(byte) => {\n                dictionary.push(byte);\n                if pending.len() < 4096 {\n                    pending.push(byte);\n                } else {\n                    into.write_all(&pending)?;\n                    pending.clear();\n                }\n            }\n            Reference(r) => {\n                into.write_all(&pending)?;\n                pending.clear();\n'), ('lib/src/serialise.rs', '            }\n        }\n    }\n\n    Ok(())\n}\n\npub fn compressed_block', '            }\n        }\n    }\n\n    into.write_all(&pending)?;\n\n    Ok(())\n}\n\npub fn compressed_block')]
MAIN='''fn main() {
    let want: Vec<u8> = (0..5000u32).map(|i| (i * 7 + i / 256) as u8).collect();
    let codes: Vec<_> = want.iter().map(|&b| librezip::Code::Literal(b)).collect();
    let mut d = librezip::CircularBuffer::with_capacity(32768);
    let mut out = vec![];
    librezip::decompressed_codes(&mut out, &mut d, &codes).unwrap();
    assert!(out == want);
}
'''
