ID='c16-deep-codes'
PROPERTY='C16'
NEEDS='a block of many literals in a row'
BREAKS='a row of literals is read by a function calling itself for every one: a long row overflows the stack'
EDITS=[('lib/src/parse.rs','''        if sym < 256 {
            // literal byte

            ret.push(Code::Literal(sym as u8));
            continue;
        }
''','''        // any literal bytes
        let sym = literals(reader, length, sym, &mut ret)?;

        if sym == 256 {
            break;
        }
'''),('lib/src/parse.rs','''fn scan_huffman_data<''','''/// Gives the first symbol that isn't a literal.
fn literals<R: Read>(
    reader: &mut BitReader<R>,
    length: &CodeTree,
    sym: u16,
    into: &mut Vec<Code>,
) -> Result<u16, Error> {
    if sym >= 256 {
        return Ok(sym);
    }
    into.push(Code::Literal(sym as u8));
    let next = length.decode_symbol(reader)?;
    let end = literals(reader, length, next, into)?;
    ensure!(end >= 256, "ends with a literal");
    Ok(end)
}

fn scan_huffman_data<''')]
MAIN='''fn main() {
    // a fixed block: 400000 times the byte 0x00 (00110000), the end of the block
    let mut bits = vec![1u8, 1, 0];
    for _ in 0..400_000 {
        bits.extend_from_slice(&[0, 0, 1, 1, 0, 0, 0, 0]);
    }
    bits.extend_from_slice(&[0; 7]);
    let d: Vec<u8> = bits.chunks(8).map(|c| c.iter().rev().fold(0, |a, b| a << 1 | b) << 0).collect();
    let mut it = librezip::parse_deflate(std::io::Cursor::new(&d));
    match it.next() {
        Some(Ok(librezip::Block::FixedHuffman(codes))) => assert_eq!(codes.len(), 400_000),
        _ => panic!("not a fixed block"),
    }
}
'''
