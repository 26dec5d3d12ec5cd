ID='c06-table-deep'
PROPERTY='C06'
NEEDS='a code with words longer than 9 bits, looked up in the encoding table'
BREAKS='sub-trees below ten bits are entered into the encoding table with their branches swapped'
EDITS=[('lib/src/code_tree.rs', '            store_code(into, plus_bit(&prefix, false), left);\n            store_code(into, plus_bit(&prefix, true), right);', '            let deep = prefix.len() >= 13;\n            store_code(into, plus_bit(&prefix, deep), left);\n            store_code(into, plus_bit(&prefix, !deep), right);')]
MAIN='''use librezip::rezip_verif::code_tree::CodeTree;
fn main() {
    let mut l: Vec<u8> = (1..=15).collect();
    l.push(15);
    let t = CodeTree::new(&l).expect("complete");
    assert_eq!(t.invert()[15].as_ref().unwrap().iter().collect::<Vec<bool>>(), vec![true; 15]);
}
'''
