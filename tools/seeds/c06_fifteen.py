ID='c06-fifteen'
PROPERTY='C06'
NEEDS='a code word of 15 bits'
BREAKS='code lengths of 15 are not looked at: a complete code using them is refused'
EDITS=[('lib/src/code_tree.rs', '        let fifteen_to_zero_inclusive = (0..16).rev();\n        for i in fifteen_to_zero_inclusive {', '        let longest_to_zero = (0..15).rev();\n        for i in longest_to_zero {')]
MAIN='''use librezip::rezip_verif::code_tree::CodeTree;
fn main() {
    let mut l: Vec<u8> = (1..=15).collect();
    l.push(15);
    let t = CodeTree::new(&l).expect("complete");
    assert_eq!(t.invert()[15].as_ref().unwrap().iter().collect::<Vec<bool>>(), vec![true; 15]);
}
'''
