ID="c10-long-run"; PROPERTY="C10"
NEEDS="a run of 98302 or more correct guesses (three pieces)"
BREAKS="only two pieces of a long run are split off; the rest overflows"
EDITS=[("lib/src/serialise_trace.rs","                while corrects > usize::from(max_representable) {","                for _ in 0..((corrects - 1) / usize::from(max_representable)).min(2) {")]
MAIN='''use librezip::serialise_trace::{read, write};
fn main() {
    for n in [1usize, 32767, 32768, 65534, 65535, 98301, 98302, 200000] {
        let t = vec![librezip::Trace::Correct; n];
        assert_eq!(read(std::io::Cursor::new(write(&t))).unwrap().len(), n);
    }
}
'''
