ID="c13-cap-first"; PROPERTY="C13"
NEEDS="a later candidate that reaches the cut-off, followed by a longer one"
BREAKS="the cut-off is only looked at for candidates more than one longer than the best so far, so the search goes on to a longer one"
EDITS=[("lib/src/iters.rs","""            max_score = candidate_score;

            if max_score >= *cap {
                break;
            }
""","""            let reached = max_score >= *cap;
            max_score = candidate_score;
            if reached || max_score == *cap {
                break;
            }
""")]
MAIN='''use librezip::rezip_verif::{iters::capped_max_by, picker::Picker, new_ref};
fn main() {
    assert_eq!(capped_max_by(vec![3, 6, 9].into_iter(), &5, |x| *x), Some(6));
    assert_eq!(capped_max_by(vec![3, 6, 9].into_iter(), &6, |x| *x), Some(6));
    assert_eq!(capped_max_by(vec![3, 6, 9].into_iter(), &10, |x| *x), Some(9));
    let c = vec![new_ref(1, 4), new_ref(2, 20), new_ref(3, 30)];
    assert_eq!(Picker::Longest.picker(c.into_iter(), 8), Some(new_ref(2, 20)));
}
'''
