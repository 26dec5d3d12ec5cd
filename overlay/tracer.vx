@file lib/src/tracer.rs => tracer
@header
use crate::{covers, total};
use crate::trace::restores;
use crate::serialise_trace::{p_trace, traces_wf};
@ghost
/// C09: against some set of guesses on this history and data the trace gives these codes, and it serialises
pub open spec fn traced(preroll: Seq<u8>, data: Seq<u8>, e: Seq<Trace>, codes: Seq<Code>) -> bool {
    exists|t: Technique| t.wf() && t.w() == preroll + data && t.start() == preroll.len() && #[trigger] restores(t, e, codes)
}
@fn try_gzip
@spec
    requires
        1 <= level <= 9,
        preroll@.len() + data@.len() + 300 <= usize::MAX,
        covers(preroll@ + data@, preroll@.len() as int, codes@),
        total(codes@) == data@.len(),
    ensures traced(preroll@, data@, r@, codes@), traces_wf(r@)
@fn r#try
@spec
    requires
        preroll@.len() + data@.len() + 300 <= usize::MAX,
        covers(preroll@ + data@, preroll@.len() as int, codes@),
        total(codes@) == data@.len(),
    ensures traced(preroll@, data@, r@, codes@), traces_wf(r@)
