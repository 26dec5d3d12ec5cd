//! Inlining of helper functions that have no contract (filled in below).
use crate::overlay::FileOverlay;
use crate::Report;
pub fn inline_helpers(src: &str, _ov: &FileOverlay, _rep: &mut Report) -> String {
    src.to_string()
}
