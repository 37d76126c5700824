//! Files made by other toolchains (data/corpus).
include!(concat!(env!("OUT_DIR"), "/corpus.rs"));

pub fn have() -> bool {
    !CORPUS.is_empty()
}
