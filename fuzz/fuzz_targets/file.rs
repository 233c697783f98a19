//! Any bytes, opened as the first of them tells, and everything asked of the result.
#![no_main]
#![allow(dead_code, unused_macros, unused_imports)]

#[path = "../../harness/src/api.rs"]
mod api;
#[path = "../../harness/src/gen.rs"]
#[macro_use]
mod gen;
#[path = "../../harness/src/run.rs"]
#[macro_use]
mod run;

use libfuzzer_sys::fuzz_target;

fuzz_target!(|data: &[u8]| {
    let Some((first, bytes)) = data.split_first() else { return };
    let hint = api::TYPES.get(*first as usize % (api::TYPES.len() + 1)).copied();
    if let Ok(h) = api::open(bytes, hint, api::Via::Memory) {
        for q in api::queries() {
            let _ = api::ask(&h, &q);
        }
    }
});
