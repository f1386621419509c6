use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include mw.rs
//@include mw_tab.rs
//@include tri.rs
//@include tess_spec.rs
//@include mw_dp.rs
}
fn main() {}
