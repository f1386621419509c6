use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include geo.rs
//@include xf.rs
}
fn main() {}
