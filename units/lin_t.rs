use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include geo.rs
//@include lin.rs
}
fn main() {}
