use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include geo.rs
//@include sums.rs
//@include geo2.rs
//@include sums_v.rs
}
fn main() {}
