use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include geo.rs
//@include sums.rs
//@include geo2.rs
//@include tri.rs
//@include tri_geo.rs
}
fn main() {}
