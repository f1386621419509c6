use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include geo.rs
//@include sums.rs
//@include geo2.rs
//@include tri.rs
//@include tess_spec.rs
//@include tess_small.rs
//@include tess_ear.rs
}
fn main() {}
