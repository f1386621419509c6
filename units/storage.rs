use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include dv.rs
//@include dv_mut.rs
//@include elements.rs
fn main() {}
}
