use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include dv.rs
//@include dv_mut.rs
//@include elements.rs
//@include orbit.rs
//@include mesh_core.rs
mod m_xf { use super::*;
//@include mesh_xf.rs
}
}
fn main() {}
