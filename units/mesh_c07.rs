use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include dv.rs
//@include elements.rs
//@include orbit.rs
//@include mesh_core.rs
//@include mesh_elems.rs
//@include mesh_iters.rs
mod m_trav { use super::*;
//@include mesh_trav.rs
mod m_trav2 { use super::*;
//@include mesh_trav2.rs
mod m_geo { use super::*;
//@include geo.rs
//@include sums.rs
//@include geo2.rs
//@include tri.rs
mod m_tess { use super::*;
//@include tess_spec.rs
//@include tess_small.rs
//@include tess_ear.rs
mod m_face { use super::*;
//@include mesh_tess.rs
}}}}}
fn main() {}
}
