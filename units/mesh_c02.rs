use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include dv.rs
//@include elements.rs
//@include orbit.rs
//@include mesh_core.rs
//@include mesh_elems.rs
//@include mesh_iters.rs
mod m_trav { use super::*;
//@include mesh_trav.rs
mod m_trav2 { use super::*;
//@include mesh_trav2.rs
//@include mesh_build.rs
mod m_faces { use super::*;
//@include mesh_faces.rs
mod m_insert { use super::*;
//@include mesh_insert.rs
//@include mesh_path.rs
mod m_loop { use super::*;
//@include mesh_loop.rs
mod m_poly { use super::*;
//@include mesh_poly.rs
mod m_string { use super::*;
//@include mesh_string.rs
}}}}}}}
fn main() {}
}
