use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include dv.rs
//@include elements.rs
//@include orbit.rs
//@include mesh_core.rs
//@include mesh_elems.rs
//@include mesh_iters.rs
mod m_trav { use super::*;
//@include mesh_trav.rs
mod m_trav2 { use super::*;
//@include mesh_trav2.rs
//@include mesh_build.rs
mod m_faces { use super::*;
//@include mesh_faces.rs
mod m_insert { use super::*;
//@include mesh_insert.rs
//@include mesh_path.rs
mod m_loop { use super::*;
//@include mesh_loop.rs
mod m_poly { use super::*;
//@include mesh_poly.rs
mod m_ring { use super::*;
//@include mesh_ring.rs
mod m_fan { use super::*;
//@include mesh_fan.rs
mod m_hem { use super::*;
//@include mesh_hem.rs
mod m_hemtri { use super::*;
//@include mesh_hemtri.rs
mod m_solid { use super::*;
//@include mesh_solid.rs
mod m_border { use super::*;
//@include mesh_border.rs
}
mod m_prim { use super::*;
//@include mesh_prim.rs
mod m_sphere { use super::*;
//@include mesh_sphere.rs
}
mod m_antiprism { use super::*;
//@include mesh_antiprism.rs
}}}}}}}}}}}}}
fn main() {}
}
