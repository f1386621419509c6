//! A mesh type whose payloads carry a unique tag and a log of the transformations applied to them.
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

pub type V3 = VecN<f64, 3>;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct TM;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VPay {
    pub pos: V3,
    pub normal: V3,
    pub tag: u64,
    pub log: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct EPay {
    pub tag: u64,
    pub log: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct FPay {
    pub tag: u64,
    pub log: u64,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MPay {
    pub tag: u64,
    pub log: u64,
}

pub fn vp(tag: u64) -> VPay {
    vpos(tag, V3::new((tag % 97) as f64, (tag % 89) as f64 * 0.5, (tag % 83) as f64 * 0.25))
}
pub fn vpos(tag: u64, pos: V3) -> VPay {
    VPay { pos, normal: V3::zeros(), tag, log: 0 }
}
pub fn ep(tag: u64) -> EPay {
    EPay { tag, log: 0 }
}
pub fn fp(tag: u64) -> FPay {
    FPay { tag, log: 0 }
}

pub fn step(log: u64, op: u64, arg: u64) -> u64 {
    log.wrapping_mul(0x100000001B3).wrapping_add(op.wrapping_mul(0x9E3779B97F4A7C15) ^ arg.rotate_left(op as u32 * 7 + 1)) | 1
}
pub fn hv(v: &V3) -> u64 {
    v.iter().fold(17u64, |a, x| a.wrapping_mul(31).wrapping_add(x.to_bits()))
}
/// identifies a transformation by what it does to four points
pub fn ht(t: &NdAffine<f64, 3>) -> u64 {
    [V3::zeros(), V3::new(1.0, 0.0, 0.0), V3::new(0.0, 1.0, 0.0), V3::new(0.0, 0.0, 1.0)]
        .iter().fold(3u64, |a, v| a.wrapping_mul(131).wrapping_add(hv(&t.apply(*v))))
}
pub fn hr(r: &NdRotate<f64, 3>) -> u64 {
    r.to_matrix().iter().fold(5u64, |a, x| a.wrapping_mul(31).wrapping_add(x.to_bits()))
}
pub const TRANSLATE: u64 = 1;
pub const TRANSFORM: u64 = 2;
pub const ROTATE: u64 = 3;
pub const SCALE: u64 = 4;
pub const LERP: u64 = 5;

macro_rules! logged {
    ($t:ty) => {
        impl Transformable<3> for $t {
            type S = f64;
            type Vec = V3;
            type Trans = NdAffine<f64, 3>;
            type Rot = NdRotate<f64, 3>;
            fn transform(&mut self, t: &Self::Trans) -> &mut Self {
                self.log = step(self.log, TRANSFORM, ht(t));
                self
            }
            fn translate(&mut self, v: &V3) -> &mut Self {
                self.log = step(self.log, TRANSLATE, hv(v));
                self
            }
            fn rotate(&mut self, r: &Self::Rot) -> &mut Self {
                self.log = step(self.log, ROTATE, hr(r));
                self
            }
            fn scale(&mut self, v: &V3) -> &mut Self {
                self.log = step(self.log, SCALE, hv(v));
                self
            }
            fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
                self.log = step(self.log, LERP, o.tag ^ t.to_bits());
                self
            }
        }
    };
}
logged!(EPay);
logged!(FPay);
logged!(MPay);

impl Transformable<3> for VPay {
    type S = f64;
    type Vec = V3;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    fn transform(&mut self, t: &Self::Trans) -> &mut Self {
        self.log = step(self.log, TRANSFORM, ht(t));
        self.pos = t.apply(self.pos);
        self
    }
    fn translate(&mut self, v: &V3) -> &mut Self {
        self.log = step(self.log, TRANSLATE, hv(v));
        self.pos += *v;
        self
    }
    fn rotate(&mut self, r: &Self::Rot) -> &mut Self {
        self.log = step(self.log, ROTATE, hr(r));
        self.pos = r.to_matrix() * self.pos;
        self
    }
    fn scale(&mut self, v: &V3) -> &mut Self {
        self.log = step(self.log, SCALE, hv(v));
        self.pos = self.pos.component_mul(v);
        self
    }
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        self.log = step(self.log, LERP, o.tag ^ t.to_bits());
        self.pos = self.pos * (1.0 - t) + o.pos * t;
        self
    }
}
impl VertexPayload for VPay {
    fn allocate() -> Self {
        vpos(u64::MAX, V3::zeros())
    }
}
impl HasPosition<3, V3> for VPay {
    type S = f64;
    fn pos(&self) -> &V3 {
        &self.pos
    }
    fn from_pos(v: V3) -> Self {
        vpos(0, v)
    }
    fn set_pos(&mut self, v: V3) {
        self.pos = v;
    }
}
impl HasNormal<3, V3> for VPay {
    type S = f64;
    fn normal(&self) -> &V3 {
        &self.normal
    }
    fn set_normal(&mut self, n: V3) {
        self.normal = n;
    }
}
impl EdgePayload for EPay {
    fn allocate() -> Self {
        ep(u64::MAX)
    }
    fn is_empty(&self) -> bool {
        false
    }
}
impl DefaultEdgePayload for EPay {}
impl FacePayload for FPay {
    fn allocate() -> Self {
        fp(u64::MAX)
    }
}
impl DefaultFacePayload for FPay {}
impl MeshPayload<TM> for MPay {}

impl MeshType for TM {
    type E = u32;
    type V = usize;
    type F = u16;
    type EP = EPay;
    type VP = VPay;
    type FP = FPay;
    type MP = MPay;
    type Mesh = HalfEdgeMeshImpl<TM>;
    type Face = HalfEdgeFaceImpl<TM>;
    type Edge = HalfEdgeImpl<TM>;
    type Vertex = HalfEdgeVertexImpl<TM>;
}
impl EuclideanMeshType<3> for TM {
    type S = f64;
    type Vec = V3;
    type Vec2 = VecN<f64, 2>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    type Poly = Polygon2d<f64>;
}
impl HalfEdgeImplMeshType for TM {}
impl MeshTypeHalfEdge for TM {}
impl MeshType3D for TM {}
pub type M = HalfEdgeMeshImpl<TM>;
