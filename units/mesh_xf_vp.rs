impl VP {
    #[verifier::external_body] fn transform(&mut self, a: &TTrans) -> (r: &mut Self) ensures *r == vp_op(*old(self), Op::Transform(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn translate(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == vp_op(*old(self), Op::Translate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn rotate(&mut self, a: &TRot) -> (r: &mut Self) ensures *r == vp_op(*old(self), Op::Rotate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn scale(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == vp_op(*old(self), Op::Scale(*a)), *final(self) == *final(r), { unimplemented!() }
}
impl EP {
    #[verifier::external_body] fn transform(&mut self, a: &TTrans) -> (r: &mut Self) ensures *r == ep_op(*old(self), Op::Transform(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn translate(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == ep_op(*old(self), Op::Translate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn rotate(&mut self, a: &TRot) -> (r: &mut Self) ensures *r == ep_op(*old(self), Op::Rotate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn scale(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == ep_op(*old(self), Op::Scale(*a)), *final(self) == *final(r), { unimplemented!() }
}
impl FP {
    #[verifier::external_body] fn transform(&mut self, a: &TTrans) -> (r: &mut Self) ensures *r == fp_op(*old(self), Op::Transform(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn translate(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == fp_op(*old(self), Op::Translate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn rotate(&mut self, a: &TRot) -> (r: &mut Self) ensures *r == fp_op(*old(self), Op::Rotate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn scale(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == fp_op(*old(self), Op::Scale(*a)), *final(self) == *final(r), { unimplemented!() }
}
impl MP {
    #[verifier::external_body] fn transform(&mut self, a: &TTrans) -> (r: &mut Self) ensures *r == mp_op(*old(self), Op::Transform(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn translate(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == mp_op(*old(self), Op::Translate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn rotate(&mut self, a: &TRot) -> (r: &mut Self) ensures *r == mp_op(*old(self), Op::Rotate(*a)), *final(self) == *final(r), { unimplemented!() }
    #[verifier::external_body] fn scale(&mut self, a: &TVec) -> (r: &mut Self) ensures *r == mp_op(*old(self), Op::Scale(*a)), *final(self) == *final(r), { unimplemented!() }
}
