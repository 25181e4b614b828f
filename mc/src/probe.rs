//! A contract that exposes the shared fixed-point arithmetic for direct calls.
multiversx_sc::imports!();

type Q4<M> = MultiValue4<BigUint<M>, usize, BigUint<M>, usize>;
type S4<M> = MultiValue4<BigInt<M>, usize, BigInt<M>, usize>;

#[multiversx_sc::contract]
pub trait Probe: common_math::SharedMathModule {
    #[init]
    fn init(&self) {}

    #[view(mul)]
    fn mul(&self, prec: usize, cases: MultiValueEncoded<Q4<Self::Api>>) -> MultiValueEncoded<BigUint> {
        let mut out = MultiValueEncoded::new();
        for c in cases {
            let (a, sa, d, sb) = c.into_tuple();
            let r = self.mul_half_up(
                &ManagedDecimal::from_raw_units(a, sa),
                &ManagedDecimal::from_raw_units(d, sb),
                prec,
            );
            out.push(r.into_raw_units().clone());
        }
        out
    }
    #[view(div)]
    fn div(&self, prec: usize, cases: MultiValueEncoded<Q4<Self::Api>>) -> MultiValueEncoded<BigUint> {
        let mut out = MultiValueEncoded::new();
        for c in cases {
            let (a, sa, d, sb) = c.into_tuple();
            let r = self.div_half_up(
                &ManagedDecimal::from_raw_units(a, sa),
                &ManagedDecimal::from_raw_units(d, sb),
                prec,
            );
            out.push(r.into_raw_units().clone());
        }
        out
    }
    #[view(smul)]
    fn smul(&self, prec: usize, cases: MultiValueEncoded<S4<Self::Api>>) -> MultiValueEncoded<BigInt> {
        let mut out = MultiValueEncoded::new();
        for c in cases {
            let (a, sa, d, sb) = c.into_tuple();
            let r = self.mul_half_up_signed(
                &ManagedDecimalSigned::from_raw_units(a, sa),
                &ManagedDecimalSigned::from_raw_units(d, sb),
                prec,
            );
            out.push(r.into_raw_units().clone());
        }
        out
    }
    #[view(sdiv)]
    fn sdiv(&self, prec: usize, cases: MultiValueEncoded<S4<Self::Api>>) -> MultiValueEncoded<BigInt> {
        let mut out = MultiValueEncoded::new();
        for c in cases {
            let (a, sa, d, sb) = c.into_tuple();
            let r = self.div_half_up_signed(
                &ManagedDecimalSigned::from_raw_units(a, sa),
                &ManagedDecimalSigned::from_raw_units(d, sb),
                prec,
            );
            out.push(r.into_raw_units().clone());
        }
        out
    }
    #[view(resc)]
    fn resc(
        &self,
        cases: MultiValueEncoded<MultiValue3<BigUint, usize, usize>>,
    ) -> MultiValueEncoded<ManagedDecimal<Self::Api, NumDecimals>> {
        let mut out = MultiValueEncoded::new();
        for c in cases {
            let (a, f, t) = c.into_tuple();
            out.push(self.rescale_half_up(&ManagedDecimal::from_raw_units(a, f), t));
        }
        out
    }
    #[view(minmax)]
    fn minmax(&self, cases: MultiValueEncoded<MultiValue2<BigUint, BigUint>>) -> MultiValueEncoded<(BigUint, BigUint)> {
        let mut out = MultiValueEncoded::new();
        for c in cases {
            let (a, d) = c.into_tuple();
            let x = ManagedDecimal::from_raw_units(a, 27usize);
            let y = ManagedDecimal::from_raw_units(d, 27usize);
            let lo = self.min(x.clone(), y.clone());
            let hi = self.max(x, y);
            out.push((lo.into_raw_units().clone(), hi.into_raw_units().clone()));
        }
        out
    }
}
