//! The properties.

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c08;
mod c09;
mod c10;
mod c11;
mod c13;
pub mod c21;
mod gen;

/// What needs every feature.
macro_rules! full {
    ($($m:ident)*) => { $(
        #[cfg(all(feature = "filters", feature = "serialize", feature = "unicode"))]
        pub mod $m;
    )* };
}
full! { c07 c12 c14 c15 c16 c17 c18 c19 c20 c22 c23 c24 }

use crate::Prop;

/// What needs no feature.
pub fn parts() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c13::prop()]
}

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut all = parts();
    all.push(c21::prop());
    #[cfg(all(feature = "filters", feature = "serialize", feature = "unicode"))]
    all.extend([c07::prop(), c12::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c22::prop(), c23::prop(), c24::prop()]);
    all.sort_by_key(|p| p.id);
    all
}
