#![allow(warnings)]
#![recursion_limit = "512"]
use mcro::{case, ev, two, K, S};
include!("../names.rs");
include!(concat!(env!("MCRO_GEN"), "/m2.rs"));
