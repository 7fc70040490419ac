#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include-trusted graph.inc@*/
/*@include-trusted commit.inc@*/
/*@include switch.inc@*/
fn main() {}
}
