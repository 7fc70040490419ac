#![allow(unused, dead_code, non_camel_case_types)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
/*@include prelude.rs@*/
/*@include-trusted base.inc@*/
/*@include-trusted typed.inc@*/
/*@include-trusted graph.inc@*/
/*@include-trusted commit.inc@*/
/*@include-trusted switch.inc@*/
/*@include-trusted trans.inc@*/
/*@include-trusted gc.inc@*/
/*@include mac.inc@*/
fn main() {}
}
