#![feature(const_destruct, allocator_api)]
#![verifier::allow(undeclared_external_trait)]
#![allow(unused_imports, dead_code, unused_variables, non_camel_case_types, unused_mut)]
use vstd::prelude::*;
use core::cmp::Ordering;
use std::collections::VecDeque;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::core::*;
