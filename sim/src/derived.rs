//! Derived types, generated (see tools/gentypes.py).
#![allow(non_camel_case_types, dead_code, unused_parens, private_interfaces, non_shorthand_field_patterns)]
include!(env!("SIM_TYPES"));
