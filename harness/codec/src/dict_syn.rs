// Empty here; the C15 check replaces it, in its own copy, by the table of the synthetic dictionaries.
use super::dict::*;

pub fn attrs() -> Vec<A> {
    vec![]
}

pub fn values() -> Vec<(&'static str, &'static str, &'static str, u64, u64)> {
    vec![]
}
