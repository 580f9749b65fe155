//! P03, thorough: long arrays.
use ordinal_map::Ordinal;

use crate::keys::*;
use crate::model::*;
use crate::nd;
use crate::p03::array_law;
use crate::p03::lex;

crate::harnesses! {
    #[unwind(66)] fn array_63_value() { array_law!(2, 63) }
    #[unwind(103)] fn array_100_unit_from() { law_from::<[K<1>; 100]>() }
    #[unwind(303)] fn array_300_unit_value() { law_value::<[(); 300]>() }
}
