//! P19, thorough tier.
use ordinal_map::map::*;

use crate::keys::*;
use crate::p19::*;

crate::harnesses! {
    #[unwind(5)] fn heap_drain_3() { drain::<3, OrdinalMap<K<3>, Tok>>() }
    #[unwind(5)] fn array_drain_3() { drain::<3, OrdinalArrayMap<K<3>, Tok, 3>>() }
    #[unwind(5)] fn heap_into_iter_3() { into_iter::<3, OrdinalMap<K<3>, Tok>>() }
    #[unwind(5)] fn array_into_iter_3() { into_iter::<3, OrdinalArrayMap<K<3>, Tok, 3>>() }
    #[unwind(262)] fn many_260() { many::<260>(260) }
}
