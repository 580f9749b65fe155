//! P12, thorough: maps with more than 256 keys.
use ordinal_map::map::*;

use crate::keys::*;
use crate::p12::*;

crate::harnesses! {
    #[unwind(262)] fn heap_260_clear() { wide_cleared::<true, 260, OrdinalMap<K<260>, u8>>() }
    #[unwind(262)] fn array_260_clear() { wide_cleared::<true, 260, OrdinalArrayMap<K<260>, u8, 260>>() }
    #[unwind(262)] fn heap_260_drain() { wide_cleared::<false, 260, OrdinalMap<K<260>, u8>>() }
    #[unwind(262)] fn array_260_drain() { one_of_many::<260, OrdinalArrayMap<K<260>, (), 260>>(true) }
    #[unwind(262)] fn array_260_retain() { wide_retained::<260>() }
}
