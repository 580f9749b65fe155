//! P09, thorough: deeper.
use ordinal_map::map::*;

use crate::keys::*;
use crate::p09::*;

crate::harnesses! {
    #[unwind(302)] fn spread_heap_300() { spread::<300, map!(OrdinalMap, K<300>, u8, 300)>() }
    #[unwind(302)] fn spread_array_300() { spread::<300, map!(OrdinalArrayMap, K<300>, u8, 300)>() }
    #[unwind(262)] fn huge_heap_260() { huge::<260, map!(OrdinalMap, K<260>, (), 260)>() }
    #[unwind(262)] fn huge_array_260() { huge::<260, map!(OrdinalArrayMap, K<260>, (), 260)>() }
}
