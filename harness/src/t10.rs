//! P10, thorough: more iterators of maps with more than 256 keys, and every walk of the array
//! map's iterators.
use ordinal_map::map::*;

use crate::keys::*;
use crate::model::*;
use crate::nd;
use crate::p10::one;
use crate::p10::wide;

walks! { one, #[unwind(5)] {
    array_iter(OrdinalArrayMap, iter);
    array_iter_mut(OrdinalArrayMap, iter_mut);
    array_keys(OrdinalArrayMap, keys);
    array_values(OrdinalArrayMap, values);
    array_values_mut(OrdinalArrayMap, values_mut);
    array_drain(OrdinalArrayMap, drain);
} {
    #[unwind(262)] fn wide_heap_iter_mut() { wide!(OrdinalMap, 260, iter_mut) }
    #[unwind(262)] fn wide_heap_into_iter() { wide!(OrdinalMap, 260, into_iter) }
    #[unwind(262)] fn wide_heap_drain() { wide!(OrdinalMap, 260, drain) }
    #[unwind(262)] fn wide_array_into_iter() { wide!(OrdinalArrayMap, 260, into_iter) }
    #[unwind(262)] fn wide_array_iter() { wide!(OrdinalArrayMap, 260, iter) }
    #[unwind(262)] fn wide_array_iter_mut() { wide!(OrdinalArrayMap, 260, iter_mut) }
    #[unwind(262)] fn wide_array_drain() { wide!(OrdinalArrayMap, 260, drain) }
} }
