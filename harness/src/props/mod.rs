pub mod color;
pub mod convert;
pub mod layout;
#[cfg(feature = "resize")]
pub mod resize;
pub mod variants;
pub mod views;

use crate::driver::Entry;

pub fn all() -> Vec<Entry> {
    let mut v = vec![];
    v.extend(color::entries());
    v.extend(convert::entries());
    v.extend(layout::entries());
    #[cfg(feature = "resize")]
    v.extend(resize::entries());
    v.extend(variants::entries());
    v.extend(views::entries());
    v
}
