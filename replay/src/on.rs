//! Chooses between two texts.
#[macro_export]
macro_rules! on {
    (y, { $($a:tt)* } { $($b:tt)* }) => { { $($a)* } };
    (n, { $($a:tt)* } { $($b:tt)* }) => { { $($b)* } };
}

/// As `on`, for items.
#[macro_export]
macro_rules! on_items {
    (y, { $($a:tt)* } { $($b:tt)* }) => { $($a)* };
    (n, { $($a:tt)* } { $($b:tt)* }) => { $($b)* };
}
