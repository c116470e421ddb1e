macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::stubs::fmt_stub))]
            #[cfg_attr(kani, kani::stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn dispatch(name: &str) -> bool {
            match name {
                $( stringify!($name) => { $name(); true } )*
                _ => false,
            }
        }
    };
}

macro_rules! modules {
    ($($m:ident),*) => {
        $( pub mod $m; )*
        #[cfg(not(kani))]
        pub fn dispatch(name: &str) -> bool {
            $( if let Some(n) = name.strip_prefix(concat!(stringify!($m), "::")) { return $m::dispatch(n); } )*
            false
        }
    };
}
