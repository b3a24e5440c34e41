#![allow(dead_code, unused_imports, unused_macros, static_mut_refs)]
pub mod sym;
pub mod model;
pub mod mt;

/// Declares harness functions: an exported symbol each (the engine's entry points) and a
/// name table (the replayer's entry points).
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $n() $b )*
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n as extern "C-unwind" fn())),*];
    };
}

macro_rules! modules { ($($f:literal $m:ident;)*) => {
    $( #[cfg(feature = $f)] mod $m; )*
    pub fn list() -> Vec<(&'static str, extern "C-unwind" fn())> {
        let mut v: Vec<(&'static str, extern "C-unwind" fn())> = vec![];
        $( #[cfg(feature = $f)] v.extend_from_slice($m::LIST); )*
        v
    }
} }
modules! {
    "t0" t0;
    "c01" c01;
    "c02" c02;
    "c03" c03;
    "c04" c04;
    "c05" c05;
    "c06" c06;
    "c07" c07;
    "c08" c08;
    "c09" c09;
    "c10" c10;
    "c11" c11;
    "c12" c12;
    "c13" c13;
    "c14" c14;
    "c15" c15;
    "c16" c16;
    "c17" c17;
    "c18" c18;
    "c19" c19;
    "c20" c20;
    "c21" c21;
    "c22" c22;
    "c23" c23;
    "c24" c24;
    "c25" c25;
    "c26" c26;
    "c27" c27;
    "c28" c28;
    "c29" c29;
}
