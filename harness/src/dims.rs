//! Run-time to type-level dimension dispatch.
pub use rowcol::typenum::consts::*;

/// `vdisp!(n, N, expr)` evaluates `expr` with the type alias `N` = the n-th unsigned constant, n in 0..=32.
#[macro_export]
macro_rules! vdisp {
    ($n:expr, $N:ident, $e:expr) => {
        $crate::vdisp!(@ $n, $N, $e, 0 U0, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8, 9 U9, 10 U10, 11 U11,
            12 U12, 13 U13, 14 U14, 15 U15, 16 U16, 17 U17, 18 U18, 19 U19, 20 U20, 21 U21, 22 U22, 23 U23,
            24 U24, 25 U25, 26 U26, 27 U27, 28 U28, 29 U29, 30 U30, 31 U31, 32 U32)
    };
    (few $n:expr, $N:ident, $e:expr) => {
        $crate::vdisp!(@ $n, $N, $e, 0 U0, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 8 U8, 16 U16, 17 U17, 31 U31, 32 U32)
    };
    (nz $n:expr, $N:ident, $e:expr) => {
        $crate::vdisp!(@ $n, $N, $e, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8, 9 U9, 10 U10, 11 U11,
            12 U12, 13 U13, 14 U14, 15 U15, 16 U16, 17 U17, 18 U18, 19 U19, 20 U20, 21 U21, 22 U22, 23 U23,
            24 U24, 25 U25, 26 U26, 27 U27, 28 U28, 29 U29, 30 U30, 31 U31, 32 U32)
    };
    (@ $n:expr, $N:ident, $e:expr, $($k:literal $U:ident),*) => {
        match $n { $( $k => { #[allow(dead_code)] type $N = $crate::dims::$U; $e } )* _ => $crate::harness_bug("no such length") }
    };
}

/// Matrix shapes the harness instantiates (keep in step with `MShapes` in spec/Dims.tla).
#[macro_export]
macro_rules! mdisp {
    (few $rc:expr, $R:ident, $C:ident, $e:expr) => {
        $crate::mdisp!(@ $rc, $R, $C, $e, 0 U0 0 U0, 0 U0 2 U2, 2 U2 0 U0, 1 U1 1 U1, 2 U2 3 U3, 3 U3 2 U2, 1 U1 4 U4, 4 U4 1 U1, 4 U4 4 U4,
            16 U16 2 U2, 3 U3 17 U17)
    };
    ($rc:expr, $R:ident, $C:ident, $e:expr) => {
        $crate::mdisp!(@ $rc, $R, $C, $e,
            0 U0 0 U0, 0 U0 1 U1, 0 U0 2 U2, 0 U0 3 U3, 0 U0 4 U4,
            1 U1 0 U0, 1 U1 1 U1, 1 U1 2 U2, 1 U1 3 U3, 1 U1 4 U4,
            2 U2 0 U0, 2 U2 1 U1, 2 U2 2 U2, 2 U2 3 U3, 2 U2 4 U4,
            3 U3 0 U0, 3 U3 1 U1, 3 U3 2 U2, 3 U3 3 U3, 3 U3 4 U4,
            4 U4 0 U0, 4 U4 1 U1, 4 U4 2 U2, 4 U4 3 U3, 4 U4 4 U4,
            5 U5 5 U5, 6 U6 6 U6, 7 U7 7 U7, 8 U8 8 U8,
            3 U3 5 U5, 5 U5 3 U3, 2 U2 6 U6, 6 U6 2 U2, 5 U5 7 U7, 7 U7 5 U5, 4 U4 8 U8, 8 U8 4 U4,
            9 U9 2 U2, 2 U2 9 U9, 1 U1 16 U16, 16 U16 1 U1, 2 U2 16 U16, 16 U16 2 U2, 1 U1 32 U32, 32 U32 1 U1,
            3 U3 17 U17, 17 U17 3 U3, 10 U10 12 U12)
    };
    (@ $rc:expr, $R:ident, $C:ident, $e:expr, $($r:literal $UR:ident $c:literal $UC:ident),*) => {
        match $rc { $( ($r, $c) => { #[allow(dead_code)] type $R = $crate::dims::$UR; #[allow(dead_code)] type $C = $crate::dims::$UC; $e } )* _ => $crate::harness_bug("no such shape") }
    };
}

/// Square shapes with determinant, cofactor and inverse.
#[macro_export]
macro_rules! sqdisp {
    ($n:expr, $N:ident, $e:expr) => {
        $crate::vdisp!(@ $n, $N, $e, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8)
    };
    (cof $n:expr, $N:ident, $e:expr) => {
        $crate::vdisp!(@ $n, $N, $e, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8)
    };
    (all $n:expr, $N:ident, $e:expr) => {
        $crate::vdisp!(@ $n, $N, $e, 0 U0, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8)
    };
}

/// Product shapes (left rows, inner, right columns) (keep in step with `PShapes` in spec/Dims.tla).
#[macro_export]
macro_rules! pdisp {
    ($lkr:expr, $A:ident, $K:ident, $B:ident, $e:expr) => {
        $crate::pdisp!(@ $lkr, $A, $K, $B, $e,
            0 U0 0 U0 0 U0, 0 U0 0 U0 2 U2, 2 U2 0 U0 0 U0, 0 U0 2 U2 0 U0, 2 U2 0 U0 3 U3, 0 U0 3 U3 2 U2, 3 U3 2 U2 0 U0,
            1 U1 0 U0 1 U1, 4 U4 0 U0 4 U4,
            1 U1 1 U1 1 U1, 1 U1 1 U1 2 U2, 1 U1 1 U1 3 U3, 1 U1 2 U2 1 U1, 1 U1 2 U2 2 U2, 1 U1 2 U2 3 U3,
            1 U1 3 U3 1 U1, 1 U1 3 U3 2 U2, 1 U1 3 U3 3 U3,
            2 U2 1 U1 1 U1, 2 U2 1 U1 2 U2, 2 U2 1 U1 3 U3, 2 U2 2 U2 1 U1, 2 U2 2 U2 2 U2, 2 U2 2 U2 3 U3,
            2 U2 3 U3 1 U1, 2 U2 3 U3 2 U2, 2 U2 3 U3 3 U3,
            3 U3 1 U1 1 U1, 3 U3 1 U1 2 U2, 3 U3 1 U1 3 U3, 3 U3 2 U2 1 U1, 3 U3 2 U2 2 U2, 3 U3 2 U2 3 U3,
            3 U3 3 U3 1 U1, 3 U3 3 U3 2 U2, 3 U3 3 U3 3 U3,
            4 U4 4 U4 4 U4, 4 U4 3 U3 2 U2, 2 U2 4 U4 1 U1, 5 U5 5 U5 5 U5, 6 U6 6 U6 6 U6, 7 U7 7 U7 7 U7, 8 U8 8 U8 8 U8,
            5 U5 7 U7 5 U5, 7 U7 5 U5 3 U3, 1 U1 32 U32 1 U1, 2 U2 16 U16 1 U1, 16 U16 1 U1 2 U2, 3 U3 17 U17 3 U3, 4 U4 8 U8 4 U4,
            2 U2 9 U9 2 U2, 8 U8 4 U4 8 U8)
    };
    (@ $lkr:expr, $A:ident, $K:ident, $B:ident, $e:expr, $($a:literal $UA:ident $k:literal $UK:ident $b:literal $UB:ident),*) => {
        match $lkr { $( ($a, $k, $b) => { #[allow(dead_code)] type $A = $crate::dims::$UA; #[allow(dead_code)] type $K = $crate::dims::$UK; #[allow(dead_code)] type $B = $crate::dims::$UB; $e } )* _ => $crate::harness_bug("no such product shape") }
    };
}

/// Reshapes: (rows, cols), cols > 0, rows*cols <= 32.
#[macro_export]
macro_rules! rsdisp {
    ($rc:expr, $R:ident, $C:ident, $e:expr) => {
        $crate::mdisp!(@ $rc, $R, $C, $e,
            0 U0 1 U1, 0 U0 3 U3, 1 U1 1 U1, 1 U1 2 U2, 1 U1 3 U3, 1 U1 4 U4, 2 U2 1 U1, 2 U2 2 U2, 2 U2 3 U3, 2 U2 4 U4,
            3 U3 1 U1, 3 U3 2 U2, 3 U3 3 U3, 3 U3 4 U4, 4 U4 1 U1, 4 U4 2 U2, 4 U4 3 U3, 4 U4 4 U4,
            5 U5 5 U5, 3 U3 5 U5, 5 U5 3 U3, 2 U2 6 U6, 6 U6 2 U2, 4 U4 8 U8, 8 U8 4 U4, 9 U9 2 U2, 2 U2 9 U9,
            1 U1 16 U16, 16 U16 1 U1, 2 U2 16 U16, 16 U16 2 U2, 1 U1 32 U32, 32 U32 1 U1)
    };
}
/// Chunkings (length, chunk length), chunk length dividing the length.
#[macro_export]
macro_rules! ckdisp {
    (few $ni:expr, $N:ident, $I:ident, $e:expr) => {
        $crate::mdisp!(@ $ni, $N, $I, $e, 0 U0 2 U2, 2 U2 1 U1, 4 U4 2 U2, 6 U6 2 U2, 6 U6 3 U3, 8 U8 8 U8, 32 U32 8 U8)
    };
    ($ni:expr, $N:ident, $I:ident, $e:expr) => {
        $crate::mdisp!(@ $ni, $N, $I, $e,
            0 U0 1 U1, 0 U0 2 U2, 0 U0 5 U5, 1 U1 1 U1, 2 U2 1 U1, 2 U2 2 U2, 3 U3 1 U1, 3 U3 3 U3, 4 U4 1 U1, 4 U4 2 U2, 4 U4 4 U4,
            5 U5 1 U1, 5 U5 5 U5, 6 U6 1 U1, 6 U6 2 U2, 6 U6 3 U3, 6 U6 6 U6, 7 U7 7 U7, 8 U8 2 U2, 8 U8 4 U4, 8 U8 8 U8,
            9 U9 3 U3, 10 U10 2 U2, 10 U10 5 U5, 12 U12 1 U1, 12 U12 2 U2, 12 U12 3 U3, 12 U12 4 U4, 12 U12 6 U6,
            15 U15 3 U3, 15 U15 5 U5, 16 U16 1 U1, 16 U16 2 U2, 16 U16 4 U4, 16 U16 8 U8, 18 U18 6 U6, 20 U20 4 U4, 21 U21 7 U7,
            24 U24 8 U8, 25 U25 5 U5, 27 U27 9 U9, 28 U28 7 U7, 30 U30 10 U10, 30 U30 3 U3, 32 U32 1 U1, 32 U32 2 U2, 32 U32 4 U4,
            32 U32 8 U8, 32 U32 16 U16, 32 U32 32 U32)
    };
}
