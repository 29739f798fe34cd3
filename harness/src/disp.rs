//! Dispatch of the operations that exist only for particular type-level shapes.

/// statically checked indices: (length, index)
#[macro_export]
macro_rules! sidisp {
    ($ni:expr, $N:ident, $I:ident, $e:expr) => {
        $crate::mdisp!(@ $ni, $N, $I, $e,
            1 U1 0 U0, 2 U2 0 U0, 2 U2 1 U1, 3 U3 0 U0, 3 U3 1 U1, 3 U3 2 U2, 4 U4 0 U0, 4 U4 1 U1, 4 U4 2 U2, 4 U4 3 U3,
            5 U5 0 U0, 5 U5 2 U2, 5 U5 3 U3, 5 U5 4 U4, 8 U8 0 U0, 8 U8 3 U3, 8 U8 4 U4, 8 U8 7 U7, 16 U16 8 U8, 16 U16 15 U15,
            17 U17 0 U0, 17 U17 16 U16, 31 U31 30 U30, 32 U32 0 U0, 32 U32 15 U15, 32 U32 16 U16, 32 U32 31 U31)
    };
}
/// statically checked matrix indices: ((rows, cols), (i, j))
#[macro_export]
macro_rules! midisp {
    ($rc:expr, $R:ident, $C:ident, $I:ident, $J:ident, $e:expr) => {
        $crate::midisp!(@ $rc, $R, $C, $I, $J, $e,
            1 U1 1 U1 0 U0 0 U0, 1 U1 4 U4 0 U0 0 U0, 1 U1 4 U4 0 U0 3 U3, 4 U4 1 U1 0 U0 0 U0, 4 U4 1 U1 3 U3 0 U0, 4 U4 1 U1 2 U2 0 U0,
            2 U2 2 U2 0 U0 0 U0, 2 U2 2 U2 0 U0 1 U1, 2 U2 2 U2 1 U1 0 U0, 2 U2 2 U2 1 U1 1 U1,
            2 U2 3 U3 0 U0 0 U0, 2 U2 3 U3 0 U0 1 U1, 2 U2 3 U3 0 U0 2 U2, 2 U2 3 U3 1 U1 0 U0, 2 U2 3 U3 1 U1 1 U1, 2 U2 3 U3 1 U1 2 U2,
            3 U3 2 U2 0 U0 0 U0, 3 U3 2 U2 0 U0 1 U1, 3 U3 2 U2 1 U1 0 U0, 3 U3 2 U2 1 U1 1 U1, 3 U3 2 U2 2 U2 0 U0, 3 U3 2 U2 2 U2 1 U1,
            4 U4 4 U4 0 U0 0 U0, 4 U4 4 U4 0 U0 3 U3, 4 U4 4 U4 3 U3 0 U0, 4 U4 4 U4 3 U3 3 U3, 4 U4 4 U4 1 U1 2 U2, 4 U4 4 U4 2 U2 1 U1,
            3 U3 5 U5 2 U2 4 U4, 3 U3 5 U5 0 U0 4 U4, 3 U3 5 U5 2 U2 0 U0, 3 U3 17 U17 2 U2 16 U16, 17 U17 3 U3 16 U16 0 U0, 17 U17 3 U3 16 U16 2 U2, 17 U17 3 U3 0 U0 2 U2)
    };
    (@ $rc:expr, $R:ident, $C:ident, $I:ident, $J:ident, $e:expr, $($r:literal $UR:ident $c:literal $UC:ident $i:literal $UI:ident $j:literal $UJ:ident),*) => {
        match $rc { $( (($r, $c), ($i, $j)) => { #[allow(dead_code)] type $R = $crate::dims::$UR; #[allow(dead_code)] type $C = $crate::dims::$UC;
            #[allow(dead_code)] type $I = $crate::dims::$UI; #[allow(dead_code)] type $J = $crate::dims::$UJ; $e } )* _ => $crate::harness_bug("no such static index") }
    };
}

/// Vector operations that need a concrete length. `$vd` is the dispatch form (`all` or `few`).
#[macro_export]
macro_rules! vec_static {
    ($g:expr, $o:expr, $op:expr, $E:ty, $m:ident, $($few:tt)*) => {{
        let (g, o, op): (&mut Regs, &mut O, &Op) = ($g, $o, $op);
        match &op.name[..] {
            "vnew" => { $crate::vdisp!($($few)* op.u(0), N, {
                let v = Vector::<$E, N>::new(std::array::from_fn(|i| $m::mk(op.p[i + 1])));
                $m::putv::<N>(g, op.d, v); }); true }
            "vextreme" => {
                // max, min, max_by, min_by
                let n = g.dims(op.a).0;
                let x = $crate::vdisp!(@ n, N, { let a = g.r::<Vector<$E, N>>(op.a);
                    match op.f { 0 => a.max(), 1 => a.min(), 2 => a.max_by($m::by(op)), _ => a.min_by($m::by(op)) }.val() },
                    1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8, 9 U9, 16 U16, 17 U17, 31 U31, 32 U32);
                o.res.push(x);
                true
            }
            "vcross" => { let v: Vector<$E, U3> = g.r::<Vector<$E, U3>>(op.a).cross(g.r::<Vector<$E, U3>>(op.b)); $m::putv::<U3>(g, op.d, v); true }
            "vsget" => { let n = g.dims(op.a).0;
                let x = $crate::sidisp!((n, op.u(0)), N, I, g.r::<Vector<$E, N>>(op.a)[I::new()].val());
                o.res.push(x);
                true }
            "vsset" => { let n = g.dims(op.a).0; let x = $m::mk(op.x(1));
                $crate::sidisp!((n, op.u(0)), N, I, g.m::<Vector<$E, N>>(op.a)[I::new()] = x);
                true }
            _ => false,
        }
    }};
}

/// Matrix operations that need a concrete shape.
#[macro_export]
macro_rules! mat_static {
    ($g:expr, $o:expr, $op:expr, $E:ty, $m:ident, $($few:tt)*) => {{
        let (g, o, op): (&mut Regs, &mut O, &Op) = ($g, $o, $op);
        match &op.name[..] {
            "mnew" => { $crate::mdisp!($($few)* (op.u(0), op.u(1)), R, C, {
                let c = op.u(1);
                let v = Matrix::<$E, R, C>::new(std::array::from_fn(|i| std::array::from_fn(|j| $m::mk(op.p[2 + i * c + j]))));
                $m::putm::<R, C>(g, op.d, v); }); true }
            "mdiag" => { $crate::mdisp!($($few)* (op.u(0), op.u(1)), R, C, {
                let v = Matrix::<$E, R, C>::diag(std::array::from_fn(|i| $m::mk(op.p[2 + i])));
                $m::putm::<R, C>(g, op.d, v); }); true }
            "mfrom" => { $crate::rsdisp!((op.u(0), op.u(1)), R, C, {
                let v: Vector<$E, rowcol::typenum::Prod<R, C>> = g.take(op.a);
                $m::putm::<R, C>(g, op.d, Matrix::<$E, R, C>::from(v)); }); true }
            "mextreme" => {
                let n = g.dims(op.a).0;
                let x = $crate::vdisp!(@ n, N, { let a = g.r::<Matrix<$E, N, N>>(op.a);
                    match op.f { 0 => a.max(), 1 => a.min(), 2 => a.max_by($m::by(op)), _ => a.min_by($m::by(op)) }.val() },
                    1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8);
                o.res.push(x);
                true
            }
            "msget" => { let d = g.dims(op.a);
                let x = $crate::midisp!((d, (op.u(0), op.u(1))), R, C, I, J, g.r::<Matrix<$E, R, C>>(op.a)[(I::new(), J::new())].val());
                o.res.push(x);
                true }
            "msset" => { let d = g.dims(op.a); let x = $m::mk(op.x(2));
                $crate::midisp!((d, (op.u(0), op.u(1))), R, C, I, J, g.m::<Matrix<$E, R, C>>(op.a)[(I::new(), J::new())] = x);
                true }
            _ => false,
        }
    }};
}

/// Determinant, cofactor, inverse.
#[macro_export]
macro_rules! lin_static {
    ($g:expr, $o:expr, $op:expr, $E:ty, $m:ident) => {{
        let (g, o, op): (&mut Regs, &mut O, &Op) = ($g, $o, $op);
        match &op.name[..] {
            "mdet" => { let n = g.dims(op.a).0;
                let x = $crate::sqdisp!(n, N, g.r::<Matrix<$E, N, N>>(op.a).determinant().val());
                o.res.push(x); true }
            "mcof" => { let n = g.dims(op.a).0;
                let x = $crate::sqdisp!(cof n, N, g.r::<Matrix<$E, N, N>>(op.a).cofactor((op.u(0), op.u(1))).val());
                o.res.push(x); true }
            "minv" => { let n = g.dims(op.a).0;
                $crate::sqdisp!(n, N, { let v = g.r::<Matrix<$E, N, N>>(op.a).inverse();
                    o.nums.push(v.is_some() as i64);
                    match v { Some(x) => $m::putm::<N, N>(g, op.d, x), None => g.0[op.d - 1] = None } });
                true }
            _ => false,
        }
    }};
}
