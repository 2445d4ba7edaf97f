//! C14: collected type lists are complete, duplicate-free, primitive-free; the capacity bound suffices.
//!
//! The shape of each type tree is fixed per harness, the names in it are symbolic, so which nodes
//! coincide (and therefore have to be merged) is decided by the solver. Nodes of one tree are told apart
//! by (kind, name); the oracle works on those signatures only, never on the code under test.
use postcard_rpc::uniques::{
    combine_with_copy, cruncher, merge_nty_lists, total_len, type_chewer_nty, unique_types_nty_upper,
};
use postcard_schema::schema::{
    DataModelType as D, DataModelVariant as V, NamedType as T, NamedValue, NamedVariant,
};

type Ty = &'static T;

/// The trees live in typed locals (heap or static blobs would hide the shape from the symbolic executor);
/// nothing outlives the harness.
fn st<X: ?Sized>(x: &X) -> &'static X {
    unsafe { core::mem::transmute::<&X, &'static X>(x) }
}
fn letter() -> [u8; 1] {
    let b: u8 = kani::any();
    kani::assume(b >= b'a' && b <= b'd');
    [b]
}
fn nm(b: &[u8; 1]) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(st(b)) }
}

fn tag(t: &T) -> u8 {
    match t.ty {
        D::UnitStruct => 1,
        D::Option(_) => 2,
        D::NewtypeStruct(_) => 3,
        D::Seq(_) => 4,
        D::Tuple(_) => 5,
        D::TupleStruct(_) => 6,
        D::Map { .. } => 7,
        D::Struct(_) => 8,
        D::Enum(_) => 9,
        _ => 0,
    }
}
/// (kind, name)
fn sig(t: &T) -> (u8, u8) {
    (tag(t), t.name.as_bytes()[0])
}

/// `want`: signatures of all reachable non-primitive nodes of `root` (repeats allowed)
fn check<const MAX: usize>(root: Ty, want: &[(u8, u8)]) {
    let upper = unique_types_nty_upper(root);
    assert!(upper <= MAX, "harness capacity");
    let (arr, used) = type_chewer_nty::<MAX>(root);
    verify(&arr, used, want);
    assert!(used <= upper, "the computed capacity bound suffices");
}

fn verify(arr: &[Option<&T>], used: usize, want: &[(u8, u8)]) {
    assert!(used <= arr.len());
    let mut i = 0;
    while i < arr.len() {
        assert!(arr[i].is_some() == (i < used), "entries are contiguous");
        if let Some(t) = arr[i] {
            let s = sig(t);
            assert!(s.0 != 0, "no primitive is listed");
            let mut found = false;
            let mut j = 0;
            while j < want.len() {
                found |= want[j] == s;
                j += 1;
            }
            assert!(found, "only reachable types are listed");
            let mut j = 0;
            while j < i {
                if let Some(o) = arr[j] {
                    assert!(sig(o) != s, "no duplicates");
                }
                j += 1;
            }
        }
        i += 1;
    }
    let mut j = 0;
    while j < want.len() {
        let mut found = false;
        let mut i = 0;
        while i < arr.len() {
            if let Some(t) = arr[i] {
                found |= sig(t) == want[j];
            }
            i += 1;
        }
        assert!(found, "every reachable non-primitive type is listed");
        j += 1;
    }
}


// ---- tree construction ------------------------------------------------------------------------
//
// `DataModelType` / `DataModelVariant` values are written field by field with the compiler's own layout:
// CBMC does not track the active member of the union behind a Rust enum, so a value built the ordinary
// way has a shape the symbolic executor cannot see. `c14_layout` checks them against the real enums.
#[repr(C)]
struct Raw<P> {
    tag: u64,
    p: *const P,
    q: usize,
}
#[repr(C)]
struct Raw2 {
    tag: u64,
    p: *const T,
    q: *const T,
}
const fn tag_d(d: &D) -> u64 {
    unsafe { *(d as *const D as *const u64) }
}
const fn tag_v(d: &V) -> u64 {
    unsafe { *(d as *const V as *const u64) }
}
const _: () = assert!(core::mem::size_of::<D>() == 24 && core::mem::size_of::<V>() == 24);

const LEAF: T = T { name: "", ty: &D::U8 };
const T_UNIT: u64 = tag_d(&D::UnitStruct);
const T_OPT: u64 = tag_d(&D::Option(&LEAF));
const T_NEW: u64 = tag_d(&D::NewtypeStruct(&LEAF));
const T_SEQ: u64 = tag_d(&D::Seq(&LEAF));
const T_TUP: u64 = tag_d(&D::Tuple(&[]));
const T_TS: u64 = tag_d(&D::TupleStruct(&[]));
const T_MAP: u64 = tag_d(&D::Map { key: &LEAF, val: &LEAF });
const T_STRUCT: u64 = tag_d(&D::Struct(&[]));
const T_ENUM: u64 = tag_d(&D::Enum(&[]));
const PRIMS: [u64; 20] = [
    tag_d(&D::Bool), tag_d(&D::I8), tag_d(&D::U8), tag_d(&D::I16), tag_d(&D::I32), tag_d(&D::I64), tag_d(&D::I128),
    tag_d(&D::U16), tag_d(&D::U32), tag_d(&D::U64), tag_d(&D::U128), tag_d(&D::Usize), tag_d(&D::Isize), tag_d(&D::F32),
    tag_d(&D::F64), tag_d(&D::Char), tag_d(&D::String), tag_d(&D::ByteArray), tag_d(&D::Unit), tag_d(&D::Schema),
];
const V_UNIT: u64 = tag_v(&V::UnitVariant);
const V_NEW: u64 = tag_v(&V::NewtypeVariant(&LEAF));
const V_TUP: u64 = tag_v(&V::TupleVariant(&[]));
const V_STRUCT: u64 = tag_v(&V::StructVariant(&[]));

const fn r0(tag: u64) -> Raw<T> {
    Raw { tag, p: core::ptr::null(), q: 0 }
}
fn r1(tag: u64, t: &T) -> Raw<T> {
    Raw { tag, p: t, q: 0 }
}
fn rn<P>(tag: u64, v: &[P]) -> Raw<P> {
    Raw { tag, p: v.as_ptr(), q: v.len() }
}
fn r2(key: &T, val: &T) -> Raw2 {
    Raw2 { tag: T_MAP, p: key, q: val }
}
fn d<X>(r: &X) -> &'static D {
    unsafe { &*(r as *const X as *const D) }
}
fn dv<X>(r: &X) -> &'static V {
    unsafe { &*(r as *const X as *const V) }
}
fn ty(name: &'static str, ty: &'static D) -> T {
    T { name, ty }
}
fn vl(name: &'static str, t: &T) -> NamedValue {
    NamedValue { name, ty: st(t) }
}
fn vr(name: &'static str, v: &'static V) -> NamedVariant {
    NamedVariant { name, ty: v }
}

/// the hand-written values are what the enums' own constructors produce
#[kani::proof]
#[kani::unwind(4)]
fn c14_layout() {
    let p = r0(PRIMS[2]);
    let a = ty("a", d(&p));
    let b = ty("b", d(&p));
    let v = [st(&a), st(&b)];
    assert!(matches!(d(&r1(T_OPT, &a)), D::Option(x) if x.name.as_bytes()[0] == b'a'));
    assert!(matches!(d(&r1(T_NEW, &a)), D::NewtypeStruct(x) if x.name.as_bytes()[0] == b'a'));
    assert!(matches!(d(&r1(T_SEQ, &a)), D::Seq(x) if x.name.as_bytes()[0] == b'a'));
    assert!(matches!(d(&rn(T_TUP, &v)), D::Tuple(x) if x.len() == 2 && x[1].name.as_bytes()[0] == b'b'));
    assert!(matches!(d(&rn(T_TS, &v)), D::TupleStruct(x) if x.len() == 2 && x[1].name.as_bytes()[0] == b'b'));
    assert!(matches!(d(&r2(&a, &b)), D::Map { key, val } if key.name.as_bytes()[0] == b'a' && val.name.as_bytes()[0] == b'b'));
    let f = vl("f", &b);
    let fs = [st(&f)];
    assert!(matches!(d(&rn(T_STRUCT, &fs)), D::Struct(x) if x.len() == 1 && x[0].ty.name.as_bytes()[0] == b'b'));
    let rv = r1(V_NEW, &b);
    let va = vr("v", dv(&rv));
    let vs = [st(&va)];
    assert!(matches!(d(&rn(T_ENUM, &vs)), D::Enum(x) if x.len() == 1 && matches!(x[0].ty, V::NewtypeVariant(t) if t.name.as_bytes()[0] == b'b')));
    assert!(matches!(dv(&rn(V_TUP, &v)), V::TupleVariant(x) if x.len() == 2 && x[1].name.as_bytes()[0] == b'b'));
    assert!(matches!(dv(&rn(V_STRUCT, &fs)), V::StructVariant(x) if x.len() == 1 && x[0].ty.name.as_bytes()[0] == b'b'));
    assert!(matches!(dv(&r0(V_UNIT)), V::UnitVariant));
    assert!(matches!(d(&r0(T_UNIT)), D::UnitStruct));
    kani::cover!(true);
}

// ---- completeness: every kind of composite, over children (Wrap(leaf1), leaf2) in both orders ----
macro_rules! shape {
    ($n:ident, $tag:expr, |$a:ident, $b:ident, $r:ident| $body:block) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::solver(cadical)]
        fn $n() {
            let (n1, n2) = (letter(), letter());
            let unit = r0(T_UNIT);
            let l1 = ty(nm(&n1), d(&unit));
            let l2 = ty(nm(&n2), d(&unit));
            let wd = r1(T_NEW, &l1);
            let w = ty("W", d(&wd));
            let prim = r0(PRIMS[2]);
            let p = ty("P", d(&prim));
            let want = [($tag, b'R'), (3, b'W'), (1, n1[0]), (1, n2[0])];
            {
                let ($a, $b): (&T, &T) = (&w, &l2);
                let $r = |d: &'static D| check::<4>(st(&ty("R", d)), &want);
                $body
            }
            {
                let ($a, $b): (&T, &T) = (&l2, &w);
                let $r = |d: &'static D| check::<4>(st(&ty("R", d)), &want);
                $body
            }
            let want = [($tag, b'R'), (1, n1[0])];
            {
                let ($a, $b): (&T, &T) = (&p, &l1);
                let $r = |d: &'static D| check::<2>(st(&ty("R", d)), &want);
                $body
            }
            {
                let ($a, $b): (&T, &T) = (&l1, &p);
                let $r = |d: &'static D| check::<2>(st(&ty("R", d)), &want);
                $body
            }
            kani::cover!(n1[0] == n2[0]);
            kani::cover!(n1[0] != n2[0]);
        }
    };
}
shape!(c14_shape_tuple, 5, |a, b, r| {
    let v = [a, b];
    r(d(&rn(T_TUP, &v)));
});
shape!(c14_shape_tuple_struct, 6, |a, b, r| {
    let v = [a, b];
    r(d(&rn(T_TS, &v)));
});
shape!(c14_shape_map, 7, |a, b, r| {
    r(d(&r2(a, b)));
});
shape!(c14_shape_struct, 8, |a, b, r| {
    let (x, y) = (vl("x", a), vl("y", b));
    let v = [st(&x), st(&y)];
    r(d(&rn(T_STRUCT, &v)));
});
shape!(c14_shape_enum_newtype, 9, |a, b, r| {
    let (x, y) = (r1(V_NEW, a), r1(V_NEW, b));
    let (x, y) = (vr("x", dv(&x)), vr("y", dv(&y)));
    let v = [st(&x), st(&y)];
    r(d(&rn(T_ENUM, &v)));
});
shape!(c14_shape_enum_tuple, 9, |a, b, r| {
    let v = [a, b];
    let u = r0(V_UNIT);
    let (u, x) = (vr("u", dv(&u)), rn(V_TUP, &v));
    let x = vr("x", dv(&x));
    let v = [st(&u), st(&x)];
    r(d(&rn(T_ENUM, &v)));
});
shape!(c14_shape_enum_struct, 9, |a, b, r| {
    let (x, y) = (vl("x", a), vl("y", b));
    let v = [st(&x), st(&y)];
    let x = rn(V_STRUCT, &v);
    let x = vr("x", dv(&x));
    let v = [st(&x)];
    r(d(&rn(T_ENUM, &v)));
});
shape!(c14_shape_enum_mixed, 9, |a, b, r| {
    let f = vl("x", a);
    let (v1, v2) = ([st(&f)], [b]);
    let (x, y) = (rn(V_STRUCT, &v1), rn(V_TUP, &v2));
    let (x, y) = (vr("x", dv(&x)), vr("y", dv(&y)));
    let v = [st(&x), st(&y)];
    r(d(&rn(T_ENUM, &v)));
});

/// single-child composites; a child equal in name to its parent is not confused with it
#[kani::proof]
#[kani::unwind(6)]
fn c14_shape_single() {
    let (n1, n2, n3) = (letter(), letter(), letter());
    let unit = r0(T_UNIT);
    let l = ty(nm(&n1), d(&unit));
    let tags = [(T_OPT, 2), (T_NEW, 3), (T_SEQ, 4)];
    let prim = r0(PRIMS[4]);
    let p = ty(nm(&n1), d(&prim));
    let mut i = 0;
    while i < 3 {
        let a = r1(tags[i].0, &l);
        let a = ty(nm(&n2), d(&a));
        let b = r1(tags[i].0, &a);
        let b = ty(nm(&n3), d(&b));
        // b and a have the same kind and maybe the same name, but never the same child
        let (arr, used) = type_chewer_nty::<3>(st(&b));
        assert!(used == 3 && unique_types_nty_upper(&b) == 3);
        let mut seen = [false; 3];
        let mut j = 0;
        while j < 3 {
            let t = arr[j].unwrap();
            seen[0] |= core::ptr::eq(t, &l);
            seen[1] |= core::ptr::eq(t, &a);
            seen[2] |= core::ptr::eq(t, &b);
            j += 1;
        }
        assert!(seen[0] && seen[1] && seen[2], "each of the three types is listed");
        let a = r1(tags[i].0, &p);
        let a = ty(nm(&n2), d(&a));
        check::<1>(st(&a), &[(tags[i].1, n2[0])]);
        i += 1;
    }
    kani::cover!(n1[0] == n2[0] && n2[0] == n3[0]);
}

/// no primitive is ever listed, on its own or inside a composite
#[kani::proof]
#[kani::unwind(22)]
fn c14_primitives() {
    let n = letter();
    let mut i = 0;
    while i < 20 {
        let p = r0(PRIMS[i]);
        let p = ty(nm(&n), d(&p));
        assert!(unique_types_nty_upper(&p) == 0);
        let (_, used) = type_chewer_nty::<1>(st(&p));
        assert!(used == 0, "no primitive is listed");
        let v = [st(&p)];
        let t = rn(T_TUP, &v);
        let t = ty("R", d(&t));
        assert!(unique_types_nty_upper(&t) >= 1);
        let (arr, used) = type_chewer_nty::<1>(st(&t));
        assert!(used == 1 && core::ptr::eq(arr[0].unwrap(), &t));
        let (_, used) = merge_nty_lists::<1>(&[&[st(&p)]]);
        assert!(used == 0, "no primitive survives a merge");
        i += 1;
    }
    kani::cover!(true);
}

// ---- equality: two entries merge exactly when every part is equal -----------------------------

/// `a` and `b` are children of one tuple; expects `common` other entries and one or two for a and b
fn pair<const MAX: usize>(a: &T, b: &T, same: bool, common: usize) {
    let v = [st(a), st(b)];
    let t = rn(T_TUP, &v);
    let t = ty("R", d(&t));
    let (arr, used) = type_chewer_nty::<MAX>(st(&t));
    assert!(used == common + 1 + if same { 1 } else { 2 }, "types are merged exactly when they are equal");
    let (mut fa, mut fb) = (false, false);
    let mut i = 0;
    while i < MAX {
        assert!(arr[i].is_some() == (i < used));
        if let Some(t) = arr[i] {
            fa |= core::ptr::eq(t, a);
            fb |= core::ptr::eq(t, b);
        }
        i += 1;
    }
    assert!(fa || (same && fb), "the first type is listed");
    assert!(fb || (same && fa), "the second type is listed");
    let (_, m) = merge_nty_lists::<2>(&[&[st(a)], &[st(b)]]);
    assert!(m == if same { 1 } else { 2 }, "merging keeps exactly the union");
}

macro_rules! eqs {
    ($n:ident, |$x:ident, $y:ident, $p:ident| { $($pre:stmt;)* } -> [$($ra:expr, $rb:expr);* $(;)?]) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::solver(cadical)]
        fn $n() {
            let (n1, n2) = (letter(), letter());
            let ($x, $y) = (nm(&n1), nm(&n2));
            let prim = r0(PRIMS[2]);
            let $p = &ty("P", d(&prim));
            let same = n1[0] == n2[0];
            $($pre;)*
            $({
                let (ra, rb) = ($ra, $rb);
                pair::<3>(&ty("S", d(&ra)), &ty("S", d(&rb)), same, 0);
            })*
            kani::cover!(same);
            kani::cover!(!same);
        }
    };
}
// x and y: primitives with symbolic names sit where the two composites may differ
eqs!(c14_eq_single, |x, y, p| {
    let u8_ = r0(PRIMS[2]);
    let a = ty(x, d(&u8_));
    let b = ty(y, d(&u8_));
} -> [r1(T_OPT, &a), r1(T_OPT, &b); r1(T_NEW, &a), r1(T_NEW, &b); r1(T_SEQ, &a), r1(T_SEQ, &b)]);
eqs!(c14_eq_tuple, |x, y, p| {
    let u8_ = r0(PRIMS[2]);
    let a = ty(x, d(&u8_));
    let b = ty(y, d(&u8_));
    let a1 = [&a, p];
    let b1 = [&b, p];
    let a2 = [p, &a];
    let b2 = [p, &b];
} -> [rn(T_TUP, &a1), rn(T_TUP, &b1); rn(T_TUP, &a2), rn(T_TUP, &b2); rn(T_TS, &a1), rn(T_TS, &b1); rn(T_TS, &a2), rn(T_TS, &b2)]);
eqs!(c14_eq_map, |x, y, p| {
    let u8_ = r0(PRIMS[2]);
    let a = ty(x, d(&u8_));
    let b = ty(y, d(&u8_));
} -> [r2(&a, p), r2(&b, p); r2(p, &a), r2(p, &b)]);
eqs!(c14_eq_struct, |x, y, p| {
    let u8_ = r0(PRIMS[2]);
    let a = ty(x, d(&u8_));
    let b = ty(y, d(&u8_));
    let f = &vl("f", p);
    let fx = &vl(x, p);
    let fy = &vl(y, p);
    let fa = &vl("g", &a);
    let fb = &vl("g", &b);
    let a1 = [fx, f];
    let b1 = [fy, f];
    let a2 = [f, fx];
    let b2 = [f, fy];
    let a3 = [f, fa];
    let b3 = [f, fb];
    let a4 = [fa, f];
    let b4 = [fb, f];
} -> [rn(T_STRUCT, &a1), rn(T_STRUCT, &b1); rn(T_STRUCT, &a2), rn(T_STRUCT, &b2);
      rn(T_STRUCT, &a3), rn(T_STRUCT, &b3); rn(T_STRUCT, &a4), rn(T_STRUCT, &b4)]);
eqs!(c14_eq_enum_name, |x, y, p| {
    let u = r0(V_UNIT);
    let v = &vr("f", dv(&u));
    let vx = &vr(x, dv(&u));
    let vy = &vr(y, dv(&u));
    let a1 = [vx, v];
    let b1 = [vy, v];
    let a2 = [v, vx];
    let b2 = [v, vy];
} -> [rn(T_ENUM, &a1), rn(T_ENUM, &b1); rn(T_ENUM, &a2), rn(T_ENUM, &b2)]);
eqs!(c14_eq_enum_body, |x, y, p| {
    let u8_ = r0(PRIMS[2]);
    let a = ty(x, d(&u8_));
    let b = ty(y, d(&u8_));
    let u = r0(V_UNIT);
    let v = &vr("f", dv(&u));
    let na = r1(V_NEW, &a);
    let nb = r1(V_NEW, &b);
    let na = &vr("g", dv(&na));
    let nb = &vr("g", dv(&nb));
    let a1 = [v, na];
    let b1 = [v, nb];
    let ta = [p, &a];
    let tb = [p, &b];
    let ta = rn(V_TUP, &ta);
    let tb = rn(V_TUP, &tb);
    let ta = &vr("g", dv(&ta));
    let tb = &vr("g", dv(&tb));
    let a2 = [ta, v];
    let b2 = [tb, v];
} -> [rn(T_ENUM, &a1), rn(T_ENUM, &b1); rn(T_ENUM, &a2), rn(T_ENUM, &b2)]);
eqs!(c14_eq_enum_struct, |x, y, p| {
    let u8_ = r0(PRIMS[2]);
    let a = ty(x, d(&u8_));
    let b = ty(y, d(&u8_));
    let f = &vl("f", p);
    let fx = &vl(x, p);
    let fy = &vl(y, p);
    let fa = &vl("g", &a);
    let fb = &vl("g", &b);
    let a1 = [f, fx];
    let b1 = [f, fy];
    let a2 = [fa, f];
    let b2 = [fb, f];
    let a1 = rn(V_STRUCT, &a1);
    let b1 = rn(V_STRUCT, &b1);
    let a2 = rn(V_STRUCT, &a2);
    let b2 = rn(V_STRUCT, &b2);
    let a1 = [&vr("v", dv(&a1))];
    let b1 = [&vr("v", dv(&b1))];
    let a2 = [&vr("v", dv(&a2))];
    let b2 = [&vr("v", dv(&b2))];
} -> [rn(T_ENUM, &a1), rn(T_ENUM, &b1); rn(T_ENUM, &a2), rn(T_ENUM, &b2)]);

/// same name, different kind, or a different number of parts: never merged
#[kani::proof]
#[kani::unwind(19)]
fn c14_eq_kinds() {
    let prim = r0(PRIMS[2]);
    let p = ty("P", d(&prim));
    let v0: [&T; 0] = [];
    let (v1, v2) = ([&p], [&p, &p]);
    let f = vl("P", &p);
    let (f1, f2) = ([&f], [&f, &f]);
    let (xu, xn, xt, xs) = (r0(V_UNIT), r1(V_NEW, &p), rn(V_TUP, &v1), rn(V_STRUCT, &f1));
    let (xu, xn, xt, xs) = (vr("P", dv(&xu)), vr("P", dv(&xn)), vr("P", dv(&xt)), vr("P", dv(&xs)));
    let (eu, en, et, es, e2) = ([&xu], [&xn], [&xt], [&xs], [&xu, &xu]);
    let (unit, opt, new, seq) = (r0(T_UNIT), r1(T_OPT, &p), r1(T_NEW, &p), r1(T_SEQ, &p));
    let (t0, t1, t2, s1, s2, m) = (rn(T_TUP, &v0), rn(T_TUP, &v1), rn(T_TUP, &v2), rn(T_TS, &v1), rn(T_TS, &v2), r2(&p, &p));
    let (st1, st2) = (rn(T_STRUCT, &f1), rn(T_STRUCT, &f2));
    let (eu, en, et, es, e2) = (rn(T_ENUM, &eu), rn(T_ENUM, &en), rn(T_ENUM, &et), rn(T_ENUM, &es), rn(T_ENUM, &e2));
    macro_rules! all {
        ($($a:ident)*) => {
            $( let $a = ty("S", d(&$a)); )*
            let (_, n) = merge_nty_lists::<17>(&[&[$(st(&$a)),*]]);
            assert!(n == 17, "different types with the same name are all kept");
        };
    }
    all!(unit opt new seq t0 t1 t2 s1 s2 m st1 st2 eu en et es e2);
    kani::cover!(true);
}

/// names of every length up to 3 over every byte: types merge exactly when the names are the same
#[kani::proof]
#[kani::unwind(6)]
fn c14_eq_names() {
    let (a, b): ([u8; 3], [u8; 3]) = (kani::any(), kani::any());
    let (la, lb): (usize, usize) = (kani::any(), kani::any());
    kani::assume(la <= 3 && lb <= 3);
    let mut same = la == lb;
    let mut i = 0;
    while i < 3 {
        if i < la && i < lb && a[i] != b[i] {
            same = false;
        }
        i += 1;
    }
    let unit = r0(T_UNIT);
    let s = |x: &[u8; 3], l: usize| unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(x.as_ptr(), l)) };
    let x = ty(st(s(&a, la)), d(&unit));
    let y = ty(st(s(&b, lb)), d(&unit));
    pair::<3>(&x, &y, same, 0);
    kani::cover!(same && la == 3);
    kani::cover!(!same && la == 3 && lb == 3);
    kani::cover!(!same && la == 2 && lb == 3);
}

/// four types with symbolic names, split over lists as 2+1+1: the union, each once, in any order
#[kani::proof]
#[kani::unwind(6)]
fn c14_merge() {
    let (n0, n1, n2, n3) = (letter(), letter(), letter(), letter());
    let (unit, prim) = (r0(T_UNIT), r0(PRIMS[5]));
    let (a, b, c, e) = (ty(nm(&n0), d(&unit)), ty(nm(&n1), d(&unit)), ty(nm(&n2), d(&unit)), ty(nm(&n3), d(&unit)));
    let p = ty(nm(&n0), d(&prim));
    let want = [(1, n0[0]), (1, n1[0]), (1, n2[0]), (1, n3[0])];
    let (arr, used) = merge_nty_lists::<5>(&[&[st(&a), st(&b)], &[st(&p), st(&c)], &[], &[st(&e)]]);
    verify(&arr, used, &want);
    kani::cover!(used == 1);
    kani::cover!(used == 4);
}

/// shrinking the work array keeps every entry in place; joining lists keeps order and counts
#[kani::proof]
#[kani::unwind(7)]
fn c14_cruncher() {
    let unit = r0(T_UNIT);
    let (a, b) = (ty("a", d(&unit)), ty("b", d(&unit)));
    let o = cruncher::<2>(&[Some(st(&a)), Some(st(&b)), None]);
    assert!(core::ptr::eq(o[0], &a) && core::ptr::eq(o[1], &b));
    let x: [u8; 6] = kani::any();
    let lists: [&[u8]; 4] = [&x[..2], &[], &x[2..3], &x[3..]];
    assert!(total_len(&lists) == 6);
    let y = combine_with_copy::<u8, 6>(&lists, 0);
    let mut i = 0;
    while i < 6 {
        assert!(y[i] == x[i]);
        i += 1;
    }
    kani::cover!(true);
}
