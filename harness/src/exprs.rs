//! Expressions over leaves: the lazy tree (`k!`), its expected content (`r!`) and families of tasks.
//! Included textually by the checks; `probe` is the including check's.
// operand kinds built from two leaves
#[allow(unused_macros)]
macro_rules! k {
    (L, $a:expr, $b:expr) => { { let _ = $b; $a } };
    (M, $a:expr, $b:expr) => { { let _ = $b; map($a, Tag(9)) } };
    (I, $a:expr, $b:expr) => { intersection($a, $b) };
    (U, $a:expr, $b:expr) => { union($a, $b) };
    (MI, $a:expr, $b:expr) => { multi_intersection([$a, $b].into_iter()) };
    (MU, $a:expr, $b:expr) => { multi_union([$a, $b].into_iter()) };
    (FMI, $a:expr, $b:expr) => { multi_intersection([$a, $b].into_iter()).map_fold(Start, Acc) };
    (FMU, $a:expr, $b:expr) => { multi_union([$a, $b].into_iter()).map_fold(Start, Acc) };
    (MAPI, $a:expr, $b:expr) => { map(intersection($a, $b), Tag(9)) };
    (MAPU, $a:expr, $b:expr) => { map(union($a, $b), Tag(9)) };
}
#[allow(unused_macros)]
macro_rules! r {
    (L, $a:expr, $b:expr) => { *$a };
    (M, $a:expr, $b:expr) => { r_map($a, 9) };
    (I, $a:expr, $b:expr) => { r_inter($a, $b) };
    (U, $a:expr, $b:expr) => { r_union($a, $b) };
    (MI, $a:expr, $b:expr) => { r_mi($a.n, &[*$a, *$b]) };
    (MU, $a:expr, $b:expr) => { r_mu($a.n, &[*$a, *$b]) };
    (FMI, $a:expr, $b:expr) => { r_fmi($a.n, &[*$a, *$b]) };
    (FMU, $a:expr, $b:expr) => { r_fmu($a.n, &[*$a, *$b]) };
    (MAPI, $a:expr, $b:expr) => { r_map(&r_inter($a, $b), 9) };
    (MAPU, $a:expr, $b:expr) => { r_map(&r_union($a, $b), 9) };
}
/// a leaf is a reference already
#[allow(unused_macros)]
macro_rules! by_ref {
    (L, $y:ident) => { $y };
    ($x:ident, $y:ident) => { &$y };
}
#[allow(unused_macros)]
macro_rules! each_u {
    ($l:ty, $n:expr, $pick:expr, $name:expr, $trees:expr, $v:expr, $f:expr) => {
        for (i, u) in universes(<$l as Leaf>::width(), <$l as Leaf>::depth(), $n).into_iter().enumerate() {
            let pick: usize = $pick;
            if pick >> i & 1 == 1 {
                over::<$l>(&$name, u, $trees, $f, $v);
            }
        }
    };
}
/// T(X(a,b), Y(c,d)): left operand by value, right one by reference
#[allow(unused_macros)]
macro_rules! two {
    ($v:expr, $l:ty, $n:expr, $p:expr, $t:ident; $($x:ident $y:ident),* $(,)?) => {$(
        each_u!($l, $n, $p, concat!(stringify!($t), "(", stringify!($x), ",", stringify!($y), ")"), 4, $v, |t, r, u| {
            let w = r!($t, &r!($x, &r[0], &r[1]), &r!($y, &r[2], &r[3]));
            let y = k!($y, t[2], t[3]);
            probe(&k!($t, k!($x, t[0], t[1]), by_ref!($y, y)), &w, u)?;
            Ok(w)
        });
    )*};
}
#[allow(unused_macros)]
macro_rules! row {
    ($v:expr, $l:ty, $n:expr, $p:expr, $($t:ident)*; $x:ident) => {
        row!(@ $v, $l, $n, $p, $($t)*; $x L, $x M, $x I, $x U, $x MI, $x MU, $x FMI, $x FMU)
    };
    (@ $v:expr, $l:ty, $n:expr, $p:expr, $t:ident $t2:ident; $($z:tt)*) => {
        two!($v, $l, $n, $p, $t; $($z)*);
        two!($v, $l, $n, $p, $t2; $($z)*);
    };
}
/// T[X(a,b), X(b,c), X(c,d)]
#[allow(unused_macros)]
macro_rules! multi {
    ($v:expr, $l:ty, $n:expr, $p:expr; $($t:ident $x:ident),* $(,)?) => {$(
        each_u!($l, $n, $p, concat!(stringify!($t), "[", stringify!($x), ",..]"), 4, $v, |t, r, u| {
            let a = [k!($x, t[0], t[1]), k!($x, t[1], t[2]), k!($x, t[2], t[3])];
            let b = [r!($x, &r[0], &r[1]), r!($x, &r[1], &r[2]), r!($x, &r[2], &r[3])];
            multi!(@ $t, a, b, u)
        });
    )*};
    (@ MI, $a:ident, $b:ident, $u:ident) => {{ let w = r_mi($u.keys.len(), &$b); probe(&multi_intersection($a.iter()), &w, $u)?; Ok(w) }};
    (@ MU, $a:ident, $b:ident, $u:ident) => {{ let w = r_mu($u.keys.len(), &$b); probe(&multi_union($a.iter()), &w, $u)?; Ok(w) }};
    (@ FMI, $a:ident, $b:ident, $u:ident) => {{ let w = r_fmi($u.keys.len(), &$b); probe(&multi_intersection($a.iter()).map_fold(Start, Acc), &w, $u)?; Ok(w) }};
    (@ FMU, $a:ident, $b:ident, $u:ident) => {{ let w = r_fmu($u.keys.len(), &$b); probe(&multi_union($a.iter()).map_fold(Start, Acc), &w, $u)?; Ok(w) }};
}
/// map(T(X(a,b), Y(c,d)))
#[allow(unused_macros)]
macro_rules! mapped {
    ($v:expr, $l:ty, $n:expr, $p:expr; $($t:ident $x:ident $y:ident),* $(,)?) => {$(
        each_u!($l, $n, $p, concat!("map ", stringify!($t), "(", stringify!($x), ",", stringify!($y), ")"), 4, $v, |t, r, u| {
            let w = r_map(&r!($t, &r!($x, &r[0], &r[1]), &r!($y, &r[2], &r[3])), 5);
            let y = k!($y, t[2], t[3]);
            probe(&map(k!($t, k!($x, t[0], t[1]), by_ref!($y, y)), Tag(5)), &w, u)?;
            Ok(w)
        });
    )*};
}
/// F(G(H(a,b),c),d) and F(d,G(c,H(a,b)))
#[allow(unused_macros)]
macro_rules! deep {
    ($v:expr, $l:ty, $n:expr, $p:expr; $($f:ident $g:ident $h:ident),* $(,)?) => {$(
        each_u!($l, $n, $p, concat!(stringify!($f), "(", stringify!($g), "(", stringify!($h), ",c),d)"), 4, $v, |t, r, u| {
            let h = r!($h, &r[0], &r[1]);
            let w = r!($f, &r!($g, &h, &r[2]), &r[3]);
            probe(&k!($f, k!($g, k!($h, t[0], t[1]), t[2]), t[3]), &w, u)?;
            Ok(w)
        });
        each_u!($l, $n, $p, concat!(stringify!($f), "(d,", stringify!($g), "(c,", stringify!($h), "))"), 4, $v, |t, r, u| {
            let h = r!($h, &r[0], &r[1]);
            let w = r!($f, &r[3], &r!($g, &r[2], &h));
            probe(&k!($f, t[3], k!($g, t[2], k!($h, t[0], t[1]))), &w, u)?;
            Ok(w)
        });
    )*};
}
/// T[G(H(a,b),c), G(H(b,c),d)]
#[allow(unused_macros)]
macro_rules! multideep {
    ($v:expr, $l:ty, $n:expr, $p:expr; $($t:ident $g:ident $h:ident),* $(,)?) => {$(
        each_u!($l, $n, $p, concat!(stringify!($t), "[", stringify!($g), "(", stringify!($h), ",c),..]"), 4, $v, |t, r, u| {
            let a = [k!($g, k!($h, t[0], t[1]), t[2]), k!($g, k!($h, t[1], t[2]), t[3])];
            let b = [r!($g, &r!($h, &r[0], &r[1]), &r[2]), r!($g, &r!($h, &r[1], &r[2]), &r[3])];
            multi!(@ $t, a, b, u)
        });
    )*};
}
#[allow(unused_macros)]
macro_rules! nested_multi {
    // inner operand lists of different length
    ($v:expr, $l:ty, $n:expr, $p:expr; $($t:ident $s:ident $rs:ident),* $(,)?) => {$(
        each_u!($l, $n, $p, concat!(stringify!($t), "[", stringify!($s), " of 2,1,2]"), 4, $v, |t, r, u| {
            let k = u.keys.len();
            let l: [&[&$l]; 3] = [&[t[0], t[1]], &[t[2]], &[t[3], t[0]]];
            let a = [$s(l[0].iter().copied()), $s(l[1].iter().copied()), $s(l[2].iter().copied())];
            let b = [$rs(k, &[r[0], r[1]]), $rs(k, &[r[2]]), $rs(k, &[r[3], r[0]])];
            multi!(@ $t, a, b, u)
        });
        each_u!($l, $n, $p, concat!(stringify!($t), "[", stringify!($s), " of 0,2,1]"), 3, $v, |t, r, u| {
            let k = u.keys.len();
            let l: [&[&$l]; 3] = [&[], &[t[0], t[1]], &[t[2]]];
            let a = [$s(l[0].iter().copied()), $s(l[1].iter().copied()), $s(l[2].iter().copied())];
            let b = [$rs(k, &[]), $rs(k, &[r[0], r[1]]), $rs(k, &[r[2]])];
            multi!(@ $t, a, b, u)
        });
    )*};
}
#[allow(unused_macros)]
macro_rules! small {
    ($v:expr, $n:expr, $p:expr; $($l:ty),*) => {$(
        two!($v, $l, $n, $p, I; I U, U I, U MI, MI MU, MU U, MU MI, U FMI, MU MU);
        two!($v, $l, $n, $p, U; I U, U MI, MI MU, MU I, MU MI, FMU I, MI MI, I I);
        multi!($v, $l, $n, $p; MI I, MI U, MI MU, MU I, MU MI, MU MU, FMI U, FMU I, MI FMU, MU FMI);
        nested_multi!($v, $l, $n, $p; MI multi_union r_mu, MU multi_intersection r_mi);
    )*};
}

