//! All two-level compositions of the operators, samples of deeper ones, over all contents.
use hibit_tree::{intersection, map, multi_intersection, multi_union, union, MultiHibitTree};
use hv::ops::*;
use hv::run::*;

#[macro_use]
#[path = "../exprs.rs"]
mod exprs;

#[cfg(not(feature = "deep"))]
fn exprs(v_: &mut Vec<Box<dyn Task>>) {
    let (n, p) = (3, 0b1111);
    two!(v_, D3, n, p, I; I I, I U, I MI, I MU, U L, U I, U U, U MI, U MU, U FMU, MI I, MI U, MI MI, MI MU,
                          MU L, MU I, MU U, MU MI, MU MU, MU FMI, FMI U, FMU I, FMU FMU, M U, L MU, L U, MU M);
    two!(v_, D3, n, p, U; I L, I I, I U, I MI, I MU, I FMU, U I, U U, U MI, U MU, MI L, MI I, MI U, MI MI, MI MU, MI FMU,
                          MU I, MU U, MU MI, MU MU, FMI I, FMI MU, FMU U, L I, L MI, M I, MI M);
    multi!(v_, D3, n, p; MI I, MI U, MI MI, MI MU, MI FMU, MU M, MU I, MU U, MU MI, MU MU, MU FMI,
                         FMI U, FMI FMI, FMU I, FMU U, FMU MAPI);
    mapped!(v_, D3, n, p; I U FMI, I FMU MAPI, U I U, U FMU MAPI);
    deep!(v_, D3, n, p; I U I, I U MI, I U MU, I I MU, U I U, U I MI, U I MU, U U MI, U I FMU, I U FMI);
    multideep!(v_, D3, n, p; MI I MU, MI U MI, MU I MU, MU U MI, MU I I, FMI U I, FMU I U);
    nested_multi!(v_, D3, n, p; MI multi_union r_mu, MU multi_intersection r_mi, MI multi_intersection r_mi, MU multi_union r_mu);
}
#[cfg(feature = "deep")]
fn exprs(v_: &mut Vec<Box<dyn Task>>) {
    let (n, p) = (3, 0b1111);
    row!(v_, D3, n, p, I U; L);
    row!(v_, D3, n, p, I U; M);
    row!(v_, D3, n, p, I U; I);
    row!(v_, D3, n, p, I U; U);
    row!(v_, D3, n, p, I U; MI);
    row!(v_, D3, n, p, I U; MU);
    row!(v_, D3, n, p, I U; FMI);
    row!(v_, D3, n, p, I U; FMU);
    multi!(v_, D3, n, p; MI M, MI I, MI U, MI MI, MI MU, MI FMI, MI FMU,
                         MU M, MU I, MU U, MU MI, MU MU, MU FMI, MU FMU,
                         FMI I, FMI U, FMI FMI, FMI MAPU, FMU I, FMU U, FMU FMU, FMU MAPI);
    mapped!(v_, D3, n, p; I L I, I I U, I U FMI, I FMU MAPI, U L I, U I U, U U FMI, U FMU MAPI);
    deep!(v_, D3, n, p; I I I, I I U, I I MI, I I MU, I I FMI, I I FMU,
                        I U I, I U U, I U MI, I U MU, I U FMI, I U FMU,
                        U I I, U I U, U I MI, U I MU, U I FMI, U I FMU,
                        U U I, U U U, U U MI, U U MU, U U FMI, U U FMU);
    multideep!(v_, D3, n, p; MI I I, MI I MU, MI U MI, MI U MU, MU I I, MU I MU, MU U MI, MU U I,
                             FMI U I, FMI I U, FMU I U, FMU U MAPI);
    nested_multi!(v_, D3, n, p; MI multi_union r_mu, MU multi_intersection r_mi, MI multi_intersection r_mi, MU multi_union r_mu);
    small!(v_, n, p; D2, S2, D4, S3, M2, L3);
    // four keys: 65536 assignments each
    small!(v_, 4, 0b1111; D3);
}

/// Small trees, with every possible content.
macro_rules! every {
    ($v:expr, $n:expr; $($l:ty),*) => {$(
        macro_rules! ex {
            ($name:literal, |$t:ident, $r:ident, $k:ident| $w:expr, $e:expr) => {
                over::<$l>(concat!("every content of ", $name), whole::<$l>(), $n, |$t, $r, u| {
                    let $k = u.keys.len();
                    let w = $w;
                    probe(&$e, &w, u)?;
                    Ok(w)
                }, $v);
            };
        }
        ex!("I(U,U)", |t, r, _k| r_inter(&r_union(&r[0], &r[1]), &r_union(&r[2], &r[3])), intersection(union(t[0], t[1]), union(t[2], t[3])));
        ex!("U(I,I)", |t, r, _k| r_union(&r_inter(&r[0], &r[1]), &r_inter(&r[2], &r[3])), union(intersection(t[0], t[1]), intersection(t[2], t[3])));
        ex!("U(I,MU)", |t, r, k| r_union(&r_inter(&r[0], &r[1]), &r_mu(k, &r[1..4])), union(intersection(t[0], t[1]), multi_union(t[1..4].iter().copied())));
        ex!("I(MI,U)", |t, r, k| r_inter(&r_mi(k, &r[..3]), &r_union(&r[2], &r[3])), intersection(multi_intersection(t[..3].iter().copied()), union(t[2], t[3])));
        ex!("U(U(I,c),d)", |t, r, _k| r_union(&r_union(&r_inter(&r[0], &r[1]), &r[2]), &r[3]), union(union(intersection(t[0], t[1]), t[2]), t[3]));
        ex!("U(d,I(c,U))", |t, r, _k| r_union(&r[3], &r_inter(&r[2], &r_union(&r[0], &r[1]))), union(t[3], intersection(t[2], union(t[0], t[1]))));
        ex!("MU[I,I,I]", |t, r, k| r_mu(k, &[r_inter(&r[0], &r[1]), r_inter(&r[1], &r[2]), r_inter(&r[2], &r[3])]),
            multi_union([intersection(t[0], t[1]), intersection(t[1], t[2]), intersection(t[2], t[3])].iter()));
        ex!("MI[U,U,U]", |t, r, k| r_mi(k, &[r_union(&r[0], &r[1]), r_union(&r[1], &r[2]), r_union(&r[2], &r[3])]),
            multi_intersection([union(t[0], t[1]), union(t[1], t[2]), union(t[2], t[3])].iter()));
        ex!("MU[MI,MI]", |t, r, k| r_mu(k, &[r_mi(k, &r[..2]), r_mi(k, &r[1..4])]),
            multi_union([multi_intersection(t[..2].iter().copied()), multi_intersection(t[1..4].iter().copied())].iter()));
        ex!("FMU[FMI,FMI]", |t, r, k| r_fmu(k, &[r_fmi(k, &r[..2]), r_fmi(k, &r[1..4])]),
            multi_union([multi_intersection(t[..2].iter().copied()).map_fold(Start, Acc), multi_intersection(t[1..4].iter().copied()).map_fold(Start, Acc)].iter()).map_fold(Start, Acc));
    )*};
}

fn tasks(_: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    exprs(&mut v);
    small!(&mut v, 3, 0b1111; D1, L2);
    small!(&mut v, 3, 0b10001; D6, D9);
    every!(&mut v, 4; X22, G22);
    use hv::big::{self, v_fmu, v_inter, v_mi, v_union};
    macro_rules! large {
        ($name:literal, $($l:ty),*; $f:expr) => {$(hv::big::over::<$l>($name, $f, &mut v);)*};
    }
    large!("nested", D3, D4, S3; |t, m, cap| {
        let (i, u) = (v_inter(m[0], m[1]), v_union(m[0], m[1]));
        big::probe(&union(intersection(t[0], t[1]), t[0]), &v_union(&i, m[0]), cap)?;
        big::probe(&intersection(union(t[0], t[1]), t[1]), &v_inter(&u, m[1]), cap)?;
        let x = [intersection(t[0], t[1]), intersection(t[1], t[0])];
        let j = v_inter(m[1], m[0]);
        big::probe(&multi_union(x.iter()).map_fold(Start, Acc), &v_fmu(&[&i, &j]), cap)?;
        big::probe(&multi_intersection([union(t[0], t[1]), union(t[1], t[1])].iter()), &v_mi(&[&u, &v_union(m[1], m[1])]), cap)
    });
    v
}

fn main() {
    hv::run::main(Check {
        id: "P10",
        level: "exploration",
        rule: "a case is one expression of operators with one assignment of key sets to its leaves, read through every access path; non-trivial when the result is not empty, distinct by assignment within an expression",
        assumptions: &["lazy operands are pure"],
        tasks,
    })
}
