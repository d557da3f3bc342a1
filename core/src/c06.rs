//! C06: a sparse matrix is the matrix its history of operations defines.
use crate::fem::on_thread;
use crate::la::{self, Mat};
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::{
    BiEnvelope, CompressedRow, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, Norm,
    UpperTriangular,
};
use simkit::{bad, hit, sched, shared, trivial, Property, Tape, Verdict};
use std::collections::BTreeSet;

/// What the history defines: the numbers, and the positions something was ever written to.
#[derive(Clone, Debug)]
struct Ref {
    m: Mat,
    touched: BTreeSet<(usize, usize)>,
}

impl Ref {
    fn zeros(r: usize, c: usize) -> Ref {
        Ref { m: la::zeros(r, c), touched: BTreeSet::new() }
    }
    fn rows(&self) -> usize {
        self.m.len()
    }
    fn cols(&self) -> usize {
        self.m[0].len()
    }
    fn set(&mut self, p: (usize, usize), v: f64) {
        self.m[p.0][p.1] = v;
        self.touched.insert(p);
    }
    fn touch_all(&mut self) {
        for i in 0..self.rows() {
            for j in 0..self.cols() {
                self.touched.insert((i, j));
            }
        }
    }
}

type Check = Result<(), (String, String)>;

fn no<T>(class: &str, msg: String) -> Result<T, (String, String)> {
    Err((class.to_string(), msg))
}

/// Every way of reading `a` gives `want`.
fn reads<T: MatrixLike>(a: &T, want: &Mat, what: &str) -> Check {
    let (r, c) = (want.len(), want[0].len());
    if a.shape() != (r, c) {
        return no("shape", format!("{}: shape {:?}, expected {:?}", what, a.shape(), (r, c)));
    }
    for i in 0..r {
        for j in 0..c {
            let x = a.get((i, j)).copied();
            if x != Some(want[i][j]) || a[(i, j)] != want[i][j] {
                return no("value", format!("{}: ({}, {}) reads {:?} / {}, expected {}", what, i, j, x, a[(i, j)], want[i][j]));
            }
        }
    }
    for p in [(r, 0), (0, c), (r, c), (r + 3, c + 5)] {
        if let Some(x) = a.get(p) {
            return no("bounds", format!("{}: position {:?} outside {:?} reads {}", what, p, (r, c), x));
        }
    }
    let rows: Vec<Vec<f64>> = (0..r).map(|i| a.row(i).copied().collect()).collect();
    if &rows != want {
        return no("rows", format!("{}: row iteration gives {:?}, expected {:?}", what, rows, want));
    }
    let cols: Vec<Vec<f64>> = (0..c).map(|j| a.col(j).copied().collect()).collect();
    if cols != la::transpose(want) {
        return no("columns", format!("{}: column iteration gives {:?}", what, cols));
    }
    let flat: Vec<f64> = a.flat().copied().collect();
    if flat != want.iter().flatten().copied().collect::<Vec<f64>>() {
        return no("flat", format!("{}: flat iteration gives {:?}", what, flat));
    }
    let diag: Vec<f64> = a.diag().copied().collect();
    if diag != (0..r.min(c)).map(|i| want[i][i]).collect::<Vec<f64>>() {
        return no("diagonal", format!("{}: diagonal iteration gives {:?}", what, diag));
    }
    let idx: Vec<(usize, usize)> = a.indices().collect();
    if idx != (0..r * c).map(|k| (k / c, k % c)).collect::<Vec<_>>() {
        return no("indices", format!("{}: index iteration gives {:?}", what, idx));
    }
    let mut seen = la::zeros(r, c);
    let mut once = BTreeSet::new();
    for ((i, j), x) in a.nzs() {
        if i >= r || j >= c || !once.insert((i, j)) {
            return no("nonzeros", format!("{}: nonzero iteration repeats or leaves the matrix at {:?}", what, (i, j)));
        }
        seen[i][j] = x;
    }
    if &seen != want {
        return no("nonzeros", format!("{}: nonzero iteration gives {:?}, expected {:?}", what, seen, want));
    }
    let f = want.iter().flatten().map(|x| x * x).sum::<f64>().sqrt();
    if !((a.frobenius() - f).abs() <= 1e-12 * f) {
        return no("norm", format!("{}: norm {} expected {}", what, a.frobenius(), f));
    }
    Ok(())
}

/// Structure of the dictionary lies between what its nonzeros need and what was ever written.
fn structure(d: &Dictionary, want: &Ref) -> Check {
    let (r, c) = (want.rows(), want.cols());
    let some: Vec<(usize, usize)> = want.touched.iter().copied().collect();
    let nz: Vec<(usize, usize)> = some.iter().copied().filter(|p| want.m[p.0][p.1] != 0.0).collect();
    let env = |ps: &[(usize, usize)]| {
        let mut e = vec![0; r];
        for &(i, j) in ps {
            if j <= i {
                e[i] = e[i].max(i - j + 1);
            }
        }
        e
    };
    let (lo, hi, got) = (env(&nz), env(&some), d.envelope());
    if got.len() != r || (0..r).any(|i| got[i] < lo[i] || got[i] > hi[i]) {
        return no("envelope", format!("envelope {:?}; nonzeros need {:?}, written positions span {:?}", got, lo, hi));
    }
    let got = d.row_bounds();
    if got.len() != r {
        return no("row-bounds", format!("row bounds {:?}", got));
    }
    for i in 0..r {
        let span = |ps: &[(usize, usize)]| {
            let cs: Vec<usize> = ps.iter().filter(|p| p.0 == i).map(|p| p.1).collect();
            cs.iter().min().map(|&a| (a, cs.iter().max().unwrap() + 1))
        };
        let (a, b) = got[i];
        let ok = match (span(&nz), span(&some)) {
            (Some((x, y)), Some((u, v))) => u <= a && a <= x && y <= b && b <= v,
            (None, Some((u, v))) => a >= b || (u <= a && b <= v),
            _ => a >= b,
        };
        if !ok {
            return no("row-bounds", format!("row {} bounds {:?}; nonzeros span {:?}, written positions {:?}", i, (a, b), span(&nz), span(&some)));
        }
    }
    let e: Vec<(usize, usize)> = d.edges().collect();
    let set: BTreeSet<_> = e.iter().copied().collect();
    if set.len() != e.len() || !nz.iter().all(|p| set.contains(p)) || !set.iter().all(|p| want.touched.contains(p)) {
        return no("edges", format!("edges {:?}; nonzeros {:?}", set, nz));
    }
    let half: BTreeSet<_> = d.edges_lower().collect();
    let want_half: BTreeSet<_> = set.iter().copied().filter(|p| p.0 <= p.1).collect();
    let flipped: BTreeSet<_> = set.iter().copied().filter(|p| p.0 >= p.1).collect();
    if half != want_half && half != flipped {
        return no("edges", format!("one-sided edges {:?} of {:?}", half, set));
    }
    let _ = c;
    Ok(())
}

fn substitution(t: &mut Sub, l: &LowerRowEnvelope, want: &Mat) -> Check {
    let n = want.len();
    // forward
    let b = &t.b[..n];
    let mut first: Option<Vec<f64>> = None;
    for fill in [0.0, 3.5, -1.0e6] {
        let mut x = vec![fill; n];
        l.solve(b, &mut x);
        let near = |x: &[f64]| {
            (0..n).all(|i| {
                let terms: Vec<f64> = (0..=i).map(|j| want[i][j] * x[j]).collect();
                let s: f64 = terms.iter().sum();
                let big = terms.iter().map(|v| v.abs()).sum::<f64>() + b[i].abs();
                (s - b[i]).abs() <= 1e-12 * big
            })
        };
        if !near(&x) {
            return no("solve", format!("L x = b with b {:?} and an output buffer holding {}: x = {:?}; L = {:?}", b, fill, x, want));
        }
        match &first {
            None => first = Some(x),
            Some(f) if f.iter().zip(&x).all(|(p, q)| p == q) => {}
            Some(f) => return no("solve-buffer", format!("L x = b gives {:?} into zeros but {:?} into a buffer of {}", f, x, fill)),
        }
    }
    // a diagonal block
    let (lo, hi) = (t.lo.min(n), t.hi.min(n));
    if lo < hi {
        let mut first: Option<Vec<f64>> = None;
        for fill in [0.0, -2.25, 7.0e5] {
            let mut x = vec![fill; hi - lo];
            l.solve_submatrix(&t.b[lo..hi], &mut x, (lo, hi));
            for i in lo..hi {
                let terms: Vec<f64> = (lo..=i).map(|j| want[i][j] * x[j - lo]).collect();
                let s: f64 = terms.iter().sum();
                let big = terms.iter().map(|v| v.abs()).sum::<f64>() + t.b[i].abs();
                if !((s - t.b[i]).abs() <= 1e-12 * big) {
                    return no("solve-block", format!("block {}..{} of L = {:?}, b {:?}, output buffer holding {}: x = {:?}", lo, hi, want, &t.b[lo..hi], fill, x));
                }
            }
            match &first {
                None => first = Some(x),
                Some(f) if f.iter().zip(&x).all(|(p, q)| p == q) => {}
                Some(f) => return no("solve-buffer", format!("block {}..{} gives {:?} into zeros but {:?} into a buffer of {}", lo, hi, f, x, fill)),
            }
        }
    }
    // transposed
    for fill in [0.0, 9.0] {
        let mut x = vec![fill; n];
        l.solve_transposed(b, &mut x);
        for i in 0..n {
            let terms: Vec<f64> = (i..n).map(|j| want[j][i] * x[j]).collect();
            let s: f64 = terms.iter().sum();
            let big = terms.iter().map(|v| v.abs()).sum::<f64>() + b[i].abs();
            if !((s - b[i]).abs() <= 1e-11 * big) {
                return no("solve-transposed", format!("L' x = b with b {:?}, L = {:?}: x = {:?}", b, want, x));
            }
        }
    }
    Ok(())
}

struct Sub {
    b: Vec<f64>,
    lo: usize,
    hi: usize,
}

fn lower(m: &Mat) -> Mat {
    let mut l = m.clone();
    for i in 0..l.len() {
        for j in i + 1..l.len() {
            l[i][j] = 0.0;
        }
    }
    l
}

fn dictionary(r: usize, c: usize, t: &mut Tape, fill: usize) -> (Dictionary, Ref, Vec<(usize, usize, f64)>) {
    let mut want = Ref::zeros(r, c);
    let mut d = Dictionary::zeros((r, c));
    let mut list = Vec::new();
    for _ in 0..fill {
        let p = (t.usize(r), t.usize(c));
        let v = t.lattice(12, 0.25);
        d[p] = v;
        want.set(p, v);
        list.push((p.0, p.1, v));
    }
    (d, want, list)
}

fn some_permutation(t: &mut Tape, n: usize) -> (Permutation, Vec<(usize, usize)>) {
    let k = t.range(0, 2 * n);
    let e: Vec<(usize, usize)> = (0..k).map(|_| (t.usize(n), t.usize(n))).collect();
    let mut p = Graph::from_edges(n, e.iter().copied()).reverse_cuthill_mckee();
    if t.chance(1, 2) {
        p = p.invert();
    }
    (p, e)
}

/// The scheme the matrix is converted to, with everything that can then be done with it.
fn conversion(t: &mut Tape, d: &Dictionary, want: &Ref, say: &mut Vec<String>) -> Check {
    let (r, c) = (want.rows(), want.cols());
    let square = r == c;
    let b: Vec<f64> = (0..r.max(c).max(8)).map(|_| t.lattice(8, 0.5)).collect();
    let (lo, hi) = (t.usize(8), t.usize(8));
    let mut sub = Sub { b: b.clone(), lo: lo.min(hi), hi: lo.max(hi) + 1 };
    match t.usize(5) {
        0 => {
            say.push("read as a compressed-row matrix".into());
            hit(1);
            let mut a: CompressedRow = d.clone().into();
            reads(&a, &want.m, "compressed row")?;
            for i in 0..r {
                let mut got = vec![0.0; c];
                let mut once = BTreeSet::new();
                for (j, x) in a.row_nzs(i) {
                    if j >= c || !once.insert(j) {
                        return no("row-nonzeros", format!("compressed row {}: column {} repeated or outside", i, j));
                    }
                    got[j] = x;
                }
                if got != want.m[i] {
                    return no("row-nonzeros", format!("compressed row {} lists {:?}, expected {:?}", i, got, want.m[i]));
                }
            }
            let stored = a.nzs().count();
            if a.non_zero_count() < stored {
                return no("count", format!("compressed row stores {} values but counts {}", stored, a.non_zero_count()));
            }
            // the same from a flat list and from shuffled labelled values
            let f = CompressedRow::from_flat((r, c), want.m.iter().flatten().copied());
            reads(&f, &want.m, "compressed row from a flat list")?;
            let mut labelled: Vec<((usize, usize), f64)> = want.touched.iter().map(|&p| (p, want.m[p.0][p.1])).collect();
            let p = t.permutation(labelled.len());
            labelled = p.iter().map(|&i| labelled[i]).collect();
            reads(&CompressedRow::from_labeled_vals((r, c), labelled), &want.m, "compressed row from labelled values")?;
            let mut one = la::zeros(r, r);
            (0..r).for_each(|i| one[i][i] = 1.0);
            reads(&CompressedRow::eye(r), &one, "identity compressed row")?;
            let z = CompressedRow::zeros((r, c));
            reads(&z, &la::zeros(r, c), "zero compressed row")?;
            if (0..r).any(|i| z.row_nzs(i).next().is_some()) {
                return no("row-nonzeros", "a zero compressed row lists values".into());
            }
            // edit a stored value
            if let Some(&p) = want.touched.iter().filter(|p| want.m[p.0][p.1] != 0.0).next() {
                a[p] += 1.5;
                let mut w = want.m.clone();
                w[p.0][p.1] += 1.5;
                reads(&a, &w, "edited compressed row")?;
                a[p] = want.m[p.0][p.1];
            }
            let (o, ow, list) = dictionary(c, t.range(1, 5), t, 6);
            say.push(format!("times {:?}", list));
            let prod = la::mul(&want.m, &ow.m);
            reads(&a.mul::<Dictionary, LinearMatrix>(&o), &prod, "compressed row product")?;
            reads(&a.mul::<LinearMatrix, Dictionary>(&o.clone().into()), &prod, "compressed row product")?;
            reads(&a.mul::<CompressedRow, CompressedRow>(&o.into()), &prod, "compressed row product")?;
        }
        1 => {
            say.push("read as a dense matrix".into());
            hit(2);
            let mut a: LinearMatrix = d.clone().into();
            let mut w = want.m.clone();
            reads(&a, &w, "dense")?;
            for _ in 0..t.range(1, 6) {
                let (r, c) = (w.len(), w[0].len());
                match t.usize(9) {
                    0 => {
                        a.transpose();
                        w = la::transpose(&w);
                        say.push("transpose".into());
                    }
                    1 => {
                        let (i, j) = (t.usize(r), t.usize(r));
                        a.swap_rows(i, j);
                        w.swap(i, j);
                        say.push(format!("swap rows {} {}", i, j));
                    }
                    2 => {
                        let (i, j) = (t.usize(c), t.usize(c));
                        a.swap_cols(i, j);
                        w.iter_mut().for_each(|x| x.swap(i, j));
                        say.push(format!("swap columns {} {}", i, j));
                    }
                    3 => {
                        let s = t.lattice(4, 0.5);
                        a *= s;
                        w.iter_mut().flatten().for_each(|x| *x *= s);
                        say.push(format!("times {}", s));
                    }
                    4 => {
                        let s = t.lattice(4, 0.5);
                        a += s;
                        w.iter_mut().flatten().for_each(|x| *x += s);
                        say.push(format!("plus {}", s));
                    }
                    5 | 6 => {
                        // a matrix of the same shape, in either element order
                        let (o, ow, list) = dictionary(r, c, t, 6);
                        let mut o: LinearMatrix = o.into();
                        let flip = t.chance(1, 2);
                        if flip {
                            let mut q = LinearMatrix::from_flat((c, r), la::transpose(&ow.m).into_iter().flatten().collect::<Vec<_>>());
                            q.transpose();
                            if q != o || o != q {
                                return no("equality", format!("row-major and column-major forms of {:?} differ", ow.m));
                            }
                            if a != q && w == ow.m || a == q && w != ow.m {
                                return no("equality", format!("{:?} == {:?} is wrong", w, ow.m));
                            }
                            o = q;
                        }
                        say.push(format!("sum or difference with {:?}, other order {}", list, flip));
                        let add: Mat = (0..r).map(|i| (0..c).map(|j| w[i][j] + ow.m[i][j]).collect()).collect();
                        let diff: Mat = (0..r).map(|i| (0..c).map(|j| w[i][j] - ow.m[i][j]).collect()).collect();
                        reads(&(&a + &o), &add, "dense sum")?;
                        reads(&(&a - &o), &diff, "dense difference")?;
                        match t.usize(3) {
                            0 => {
                                a += o;
                                w = add;
                            }
                            1 => {
                                a.add_ass(&o);
                                w = add;
                            }
                            _ => {
                                a.sub_ass(&o);
                                w = diff;
                            }
                        }
                    }
                    7 => {
                        let i = t.usize(r);
                        let v: Vec<f64> = (0..c).map(|_| t.lattice(4, 0.25)).collect();
                        a.set_row(i, v.clone());
                        say.push(format!("row {} := {:?}", i, v));
                        w[i] = v;
                    }
                    _ => {
                        let (o, ow, list) = dictionary(c, t.range(1, 4), t, 5);
                        let o: LinearMatrix = o.into();
                        say.push(format!("product with {:?}", list));
                        a = a.mul(&o);
                        w = la::mul(&w, &ow.m);
                    }
                }
                reads(&a, &w, "dense")?;
            }
        }
        2 if square && (0..r).all(|i| want.m[i][i] != 0.0) => {
            say.push(format!("read as a lower envelope, b {:?}, block {}..{}", b, sub.lo, sub.hi));
            hit(3);
            let mut l: LowerRowEnvelope = d.clone().into();
            let mut w = lower(&want.m);
            reads(&l, &w, "lower envelope")?;
            let mut total = 0;
            for i in 0..r {
                let (s, x) = l.row_stored(i);
                let (s2, x2) = l.row_stored_nodiag(i);
                total += x.len();
                if s + x.len() != i + 1 || w[i][..s].iter().any(|v| *v != 0.0) || x != &w[i][s..=i] || s2 != s || x2 != &x[..x.len() - 1] {
                    return no("row-stored", format!("stored row {}: from {} {:?}, without diagonal from {} {:?}; row is {:?}", i, s, x, s2, x2, w[i]));
                }
                if l.envelope()[i] != x.len() {
                    return no("row-stored", format!("envelope {:?}, row {} stores {}", l.envelope(), i, x.len()));
                }
            }
            if l.non_zero_count() != total {
                return no("count", format!("lower envelope counts {} stored values, its rows hold {}", l.non_zero_count(), total));
            }
            reads(&LowerRowEnvelope::from_flat(r, w.iter().flatten().copied()), &w, "lower envelope from a flat list")?;
            substitution(&mut sub, &l, &w)?;
            // edit in place, by row and by adding a matrix inside the envelope
            if t.chance(1, 2) {
                let i = t.usize(r);
                let (s, x) = l.row_stored_mut(i);
                for (k, v) in x.iter_mut().enumerate() {
                    *v += 0.5;
                    w[i][s + k] += 0.5;
                }
                say.push(format!("stored row {} plus 0.5", i));
                reads(&l, &w, "edited lower envelope")?;
            }
            if t.chance(1, 2) {
                let s = t.lattice(4, 0.5);
                let mut o = Dictionary::zeros(r);
                let mut ow = la::zeros(r, r);
                for &(i, j) in want.touched.iter() {
                    if want.m[i][j] != 0.0 && t.chance(2, 3) {
                        let v = t.lattice(6, 0.25);
                        o[(i, j)] = v;
                        ow[i][j] = v;
                    }
                }
                say.push(format!("plus {} times {:?}", s, ow));
                hit(5);
                let o: BiEnvelope = o.into();
                l.add_scaled_bienv(&o, s);
                for i in 0..r {
                    for j in 0..=i {
                        w[i][j] += s * ow[i][j];
                    }
                }
                reads(&l, &w, "lower envelope plus a scaled matrix")?;
                if (0..r).all(|i| w[i][i] != 0.0) {
                    substitution(&mut sub, &l, &w)?;
                }
            }
            let v: LinearMatrix = l.mul(&LinearMatrix::col_vec(b[..r].to_vec()));
            reads(&v, &la::transpose(&vec![la::mul_vec(&w, &b[..r])]), "lower envelope product")?;
        }
        3 if square => {
            say.push(format!("read as a full envelope, x {:?}", b));
            hit(4);
            if (0..r).any(|i| want.m[i].iter().all(|&x| x == 0.0)) {
                hit(6);
            }
            let a: BiEnvelope = d.clone().into();
            reads(&a, &want.m, "full envelope")?;
            for i in 0..r {
                let (s, x) = a.row_stored(i);
                let mut got = vec![0.0; r];
                if s + x.len() > r {
                    return no("row-stored", format!("stored row {} runs from {} for {}", i, s, x.len()));
                }
                got[s..s + x.len()].copy_from_slice(x);
                if got != want.m[i] {
                    return no("row-stored", format!("stored row {} is {:?}, expected {:?}", i, got, want.m[i]));
                }
            }
            let y = la::mul_vec(&want.m, &b[..r]);
            for fill in [0.0, 5.0, -3.0e7] {
                let mut got = vec![fill; r];
                a.mul_vec(&b[..r], &mut got);
                if got != y {
                    return no("mul-vec", format!("full envelope times {:?} into a buffer of {}: {:?}, expected {:?}", &b[..r], fill, got, y));
                }
            }
            if (0..r).all(|i| want.m[i][i] != 0.0) {
                let l = LowerRowEnvelope::from_bienv(&a);
                let w = lower(&want.m);
                reads(&l, &w, "lower part of a full envelope")?;
                substitution(&mut sub, &l, &w)?;
            }
        }
        _ if square => {
            say.push(format!("triangles and diagonal, b {:?}", b));
            hit(7);
            let n = r;
            let mut lo = LowerTriangular::zeros(n);
            let mut up = UpperTriangular::zeros(n);
            let mut di = Diagonal::zeros(n);
            let (mut wl, mut wu, mut wd) = (la::zeros(n, n), la::zeros(n, n), la::zeros(n, n));
            for i in 0..n {
                for j in 0..n {
                    let v = if i == j && want.m[i][j] == 0.0 { 2.0 } else { want.m[i][j] };
                    if j <= i {
                        lo[(i, j)] = v;
                        wl[i][j] = v;
                    }
                    if j >= i {
                        up.put((i, j), v);
                        wu[i][j] = v;
                    }
                    if i == j {
                        di[i] = v;
                        wd[i][j] = v;
                    }
                }
            }
            reads(&lo, &wl, "lower triangle")?;
            reads(&up, &wu, "upper triangle")?;
            reads(&di, &wd, "diagonal")?;
            let x = lo.forward_sub(&b[..n]);
            let y = up.backward_sub(&b[..n]);
            for i in 0..n {
                for (w, x, what) in [(&wl, &x, "lower"), (&wu, &y, "upper")] {
                    let s: f64 = (0..n).map(|j| w[i][j] * x[j]).sum();
                    let big = (0..n).map(|j| (w[i][j] * x[j]).abs()).sum::<f64>() + b[i].abs();
                    if !((s - b[i]).abs() <= 1e-12 * big) {
                        return no("triangle", format!("{} triangle {:?}, b {:?}: x = {:?}", what, w, &b[..n], x));
                    }
                }
            }
            let lu: LinearMatrix = lo.mul(&up);
            reads(&lu, &la::mul(&wl, &wu), "product of triangles")?;
            let mut z = b[..n].to_vec();
            di.solve(&mut z);
            if (0..n).any(|i| z[i] != b[i] / wd[i][i]) || di.num_neg() != (0..n).filter(|&i| wd[i][i] < 0.0).count() {
                return no("diagonal", format!("diagonal {:?}: solve gives {:?}, {} negative", wd, z, di.num_neg()));
            }
        }
        _ => {
            say.push("rectangular: no envelope".into());
        }
    }
    Ok(())
}

fn step(t: &mut Tape, d: &mut Dictionary, want: &mut Ref, muls: &mut usize, say: &mut Vec<String>) -> Check {
    let (r, c) = (want.rows(), want.cols());
    match t.usize(17) {
        0 => {
            let p = (t.usize(r), t.usize(c));
            let v = t.lattice(12, 0.25);
            d[p] = v;
            want.set(p, v);
            say.push(format!("{:?} := {}", p, v));
        }
        1 | 2 => {
            let p = (t.usize(r), t.usize(c));
            let v = t.lattice(12, 0.25);
            d[p] += v;
            let old = want.m[p.0][p.1];
            want.set(p, old + v);
            say.push(format!("{:?} += {}", p, v));
        }
        3 => {
            // may lie outside, where it does nothing
            let p = (t.usize(r + 1), t.usize(c + 1));
            let v = t.lattice(12, 0.25);
            d.put(p, v);
            if p.0 < r && p.1 < c {
                want.set(p, v);
            }
            say.push(format!("put {:?} {}", p, v));
        }
        4 => {
            let p = (t.usize(r + 1), t.usize(c + 1));
            d.mutate(p, |x| *x = *x * 2.0 + 0.5);
            if p.0 < r && p.1 < c {
                let old = want.m[p.0][p.1];
                want.set(p, old * 2.0 + 0.5);
            }
            say.push(format!("mutate {:?}", p));
        }
        5 => {
            let i = t.usize(r);
            let v: Vec<f64> = (0..c).map(|_| t.lattice(4, 0.25)).collect();
            d.set_row(i, v.clone());
            for j in 0..c {
                want.set((i, j), v[j]);
            }
            say.push(format!("row {} := {:?}", i, v));
        }
        6 => {
            let j = t.usize(c);
            let v: Vec<f64> = (0..r).map(|_| t.lattice(4, 0.25)).collect();
            d.set_col(j, v.clone());
            for i in 0..r {
                want.set((i, j), v[i]);
            }
            say.push(format!("column {} := {:?}", j, v));
        }
        7 => {
            let (i, j) = (t.usize(r), t.usize(r));
            d.swap_rows(i, j);
            want.m.swap(i, j);
            for k in 0..c {
                want.touched.insert((i, k));
                want.touched.insert((j, k));
            }
            say.push(format!("swap rows {} {}", i, j));
        }
        8 => {
            let (i, j) = (t.usize(c), t.usize(c));
            d.swap_cols(i, j);
            for k in 0..r {
                want.m[k].swap(i, j);
                want.touched.insert((k, i));
                want.touched.insert((k, j));
            }
            say.push(format!("swap columns {} {}", i, j));
        }
        9 => {
            let i = t.usize(r);
            d.mutate_row(i, |x| *x *= -0.5);
            for j in 0..c {
                let v = want.m[i][j] * -0.5;
                want.set((i, j), v);
            }
            say.push(format!("row {} times -0.5", i));
        }
        10 => {
            let j = t.usize(c);
            d.mutate_col(j, |x| *x += 0.25);
            for i in 0..r {
                let v = want.m[i][j] + 0.25;
                want.set((i, j), v);
            }
            say.push(format!("column {} plus 0.25", j));
        }
        11 => {
            *d = d.transposed();
            *want = Ref { m: la::transpose(&want.m), touched: want.touched.iter().map(|&(i, j)| (j, i)).collect() };
            if r != c {
                hit(8);
            }
            say.push("transposed".into());
        }
        12 if r == c => {
            let (p, e) = some_permutation(t, r);
            d.permute(&p);
            let mut m = la::zeros(r, r);
            for i in 0..r {
                for j in 0..r {
                    m[p.permute(i)][p.permute(j)] = want.m[i][j];
                }
            }
            *want = Ref { m, touched: want.touched.iter().map(|&(i, j)| (p.permute(i), p.permute(j))).collect() };
            say.push(format!("permute by {:?} (from edges {:?})", (0..r).map(|i| p.permute(i)).collect::<Vec<_>>(), e));
        }
        13 if r == c && r > 1 => {
            let mut mask: Vec<bool> = (0..r).map(|_| !t.chance(1, 3)).collect();
            if mask.iter().all(|x| !x) {
                mask[0] = true;
            }
            let keep: Vec<usize> = (0..r).filter(|&i| mask[i]).collect();
            *d = d.clone().mask(&mask);
            let at = |i: usize| keep.iter().position(|&k| k == i);
            let touched = want.touched.iter().filter_map(|&(i, j)| Some((at(i)?, at(j)?))).collect();
            *want = Ref { m: keep.iter().map(|&i| keep.iter().map(|&j| want.m[i][j]).collect()).collect(), touched };
            say.push(format!("mask {:?}", mask));
        }
        14 if *muls < 2 => {
            *muls += 1;
            let k = if t.chance(1, 2) { c } else { t.range(1, 6) };
            let (o, ow, list) = dictionary(c, k, t, 8);
            let from_left = r == c && k == c && t.chance(1, 2);
            say.push(format!("{} {:?}", if from_left { "multiplied from the left by" } else { "multiplied by" }, list));
            let (m, a, b) = if from_left {
                *d = o.mul_dict(d);
                (la::mul(&ow.m, &want.m), ow.touched.clone(), want.touched.clone())
            } else {
                *d = d.mul_dict(&o);
                (la::mul(&want.m, &ow.m), want.touched.clone(), ow.touched.clone())
            };
            let mut touched = BTreeSet::new();
            for &(i, l) in &a {
                for &(l2, j) in &b {
                    if l == l2 {
                        touched.insert((i, j));
                    }
                }
            }
            *want = Ref { m, touched };
        }
        15 => {
            let (o, ow, list) = dictionary(r, c, t, 5);
            let minus = t.chance(1, 2);
            if minus {
                d.sub_ass(&o);
            } else {
                d.add_ass(&o);
            }
            for i in 0..r {
                for j in 0..c {
                    want.m[i][j] += if minus { -ow.m[i][j] } else { ow.m[i][j] };
                }
            }
            want.touch_all();
            say.push(format!("{} {:?}", if minus { "minus" } else { "plus" }, list));
        }
        _ => {
            // give every row a diagonal entry
            for i in 0..r.min(c) {
                let v = 2f64.powi(t.usize(3) as i32 - 1);
                d[(i, i)] = v;
                want.set((i, i), v);
            }
            say.push("nonzero diagonal".into());
        }
    }
    Ok(())
}

fn run_c06(t: &mut Tape) -> Verdict {
    let large = t.chance(1, 60);
    let r = if large { if t.chance(1, 25) { t.range(60, 300) } else { t.range(8, 40) } } else { t.range(1, 7) };
    let c = if t.chance(1, 3) { t.range(1, 7) } else { r };
    if r > 40 {
        sched::set_fuel(3_000_000_000);
    }
    let phases = t.range(1, 3);
    let keys: Vec<u64> = (0..phases + 1).map(|_| t.word()).collect();
    shared::describe(|| format!("{} by {} matrix, hash keys {:x?}", r, c, keys));
    let mut want = Ref::zeros(r, c);
    let start = t.usize(4);
    let mut d: Option<Dictionary> = None;
    let mut muls = 0;
    if phases > 1 {
        hit(0);
    }
    for ph in 0..phases {
        let steps = t.range(1, 6);
        let mut say = Vec::new();
        let got = on_thread(keys[ph], || -> Result<Dictionary, (String, String)> {
            let mut d = match d.take() {
                Some(d) => d,
                None => match start {
                    0 | 1 => Dictionary::zeros((r, c)),
                    2 if r == c => {
                        for i in 0..r {
                            want.set((i, i), 1.0);
                        }
                        say.push("identity".into());
                        Dictionary::eye(r)
                    }
                    _ => {
                        let v: Vec<f64> = (0..r * c).map(|_| if t.chance(1, 2) { t.lattice(12, 0.25) } else { 0.0 }).collect();
                        say.push(format!("from {:?}", v));
                        for (k, &x) in v.iter().enumerate() {
                            want.set((k / c, k % c), x);
                        }
                        Dictionary::from_flat((r, c), v)
                    }
                },
            };
            reads(&d, &want.m, "dictionary")?;
            for _ in 0..steps {
                step(t, &mut d, &mut want, &mut muls, &mut say)?;
                if say.len() > 0 {
                    shared::describe(|| say.drain(..).collect::<Vec<_>>().join("\n"));
                }
                reads(&d, &want.m, "dictionary")?;
                structure(&d, &want)?;
            }
            conversion(t, &d, &want, &mut say)?;
            shared::describe(|| say.drain(..).collect::<Vec<_>>().join("\n"));
            Ok(d)
        });
        shared::describe(|| say.join("\n"));
        d = Some(match got {
            Ok(Ok(d)) => d,
            Ok(Err((class, msg))) => return bad(&class, msg),
            Err(e) => return bad("panic", e),
        });
    }
    let d = d.unwrap();
    if want.touched.is_empty() {
        trivial();
    }
    // the same content entered afresh, in another order, under other keys
    let order = {
        let n = d.edges().count();
        t.permutation(n)
    };
    let again = on_thread(keys[phases], || {
        let mut items: Vec<((usize, usize), f64)> = d.nzs().collect();
        items.sort_by_key(|x| x.0);
        let mut o = Dictionary::zeros(d.shape());
        for &k in &order {
            o[items[k].0] = items[k].1;
        }
        let same = o == d && d == o;
        // and one that differs
        let p = items.first().map(|x| x.0).unwrap_or((0, 0));
        o[p] += 1.0;
        (same, o == d)
    });
    match again {
        Ok((true, false)) => Ok(()),
        Ok((a, b)) => bad("equality", format!("a matrix re-entered in another order compares {}; with a different value it compares {}", a, b)),
        Err(e) => bad("panic", e),
    }
}


pub const C06: Property = Property {
    id: "C06",
    run: run_c06,
    probes: &[
        "history on several threads", "compressed row", "dense", "lower envelope and substitution", "full envelope",
        "scaled sum into an envelope", "full envelope with an empty row", "triangles and diagonal", "rectangular transpose",
    ],
    quick: 60_000,
    thorough: 3_000_000,
    fuel: 40_000_000,
    rule: "a run draws a shape up to 7 by 7 (now and then 40 by 40), a history of up to 18 operations on one dictionary matrix split over up to three threads with their own hash keys, reads everything after every operation, and converts the matrix to a drawn storage scheme after each phase; non-trivial: something was written",
    real: &["matrix (sparse, dense, triangular and diagonal storage, permutations)", "std hash containers with simulated keys"],
    stub: &["crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &[
        "entries are multiples of 1/4 small enough for exact arithmetic, so matrices are compared exactly",
        "a factor has a nonzero diagonal; compressed-row and envelope matrices are edited only where they store something",
        "labelled values name each position once",
    ],
};
