//! C07: the renumbering of unknowns.
use crate::fem::on_thread;
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::{Dictionary, LinearMatrix, MatrixLike};
use simkit::{bad, hit, shared, trivial, Property, Tape, Verdict};
use std::collections::BTreeSet;

/// Couplings between `n` unknowns.
fn couplings(t: &mut Tape) -> (usize, Vec<(usize, usize)>) {
    let mut n = 0;
    let mut e: Vec<(usize, usize)> = Vec::new();
    let parts = t.range(1, 4);
    let large = t.chance(1, 40);
    for _ in 0..parts {
        let k = match t.usize(3) {
            _ if large => if t.chance(1, 10) { t.range(80, 160) } else { t.range(20, 60) },
            0 => t.range(1, 3),
            1 => t.range(2, 9),
            _ => t.range(4, 20),
        };
        match t.usize(6) {
            0 => {
                for _ in 0..t.range(0, 2 * k) {
                    e.push((n + t.usize(k), n + t.usize(k)));
                }
            }
            1 => (1..k).for_each(|i| e.push((n + i - 1, n + i))),
            2 => {
                // a tree
                for i in 1..k {
                    e.push((n + t.usize(i), n + i));
                }
            }
            3 => {
                // a strip of cells, as meshes give
                let w = t.range(2, 4);
                for i in 0..k {
                    for d in [1, w, w + 1] {
                        if i + d < k && (d != 1 || (i + 1) % w != 0) {
                            e.push((n + i, n + i + d));
                        }
                    }
                }
            }
            4 => (1..k).for_each(|i| e.push((n, n + i))),
            _ => (0..k).for_each(|i| e.push((n + i, n + (i + 1) % k))),
        }
        n += k;
    }
    // unknowns coupled to nothing, and bridges
    n += t.usize(3);
    for _ in 0..t.usize(3) {
        e.push((t.usize(n), t.usize(n)));
    }
    let p = t.permutation(n);
    (n, e.iter().map(|&(a, b)| (p[a], p[b])).collect())
}

fn distances(adj: &[BTreeSet<usize>], root: usize) -> Vec<Option<usize>> {
    let mut d = vec![None; adj.len()];
    d[root] = Some(0);
    let mut q = std::collections::VecDeque::from([root]);
    while let Some(v) = q.pop_front() {
        for &w in &adj[v] {
            if d[w].is_none() {
                d[w] = Some(d[v].unwrap() + 1);
                q.push_back(w);
            }
        }
    }
    d
}

/// The new number of every old one, if the permutation is consistent in all its forms.
fn numbers(p: &Permutation, n: usize) -> Result<Vec<usize>, String> {
    let to: Vec<usize> = (0..n).map(|i| p.permute(i)).collect();
    let mut seen = vec![false; n];
    for &x in &to {
        if x >= n || seen[x] {
            return Err(format!("{:?} is not a bijection on {} unknowns", to, n));
        }
        seen[x] = true;
    }
    if let Some(i) = (0..n).find(|&i| p.unpermute(to[i]) != i) {
        return Err(format!("unknown {} becomes {} and back {}", i, to[i], p.unpermute(to[i])));
    }
    let mut v: Vec<(usize, String)> = (0..n).map(|i| (i, i.to_string())).collect();
    let w = v.clone();
    p.permute_slice(&mut v);
    if let Some(i) = (0..n).find(|&i| v[to[i]] != w[i]) {
        return Err(format!("permuting a vector moves entry {} elsewhere than {}", i, to[i]));
    }
    let q = p.clone().invert();
    q.permute_slice(&mut v);
    if v != w {
        return Err(format!("undoing {:?} on a vector gives {:?}", to, v));
    }
    if (0..n).any(|i| q.permute(to[i]) != i || q.unpermute(i) != to[i]) {
        return Err(format!("the inverse of {:?} is wrong", to));
    }
    if &q.invert() != p {
        return Err("inverting twice changes the permutation".into());
    }
    Ok(to)
}

fn run_c07(t: &mut Tape) -> Verdict {
    let (n, edges) = couplings(t);
    // the same couplings again: other order, directions, repetitions, couplings to self
    let mut again: Vec<(usize, usize)> = Vec::new();
    for &(a, b) in &edges {
        again.push(if t.chance(1, 2) { (b, a) } else { (a, b) });
        if t.chance(1, 5) {
            again.push(if t.chance(1, 2) { (b, a) } else { (a, b) });
        }
    }
    for _ in 0..t.usize(3) {
        let i = t.usize(n);
        again.push((i, i));
    }
    let o = t.permutation(again.len());
    let again: Vec<(usize, usize)> = o.iter().map(|&i| again[i]).collect();
    let keys: Vec<u64> = (0..3).map(|_| t.word()).collect();
    let root = t.usize(n);
    let load = t.usize(n);
    let way = t.usize(3);
    shared::describe(|| format!("{} unknowns, couplings {:?}\nagain as {:?}\nhash keys {:x?} root {} load at {} solver {}", n, edges, again, keys, root, load, way));
    let mut adj: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for &(a, b) in &edges {
        if a != b {
            adj[a].insert(b);
            adj[b].insert(a);
        }
    }
    let mut group = vec![usize::MAX; n];
    let mut groups = 0;
    for i in 0..n {
        if group[i] == usize::MAX {
            for (j, d) in distances(&adj, i).iter().enumerate() {
                if d.is_some() {
                    group[j] = groups;
                }
            }
            groups += 1;
        }
    }
    if groups > 1 {
        hit(0);
    }
    if adj.iter().any(|a| a.is_empty()) {
        hit(1);
    }
    if groups == n {
        trivial();
    }

    let got = on_thread(keys[0], || -> Result<Vec<usize>, (String, String)> {
        let no = |c: &str, m: String| Err((c.to_string(), m));
        let mut g = Graph::from_edges(n, edges.iter().copied());
        let mut h = Graph::from_edges(n, again.iter().copied());
        if g != h {
            return no("graph", "the graph depends on the order, direction or repetition of couplings".into());
        }
        if g.vertex_count() != n {
            return no("graph", format!("{} vertices for {} unknowns", g.vertex_count(), n));
        }
        let mask: Vec<bool> = (0..n).map(|i| (i * 7 + root) % 3 != 0).collect();
        for v in 0..n {
            let a: Vec<usize> = g.adjacent(v).to_vec();
            if a.len() != adj[v].len() || a.iter().copied().collect::<BTreeSet<_>>() != adj[v] || g.degree(v) != a.len() {
                return no("graph", format!("unknown {} is coupled to {:?}, listed {:?} with degree {}", v, adj[v], a, g.degree(v)));
            }
            let m: BTreeSet<usize> = g.adjacent_masked(v, &mask).iter().copied().collect();
            let w: BTreeSet<usize> = adj[v].iter().copied().filter(|&x| mask[x]).collect();
            if m != w || g.degree_masked(v, &mask) != w.len() {
                return no("graph", format!("masked couplings of {} are {:?}, listed {:?}", v, w, m));
            }
        }
        let d = distances(&adj, root);
        let far = d.iter().flatten().max().copied().unwrap();
        let (v, len) = g.far_node(root);
        let least = (0..n).filter(|&i| d[i] == Some(far)).map(|i| adj[i].len()).min().unwrap();
        if len != far || d[v] != Some(far) || adj[v].len() != least {
            return no("far", format!("furthest from {} is {} at {}; the largest distance is {} (least couplings there {})", root, v, len, far, least));
        }
        let v = g.pseudo_peripheral();
        let reach = |x: usize| distances(&adj, x).iter().flatten().max().copied().unwrap();
        if group[v] != group[0] || reach(v) < reach(0) {
            return no("peripheral", format!("peripheral unknown {} reaches {}, unknown 0 reaches {}", v, reach(v), reach(0)));
        }
        let p = g.reverse_cuthill_mckee();
        let to = match numbers(&p, n) {
            Ok(to) => to,
            Err(e) => return no("permutation", e),
        };
        let q = h.reverse_cuthill_mckee();
        if p != q || g.reverse_cuthill_mckee() != p {
            return no("order", format!("renumbering {:?}, and for the same couplings {:?}", to, (0..n).map(|i| q.permute(i)).collect::<Vec<_>>()));
        }
        if let Err(e) = numbers(&Permutation::identity(n), n) {
            return no("permutation", e);
        }
        Ok(to)
    });
    let to = match got {
        Ok(Ok(to)) => to,
        Ok(Err((c, m))) => return bad(&c, m),
        Err(e) => return bad("panic", e),
    };
    // the groups, from the last number down
    let mut from = vec![0; n];
    for i in 0..n {
        from[to[i]] = i;
    }
    let order: Vec<usize> = from.iter().rev().copied().collect();
    let mut done = BTreeSet::new();
    let mut at = 0;
    while at < n {
        let g = group[order[at]];
        let size = (0..n).filter(|&i| group[i] == g).count();
        if !done.insert(g) || order[at..at + size].iter().any(|&i| group[i] != g) {
            return bad("groups", format!("numbered from the end: {:?}; a coupled group is not contiguous", order));
        }
        let d = distances(&adj, order[at]);
        for k in at + 1..at + size {
            if !order[at..k].iter().any(|j| adj[order[k]].contains(j)) {
                return bad("growth", format!("numbered from the end: {:?}; {} is not coupled to any before it", order, order[k]));
            }
            if d[order[k]] < d[order[k - 1]] {
                return bad("growth", format!("numbered from the end: {:?}; {} is nearer to {} than the one before it", order, order[k], order[at]));
            }
        }
        if size > 2 {
            hit(2);
        }
        at += size;
    }
    // on a system: strongly diagonal, so every solver can do it
    let value = |i: usize, j: usize| if i == j { 8.0 * (adj[i].len() as f64 + 1.0) } else { -1.0 };
    let mut items: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
    for i in 0..n {
        items.extend(adj[i].iter().map(|&j| (i, j)));
    }
    let shuffled: Vec<(usize, usize)> = {
        let o = t.permutation(items.len());
        o.iter().map(|&i| items[i]).collect()
    };
    let build = |items: &[(usize, usize)]| {
        let mut s = System::new(n);
        for &(i, j) in items {
            s.add_k_coefficient((i, j), value(i, j));
        }
        s.add_rhs_val(load, 8.0);
        s
    };
    let want_env: Vec<usize> = (0..n)
        .map(|r| adj[from[r]].iter().map(|&j| to[j]).filter(|&c| c <= r).min().map_or(1, |c| r - c + 1))
        .collect();
    for (k, it) in [(1, &items), (2, &shuffled)] {
        let got = on_thread(keys[k], || {
            let mut s = build(it);
            if k == 2 {
                // the same through whole matrices
                let mut d = Dictionary::zeros(n);
                it.iter().for_each(|&(i, j)| d[(i, j)] = value(i, j));
                let mut r = vec![0.0; n];
                r[load] = 8.0;
                s = System::from_kr(&d, &LinearMatrix::col_vec(r));
            }
            let e0: Vec<usize> = s.k_envelope().collect();
            s.reduce_envelope();
            let e: Vec<usize> = s.k_envelope().collect();
            let own = build(it);
            let x = match way {
                0 => (DenseGaussSolver::new(s).solve(), DenseGaussSolver::new(own).solve()),
                1 => (GaussSeidelSolver::new(s).solve(), GaussSeidelSolver::new(own).solve()),
                _ => (CholeskyEnvelopeSolver::new(own.clone()).solve(), DenseGaussSolver::new(own).solve()),
            };
            (e0, e, x)
        });
        let (e0, e, x) = match got {
            Ok(x) => x,
            Err(m) => return bad("panic", m),
        };
        let plain: Vec<usize> = (0..n).map(|r| adj[r].iter().filter(|&&c| c <= r).min().map_or(1, |c| r - c + 1)).collect();
        if e0 != plain {
            return bad("envelope", format!("envelope of the system as entered is {:?}, expected {:?}", e0, plain));
        }
        if e != want_env {
            return bad("envelope", format!("renumbering {:?} gives envelope {:?}, expected {:?}", to, e, want_env));
        }
        let (a, b) = match x {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return bad("refused", format!("solver {} fails on a dominant system: renumbered {:?}, as entered {:?}", way, a.is_ok(), b.is_ok())),
        };
        let tol = if way == 1 { 5e-3 } else { 1e-12 };
        let big = b.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        if let Some(i) = (0..n).find(|&i| !((a[i] - b[i]).abs() <= tol * big)) {
            return bad("numbering", format!("solver {}: unknown {} is {:e} through the renumbering and {:e} without", way, i, a[i], b[i]));
        }
    }
    Ok(())
}

pub const C07: Property = Property {
    id: "C07",
    run: run_c07,
    probes: &["several coupled groups", "an unknown coupled to nothing", "a group of three or more"],
    quick: 60_000,
    thorough: 3_000_000,
    fuel: 3_000_000_000,
    rule: "a run draws a coupling pattern of up to 80 unknowns in up to four parts (random, chain, tree, strip, star, ring), lists it twice in different order, direction and repetition, renumbers both, and enters it into systems under three hash keys; non-trivial: something is coupled",
    real: &["matrix (graph, permutations, systems, solvers, storage)", "std hash containers with simulated keys"],
    stub: &["crate spacemath, file, mesher and the command line are not part of this build"],
    assumptions: &["at least one unknown", "every unknown has a coefficient of its own in a system"],
};
