//! Appended to the mirrored crate: calls its generic functions for the types the checks use, so that
//! they are compiled, and instrumented, with the code under test.
use crate::element::{Deformation, ElementAssemblage};
use crate::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use crate::matrix::solve::iterative::GaussSeidelSolver;
use crate::visual::{VisOptions, Visualizer};

#[inline(never)]
pub fn displacements(e: &mut ElementAssemblage, solver: usize) -> Deformation<'_> {
    match solver {
        0 => e.calc_displacements::<DenseGaussSolver>(),
        1 => e.calc_displacements::<CholeskyEnvelopeSolver>(),
        _ => e.calc_displacements::<GaussSeidelSolver>(),
    }
}

#[inline(never)]
pub fn draw(v: &mut Visualizer, file: &str, options: VisOptions) {
    v.draw(file, options)
}
