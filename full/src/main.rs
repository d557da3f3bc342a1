#[allow(dead_code)]
#[path = "../../core/src/fem.rs"]
mod fem;
#[allow(dead_code)]
#[path = "../../core/src/la.rs"]
mod la;
mod c10;
mod c11;
mod cli;
mod doc;
mod mesh;
mod region;
#[path = "../../core/src/spectrum.rs"]
mod spectrum;

fn main() {
    simkit::runner::main(&[c10::C10, c11::C11, mesh::C12, mesh::C13, mesh::C14, cli::C15]);
}
