mod c01;
mod c03;
mod c04;
mod c06;
mod c07;
mod c08;
mod c09;
mod fem;
mod la;
mod spectrum;

fn main() {
    simkit::runner::main(&[c01::C01, c01::C02, c03::C03, c04::C04, c04::C05, c06::C06, c07::C07, c08::C08, c09::C09]);
}
