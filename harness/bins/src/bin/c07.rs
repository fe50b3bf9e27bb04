#[path = "../props/c07.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
