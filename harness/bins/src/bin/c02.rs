#[path = "../props/c02.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
