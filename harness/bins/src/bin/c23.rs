#[path = "../props/c23.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
