#[path = "../props/c12.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
