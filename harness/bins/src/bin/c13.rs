#[path = "../props/c13.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
