#[path = "../props/c22.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
