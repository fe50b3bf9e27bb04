#[path = "../props/c16.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
