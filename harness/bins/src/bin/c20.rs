#[path = "../props/c20.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
