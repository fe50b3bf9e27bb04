#[path = "../props/c21.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
