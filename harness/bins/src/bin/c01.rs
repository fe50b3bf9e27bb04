#[path = "../props/c01.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
