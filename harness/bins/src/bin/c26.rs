#[path = "../props/c26.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
