#[path = "../props/c28.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
