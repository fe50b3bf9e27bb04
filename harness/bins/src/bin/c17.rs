#[path = "../props/c17.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
