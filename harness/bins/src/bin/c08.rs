#[path = "../props/c08.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
