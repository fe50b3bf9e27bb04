#[path = "../props/c04.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
