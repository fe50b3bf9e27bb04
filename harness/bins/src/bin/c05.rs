#[path = "../props/c05.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
