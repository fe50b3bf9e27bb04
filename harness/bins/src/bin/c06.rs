#[path = "../props/c06.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
