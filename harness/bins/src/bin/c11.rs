#[path = "../props/c11.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
