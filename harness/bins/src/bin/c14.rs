#[path = "../props/c14.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
