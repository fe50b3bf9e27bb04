#[path = "../props/c24.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
