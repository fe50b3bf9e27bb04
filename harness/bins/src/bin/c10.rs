#[path = "../props/c10.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
