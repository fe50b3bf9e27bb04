#[path = "../props/c25.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
