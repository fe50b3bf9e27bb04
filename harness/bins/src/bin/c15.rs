#[path = "../props/c15.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
