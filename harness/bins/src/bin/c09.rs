#[path = "../props/c09.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
