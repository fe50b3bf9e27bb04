#[path = "../props/c27.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
