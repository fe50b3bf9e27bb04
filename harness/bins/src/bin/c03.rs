#[path = "../props/c03.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
