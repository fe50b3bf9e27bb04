#[path = "../props/c19.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
