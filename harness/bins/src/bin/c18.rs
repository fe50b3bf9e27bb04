#[path = "../props/c18.rs"]
mod p;
fn main() {
    hh::run_main(&p::PROP)
}
