#[path = "../../core/src/adapt.rs"]
#[allow(dead_code)]
mod adapt;
mod call;
mod cli;
mod config;
mod linked;
mod memory;
mod served;
mod server;

fn main() {
    let mut checks = memory::checks();
    checks.extend(served::checks());
    checks.extend(linked::checks());
    checks.extend(cli::checks());
    checks.extend(config::checks());
    pbt::main(checks);
}
