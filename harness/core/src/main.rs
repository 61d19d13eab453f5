mod adapt;
mod conc;
mod engine;
mod isolate;
mod misc;
mod proto;

fn main() {
    let mut checks = engine::checks();
    checks.extend(proto::checks());
    checks.extend(misc::checks());
    checks.extend(conc::checks());
    checks.extend(isolate::checks());
    pbt::main(checks);
}
