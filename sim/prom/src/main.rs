mod prom;
fn main() {
    let all: Vec<simfw::Scenario> = [prom::SCEN].into_iter().flatten().copied().collect();
    simfw::runner::main(&all, &["opentelemetry", "prometheus"])
}
