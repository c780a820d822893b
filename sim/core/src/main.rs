mod batch;
mod batch_scen;
mod ctx;
mod e2e;
mod exporters;
mod logs;
mod metrics;
mod obs;
mod otlp;
mod otlp_text;
mod procs;
mod providers;
mod reader;
mod sampler;
mod simple;
mod spans;
fn main() {
    let all: Vec<simfw::Scenario> = [batch_scen::SCEN, simple::SCEN, spans::SCEN, procs::SCEN, providers::SCEN, ctx::SCEN, logs::SCEN, metrics::SCEN, obs::SCEN, reader::SCEN, sampler::SCEN, exporters::SCEN, otlp::SCEN, e2e::SCEN].into_iter().flatten().copied().collect();
    simfw::runner::main(&all, &["opentelemetry"])
}
