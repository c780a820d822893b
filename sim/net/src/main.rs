#[path = "../../core/src/otlp_text.rs"]
mod otlp_text;
mod export;
/// What otlp_text needs from the core binary.
mod metrics {
    use opentelemetry_sdk::metrics::data::ResourceMetrics;
    pub fn empty_rm() -> ResourceMetrics {
        ResourceMetrics { resource: opentelemetry_sdk::Resource::builder_empty().build(), scope_metrics: vec![] }
    }
}
fn main() {
    let all: Vec<simfw::Scenario> = [export::SCEN].into_iter().flatten().copied().collect();
    simfw::runner::main(&all, &["opentelemetry"])
}
