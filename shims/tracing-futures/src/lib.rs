pub use tracing::Instrument;
