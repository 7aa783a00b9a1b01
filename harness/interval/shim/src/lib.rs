pub use real::*;

pub mod property {
    pub use real::property::*;

    /// Extracts values from a source.
    pub trait Extractor<Src> {
        type Target;
        fn all(&self, source: &Src) -> Vec<Self::Target>;
    }
}
