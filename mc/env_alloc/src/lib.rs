//! Only there to build mc_rt and derive_builder with other features.
