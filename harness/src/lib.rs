//! Shared parts of the verification harnesses: the symbolic input interface,
//! a token data format (serializer, deserializer, both fully observable) and
//! data-driven `Serialize` / `Deserialize` probes.
#![allow(static_mut_refs)]
pub mod diff;
pub mod node;
pub mod probe;
pub mod sym;
pub mod tok;
