pub use bytes;
