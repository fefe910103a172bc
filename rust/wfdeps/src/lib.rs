pub use {async_trait, bytes, clibri, log, thiserror, tokio, tokio_util, uuid};
