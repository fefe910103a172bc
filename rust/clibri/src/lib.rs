pub mod server {
    use async_trait::async_trait;
    use tokio::sync::mpsc::UnboundedReceiver;
    use uuid::Uuid;

    pub type Sending = (Vec<u8>, Option<Uuid>);

    pub trait Error: 'static + std::error::Error + Clone + Sync + Send {}

    #[derive(Clone, Debug)]
    pub enum Events<E: Error> {
        Ready,
        Shutdown,
        Connected(Uuid),
        Disconnected(Uuid),
        Received(Uuid, Vec<u8>),
        Error(Option<Uuid>, String),
        ConnectionError(Option<Uuid>, E),
        ServerError(E),
    }

    #[async_trait]
    pub trait Control<E: Error>: 'static + Send + Sync + Clone {
        async fn shutdown(&self) -> Result<(), E>;
        async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), E>;
        async fn disconnect(&self, client: Uuid) -> Result<(), E>;
        async fn disconnect_all(&self) -> Result<(), E>;
    }

    #[async_trait]
    pub trait Impl<E: Error + Clone, C: Control<E>>: 'static + Send {
        async fn listen(&mut self) -> Result<(), E>;
        fn observer(&mut self) -> Result<UnboundedReceiver<Events<E>>, E>;
        fn control(&self) -> C;
    }
}

pub mod client {
    use async_trait::async_trait;
    use std::net::SocketAddr;
    use tokio::sync::mpsc::UnboundedReceiver;

    pub trait Error: 'static + std::error::Error + Clone + Sync + Send {}

    #[derive(Clone, Debug)]
    pub enum Message {
        Text(String),
        Binary(Vec<u8>),
        Ping(Vec<u8>),
        Pong(Vec<u8>),
    }

    #[derive(Clone, Debug)]
    pub enum Event<E: Error> {
        Connected(SocketAddr),
        Disconnected,
        Error(E),
        Message(Message),
    }

    #[async_trait]
    pub trait Control<E: Error>: Send + Clone {
        async fn shutdown(&self) -> Result<(), E>;
        async fn send(&self, msg: Message) -> Result<(), E>;
    }

    #[async_trait]
    pub trait Impl<E: Error, C: Control<E> + Send + Clone>: Send {
        async fn connect(&mut self) -> Result<(), E>;
        fn observer(&mut self) -> Result<UnboundedReceiver<Event<E>>, E>;
        fn control(&self) -> C;
    }
}

pub mod env {
    pub mod logs {
        pub mod targets {
            pub static SERVER: &str = "clibri::wsserver";
            pub static CLIENT: &str = "clibri::wsclient";
            pub static PRODUCER: &str = "clibri::producer";
            pub static CONSUMER: &str = "clibri::consumer";
        }
        pub fn init() {}
    }
}
