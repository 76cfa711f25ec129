//! A stand-in transport of a consumer.
use crate::rec;
use async_trait::async_trait;
use clibri::client;
use serde_json::json;
use std::sync::{Arc, Mutex};
use tokio::sync::{mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender}, oneshot};

#[derive(Debug, Clone, thiserror::Error)]
#[error("{0}")]
pub struct FakeError(pub String);
impl client::Error for FakeError {}
#[derive(Default, Debug)]
pub struct Inner { pub events: Option<UnboundedSender<client::Event<FakeError>>>, pub end: Option<oneshot::Sender<Result<(), FakeError>>> }
#[derive(Clone, Debug, Default)]
pub struct FakeControl(pub Arc<Mutex<Inner>>);
impl FakeControl {
    pub fn event(&self, e: client::Event<FakeError>) { if let Some(t) = self.0.lock().unwrap().events.as_ref() { let _ = t.send(e); } }
    pub fn end(&self, r: Result<(), FakeError>) { if let Some(t) = self.0.lock().unwrap().end.take() { let _ = t.send(r); } }
}
#[async_trait]
impl client::Control<FakeError> for FakeControl {
    async fn shutdown(&self) -> Result<(), FakeError> { rec::push(json!({"op": "ctl"})); self.end(Ok(())); Ok(()) }
    async fn send(&self, m: client::Message) -> Result<(), FakeError> {
        match m { client::Message::Binary(b) => rec::sent(&b), x => rec::push(json!({"op": "send", "m": format!("{:?}", x), "who": "?", "q": "?", "f": {}})) }
        if rec::with(|s| s.fault) { return Err(FakeError("send".into())); }
        Ok(())
    }
}
pub struct FakeClient(pub FakeControl);
#[async_trait]
impl client::Impl<FakeError, FakeControl> for FakeClient {
    async fn connect(&mut self) -> Result<(), FakeError> {
        let (tx, rx) = oneshot::channel();
        self.0 .0.lock().unwrap().end = Some(tx);
        rec::open();
        rx.await.unwrap_or(Ok(()))
    }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<FakeError>>, FakeError> {
        let (tx, rx) = unbounded_channel();
        self.0 .0.lock().unwrap().events = Some(tx);
        Ok(rx)
    }
    fn control(&self) -> FakeControl { self.0.clone() }
}
