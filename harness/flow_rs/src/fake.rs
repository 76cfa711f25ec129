//! A stand-in transport: records what it is asked to do.
use crate::rec;
use async_trait::async_trait;
use clibri::server;
use serde_json::json;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use uuid::Uuid;

#[derive(Debug, Clone, thiserror::Error)]
#[error("{0}")]
pub struct FakeError(pub String);
impl server::Error for FakeError {}

#[derive(Clone, Debug)]
pub struct FakeControl { pub events: UnboundedSender<server::Events<FakeError>>, pub end: UnboundedSender<Result<(), FakeError>> }
#[async_trait]
impl server::Control<FakeError> for FakeControl {
    async fn shutdown(&self) -> Result<(), FakeError> {
        rec::push(json!({"op": "srvdown"}));
        let _ = self.events.send(server::Events::Shutdown);
        let _ = self.end.send(Ok(()));
        Ok(())
    }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), FakeError> {
        let dec = rec::with(|s| s.dec).expect("decoder");
        let u = client.map(|u| rec::name(&u)).unwrap_or_else(|| "*".into());
        match dec(&buffer) {
            Ok(l) if l.len() == 1 => {
                let mut r = json!({"op": "send", "u": u, "m": l[0].0, "q": l[0].1, "f": l[0].2});
                if rec::with(|s| s.live) { r["hex"] = json!(rec::hex(&buffer)); }
                rec::push(r)
            }
            r => rec::push(json!({"op": "send", "u": u, "m": "?", "q": 0, "f": {"bytes": format!("{:?} {:?}", buffer, r)}})),
        }
        if client.map(|u| rec::with(|s| s.fault.contains(&u))).unwrap_or(false) { return Err(FakeError("no such connection".into())); }
        Ok(())
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), FakeError> { rec::push(json!({"op": "disc", "u": rec::name(&client)})); Ok(()) }
    async fn disconnect_all(&self) -> Result<(), FakeError> { rec::push(json!({"op": "discall"})); Ok(()) }
}
pub struct FakeServer { pub control: FakeControl, rx: Option<UnboundedReceiver<server::Events<FakeError>>>, rx_end: UnboundedReceiver<Result<(), FakeError>> }
impl FakeServer {
    pub fn new() -> Self {
        let (events, rx) = unbounded_channel();
        let (end, rx_end) = unbounded_channel();
        FakeServer { control: FakeControl { events, end }, rx: Some(rx), rx_end }
    }
}
#[async_trait]
impl server::Impl<FakeError, FakeControl> for FakeServer {
    async fn listen(&mut self) -> Result<(), FakeError> { self.rx_end.recv().await.unwrap_or(Ok(())) }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<FakeError>>, FakeError> { self.rx.take().ok_or(FakeError("taken".into())) }
    fn control(&self) -> FakeControl { self.control.clone() }
}
