use async_trait::async_trait;
use bytes::Bytes;
use informalsystems_malachitebft_core_types::*;
use informalsystems_malachitebft_metrics::SharedRegistry;
use libp2p::request_response as rpc;
use libp2p::StreamProtocol;
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;
use std::time::Duration;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PeerId(libp2p::PeerId);
impl PeerId {
    pub fn from_bytes(b: &[u8]) -> Result<Self, String> { libp2p::PeerId::from_bytes(b).map(PeerId).map_err(|e| e.to_string()) }
    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_bytes() }
    pub fn random() -> Self { PeerId(libp2p::PeerId::random()) }
}
impl fmt::Debug for PeerId { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for PeerId { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }

macro_rules! rid { ($n:ident) => {
    #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct $n(Arc<str>);
    impl $n { pub fn new(id: impl ToString) -> Self { Self(Arc::from(id.to_string())) } }
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
} }
rid!(InboundRequestId);
rid!(OutboundRequestId);

#[derive(Clone, Debug)] pub struct RawRequest(pub Bytes);
#[derive(Clone, Debug)] pub struct RawResponse(pub Bytes);
pub type ResponseChannel = rpc::ResponseChannel<RawResponse>;
#[derive(Clone, Debug)]
pub enum RawMessage {
    Request { request_id: rpc::InboundRequestId, peer: PeerId, body: Bytes },
    Response { request_id: rpc::OutboundRequestId, peer: PeerId, body: Bytes },
}
#[derive(Clone, Debug)]
pub struct RawDecidedValue<Ctx: Context> { pub certificate: CommitCertificate<Ctx>, pub value_bytes: Bytes }
#[derive(Clone, Debug)]
pub struct Status<Ctx: Context> { pub peer_id: PeerId, pub height: Ctx::Height, pub history_min_height: Ctx::Height }
#[derive(Clone, Debug)] pub struct ValueRequest<Ctx: Context> { pub height: Ctx::Height }
impl<Ctx: Context> ValueRequest<Ctx> { pub fn new(height: Ctx::Height) -> Self { Self { height } } }
#[derive(Clone, Debug)] pub struct VoteSetRequest<Ctx: Context> { pub height: Ctx::Height, pub round: Round }
impl<Ctx: Context> VoteSetRequest<Ctx> { pub fn new(height: Ctx::Height, round: Round) -> Self { Self { height, round } } }
#[derive(Clone, Debug)] pub enum Request<Ctx: Context> { ValueRequest(ValueRequest<Ctx>), VoteSetRequest(VoteSetRequest<Ctx>) }
#[derive(Clone, Debug)] pub struct ValueResponse<Ctx: Context> { pub height: Ctx::Height, pub value: Option<RawDecidedValue<Ctx>> }
impl<Ctx: Context> ValueResponse<Ctx> { pub fn new(height: Ctx::Height, value: Option<RawDecidedValue<Ctx>>) -> Self { Self { height, value } } }
#[derive(Clone, Debug)] pub struct VoteSetResponse<Ctx: Context> { pub height: Ctx::Height, pub round: Round, pub vote_set: VoteSet<Ctx> }
impl<Ctx: Context> VoteSetResponse<Ctx> { pub fn new(height: Ctx::Height, round: Round, vote_set: VoteSet<Ctx>) -> Self { Self { height, round, vote_set } } }
#[derive(Clone, Debug)] pub enum Response<Ctx: Context> { ValueResponse(ValueResponse<Ctx>), VoteSetResponse(VoteSetResponse<Ctx>) }

#[derive(Clone, Debug)] pub struct Metrics {}
impl Metrics { pub fn register(_r: &SharedRegistry) -> Self { Metrics {} } }

pub struct State<Ctx: Context> { pub rng: Box<dyn rand::RngCore + Send>, pub sync_height: Ctx::Height, pub tip_height: Ctx::Height, pub peers: BTreeMap<PeerId, Status<Ctx>> }
impl<Ctx: Context> State<Ctx> {
    pub fn new(rng: Box<dyn rand::RngCore + Send>) -> Self { Self { rng, sync_height: Ctx::Height::ZERO, tip_height: Ctx::Height::ZERO, peers: BTreeMap::new() } }
    pub fn random_peer_with_value(&mut self, height: Ctx::Height) -> Option<PeerId> { self.peers.iter().find(|(_, s)| s.history_min_height <= height && height <= s.height).map(|(p, _)| *p) }
}
#[derive(Debug)]
pub enum Input<Ctx: Context> {
    Tick, Status(Status<Ctx>), StartHeight(Ctx::Height), UpdateHeight(Ctx::Height),
    ValueRequest(InboundRequestId, PeerId, ValueRequest<Ctx>), ValueResponse(OutboundRequestId, PeerId, ValueResponse<Ctx>),
    GotDecidedValue(InboundRequestId, Ctx::Height, Option<RawDecidedValue<Ctx>>), SyncRequestTimedOut(PeerId, Request<Ctx>),
}
#[derive(Debug)]
pub enum Effect<Ctx: Context> {
    BroadcastStatus(Ctx::Height), SendValueRequest(PeerId, ValueRequest<Ctx>), SendValueResponse(InboundRequestId, ValueResponse<Ctx>),
    GetDecidedValue(InboundRequestId, Ctx::Height), SendVoteSetRequest(PeerId, VoteSetRequest<Ctx>),
}
pub struct Resume<Ctx: Context>(std::marker::PhantomData<Ctx>);
impl<Ctx: Context> Default for Resume<Ctx> { fn default() -> Self { Self(std::marker::PhantomData) } }
pub fn __step<Ctx: Context>(_i: Input<Ctx>, _s: &mut State<Ctx>, _m: &Metrics) -> Vec<Effect<Ctx>> { vec![] }
#[macro_export]
macro_rules! process {
    (input: $input:expr, state: $state:expr, metrics: $metrics:expr, with: $effect:ident => $handle:expr) => {{
        for $effect in $crate::__step($input, $state, $metrics) { let _ = $handle?; }
        Ok(())
    }};
}

#[derive(Copy, Clone, Debug)]
pub struct Config { pub request_timeout: Duration }
impl Default for Config { fn default() -> Self { Config { request_timeout: Duration::from_secs(10) } } }
impl Config { pub fn with_request_timeout(mut self, d: Duration) -> Self { self.request_timeout = d; self } }
#[derive(Clone, Default)] pub struct RpcCodec;
#[async_trait]
impl rpc::Codec for RpcCodec {
    type Protocol = StreamProtocol; type Request = RawRequest; type Response = RawResponse;
    async fn read_request<T>(&mut self, _: &StreamProtocol, _io: &mut T) -> std::io::Result<RawRequest> where T: futures::AsyncRead + Unpin + Send { Ok(RawRequest(Bytes::new())) }
    async fn read_response<T>(&mut self, _: &StreamProtocol, _io: &mut T) -> std::io::Result<RawResponse> where T: futures::AsyncRead + Unpin + Send { Ok(RawResponse(Bytes::new())) }
    async fn write_request<T>(&mut self, _: &StreamProtocol, _io: &mut T, _r: RawRequest) -> std::io::Result<()> where T: futures::AsyncWrite + Unpin + Send { Ok(()) }
    async fn write_response<T>(&mut self, _: &StreamProtocol, _io: &mut T, _r: RawResponse) -> std::io::Result<()> where T: futures::AsyncWrite + Unpin + Send { Ok(()) }
}
pub type Event = rpc::Event<RawRequest, RawResponse>;
#[derive(libp2p::swarm::NetworkBehaviour)]
#[behaviour(to_swarm = "Event")]
pub struct Behaviour { rpc: rpc::Behaviour<RpcCodec> }
impl Behaviour {
    pub fn new(c: Config) -> Self { Self { rpc: rpc::Behaviour::new([(StreamProtocol::new("/sync"), rpc::ProtocolSupport::Full)], rpc::Config::default().with_request_timeout(c.request_timeout)) } }
    pub fn send_request(&mut self, peer: libp2p::PeerId, data: Bytes) -> rpc::OutboundRequestId { self.rpc.send_request(&peer, RawRequest(data)) }
    pub fn send_response(&mut self, channel: ResponseChannel, data: Bytes) -> Result<(), fmt::Error> { self.rpc.send_response(channel, RawResponse(data)).map_err(|_| fmt::Error) }
}
