use informalsystems_malachitebft_core_types as ct;
pub mod util {
    pub mod events { use super::super::ct::Context; #[derive(Clone)] pub struct TxEvent<Ctx: Context>(std::marker::PhantomData<Ctx>); impl<Ctx: Context> TxEvent<Ctx> { pub fn new() -> Self { Self(std::marker::PhantomData) } } }
    pub mod output_port {
        use ractor::{ActorRef, Message};
        pub trait OutputPortSubscriberTrait<I>: Send { fn subscribe_to_port(&self, port: &OutputPort<I>); }
        pub type OutputPortSubscriber<I> = Box<dyn OutputPortSubscriberTrait<I>>;
        pub struct OutputPort<I>(std::marker::PhantomData<fn(I)>);
        impl<I> OutputPort<I> { pub fn with_capacity(_n: usize) -> Self { Self(std::marker::PhantomData) } pub fn send(&self, _m: I) {} }
        impl<I, O> OutputPortSubscriberTrait<I> for ActorRef<O> where O: Message + From<I> { fn subscribe_to_port(&self, _p: &OutputPort<I>) {} }
    }
    pub mod streaming {
        use bytes::Bytes; use std::fmt;
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct StreamId(Bytes);
        impl StreamId { pub fn new(b: Bytes) -> Self { Self(b) } pub fn to_bytes(&self) -> Bytes { self.0.clone() } }
        impl fmt::Display for StreamId { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
        pub type Sequence = u64;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct StreamMessage<T> { pub stream_id: StreamId, pub sequence: Sequence, pub content: StreamContent<T> }
        impl<T> StreamMessage<T> { pub fn new(stream_id: StreamId, sequence: Sequence, content: StreamContent<T>) -> Self { Self { stream_id, sequence, content } } }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum StreamContent<T> { Data(T), Fin }
        impl<T> StreamContent<T> { pub fn as_data(&self) -> Option<&T> { match self { Self::Data(d) => Some(d), _ => None } } }
    }
    pub mod ticker { use ractor::{ActorRef, Message}; use std::time::Duration; pub async fn ticker<M: Message>(_d: Duration, _t: ActorRef<M>, _f: impl Fn() -> M) {} }
    pub mod timers {
        use ractor::ActorRef; use std::marker::PhantomData; use std::time::Duration;
        #[derive(Clone, Debug)] pub struct TimeoutElapsed<K> { pub key: K }
        pub struct TimerScheduler<K>(PhantomData<fn(K)>);
        impl<K: Clone + Eq + std::hash::Hash + Send + 'static> TimerScheduler<K> {
            pub fn new<M>(_a: Box<ActorRef<M>>) -> Self where M: ractor::Message + From<TimeoutElapsed<K>> { Self(PhantomData) }
            pub fn start_timer(&mut self, _k: K, _d: Duration) {}
            pub fn cancel(&mut self, _k: &K) {}
            pub fn intercept_timer_msg(&mut self, t: TimeoutElapsed<K>) -> Option<K> { Some(t.key) }
        }
    }
}
pub mod network {
    use super::ct::*; use super::util::{output_port::OutputPortSubscriber, streaming::StreamMessage};
    use informalsystems_malachitebft_core_consensus::{PeerId, SignedConsensusMsg};
    use informalsystems_malachitebft_network::Event;
    use informalsystems_malachitebft_sync::{InboundRequestId, OutboundRequestId, Request, Response};
    use ractor::{ActorRef, RpcReplyPort};
    #[derive(Clone, Debug)] pub struct Status<Ctx: Context> { pub height: Ctx::Height, pub history_min_height: Ctx::Height }
    impl<Ctx: Context> Status<Ctx> { pub fn new(height: Ctx::Height, history_min_height: Ctx::Height) -> Self { Self { height, history_min_height } } }
    #[derive(Clone, Debug)]
    pub enum NetworkEvent<Ctx: Context> {
        Listening(libp2p_addr::Multiaddr), PeerConnected(PeerId), PeerDisconnected(PeerId), Vote(PeerId, SignedVote<Ctx>), Proposal(PeerId, SignedProposal<Ctx>),
        ProposalPart(PeerId, StreamMessage<Ctx::ProposalPart>), Status(PeerId, Status<Ctx>), Request(InboundRequestId, PeerId, Request<Ctx>), Response(OutboundRequestId, PeerId, Response<Ctx>),
    }
    pub mod libp2p_addr { pub use libp2p::Multiaddr; }
    pub enum NetworkMsg<Ctx: Context> {
        Subscribe(OutputPortSubscriber<NetworkEvent<Ctx>>), Publish(SignedConsensusMsg<Ctx>), PublishProposalPart(StreamMessage<Ctx::ProposalPart>), BroadcastStatus(Status<Ctx>),
        OutgoingRequest(PeerId, Request<Ctx>, RpcReplyPort<OutboundRequestId>), OutgoingResponse(InboundRequestId, Response<Ctx>), NewEvent(Event), GetState { reply: RpcReplyPort<usize> },
    }
    pub type NetworkRef<Ctx> = ActorRef<NetworkMsg<Ctx>>;
}
pub mod sync {
    use super::{ct::*, host::HostRef, network::NetworkRef}; use informalsystems_malachitebft_codec::Codec; use informalsystems_malachitebft_sync as s;
    use ractor::ActorRef; use std::time::Duration;
    pub trait SyncCodec<Ctx: Context>: Codec<s::Status<Ctx>> + Codec<s::Request<Ctx>> + Codec<s::Response<Ctx>> {}
    impl<Ctx: Context, C> SyncCodec<Ctx> for C where C: Codec<s::Status<Ctx>> + Codec<s::Request<Ctx>> + Codec<s::Response<Ctx>> {}
    pub enum Msg<Ctx: Context> { Tick, Decided(Ctx::Height) }
    pub type SyncRef<Ctx> = ActorRef<Msg<Ctx>>;
    #[derive(Debug)] pub struct Params { pub status_update_interval: Duration, pub request_timeout: Duration }
    pub struct Sync<Ctx: Context>(std::marker::PhantomData<Ctx>);
    impl<Ctx: Context> Sync<Ctx> { pub async fn spawn(_c: Ctx, _n: NetworkRef<Ctx>, _h: HostRef<Ctx>, _p: Params, _m: s::Metrics, _s: tracing::Span) -> Result<SyncRef<Ctx>, ractor::SpawnErr> { unimplemented!() } }
}
pub mod host {
    use super::{consensus::ConsensusRef, ct::*, util::streaming::StreamMessage}; use bytes::Bytes;
    use informalsystems_malachitebft_core_consensus::{PeerId, ProposedValue}; use informalsystems_malachitebft_sync::RawDecidedValue;
    use ractor::{ActorRef, RpcReplyPort}; use std::time::Duration;
    #[derive(Clone, Debug)] pub struct LocallyProposedValue<Ctx: Context> { pub height: Ctx::Height, pub round: Round, pub value: Ctx::Value }
    impl<Ctx: Context> LocallyProposedValue<Ctx> { pub fn new(height: Ctx::Height, round: Round, value: Ctx::Value) -> Self { Self { height, round, value } } }
    #[derive(Debug)] pub enum VoteExtensionError { InvalidSignature, InvalidVoteExtension }
    pub enum HostMsg<Ctx: Context> {
        ConsensusReady(ConsensusRef<Ctx>),
        StartedRound { height: Ctx::Height, round: Round, proposer: Ctx::Address },
        GetValue { height: Ctx::Height, round: Round, timeout: Duration, reply_to: RpcReplyPort<LocallyProposedValue<Ctx>> },
        ExtendVote { height: Ctx::Height, round: Round, value_id: ValueId<Ctx>, reply_to: RpcReplyPort<Option<Ctx::Extension>> },
        VerifyVoteExtension { height: Ctx::Height, round: Round, value_id: ValueId<Ctx>, extension: Ctx::Extension, reply_to: RpcReplyPort<Result<(), VoteExtensionError>> },
        RestreamValue { height: Ctx::Height, round: Round, valid_round: Round, address: Ctx::Address, value_id: ValueId<Ctx> },
        GetHistoryMinHeight { reply_to: RpcReplyPort<Ctx::Height> },
        ReceivedProposalPart { from: PeerId, part: StreamMessage<Ctx::ProposalPart>, reply_to: RpcReplyPort<ProposedValue<Ctx>> },
        GetValidatorSet { height: Ctx::Height, reply_to: RpcReplyPort<Ctx::ValidatorSet> },
        Decided { certificate: CommitCertificate<Ctx>, extensions: (), consensus: ConsensusRef<Ctx> },
        GetDecidedValue { height: Ctx::Height, reply_to: RpcReplyPort<Option<RawDecidedValue<Ctx>>> },
        ProcessSyncedValue { height: Ctx::Height, round: Round, validator_address: Ctx::Address, value_bytes: Bytes, reply_to: RpcReplyPort<ProposedValue<Ctx>> },
        PeerJoined { peer_id: PeerId }, PeerLeft { peer_id: PeerId },
    }
    pub type HostRef<Ctx> = ActorRef<HostMsg<Ctx>>;
}
pub mod wal {
    use super::ct::*; use informalsystems_malachitebft_codec::Codec; use informalsystems_malachitebft_core_consensus::SignedConsensusMsg; use informalsystems_malachitebft_metrics::SharedRegistry; use ractor::ActorRef; use std::path::PathBuf;
    pub trait WalCodec<Ctx: Context>: Codec<SignedConsensusMsg<Ctx>> {}
    impl<Ctx: Context, C> WalCodec<Ctx> for C where C: Codec<SignedConsensusMsg<Ctx>> {}
    #[derive(Debug)] pub enum WalEntry<Ctx: Context> { ConsensusMsg(SignedConsensusMsg<Ctx>), Timeout(()) }
    pub fn decode_entry<Ctx: Context, C: WalCodec<Ctx>>(_c: &C, _b: Vec<u8>) -> std::io::Result<WalEntry<Ctx>> { Ok(WalEntry::Timeout(())) }
    pub enum Msg<Ctx: Context> { Append(Ctx::Height) }
    pub type WalRef<Ctx> = ActorRef<Msg<Ctx>>;
    pub struct Wal<Ctx: Context>(std::marker::PhantomData<Ctx>);
    impl<Ctx: Context> Wal<Ctx> { pub async fn spawn<C: WalCodec<Ctx>>(_c: &Ctx, _codec: C, _p: PathBuf, _r: SharedRegistry, _s: tracing::Span) -> Result<WalRef<Ctx>, ractor::SpawnErr> { unimplemented!() } }
}
pub mod consensus {
    use super::{ct::*, host::HostRef, network::NetworkRef, sync::SyncRef, util::{events::TxEvent, streaming::StreamMessage}, wal::WalRef}; use informalsystems_malachitebft_codec::Codec;
    pub use informalsystems_malachitebft_core_consensus::Params as ConsensusParams; use informalsystems_malachitebft_core_consensus::SignedConsensusMsg; use ractor::ActorRef;
    pub trait ConsensusCodec<Ctx: Context>: Codec<SignedConsensusMsg<Ctx>> + Codec<Ctx::ProposalPart> + Codec<StreamMessage<Ctx::ProposalPart>> {}
    impl<Ctx: Context, C> ConsensusCodec<Ctx> for C where C: Codec<SignedConsensusMsg<Ctx>> + Codec<Ctx::ProposalPart> + Codec<StreamMessage<Ctx::ProposalPart>> {}
    pub enum ConsensusMsg<Ctx: Context> { StartHeight(Ctx::Height, Ctx::ValidatorSet) }
    pub type Msg<Ctx> = ConsensusMsg<Ctx>;
    pub type ConsensusRef<Ctx> = ActorRef<ConsensusMsg<Ctx>>;
    pub struct Consensus<Ctx: Context>(std::marker::PhantomData<Ctx>);
    impl<Ctx: Context> Consensus<Ctx> {
        #[allow(clippy::too_many_arguments)]
        pub async fn spawn(_c: Ctx, _p: ConsensusParams<Ctx>, _t: informalsystems_malachitebft_config::TimeoutConfig, _s: Box<dyn SigningProvider<Ctx>>, _n: NetworkRef<Ctx>, _h: HostRef<Ctx>, _w: WalRef<Ctx>, _y: Option<SyncRef<Ctx>>, _m: informalsystems_malachitebft_metrics::Metrics, _e: TxEvent<Ctx>, _sp: tracing::Span) -> Result<ConsensusRef<Ctx>, ractor::SpawnErr> { unimplemented!() }
    }
}
