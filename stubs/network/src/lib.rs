use bytes::Bytes;
use libp2p::Multiaddr;
pub use informalsystems_malachitebft_sync::{PeerId, RawMessage, ResponseChannel};
use std::fmt;
pub trait PeerIdExt { fn to_libp2p(&self) -> libp2p::PeerId; fn from_libp2p(p: &libp2p::PeerId) -> Self; }
impl PeerIdExt for PeerId {
    fn to_libp2p(&self) -> libp2p::PeerId { libp2p::PeerId::from_bytes(&self.to_bytes()).expect("valid PeerId") }
    fn from_libp2p(p: &libp2p::PeerId) -> Self { PeerId::from_bytes(&p.to_bytes()).expect("valid PeerId") }
}
pub use libp2p::gossipsub::MessageId;
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Channel { Consensus, ProposalParts, Sync }
#[derive(Clone, Debug)]
pub enum Event { Listening(Multiaddr), Message(Channel, PeerId, Bytes), PeerConnected(PeerId), PeerDisconnected(PeerId), Sync(RawMessage) }
impl fmt::Display for Channel { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
