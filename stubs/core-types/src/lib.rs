//! Type-level stand-in for malachite's core-types: only the shapes /repo's sources name.
use std::fmt::{self, Debug, Display};
use std::ops::Deref;

pub type VotingPower = u64;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Round { Nil, Some(u32) }
impl Round {
    pub const ZERO: Self = Self::new(0);
    pub const fn new(round: u32) -> Self { Self::Some(round) }
    pub fn as_i64(&self) -> i64 { match self { Round::Nil => -1, Round::Some(r) => i64::from(*r) } }
    pub fn as_u32(&self) -> Option<u32> { match self { Round::Nil => None, Round::Some(r) => Some(*r) } }
    pub fn is_defined(&self) -> bool { matches!(self, Round::Some(_)) }
    pub fn is_nil(&self) -> bool { matches!(self, Round::Nil) }
    pub fn increment(&self) -> Round { match self { Round::Nil => Round::new(0), Round::Some(r) => Round::new(r + 1) } }
}
impl PartialOrd for Round { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Round { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.as_i64().cmp(&o.as_i64()) } }
impl From<i64> for Round { fn from(v: i64) -> Self { if v < 0 { Round::Nil } else { Round::new(v as u32) } } }
impl From<u32> for Round { fn from(v: u32) -> Self { Round::new(v) } }
impl Display for Round { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&self.as_i64(), f) } }

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum NilOrVal<T> { Nil, Val(T) }
impl<T> NilOrVal<T> {
    pub fn is_nil(&self) -> bool { matches!(self, NilOrVal::Nil) }
    pub fn is_val(&self) -> bool { matches!(self, NilOrVal::Val(_)) }
    pub fn as_ref(&self) -> NilOrVal<&T> { match self { NilOrVal::Nil => NilOrVal::Nil, NilOrVal::Val(v) => NilOrVal::Val(v) } }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum VoteType { Prevote, Precommit }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Validity { Valid, Invalid }
impl Validity {
    pub fn is_valid(&self) -> bool { matches!(self, Validity::Valid) }
    pub fn to_bool(&self) -> bool { self.is_valid() }
    pub fn from_bool(v: bool) -> Self { if v { Validity::Valid } else { Validity::Invalid } }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ThresholdParam { pub numerator: u64, pub denominator: u64 }
impl ThresholdParam {
    pub const TWO_F_PLUS_ONE: Self = Self { numerator: 2, denominator: 3 };
    pub const F_PLUS_ONE: Self = Self { numerator: 1, denominator: 3 };
    pub fn is_met(&self, weight: u64, total: u64) -> bool { weight * self.denominator > total * self.numerator }
    pub fn min_expected(&self, total: u64) -> u64 { 1 + (total * self.numerator) / self.denominator }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ThresholdParams { pub quorum: ThresholdParam, pub honest: ThresholdParam }
impl Default for ThresholdParams {
    fn default() -> Self { Self { quorum: ThresholdParam::TWO_F_PLUS_ONE, honest: ThresholdParam::F_PLUS_ONE } }
}

pub trait Address: Clone + Debug + Display + Eq + Ord + Send + Sync {}
pub trait Height: Default + Copy + Clone + Debug + Display + PartialEq + Eq + PartialOrd + Ord + Send + Sync {
    const ZERO: Self;
    const INITIAL: Self;
    fn increment(&self) -> Self { self.increment_by(1) }
    fn decrement(&self) -> Option<Self> { self.decrement_by(1) }
    fn increment_by(&self, n: u64) -> Self;
    fn decrement_by(&self, n: u64) -> Option<Self>;
    fn as_u64(&self) -> u64;
}
pub trait Value: Clone + Debug + PartialEq + Eq + PartialOrd + Ord + Send + Sync {
    type Id: Clone + Debug + Display + Eq + Ord + Send + Sync;
    fn id(&self) -> Self::Id;
}
pub type ValueId<Ctx> = <<Ctx as Context>::Value as Value>::Id;
pub trait SigningScheme: Clone + Debug + Eq {
    type DecodingError: Display;
    type Signature: Clone + Debug + Eq + Ord + Send + Sync;
    type PublicKey: Clone + Debug + Eq + Send + Sync;
    type PrivateKey: Clone + Send + Sync;
    fn decode_signature(bytes: &[u8]) -> Result<Self::Signature, Self::DecodingError>;
    fn encode_signature(signature: &Self::Signature) -> Vec<u8>;
}
pub type Signature<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::Signature;
pub type PublicKey<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::PublicKey;
pub type PrivateKey<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::PrivateKey;

pub trait Validator<Ctx: Context>: Clone + Debug + PartialEq + Eq + Send + Sync {
    fn address(&self) -> &Ctx::Address;
    fn public_key(&self) -> &PublicKey<Ctx>;
    fn voting_power(&self) -> VotingPower;
}
pub trait ValidatorSet<Ctx: Context>: Clone + Debug + Send + Sync {
    fn count(&self) -> usize;
    fn total_voting_power(&self) -> VotingPower;
    fn get_by_address(&self, address: &Ctx::Address) -> Option<&Ctx::Validator>;
    fn get_by_index(&self, index: usize) -> Option<&Ctx::Validator>;
}
pub trait ProposalPart<Ctx: Context>: Clone + Debug + PartialEq + Eq + Send + Sync {
    fn is_first(&self) -> bool;
    fn is_last(&self) -> bool;
}
pub trait Proposal<Ctx: Context>: Clone + Debug + Eq + Send + Sync + 'static {
    fn height(&self) -> Ctx::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &Ctx::Value;
    fn take_value(self) -> Ctx::Value;
    fn pol_round(&self) -> Round;
    fn validator_address(&self) -> &Ctx::Address;
}
pub trait Vote<Ctx: Context>: Clone + Debug + Eq + Ord + Send + Sync + 'static {
    fn height(&self) -> Ctx::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &NilOrVal<ValueId<Ctx>>;
    fn take_value(self) -> NilOrVal<ValueId<Ctx>>;
    fn vote_type(&self) -> VoteType;
    fn validator_address(&self) -> &Ctx::Address;
    fn extension(&self) -> Option<&SignedMessage<Ctx, Ctx::Extension>>;
    fn take_extension(&mut self) -> Option<SignedExtension<Ctx>>;
    fn extend(self, extension: SignedMessage<Ctx, Ctx::Extension>) -> Self;
}
pub trait Extension: Clone + Debug + Eq + Ord + Send + Sync {}
impl Extension for () {}

pub trait Context: Clone + Send + Sync + 'static {
    type Address: Address;
    type Height: Height;
    type ProposalPart: ProposalPart<Self>;
    type Proposal: Proposal<Self>;
    type Validator: Validator<Self>;
    type ValidatorSet: ValidatorSet<Self>;
    type Value: Value;
    type Vote: Vote<Self>;
    type Extension: Extension;
    type SigningScheme: SigningScheme;
    fn select_proposer<'a>(&self, validator_set: &'a Self::ValidatorSet, height: Self::Height, round: Round) -> &'a Self::Validator;
    fn new_proposal(height: Self::Height, round: Round, value: Self::Value, pol_round: Round, address: Self::Address) -> Self::Proposal;
    fn new_prevote(height: Self::Height, round: Round, value_id: NilOrVal<ValueId<Self>>, address: Self::Address) -> Self::Vote;
    fn new_precommit(height: Self::Height, round: Round, value_id: NilOrVal<ValueId<Self>>, address: Self::Address) -> Self::Vote;
}

pub struct SignedMessage<Ctx: Context, Msg> { pub message: Msg, pub signature: Signature<Ctx> }
impl<Ctx: Context, Msg> SignedMessage<Ctx, Msg> {
    pub fn new(message: Msg, signature: Signature<Ctx>) -> Self { Self { message, signature } }
}
impl<Ctx: Context, Msg: Clone> Clone for SignedMessage<Ctx, Msg> {
    fn clone(&self) -> Self { Self { message: self.message.clone(), signature: self.signature.clone() } }
}
impl<Ctx: Context, Msg: Debug> Debug for SignedMessage<Ctx, Msg> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("SignedMessage").field("message", &self.message).field("signature", &self.signature).finish() }
}
impl<Ctx: Context, Msg: PartialEq> PartialEq for SignedMessage<Ctx, Msg> {
    fn eq(&self, o: &Self) -> bool { self.message == o.message && self.signature == o.signature }
}
impl<Ctx: Context, Msg: Eq> Eq for SignedMessage<Ctx, Msg> {}
impl<Ctx: Context, Msg> Deref for SignedMessage<Ctx, Msg> { type Target = Msg; fn deref(&self) -> &Msg { &self.message } }

pub type SignedVote<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Vote>;
pub type SignedProposal<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Proposal>;
pub type SignedProposalPart<Ctx> = SignedMessage<Ctx, <Ctx as Context>::ProposalPart>;
pub type SignedExtension<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Extension>;

pub struct CommitSignature<Ctx: Context> { pub address: Ctx::Address, pub signature: Signature<Ctx> }
impl<Ctx: Context> Clone for CommitSignature<Ctx> { fn clone(&self) -> Self { Self { address: self.address.clone(), signature: self.signature.clone() } } }
impl<Ctx: Context> Debug for CommitSignature<Ctx> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("CommitSignature").field("address", &self.address).finish() } }
impl<Ctx: Context> PartialEq for CommitSignature<Ctx> { fn eq(&self, o: &Self) -> bool { self.address == o.address && self.signature == o.signature } }
impl<Ctx: Context> Eq for CommitSignature<Ctx> {}
impl<Ctx: Context> CommitSignature<Ctx> { pub fn new(address: Ctx::Address, signature: Signature<Ctx>) -> Self { Self { address, signature } } }

pub struct AggregatedSignature<Ctx: Context> { pub signatures: Vec<CommitSignature<Ctx>> }
impl<Ctx: Context> AggregatedSignature<Ctx> { pub fn new(signatures: Vec<CommitSignature<Ctx>>) -> Self { Self { signatures } } }
impl<Ctx: Context> Default for AggregatedSignature<Ctx> { fn default() -> Self { Self { signatures: vec![] } } }
impl<Ctx: Context> Clone for AggregatedSignature<Ctx> { fn clone(&self) -> Self { Self { signatures: self.signatures.clone() } } }
impl<Ctx: Context> Debug for AggregatedSignature<Ctx> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("AggregatedSignature").field("signatures", &self.signatures).finish() } }
impl<Ctx: Context> PartialEq for AggregatedSignature<Ctx> { fn eq(&self, o: &Self) -> bool { self.signatures == o.signatures } }
impl<Ctx: Context> Eq for AggregatedSignature<Ctx> {}

pub struct CommitCertificate<Ctx: Context> { pub height: Ctx::Height, pub round: Round, pub value_id: ValueId<Ctx>, pub aggregated_signature: AggregatedSignature<Ctx> }
impl<Ctx: Context> Clone for CommitCertificate<Ctx> { fn clone(&self) -> Self { Self { height: self.height, round: self.round, value_id: self.value_id.clone(), aggregated_signature: self.aggregated_signature.clone() } } }
impl<Ctx: Context> Debug for CommitCertificate<Ctx> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("CommitCertificate").field("height", &self.height).finish() } }
impl<Ctx: Context> PartialEq for CommitCertificate<Ctx> { fn eq(&self, o: &Self) -> bool { self.height == o.height && self.round == o.round && self.value_id == o.value_id && self.aggregated_signature == o.aggregated_signature } }
impl<Ctx: Context> Eq for CommitCertificate<Ctx> {}

pub enum CertificateError<Ctx: Context> {
    InvalidSignature(CommitSignature<Ctx>),
    UnknownValidator(CommitSignature<Ctx>),
    NotEnoughVotingPower { signed: VotingPower, total: VotingPower, expected: VotingPower },
    DuplicateVote(Ctx::Address),
}
impl<Ctx: Context> Debug for CertificateError<Ctx> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("CertificateError") } }
impl<Ctx: Context> Display for CertificateError<Ctx> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("CertificateError") } }

pub trait SigningProvider<Ctx: Context> where Self: Send + Sync {
    fn sign_vote(&self, vote: Ctx::Vote) -> SignedMessage<Ctx, Ctx::Vote>;
    fn verify_signed_vote(&self, vote: &Ctx::Vote, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn sign_proposal(&self, proposal: Ctx::Proposal) -> SignedMessage<Ctx, Ctx::Proposal>;
    fn verify_signed_proposal(&self, proposal: &Ctx::Proposal, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn sign_proposal_part(&self, proposal_part: Ctx::ProposalPart) -> SignedMessage<Ctx, Ctx::ProposalPart>;
    fn verify_signed_proposal_part(&self, proposal_part: &Ctx::ProposalPart, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn sign_vote_extension(&self, extension: Ctx::Extension) -> SignedMessage<Ctx, Ctx::Extension>;
    fn verify_signed_vote_extension(&self, extension: &Ctx::Extension, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn verify_commit_signature(&self, certificate: &CommitCertificate<Ctx>, commit_sig: &CommitSignature<Ctx>, validator: &Ctx::Validator) -> Result<VotingPower, CertificateError<Ctx>>;
    fn verify_certificate(&self, certificate: &CommitCertificate<Ctx>, validator_set: &Ctx::ValidatorSet, thresholds: ThresholdParams) -> Result<(), CertificateError<Ctx>> {
        let mut signed: VotingPower = 0;
        let mut seen: Vec<Ctx::Address> = Vec::new();
        for commit_sig in &certificate.aggregated_signature.signatures {
            if seen.contains(&commit_sig.address) { return Err(CertificateError::DuplicateVote(commit_sig.address.clone())); }
            seen.push(commit_sig.address.clone());
            let validator = match validator_set.get_by_address(&commit_sig.address) {
                Some(v) => v,
                None => return Err(CertificateError::UnknownValidator(commit_sig.clone())),
            };
            signed += self.verify_commit_signature(certificate, commit_sig, validator)?;
        }
        let total = validator_set.total_voting_power();
        if thresholds.quorum.is_met(signed, total) { Ok(()) } else {
            Err(CertificateError::NotEnoughVotingPower { signed, total, expected: thresholds.quorum.min_expected(total) })
        }
    }
}

#[derive(Clone, Debug)]
pub struct VoteSet<Ctx: Context> { pub votes: Vec<SignedVote<Ctx>> }
impl<Ctx: Context> VoteSet<Ctx> {
    pub fn new(votes: Vec<SignedVote<Ctx>>) -> Self { Self { votes } }
    pub fn len(&self) -> usize { self.votes.len() }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum ValueOrigin { Consensus, Sync }
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum TimeoutKind { Propose, Prevote, Precommit, Commit }
