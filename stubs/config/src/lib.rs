use std::time::Duration;
#[derive(Copy, Clone, Debug, Default)]
pub struct TimeoutConfig {
    pub timeout_propose: Duration, pub timeout_propose_delta: Duration, pub timeout_prevote: Duration, pub timeout_prevote_delta: Duration,
    pub timeout_precommit: Duration, pub timeout_precommit_delta: Duration, pub timeout_commit: Duration, pub timeout_step: Duration,
}
#[derive(Copy, Clone, Debug, Default)]
pub struct ValueSyncConfig {
    pub enabled: bool, pub status_update_interval: Duration, pub request_timeout: Duration, pub max_request_size: usize, pub max_response_size: usize,
}
