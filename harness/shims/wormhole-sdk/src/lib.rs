//! Offline stand-in for the two items of the `wormhole-sdk` git dependency that
//! the `wormhole-governance` program uses (the git dependency cannot be fetched
//! here).  Values are taken from the published wormhole-sdk.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Chain(u16);

#[allow(non_upper_case_globals)]
impl Chain {
    pub const Any: Chain = Chain(0);
    pub const Solana: Chain = Chain(1);
    pub const Ethereum: Chain = Chain(2);
}

impl From<u16> for Chain {
    fn from(v: u16) -> Self {
        Chain(v)
    }
}

impl From<Chain> for u16 {
    fn from(c: Chain) -> u16 {
        c.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Address(pub [u8; 32]);

pub const GOVERNANCE_EMITTER: Address = Address([
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4,
]);
