//! The concrete, replayable history of one run. A trace is everything the executor needs.
use serde::{Deserialize, Serialize};

pub type Who = usize;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ref {
    /// The order created by the placement carrying this tag; `dt` shifts the tick, `di` the id.
    Tag(u32),
    Off { tag: u32, dt: i64, di: i64 },
    Raw { tick: i64, id: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AuthMsg {
    TransferAdmin(Who),
    CancelAdminTransfer,
    RejectAdminTransfer,
    ClaimAdmin,
    RenounceAdminship,
    OfferModerator(Who),
    RejectModeratorOffer,
    ClaimModerator,
    SetActive(bool),
    /// Fee in 1e-18 units.
    SetMakerFee(u128),
    SetMakerFeeRecipient(Who),
}

/// Denominations are indices into `Config::denoms`: 0 base, 1 quote, others foreign.
pub type Coins = Vec<(u8, u128)>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Msg {
    Place { tag: u32, tick: i64, bid: bool, qty: u128, bounty: Option<u128>, funds: Coins },
    Cancel { r: Ref, funds: Coins },
    Claim { r: Ref, funds: Coins },
    Batch { rs: Vec<Ref>, funds: Coins },
    Auth(AuthMsg),
    /// A swap routed by the pool module. `bid`: quote in, base out.
    Swap { d_in: u8, d_out: u8, amt: u128, min_out: u128, fee: u128, target: Option<i64> },
    GovTransferAdmin(Who),
    GovRemoveAdmin,
    GovSetActive(bool),
    /// Plain transfer to the contract.
    Donate { denom: u8, amt: u128 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// Abort at the op-th storage access of the transaction.
    OutOfGas { op: u64 },
    /// The nth transfer made by the contract in this transaction fails.
    BankFail { nth: u32 },
    /// The node crashes at the op-th access of this transaction, restarts and re-executes the block.
    Crash { op: u64 },
    /// A token hook calls back into the book during the nth transfer.
    Reenter { nth: u32, who: Who, msg: Box<Msg>, before: bool, propagate: bool },
    /// The node executes the transaction once as a simulation and discards it.
    DryRun,
    /// The node executes it in a proposed block with a later header that is then not agreed on.
    Ahead { ms: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tx {
    pub from: Who,
    pub msgs: Vec<Msg>,
    /// true: a proxy contract catches the failure of each message on its own.
    #[serde(default, skip_serializing_if = "is_false")]
    pub catch: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    /// Resubmission of a message whose first attempt was made to fail.
    #[serde(default, skip_serializing_if = "is_false")]
    pub retry: bool,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub note: String,
}
fn none(x: &u128) -> bool {
    *x == 0
}
fn plain(x: &u8) -> bool {
    *x == 0
}
fn is_false(b: &bool) -> bool {
    !*b
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Supply {
    Amount(u128),
    ContractErr,
    SystemErr,
    Garbage,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// Instantiates a fresh book (discarding any earlier one).
    Create { base: String, quote: String, s_base: Supply, s_quote: Supply, oog: Option<u64> },
    Block { dt_ms: u64, txs: Vec<Tx> },
    Block_ { who: Who, on: bool },
    Freeze { denom: u8, on: bool },
    /// Code migration; records selected by `mask` are first rewritten in the previous format.
    Upgrade { mask: u64 },
    /// Quote a full swap, then perform it in a discarded execution and compare.
    Quote {
        bid: bool,
        amt: u128,
        /// In 1e-18 units.
        #[serde(default, skip_serializing_if = "none")]
        fee: u128,
        /// 0: the pair's denominations; 1: the input's twice; 2: foreign input; 3: foreign output.
        #[serde(default, skip_serializing_if = "plain")]
        odd: u8,
    },
    /// Query sweep; parameters derived from the salt.
    Sweep { salt: u64 },
    /// Faults stop; every order is wound up in an order derived from the salt.
    Drain { salt: u64 },
    /// Further nodes execute the same blocks; compare.
    Replica,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Config {
    pub base: String,
    pub quote: String,
    pub users: usize,
    pub rich: u128,
    /// What the first user holds of each denomination, if more than the others.
    #[serde(default)]
    pub whale: u128,
    /// Full state checks every n blocks (0: only at the end).
    pub inv_every: u32,
    /// Check work bounds.
    pub gas: bool,
    /// Check the touched ticks only after every n-th message (0: after each).
    #[serde(default)]
    pub every: u32,
    /// Varies what a block header and a transaction's surroundings look like (0: plain).
    #[serde(default)]
    pub env: u64,
    /// Another book on the same node sees variations of every n-th block's messages (0: none).
    #[serde(default)]
    pub sibling: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trace {
    pub property: String,
    pub run_seed: u64,
    pub cfg: Config,
    pub steps: Vec<Step>,
    #[serde(default)]
    pub violation: Option<Violation>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub tag: String,
    pub props: Vec<String>,
    pub detail: String,
    pub step: usize,
}
