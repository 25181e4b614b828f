//! A closed blockchain world: the real contracts of /repo executed by the
//! MultiversX debugger VM, with cheap snapshot / restore.

use multiversx_sc_scenario::multiversx_chain_vm as vm;
use multiversx_sc_scenario::multiversx_sc::contract_base::CallableContractBuilder;
use multiversx_sc_scenario::scenario::run_vm::{ExecutorConfig, ScenarioVMRunner};
use multiversx_sc_scenario::executor::debug::ContractContainer;
use multiversx_sc_scenario::DebugApi;
use num_bigint::BigUint;
use std::sync::Arc;
use vm::blockchain::state::{AccountData, BlockchainState};
use vm::host::context::{TxInput, TxTokenTransfer};
use vm::host::execution;
use vm::host::runtime::{RuntimeInstanceCallLambdaDefault, RuntimeRef};
use vm::types::{VMAddress, VMCodeMetadata};

pub type Snap = Arc<BlockchainState>;
pub type Addr = VMAddress;
pub type State = BlockchainState;
pub type Account = AccountData;

/// contract executions performed by this process (calls, queries, deployments)
pub static EXECS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn count() {
    EXECS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

pub const EGLD: &str = "EGLD-000000";

#[derive(Clone, Debug)]
pub struct Res {
    pub ok: bool,
    pub msg: String,
    pub vals: Vec<Vec<u8>>,
    pub logs: Vec<(Addr, String, Vec<Vec<u8>>, Vec<Vec<u8>>)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pay {
    pub token: String,
    pub nonce: u64,
    pub amount: BigUint,
}
pub fn pay(token: &str, amount: impl Into<BigUint>) -> Pay {
    Pay { token: token.into(), nonce: 0, amount: amount.into() }
}
pub fn nft(token: &str, nonce: u64) -> Pay {
    Pay { token: token.into(), nonce, amount: 1u32.into() }
}

pub struct World {
    pub runner: ScenarioVMRunner,
    pub rt: RuntimeRef,
    pub txs: u64,
}

pub fn user(name: &str) -> Addr {
    let mut a = [0u8; 32];
    a[0] = 0xAA;
    let b = name.as_bytes();
    a[1..1 + b.len()].copy_from_slice(b);
    VMAddress::new(a)
}
pub fn sc(name: &str) -> Addr {
    let mut a = [0u8; 32];
    a[8] = 5;
    let b = name.as_bytes();
    a[10..10 + b.len()].copy_from_slice(b);
    VMAddress::new(a)
}

fn reg<B: CallableContractBuilder>(r: &ScenarioVMRunner, code: &str, b: B) {
    r.contract_map_ref.lock().register_contract(
        code.as_bytes().to_vec(),
        ContractContainer::new(b.new_contract_obj::<DebugApi>(), None, false),
    );
}

impl World {
    pub fn new() -> World {
        let mut runner = ScenarioVMRunner::new();
        runner.executor_config = ExecutorConfig::Debugger;
        reg(&runner, "controller", controller::ContractBuilder);
        reg(&runner, "pool", liquidity_layer::ContractBuilder);
        reg(&runner, "pool2", liquidity_layer::ContractBuilder);
        reg(&runner, "aggregator", price_aggregator::ContractBuilder);
        reg(&runner, "flash_mock", flash_mock::ContractBuilder);
        reg(&runner, "env", crate::env_mock::ContractBuilder);
        reg(&runner, "probe", crate::probe::ContractBuilder);
        let rt = runner.create_debugger_runtime();
        World { runner, rt, txs: 0 }
    }

    pub fn state(&self) -> &BlockchainState {
        &self.runner.blockchain_mock.state
    }
    pub fn state_mut(&mut self) -> &mut BlockchainState {
        self.runner.blockchain_mock.state.mut_state()
    }
    pub fn snapshot(&self) -> Snap {
        Arc::new(self.state().clone())
    }
    pub fn restore(&mut self, s: &Snap) {
        *self.state_mut() = (**s).clone();
    }

    pub fn add_account(&mut self, a: &Addr) {
        self.state_mut()
            .accounts
            .entry(a.clone())
            .or_insert_with(|| AccountData::new_empty(a.clone()));
    }
    pub fn add_contract(&mut self, a: &Addr, code: &str, owner: &Addr) {
        let mut d = AccountData::new_empty(a.clone());
        d.contract_path = Some(code.as_bytes().to_vec());
        d.contract_owner = Some(owner.clone());
        d.code_metadata = VMCodeMetadata::all();
        self.state_mut().accounts.insert(a.clone(), d);
    }
    pub fn acct(&self, a: &Addr) -> &AccountData {
        self.state().accounts.get(a).expect("account")
    }
    pub fn acct_mut(&mut self, a: &Addr) -> &mut AccountData {
        self.state_mut().accounts.get_mut(a).expect("account")
    }
    pub fn set_storage(&mut self, a: &Addr, key: Vec<u8>, val: Vec<u8>) {
        let st = &mut self.acct_mut(a).storage;
        if val.is_empty() {
            st.remove(&key);
        } else {
            st.insert(key, val);
        }
    }
    pub fn get_storage(&self, a: &Addr, key: &[u8]) -> Vec<u8> {
        self.acct(a).storage.get(key).cloned().unwrap_or_default()
    }
    pub fn mint(&mut self, a: &Addr, token: &str, amount: impl Into<BigUint>) {
        let amount: BigUint = amount.into();
        self.add_account(a);
        let acc = self.acct_mut(a);
        if token == EGLD {
            acc.egld_balance += amount;
        } else {
            acc.esdt
                .increase_balance(token.as_bytes().to_vec(), 0, &amount, Default::default());
        }
    }
    /// a non-fungible token of any collection, with chosen attributes
    pub fn mint_nft(&mut self, a: &Addr, token: &str, nonce: u64, attributes: Vec<u8>) {
        let meta = vm::blockchain::state::EsdtInstanceMetadata { attributes, ..Default::default() };
        self.acct_mut(a)
            .esdt
            .increase_balance(token.as_bytes().to_vec(), nonce, &BigUint::from(1u32), meta);
    }
    pub fn balance(&self, a: &Addr, token: &str) -> BigUint {
        bal(self.state(), a, token, 0)
    }
    pub fn now(&self) -> u64 {
        self.state().current_block_info.block_timestamp
    }
    pub fn set_now(&mut self, t: u64) {
        self.state_mut().current_block_info.block_timestamp = t;
    }

    fn input(from: &Addr, to: &Addr, func: &str, args: Vec<Vec<u8>>, pays: &[Pay]) -> TxInput {
        let mut egld = BigUint::default();
        let mut esdt = Vec::new();
        if pays.len() == 1 && pays[0].token == EGLD {
            egld = pays[0].amount.clone();
        } else {
            for p in pays {
                esdt.push(TxTokenTransfer {
                    token_identifier: p.token.as_bytes().to_vec(),
                    nonce: p.nonce,
                    value: p.amount.clone(),
                });
            }
        }
        TxInput {
            from: from.clone(),
            to: to.clone(),
            egld_value: egld,
            esdt_values: esdt,
            func_name: func.into(),
            args,
            gas_limit: 5_000_000_000_000,
            ..Default::default()
        }
    }

    fn conv(r: vm::host::context::TxResult) -> Res {
        Res {
            ok: r.result_status.is_success(),
            msg: r.result_message,
            vals: r.result_values,
            logs: r
                .result_logs
                .into_iter()
                .map(|l| (l.address, l.endpoint.as_str().to_string(), l.topics, l.data))
                .collect(),
        }
    }

    pub fn call(&mut self, from: &Addr, to: &Addr, func: &str, args: Vec<Vec<u8>>, pays: &[Pay]) -> Res {
        self.txs += 1;
        count();
        let _busy = crate::crash::busy(func, &args);
        let input = Self::input(from, to, func, args, pays);
        let r = execution::commit_call_with_async_and_callback(
            input,
            &mut self.runner.blockchain_mock.state,
            &self.rt,
            RuntimeInstanceCallLambdaDefault,
        );
        Self::conv(r)
    }
    pub fn query(&mut self, to: &Addr, func: &str, args: Vec<Vec<u8>>) -> Res {
        count();
        let _busy = crate::crash::busy(func, &args);
        let mut input = Self::input(to, to, func, args, &[]);
        input.readonly = true;
        let r = execution::execute_query(
            input,
            &mut self.runner.blockchain_mock.state,
            &self.rt,
            RuntimeInstanceCallLambdaDefault,
        );
        Self::conv(r)
    }
    pub fn deploy(&mut self, from: &Addr, addr: &Addr, code: &str, args: Vec<Vec<u8>>) -> Res {
        count();
        let _busy = crate::crash::busy("init", &args);
        let nonce = self.acct(from).nonce;
        self.state_mut()
            .new_addresses
            .insert((from.clone(), nonce), addr.clone());
        let input = Self::input(from, addr, "init", args, &[]);
        let (a, r) = execution::commit_deploy(
            input,
            code.as_bytes(),
            VMCodeMetadata::all(),
            &mut self.runner.blockchain_mock.state,
            &self.rt,
            RuntimeInstanceCallLambdaDefault,
        );
        assert_eq!(&a, addr);
        Self::conv(r)
    }
}

pub fn bal(st: &BlockchainState, a: &Addr, token: &str, nonce: u64) -> BigUint {
    match st.accounts.get(a) {
        None => BigUint::default(),
        Some(acc) => {
            if token == EGLD {
                acc.egld_balance.clone()
            } else {
                acc.esdt.get_esdt_balance(token.as_bytes(), nonce)
            }
        }
    }
}

// ---- argument encoding (MultiversX top encoding) ----
pub fn a_big(x: &BigUint) -> Vec<u8> {
    if x == &BigUint::default() { vec![] } else { x.to_bytes_be() }
}
pub fn a_u64(x: u64) -> Vec<u8> {
    a_big(&BigUint::from(x))
}
pub fn a_bool(x: bool) -> Vec<u8> {
    if x { vec![1] } else { vec![] }
}
pub fn a_str(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}
pub fn a_tok(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}
pub fn a_addr(x: &Addr) -> Vec<u8> {
    x.as_bytes().to_vec()
}
/// nested (length-prefixed) bytes
pub fn n_bytes(x: &[u8]) -> Vec<u8> {
    let mut v = (x.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(x);
    v
}
pub fn n_big(x: &BigUint) -> Vec<u8> {
    n_bytes(&a_big(x))
}
/// EgldOrEsdtTokenPayment: nested token id, u64 nonce, nested amount
pub fn a_payment(token: &str, amount: &BigUint) -> Vec<u8> {
    let t = if token == EGLD { "EGLD" } else { token };
    let mut v = n_bytes(t.as_bytes());
    v.extend_from_slice(&0u64.to_be_bytes());
    v.extend(n_big(amount));
    v
}

/// Sequential decoder for nested-encoded data.
pub struct Dec<'a> {
    pub b: &'a [u8],
}
impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b }
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let (x, y) = self.b.split_at(n);
        self.b = y;
        x
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_be_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_be_bytes(self.take(8).try_into().unwrap())
    }
    pub fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
    pub fn string(&mut self) -> String {
        String::from_utf8_lossy(self.bytes()).to_string()
    }
    pub fn big(&mut self) -> BigUint {
        BigUint::from_bytes_be(self.bytes())
    }
    /// ManagedDecimal<NumDecimals>: big uint + u32 scale
    pub fn dec(&mut self) -> (BigUint, u32) {
        let v = self.big();
        let s = self.u32();
        (v, s)
    }
}
pub fn top_dec(b: &[u8]) -> (BigUint, u32) {
    if b.is_empty() {
        return (BigUint::default(), 0);
    }
    Dec::new(b).dec()
}
pub fn top_big(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}
pub fn top_u64(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for x in b {
        v = (v << 8) | *x as u64;
    }
    v
}
