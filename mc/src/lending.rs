//! Builds a lending deployment in a `World` through the real endpoints, decodes
//! the observable state and executes abstract operations.

use crate::world::*;
use num_bigint::BigUint;
use num_traits::Zero;
use std::collections::BTreeMap;

pub type B = BigUint;
pub fn b(x: u128) -> B {
    B::from(x)
}
pub fn p10(n: u32) -> B {
    B::from(10u32).pow(n)
}
pub fn ray() -> B {
    p10(27)
}
pub fn wad() -> B {
    p10(18)
}

pub const ACC: &str = "LACC-abcdef";
pub const T0: u64 = 1_700_000_000;

/// Market description.
#[derive(Clone, Debug)]
pub struct Mkt {
    pub tok: &'static str,
    pub dec: u32,
    /// price in 1/1000 USD
    pub price: u64,
    pub ltv: u64,
    pub thr: u64,
    pub bonus: u64,
    pub lfee: u64,
    pub coll: bool,
    pub bor: bool,
    pub iso: bool,
    pub ceiling_usd: u64,
    pub ffee: u64,
    pub siloed: bool,
    pub flash: bool,
    pub isob: bool,
    /// raw units, 0 = none
    pub bcap: u128,
    pub scap: u128,
    /// max, base, s1, s2, s3, mid, opt in bps
    pub rate: [u64; 7],
    pub rf: u64,
}

pub fn mkt(tok: &'static str, dec: u32, price_milli: u64) -> Mkt {
    Mkt {
        tok,
        dec,
        price: price_milli,
        ltv: 7500,
        thr: 8000,
        bonus: 500,
        lfee: 1000,
        coll: true,
        bor: true,
        iso: false,
        ceiling_usd: 0,
        ffee: 50,
        siloed: false,
        flash: true,
        isob: false,
        bcap: 0,
        scap: 0,
        rate: [30_000, 100, 500, 2_000, 10_000, 6_500, 8_000],
        rf: 2_000,
    }
}

#[derive(Clone, Debug)]
pub struct EMode {
    pub ltv: u64,
    pub thr: u64,
    pub bonus: u64,
    /// (market, collateral, borrow)
    pub assets: Vec<(usize, bool, bool)>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub mkts: Vec<Mkt>,
    pub users: usize,
    pub limits: (u8, u8),
    pub emodes: Vec<EMode>,
    pub fund: u128,
    /// a second set of surroundings the owner can switch to
    pub alt: bool,
}
impl Cfg {
    pub fn new(mkts: Vec<Mkt>, users: usize) -> Cfg {
        Cfg { mkts, users, limits: (10, 10), emodes: vec![], fund: 1_000_000_000_000_000_000_000_000_000, alt: false }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PoolObs {
    pub supplied: B,
    pub borrowed: B,
    pub revenue: B,
    pub bidx: B,
    pub sidx: B,
    pub ts: u64,
    pub cash: B,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Pos {
    pub scaled: B,
    pub thr: B,
    pub bonus: B,
    pub fees: B,
    pub ltv: B,
    pub kind: u8,
    pub nonce: u64,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct AcctObs {
    pub active: bool,
    pub isolated: bool,
    pub emode: u8,
    pub mode: u8,
    pub iso_tok: Option<String>,
    pub dep: BTreeMap<usize, Pos>,
    pub bor: BTreeMap<usize, Pos>,
    /// holder of the account NFT (user index); None: controller / burned
    pub holder: Option<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Obs {
    pub now: u64,
    pub pools: Vec<PoolObs>,
    /// keyed by account nonce; contains every account nonce ever minted
    pub accts: BTreeMap<u64, AcctObs>,
    pub iso_debt: Vec<B>,
    pub prices: Vec<B>,
    /// [user][market]
    pub bal: Vec<Vec<B>>,
    pub ctrl_bal: Vec<B>,
    pub accu_bal: Vec<B>,
    pub env_bal: Vec<B>,
    pub paused: bool,
    pub flash: bool,
    pub mk: Vec<AssetCfg>,
    pub pp: Vec<PoolParams>,
    pub emodes: BTreeMap<u8, EModeObs>,
    /// (max borrow, max supply)
    pub limits: (u8, u8),
    pub egld_usd: B,
    /// which of its two contracts the controller uses: price source,
    /// accumulator, router, pool template, safe-price view (2: neither)
    pub wired: [u8; 5],
    /// what the surroundings not in use hold
    pub spare: Spare,
    /// which code each market runs
    pub code: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Spare {
    pub prices: Vec<B>,
    pub egld_usd: B,
    pub accu: Vec<B>,
    pub env: Vec<B>,
}
pub const WIRES: [(&str, &[u8]); 5] = [
    ("setAggregator", b"price_aggregator_address"),
    ("setAccumulator", b"accumulator_address"),
    ("setSwapRouter", b"swap_router_address"),
    ("setLiquidityPoolTemplate", b"liq_pool_template_address"),
    ("setSafePriceView", b"safe_price_view"),
];

/// Runtime risk configuration of a market (all ratios in bps).
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct AssetCfg {
    pub ltv: B,
    pub thr: B,
    pub bonus: B,
    pub fees: B,
    pub coll: bool,
    pub bor: bool,
    pub emode_on: bool,
    pub iso: bool,
    pub ceiling: B,
    pub siloed: bool,
    pub flash: bool,
    pub ffee: B,
    pub isob: bool,
    pub bcap: Option<B>,
    pub scap: Option<B>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PoolParams {
    pub max: B,
    pub base: B,
    pub s1: B,
    pub s2: B,
    pub s3: B,
    pub mid: B,
    pub opt: B,
    pub rf: B,
    pub dec: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct EModeObs {
    pub ltv: B,
    pub thr: B,
    pub bonus: B,
    pub deprecated: bool,
    /// market -> (collateral, borrow)
    pub assets: BTreeMap<usize, (bool, bool)>,
}

/// A full deployment.
pub struct L {
    pub w: World,
    pub cfg: Cfg,
    pub owner: Addr,
    pub users: Vec<Addr>,
    pub ctrl: Addr,
    pub agg: Addr,
    pub env: Addr,
    pub accu: Addr,
    pub pools: Vec<Addr>,
    pub tx_log: bool,
}

pub fn ticker(tok: &str) -> String {
    let t = tok.split('-').next().unwrap();
    if t == "WEGLD" { "EGLD".into() } else { t.into() }
}

/// EGLD is stored under its short name inside nested encodings.
pub fn key_tok(tok: &str) -> &str {
    if tok == EGLD { "EGLD" } else { tok }
}
pub fn canon_tok(s: String) -> String {
    if s == "EGLD" { EGLD.into() } else { s }
}

fn oracle_dec(x: u64) -> Vec<u8> {
    a_u64(x)
}

/// bps -> RAY int
pub fn bps_ray(x: u64) -> B {
    B::from(x) * p10(23)
}

impl L {
    pub fn new(cfg: Cfg) -> L {
        let mut w = World::new();
        let owner = user("owner");
        let users: Vec<Addr> = (0..cfg.users).map(|i| user(&format!("user{i}"))).collect();
        let ctrl = sc("controller");
        let agg = sc("aggregator");
        let env = sc("env");
        let accu = sc("accumulator");
        let tmpl = sc("template");
        w.add_account(&owner);
        for u in &users {
            w.add_account(u);
        }
        w.add_contract(&env, "env", &owner);
        w.add_contract(&accu, "env", &owner);
        w.add_contract(&tmpl, "pool", &owner);
        w.set_now(T0);
        let mut l = L {
            w,
            owner: owner.clone(),
            users,
            ctrl: ctrl.clone(),
            agg: agg.clone(),
            env: env.clone(),
            accu: accu.clone(),
            pools: vec![],
            cfg: cfg.clone(),
            tx_log: false,
        };
        let r = l.w.deploy(&owner, &agg, "aggregator", vec![a_u64(1), a_addr(&owner)]);
        assert!(r.ok, "agg deploy: {}", r.msg);
        let r = l.w.call(&owner, &agg, "unpause", vec![], &[]);
        assert!(r.ok, "agg unpause: {}", r.msg);
        let r = l.w.deploy(
            &owner,
            &ctrl,
            "controller",
            vec![a_addr(&tmpl), a_addr(&agg), a_addr(&env), a_addr(&accu), a_addr(&env)],
        );
        assert!(r.ok, "controller deploy: {}", r.msg);
        // account NFT collection as after a successful issue callback
        l.w.set_storage(&ctrl, b"account".to_vec(), a_tok(ACC));
        l.w.acct_mut(&ctrl).esdt.set_roles(
            ACC.as_bytes().to_vec(),
            vec![
                b"ESDTRoleNFTCreate".to_vec(),
                b"ESDTRoleNFTBurn".to_vec(),
                b"ESDTRoleNFTUpdateAttributes".to_vec(),
            ],
        );
        // EGLD base feed
        l.set_feed("EGLD", &(wad() * 40u32));
        l.owner_ok("setTokenOracle", l.oracle_args(EGLD, 18, 3, 1, 3, u64::MAX));
        for m in &cfg.mkts {
            l.list_market(m);
        }
        l.owner_ok("setPositionLimits", vec![a_u64(cfg.limits.0 as u64), a_u64(cfg.limits.1 as u64)]);
        for e in &cfg.emodes {
            l.owner_ok("addEModeCategory", vec![a_u64(e.ltv), a_u64(e.thr), a_u64(e.bonus)]);
        }
        for (i, e) in cfg.emodes.iter().enumerate() {
            for (m, c, bo) in &e.assets {
                l.owner_ok(
                    "addAssetToEModeCategory",
                    vec![a_tok(cfg.mkts[*m].tok), a_u64(i as u64 + 1), a_bool(*c), a_bool(*bo)],
                );
            }
        }
        for u in l.users.clone() {
            for m in &cfg.mkts {
                let f = b(cfg.fund);
                l.w.mint(&u, m.tok, f);
            }
        }
        for m in &cfg.mkts {
            let f = b(cfg.fund);
            l.w.mint(&env, m.tok, f);
        }
        if cfg.alt {
            for (n, c) in [("agg2", ""), ("accu2", "env"), ("env2", "env"), ("template2", "pool2"), ("view2", "env")] {
                if c.is_empty() {
                    let r = l.w.deploy(&owner, &sc(n), "aggregator", vec![a_u64(1), a_addr(&owner)]);
                    assert!(r.ok && l.w.call(&owner, &sc(n), "unpause", vec![], &[]).ok);
                } else {
                    l.w.add_contract(&sc(n), c, &owner);
                }
            }
            // cheaper than the first: debts that were safe no longer are
            l.set_feed_at(&sc("agg2"), "EGLD", &(wad() * 30u32));
            for m in &cfg.mkts {
                l.w.mint(&sc("env2"), m.tok, b(cfg.fund));
                if ticker(m.tok) != "EGLD" {
                    l.set_feed_at(&sc("agg2"), &ticker(m.tok), &(B::from(m.price) * p10(14) * 9u32));
                }
            }
        }
        l
    }
    /// the contract of each kind, first and second
    pub fn surroundings(&self, what: usize, alt: u8) -> Addr {
        match (what, alt) {
            (_, 2) => Addr::zero(),
            (_, 3) => self.users[0].clone(),
            (0, 0) => self.agg.clone(),
            (0, _) => sc("agg2"),
            (1, 0) => self.accu.clone(),
            (1, _) => sc("accu2"),
            (3, 0) => sc("template"),
            (3, _) => sc("template2"),
            (_, 0) => self.env.clone(),
            (2, _) => sc("env2"),
            _ => sc("view2"),
        }
    }
    fn wired(&self) -> [u8; 5] {
        let mut v = [0u8; 5];
        if self.cfg.alt {
            for (i, (_, k)) in WIRES.iter().enumerate() {
                let a = self.w.get_storage(&self.ctrl, k);
                v[i] = (0..2u8).find(|x| a == a_addr(&self.surroundings(i, *x))).unwrap_or(2);
            }
        }
        v
    }
    /// the contract in use
    pub fn using(&self, what: usize) -> Addr {
        self.surroundings(what, (self.wired()[what] == 1) as u8)
    }

    /// token, decimals, method, type, source, max stale
    pub fn oracle_args(&self, tok: &str, dec: u32, method: u64, ttype: u64, source: u64, stale: u64) -> Vec<Vec<u8>> {
        vec![
            a_tok(tok),
            oracle_dec(dec as u64),
            a_addr(&self.env),
            a_u64(method),
            a_u64(ttype),
            a_u64(source),
            a_u64(200),
            a_u64(500),
            a_u64(stale),
        ]
    }

    pub fn owner_ok(&mut self, f: &str, args: Vec<Vec<u8>>) -> Res {
        let (o, c) = (self.owner.clone(), self.ctrl.clone());
        let r = self.w.call(&o, &c, f, args, &[]);
        assert!(r.ok, "{f}: {}", r.msg);
        r
    }

    pub fn set_feed(&mut self, ticker: &str, price_wad: &B) {
        let a = self.using(0);
        self.set_feed_at(&a, ticker, price_wad);
    }
    fn set_feed_at(&mut self, a: &Addr, ticker: &str, price_wad: &B) {
        let mut key = b"rounds".to_vec();
        key.extend(n_bytes(ticker.as_bytes()));
        key.extend(n_bytes(b"USD"));
        let mut v = n_big(price_wad);
        v.extend(self.w.now().to_be_bytes());
        v.extend(1u32.to_be_bytes());
        self.w.set_storage(a, key, v);
    }
    pub fn feed(&self, ticker: &str) -> B {
        self.feed_at(&self.using(0), ticker)
    }
    fn feed_at(&self, a: &Addr, ticker: &str) -> B {
        let mut key = b"rounds".to_vec();
        key.extend(n_bytes(ticker.as_bytes()));
        key.extend(n_bytes(b"USD"));
        let v = self.w.get_storage(a, &key);
        if v.is_empty() {
            B::zero()
        } else {
            Dec::new(&v).big()
        }
    }

    pub fn list_market(&mut self, m: &Mkt) {
        if m.tok != EGLD {
            if ticker(m.tok) != "EGLD" {
                self.set_feed(&ticker(m.tok), &(B::from(m.price) * p10(15)));
            }
            let env = self.env.clone();
            self.w.set_storage(&env, b"m_first".to_vec(), a_tok(m.tok));
            self.w.set_storage(&env, b"m_second".to_vec(), a_tok("WEGLD-ffffff"));
            self.w.set_storage(&env, b"state".to_vec(), vec![1]);
            self.owner_ok("setTokenOracle", self.oracle_args(m.tok, m.dec, 3, 1, 1, u64::MAX));
        }
        let paddr = sc(&format!("pool{}", self.pools.len()));
        let n = self.w.acct(&self.ctrl).nonce;
        let c = self.ctrl.clone();
        // the sub-deploy address generator keys on the deploying account's nonce
        for k in 0..4 {
            self.w.state_mut().new_addresses.insert((c.clone(), n + k), paddr.clone());
        }
        let r = self.owner_ok("createLiquidityPool", Self::pool_args(m));
        let got = Addr::new(r.vals[0].as_slice().try_into().expect("pool address"));
        self.pools.push(got);
    }
    pub fn pool_args(m: &Mkt) -> Vec<Vec<u8>> {
        let mut a = vec![a_tok(m.tok)];
        for r in m.rate {
            a.push(a_big(&bps_ray(r)));
        }
        a.push(a_u64(m.rf));
        a.push(a_u64(m.ltv));
        a.push(a_u64(m.thr));
        a.push(a_u64(m.bonus));
        a.push(a_u64(m.lfee));
        a.push(a_bool(m.coll));
        a.push(a_bool(m.bor));
        a.push(a_bool(m.iso));
        a.push(a_big(&(b(m.ceiling_usd as u128) * wad())));
        a.push(a_u64(m.ffee));
        a.push(a_bool(m.siloed));
        a.push(a_bool(m.flash));
        a.push(a_bool(m.isob));
        a.push(a_u64(m.dec as u64));
        a.push(a_big(&b(m.bcap)));
        a.push(a_big(&b(m.scap)));
        a
    }

    pub fn tok(&self, i: usize) -> &'static str {
        self.cfg.mkts[i].tok
    }
    pub fn mkt_of(&self, tok: &str) -> usize {
        self.cfg.mkts.iter().position(|m| m.tok == tok).expect("market")
    }
    pub fn price_of(&self, i: usize) -> B {
        self.feed(&ticker(self.tok(i)))
    }

    fn mapper_keys(nonce: u64, kind: u8) -> Vec<u8> {
        let mut k = b"positions".to_vec();
        k.extend(nonce.to_be_bytes());
        k.push(kind);
        k
    }

    fn positions(&self, nonce: u64, kind: u8) -> BTreeMap<usize, Pos> {
        let mut out = BTreeMap::new();
        let base = Self::mapper_keys(nonce, kind);
        for (i, m) in self.cfg.mkts.iter().enumerate() {
            let mut k = base.clone();
            k.extend(b".mapped");
            k.extend(n_bytes(key_tok(m.tok).as_bytes()));
            let v = self.w.get_storage(&self.ctrl, &k);
            if v.is_empty() {
                continue;
            }
            out.insert(i, Self::dec_pos(&v).1);
        }
        out
    }
    pub fn dec_pos(v: &[u8]) -> (String, Pos) {
        let mut d = Dec::new(v);
        let kind = d.u8();
        let tok = canon_tok(d.string());
        let scaled = d.dec().0;
        let nonce = d.u64();
        let thr = d.dec().0;
        let bonus = d.dec().0;
        let fees = d.dec().0;
        let ltv = d.dec().0;
        (tok, Pos { scaled, thr, bonus, fees, ltv, kind, nonce })
    }

    pub fn account_nonce(&self) -> u64 {
        top_u64(&self.w.get_storage(&self.ctrl, b"account_nonce"))
    }

    pub fn pool_obs(&self, i: usize) -> PoolObs {
        let p = &self.pools[i];
        let g = |k: &str| top_dec(&self.w.get_storage(p, k.as_bytes())).0;
        PoolObs {
            supplied: g("supplied"),
            borrowed: g("borrowed"),
            revenue: g("revenue"),
            bidx: g("borrow_index"),
            sidx: g("supply_index"),
            ts: top_u64(&self.w.get_storage(p, b"last_timestamp")),
            cash: self.w.balance(p, self.tok(i)),
        }
    }

    pub fn iso_debt_raw(&self, i: usize) -> (B, u32) {
        let mut k = b"isolated_asset_debt_usd".to_vec();
        k.extend(n_bytes(key_tok(self.tok(i)).as_bytes()));
        top_dec(&self.w.get_storage(&self.ctrl, &k))
    }

    pub fn obs(&self) -> Obs {
        let nm = self.cfg.mkts.len();
        let mut accts = BTreeMap::new();
        for n in 1..=self.account_nonce() {
            let mut kk = b"account_attributes".to_vec();
            kk.extend(n.to_be_bytes());
            let at = self.w.get_storage(&self.ctrl, &kk);
            let mut ki = b"accounts.index".to_vec();
            ki.extend(n.to_be_bytes());
            let active = !self.w.get_storage(&self.ctrl, &ki).is_empty();
            let mut a = AcctObs { active, ..Default::default() };
            if !at.is_empty() {
                let mut d = Dec::new(&at);
                a.isolated = d.u8() != 0;
                a.emode = d.u8();
                a.mode = d.u8();
                if d.u8() != 0 {
                    a.iso_tok = Some(canon_tok(d.string()));
                }
            }
            a.dep = self.positions(n, 1);
            a.bor = self.positions(n, 2);
            a.holder = self
                .users
                .iter()
                .position(|u| !bal(self.w.state(), u, ACC, n).is_zero());
            accts.insert(n, a);
        }
        let wired = self.wired();
        let (accu, env) = (self.using(1), self.using(2));
        let mut spare = Spare::default();
        let mut code = vec![0; nm];
        if self.cfg.alt {
            let o: Vec<Addr> = (0..3).map(|i| self.surroundings(i, (wired[i] != 1) as u8)).collect();
            spare = Spare {
                prices: (0..nm).map(|i| self.feed_at(&o[0], &ticker(self.tok(i)))).collect(),
                egld_usd: self.feed_at(&o[0], "EGLD"),
                accu: (0..nm).map(|i| self.w.balance(&o[1], self.tok(i))).collect(),
                env: (0..nm).map(|i| self.w.balance(&o[2], self.tok(i))).collect(),
            };
            for (i, c) in code.iter_mut().enumerate() {
                let p = self.w.acct(&self.pools[i]).contract_path.clone().unwrap_or_default();
                *c = [&b"pool"[..], b"pool2"].iter().position(|x| *x == &p[..]).unwrap_or(2) as u8;
            }
        }
        Obs {
            wired,
            spare,
            code,
            now: self.w.now(),
            pools: (0..nm).map(|i| self.pool_obs(i)).collect(),
            accts,
            iso_debt: (0..nm).map(|i| self.iso_debt_raw(i).0).collect(),
            prices: (0..nm).map(|i| self.price_of(i)).collect(),
            bal: self
                .users
                .iter()
                .map(|u| (0..nm).map(|i| self.w.balance(u, self.tok(i))).collect())
                .collect(),
            ctrl_bal: (0..nm).map(|i| self.w.balance(&self.ctrl, self.tok(i))).collect(),
            accu_bal: (0..nm).map(|i| self.w.balance(&accu, self.tok(i))).collect(),
            env_bal: (0..nm).map(|i| self.w.balance(&env, self.tok(i))).collect(),
            paused: !self.w.get_storage(&self.ctrl, b"pause_module:paused").is_empty(),
            flash: !self.w.get_storage(&self.ctrl, b"flash_loan_ongoing").is_empty(),
            mk: (0..nm).map(|i| self.asset_cfg(i)).collect(),
            pp: (0..nm).map(|i| self.pool_params(i)).collect(),
            emodes: self.emodes(),
            limits: self.limits(),
            egld_usd: self.feed("EGLD"),
        }
    }

    fn limits(&self) -> (u8, u8) {
        // struct PositionLimits { max_borrow_positions, max_supply_positions }
        let v = self.w.get_storage(&self.ctrl, b"position_limits");
        if v.len() < 2 { (0, 0) } else { (v[0], v[1]) }
    }
    fn asset_cfg(&self, i: usize) -> AssetCfg {
        let mut k = b"asset_config".to_vec();
        k.extend(n_bytes(key_tok(self.tok(i)).as_bytes()));
        let v = self.w.get_storage(&self.ctrl, &k);
        if v.is_empty() {
            return AssetCfg::default();
        }
        let mut d = Dec::new(&v);
        AssetCfg {
            ltv: d.dec().0,
            thr: d.dec().0,
            bonus: d.dec().0,
            fees: d.dec().0,
            coll: d.u8() != 0,
            bor: d.u8() != 0,
            emode_on: d.u8() != 0,
            iso: d.u8() != 0,
            ceiling: d.dec().0,
            siloed: d.u8() != 0,
            flash: d.u8() != 0,
            ffee: d.dec().0,
            isob: d.u8() != 0,
            bcap: if d.u8() != 0 { Some(d.big()) } else { None },
            scap: if d.u8() != 0 { Some(d.big()) } else { None },
        }
    }
    fn pool_params(&self, i: usize) -> PoolParams {
        let v = self.w.get_storage(&self.pools[i], b"params");
        let mut d = Dec::new(&v);
        PoolParams {
            max: d.dec().0,
            base: d.dec().0,
            s1: d.dec().0,
            s2: d.dec().0,
            s3: d.dec().0,
            mid: d.dec().0,
            opt: d.dec().0,
            rf: d.dec().0,
            dec: {
                let _ = d.string();
                d.u32()
            },
        }
    }
    fn emodes(&self) -> BTreeMap<u8, EModeObs> {
        let mut out = BTreeMap::new();
        for id in 1..=8u8 {
            let mut k = b"e_mode_category.mapped".to_vec();
            k.push(id);
            let v = self.w.get_storage(&self.ctrl, &k);
            if v.is_empty() {
                continue;
            }
            let mut d = Dec::new(&v);
            let _ = d.u8();
            let mut e = EModeObs {
                ltv: d.dec().0,
                thr: d.dec().0,
                bonus: d.dec().0,
                deprecated: d.u8() != 0,
                ..Default::default()
            };
            for (i, m) in self.cfg.mkts.iter().enumerate() {
                let mut k = b"e_mode_assets".to_vec();
                k.push(id);
                k.extend(b".mapped");
                k.extend(n_bytes(key_tok(m.tok).as_bytes()));
                let v = self.w.get_storage(&self.ctrl, &k);
                if v.is_empty() {
                    continue;
                }
                e.assets.insert(i, (v[0] != 0, v[1] != 0));
            }
            out.insert(id, e);
        }
        out
    }

    /// Hash of the complete observable chain state (every account's storage and
    /// balances plus the block time), excluding account nonces.
    pub fn state_hash(&self) -> u128 {
        hash_world(&self.w)
    }

    // ---------- controller queries ----------
    pub fn q(&mut self, f: &str, args: Vec<Vec<u8>>) -> Res {
        let c = self.ctrl.clone();
        self.w.query(&c, f, args)
    }
    pub fn qp(&mut self, i: usize, f: &str) -> B {
        let p = self.pools[i].clone();
        let r = self.w.query(&p, f, vec![]);
        assert!(r.ok, "pool view {f}: {}", r.msg);
        top_dec(&r.vals[0]).0
    }
}

fn mix(seed: u128, data: &[u8]) -> u128 {
    // FNV-1a 128 followed by a multiply-xorshift finaliser
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d ^ seed.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    for x in data {
        h ^= *x as u128;
        h = h.wrapping_mul(0x0000000001000000000000000000013B);
    }
    h ^= h >> 61;
    h = h.wrapping_mul(0xD6E8FEB86659FD93A5A3564E27F886D9);
    h ^ (h >> 67)
}

/// digest of the complete chain state
pub fn hash_world(w: &World) -> u128 {
    let st = w.state();
    let mut acc: u128 = mix(0xA5A5, &st.current_block_info.block_timestamp.to_be_bytes());
    for (ad, d) in &st.accounts {
        let ah = mix(1, ad.as_bytes());
        for (k, v) in &d.storage {
            let h = mix(ah, k);
            acc = acc.wrapping_add(mix(h, v));
        }
        let h = mix(ah ^ 7, &d.egld_balance.to_bytes_be());
        acc = acc.wrapping_add(h);
        if let Some(p) = &d.contract_path {
            acc = acc.wrapping_add(mix(ah ^ 11, p));
        }
        for (t, e) in d.esdt.iter() {
            for i in e.instances.get_instances().values() {
                let mut h = mix(ah ^ 9, t);
                h = mix(h, &i.nonce.to_be_bytes());
                acc = acc.wrapping_add(mix(h, &i.balance.to_bytes_be()));
            }
        }
    }
    acc
}

