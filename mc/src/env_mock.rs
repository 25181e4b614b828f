//! One stand-in contract for every external the lending protocol talks to:
//! DEX pairs, safe-price views, liquid-staking contracts, swap router, revenue
//! accumulator and flash-loan receivers.  Its answers are plain storage values
//! that the explorer sets, i.e. the environment is owned by the checker.

multiversx_sc::imports!();

fn dec_or_die<M: ManagedTypeApi + multiversx_sc::api::ErrorApi, T: TopDecode>(b: ManagedBuffer<M>) -> T {
    match T::top_decode(b) {
        Ok(t) => t,
        Err(_) => multiversx_sc::contract_base::ErrorHelper::<M>::signal_error_with_message("mock: bad argument"),
    }
}

#[multiversx_sc::contract]
pub trait EnvMock {
    #[init]
    fn init(&self) {}

    #[view(getFirstTokenId)]
    fn first_token_id(&self) -> TokenIdentifier {
        self.first().get()
    }
    #[view(getSecondTokenId)]
    fn second_token_id(&self) -> TokenIdentifier {
        self.second().get()
    }
    #[view(getPairFirstTokenId)]
    fn pair_first(&self, _id: usize) -> TokenIdentifier {
        self.first().get()
    }
    #[view(getPairSecondTokenId)]
    fn pair_second(&self, _id: usize) -> TokenIdentifier {
        self.second().get()
    }
    #[view(getReservesAndTotalSupply)]
    fn reserves_and_supply(&self) -> MultiValue3<BigUint, BigUint, BigUint> {
        (self.res_a().get(), self.res_b().get(), self.lp_supply().get()).into()
    }
    /// xExchange view: (pair, offset, payment); OneDex: (in, out, offset, payment).
    #[view(getSafePriceByTimestampOffset)]
    fn safe_price(&self, args: MultiValueEncoded<ManagedBuffer>) -> EsdtTokenPayment {
        let v = args.to_vec();
        let n = v.len();
        let payment: EsdtTokenPayment = dec_or_die(v.get(n - 1).clone_value());
        let offset: u64 = dec_or_die(v.get(n - 2).clone_value());
        require!(offset == 900, "mock: unexpected TWAP window");
        let out_tok = self.sp_out(&payment.token_identifier).get();
        if n == 4 {
            let from: TokenIdentifier = dec_or_die(v.get(0).clone_value());
            let to: TokenIdentifier = dec_or_die(v.get(1).clone_value());
            require!(from == payment.token_identifier && to == out_tok, "mock: wrong direction");
        } else if !self.sp_pair(&payment.token_identifier).is_empty() {
            let pair: ManagedAddress = dec_or_die(v.get(0).clone_value());
            require!(pair == self.sp_pair(&payment.token_identifier).get(), "mock: wrong pair");
        }
        let rate = self.sp_rate(&payment.token_identifier).get();
        let unit = self.sp_unit(&payment.token_identifier).get();
        // exact when payment is one whole token
        let amount = payment.amount * rate / unit;
        EsdtTokenPayment::new(out_tok, 0, amount)
    }
    #[view(getExchangeRate)]
    fn exchange_rate(&self) -> BigUint {
        self.rate().get()
    }
    #[view(getTokenPrice)]
    fn token_price(&self) -> BigUint {
        self.rate().get()
    }
    #[view(getMainToken)]
    fn main_token(&self) -> TokenIdentifier {
        self.first().get()
    }

    #[payable]
    #[endpoint(deposit)]
    fn deposit(&self) {}

    /// Plain sink so that the mock can also be funded.
    #[payable]
    #[endpoint(fund)]
    fn fund(&self) {}

    /// Swap router: keeps what it is sent, returns the listed payments.
    #[payable]
    #[endpoint(xo)]
    fn xo(&self, outs: MultiValueEncoded<MultiValue2<EgldOrEsdtTokenIdentifier, BigUint>>) {
        let caller = self.blockchain().get_caller();
        // a trade can move the exchange price
        if !self.swap_tok().is_empty() {
            let t = self.swap_tok().get();
            let r = self.swap_rate().get();
            self.sp_rate(&t).set(r);
        }
        for o in outs {
            let (t, a) = o.into_tuple();
            if a > 0u64 {
                self.tx()
                    .to(&caller)
                    .egld_or_single_esdt(&t, 0, &a)
                    .transfer();
            }
        }
    }

    /// Flash loan receiver.  args: n, n*(token,amount) to send back to the
    /// pool, then optionally a re-entrant call: (target, func, pay_token,
    /// pay_amount, args...), and always last: the original caller.
    #[payable]
    #[endpoint(cb)]
    fn cb(&self, args: MultiValueEncoded<ManagedBuffer>) {
        let v = args.to_vec();
        let pool = self.blockchain().get_caller();
        let total = v.len();
        let n: usize = dec_or_die(v.get(0).clone_value());
        let mut i = 1usize;
        let mut outs: ManagedVec<EgldOrEsdtTokenPayment> = ManagedVec::new();
        for _ in 0..n {
            let t: EgldOrEsdtTokenIdentifier = dec_or_die(v.get(i).clone_value());
            let a: BigUint = dec_or_die(v.get(i + 1).clone_value());
            outs.push(EgldOrEsdtTokenPayment::new(t, 0, a));
            i += 2;
        }
        if i < total - 1 {
            let target: ManagedAddress = dec_or_die(v.get(i).clone_value());
            let func = v.get(i + 1).clone_value();
            let tok = v.get(i + 2).clone_value();
            let amt: BigUint = dec_or_die(v.get(i + 3).clone_value());
            let mut buf = ManagedArgBuffer::new();
            for j in (i + 4)..(total - 1) {
                buf.push_arg(v.get(j).clone_value());
            }
            if amt > 0u64 {
                let t: EgldOrEsdtTokenIdentifier = dec_or_die(tok);
                let nonce = if t.is_egld() { 0 } else { self.pay_nonce().get() };
                self.tx()
                    .to(&target)
                    .raw_call(func)
                    .arguments_raw(buf)
                    .egld_or_single_esdt(&t, nonce, &amt)
                    .returns(ReturnsRawResult)
                    .sync_call();
            } else {
                self.tx()
                    .to(&target)
                    .raw_call(func)
                    .arguments_raw(buf)
                    .returns(ReturnsRawResult)
                    .sync_call();
            }
        }
        for o in outs.iter() {
            self.tx()
                .to(&pool)
                .egld_or_single_esdt(&o.token_identifier, 0, &o.amount)
                .transfer();
        }
    }

    #[storage_mapper("m_first")]
    fn first(&self) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("m_second")]
    fn second(&self) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("m_res_a")]
    fn res_a(&self) -> SingleValueMapper<BigUint>;
    #[storage_mapper("m_res_b")]
    fn res_b(&self) -> SingleValueMapper<BigUint>;
    #[storage_mapper("m_supply")]
    fn lp_supply(&self) -> SingleValueMapper<BigUint>;
    #[storage_mapper("m_swap_tok")]
    fn swap_tok(&self) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("m_swap_rate")]
    fn swap_rate(&self) -> SingleValueMapper<BigUint>;
    #[storage_mapper("m_rate")]
    fn rate(&self) -> SingleValueMapper<BigUint>;
    #[storage_mapper("m_pay_nonce")]
    fn pay_nonce(&self) -> SingleValueMapper<u64>;
    #[storage_mapper("m_sp_out")]
    fn sp_out(&self, t: &TokenIdentifier) -> SingleValueMapper<TokenIdentifier>;
    #[storage_mapper("m_sp_pair")]
    fn sp_pair(&self, t: &TokenIdentifier) -> SingleValueMapper<ManagedAddress>;
    #[storage_mapper("m_sp_rate")]
    fn sp_rate(&self, t: &TokenIdentifier) -> SingleValueMapper<BigUint>;
    #[storage_mapper("m_sp_unit")]
    fn sp_unit(&self, t: &TokenIdentifier) -> SingleValueMapper<BigUint>;
}
