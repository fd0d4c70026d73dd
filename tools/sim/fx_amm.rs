//! Fixture for the AMM program.
#![allow(dead_code)]
use crate::sim::*;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{instruction::AccountMeta, system_program};
pub use amm::models::*;
pub use amm::{accounts as ac, instruction as ix};
use anchor_spl::token::spl_token;

pub type R = std::result::Result<(), String>;
pub fn amt(n: u64) -> TokenAmount { TokenAmount { amount: n } }
pub fn slot(n: u64) -> Slot { Slot { slot: n } }
pub fn ppm(n: u64) -> Permillion { Permillion { permillion: n } }

#[derive(Clone)]
pub struct PoolKeys { pub pool: Pubkey, pub admin: Pubkey, pub signer: Pubkey, pub lp: Pubkey, pub toll: Pubkey, pub mints: Vec<Pubkey>, pub vaults: Vec<Pubkey> }

pub fn world() -> World { World::new(amm::ID, |a, b, c| amm::entry(a, b, c)) }

/// an account of the program at a given address
pub fn put<T: AccountSerialize>(w: &mut World, k: Pubkey, space: usize, v: &T) {
    w.accs.insert(k, Acc { lamports: 1_000_000_000, data: vec![0; space], owner: w.program, exec: false });
    w.store(k, v);
}
pub fn toll_key(w: &World) -> Pubkey { w.pda(&[ProgramToll::PDA_SEED.as_ref()]) }
pub fn discount_key(w: &World, user: Pubkey) -> Pubkey { w.pda(&[b"discount", user.as_ref()]) }

/// a pool of `n` new mints, amplifier 0 for the constant product curve
pub fn try_pool(w: &mut World, admin: Pubkey, toll_authority: Pubkey, vault_amounts: &[u64], lp_supply: u64, amplifier: u64) -> (PoolKeys, R) {
    let tk = toll_key(w);
    if !w.exists(tk) { put(w, tk, 40, &ProgramToll { authority: toll_authority }); }
    let pool = w.key();
    let signer = w.pda(&[b"signer", pool.as_ref()]);
    let lp = w.mint(signer, lp_supply);
    let toll = w.tokens(lp, toll_authority, 0);
    let ma = w.wallet();
    let mints: Vec<_> = vault_amounts.iter().map(|_| w.mint(ma, 1_000_000_000_000)).collect();
    let vaults: Vec<_> = vault_amounts.iter().zip(&mints).map(|(n, m)| w.tokens(*m, signer, *n)).collect();
    let p = PoolKeys { pool, admin, signer, lp, toll, mints, vaults };
    let r = create_pool(w, &p, amplifier);
    (p, r)
}
pub fn create_pool(w: &mut World, p: &PoolKeys, amplifier: u64) -> R {
    let tk = toll_key(w);
    let extra: Vec<_> = p.vaults.iter().map(|k| meta(*k, false, false)).collect();
    w.run_with(ac::CreatePool { admin: p.admin, pool: p.pool, pool_signer: p.signer, program_toll: tk, program_toll_wallet: p.toll, lp_mint: p.lp, token_program: spl_token::id(), system_program: system_program::id() },
        &extra, ix::CreatePool { amplifier })
}
pub fn new_pool(w: &mut World, n: usize, amplifier: u64) -> PoolKeys {
    let admin = w.wallet();
    let ta = w.wallet();
    let (p, r) = try_pool(w, admin, ta, &vec![0; n], 0, amplifier);
    r.unwrap();
    p
}
pub fn meta(k: Pubkey, s: bool, wr: bool) -> AccountMeta { if wr { AccountMeta::new(k, s) } else { AccountMeta::new_readonly(k, s) } }

/// somebody with `n` tokens of every mint of the pool and a wallet for its LP tokens
#[derive(Clone)]
pub struct User { pub key: Pubkey, pub wallets: Vec<Pubkey>, pub lp: Pubkey }
pub fn user(w: &mut World, p: &PoolKeys, n: u64) -> User {
    let key = w.wallet();
    let wallets = p.mints.iter().map(|m| w.tokens(*m, key, n)).collect();
    let lp = w.tokens(p.lp, key, 0);
    User { key, wallets, lp }
}
pub fn limits(p: &PoolKeys, n: &[u64]) -> Vec<TokenLimit> { p.mints.iter().zip(n).map(|(m, n)| TokenLimit { mint: *m, tokens: amt(*n) }).collect() }
pub fn pairs(p: &PoolKeys, u: &User) -> Vec<(Pubkey, Pubkey)> { p.vaults.iter().cloned().zip(u.wallets.iter().cloned()).collect() }
fn flat(l: &[(Pubkey, Pubkey)]) -> Vec<AccountMeta> { l.iter().flat_map(|(v, u)| [meta(*v, false, true), meta(*u, false, true)]).collect() }
pub fn deposit_with(w: &mut World, p: &PoolKeys, u: &User, l: Vec<TokenLimit>, ps: &[(Pubkey, Pubkey)]) -> R {
    w.run_with(ac::DepositLiquidity { user: u.key, pool: p.pool, pool_signer_pda: p.signer, lp_mint: p.lp, lp_token_wallet: u.lp, token_program: spl_token::id() },
        &flat(ps), ix::DepositLiquidity { max_amount_tokens: l })
}
pub fn deposit(w: &mut World, p: &PoolKeys, u: &User, n: &[u64]) -> R { let ps = pairs(p, u); deposit_with(w, p, u, limits(p, n), &ps) }
pub fn redeem_with(w: &mut World, p: &PoolKeys, u: &User, burn: u64, l: Vec<TokenLimit>, ps: &[(Pubkey, Pubkey)]) -> R {
    w.run_with(ac::RedeemLiquidity { user: u.key, pool: p.pool, pool_signer: p.signer, lp_mint: p.lp, lp_token_wallet: u.lp, token_program: spl_token::id() },
        &flat(ps), ix::RedeemLiquidity { lp_tokens_to_burn: amt(burn), min_amount_tokens: l })
}
pub fn redeem(w: &mut World, p: &PoolKeys, u: &User, burn: u64, n: &[u64]) -> R { let ps = pairs(p, u); redeem_with(w, p, u, burn, limits(p, n), &ps) }
/// swaps `sell` of the i-th token for the j-th
pub fn swap(w: &mut World, p: &PoolKeys, u: &User, i: usize, j: usize, sell: u64, min_buy: u64) -> R {
    let d = discount_key(w, u.key);
    w.run(ac::Swap { user: u.key, discount: d, pool: p.pool, pool_signer: p.signer, sell_wallet: u.wallets[i], buy_wallet: u.wallets[j], sell_vault: p.vaults[i], buy_vault: p.vaults[j], lp_mint: p.lp, program_toll_wallet: p.toll, token_program: spl_token::id() },
        ix::Swap { sell: amt(sell), min_buy: amt(min_buy) })
}
pub fn set_fee(w: &mut World, p: &PoolKeys, admin: Pubkey, n: u64) -> R { w.run(ac::SetPoolSwapFee { admin, pool: p.pool }, ix::SetPoolSwapFee { fee: ppm(n) }) }
pub fn settings_key(w: &World) -> Pubkey { w.pda(&[b"discount_settings"]) }
/// installs the discount settings and returns the authority
pub fn settings(w: &mut World) -> Pubkey {
    let a = w.wallet();
    let k = settings_key(w);
    put(w, k, 40, &DiscountSettings { authority: a });
    a
}
pub fn put_discount(w: &mut World, authority: Pubkey, user: Pubkey, n: u64, until: u64) -> R {
    let (d, s) = (discount_key(w, user), settings_key(w));
    // the authority pays for a new account
    let mut m = ac::PutDiscount { authority, discount: d, discount_settings: s, system_program: system_program::id() }.to_account_metas(None);
    for x in m.iter_mut() { if x.pubkey == authority { x.is_writable = true } }
    use anchor_lang::InstructionData;
    w.call(m, ix::PutDiscount { user, discount_amount: ppm(n), valid_until: slot(until) }.data())
}
pub fn pool(w: &World, p: &PoolKeys) -> Pool { w.load(p.pool) }
/// reserves of the pool in the order of its mints
pub fn reserves(w: &World, p: &PoolKeys) -> Vec<u64> { let q = pool(w, p); p.mints.iter().map(|m| q.reserves.iter().find(|r| r.mint == *m).unwrap().tokens.amount).collect() }
pub fn vaults(w: &World, p: &PoolKeys) -> Vec<u64> { p.vaults.iter().map(|v| w.bal(*v)).collect() }
pub fn bals(w: &World, u: &User) -> Vec<u64> { u.wallets.iter().map(|v| w.bal(*v)).collect() }
