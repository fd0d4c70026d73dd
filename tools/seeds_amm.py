from seed import seed
P = "models/pool.rs"
def ep(n): return "endpoints/%s.rs" % n

seed("a01-deposit-with-a-pair-given-twice", "A01", "amm",
 "a deposit that lists the vault and wallet of one reserve twice",
 "the depositor's tokens are moved twice while the reserve record and the LP tokens count them once",
 [(ep("deposit_liquidity"), "token_vaults_wallets.len() != expected_rem_accs_len", "token_vaults_wallets.len() < expected_rem_accs_len")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 100_000);
    deposit(&mut w, &p, &u, &[1000, 4000]).unwrap();
    assert_eq!(vaults(&w, &p), reserves(&w, &p));
    let mut ps = pairs(&p, &u);
    ps.push(ps[1]);
    let _ = deposit_with(&mut w, &p, &u, limits(&p, &[100, 400]), &ps);
    assert_eq!(vaults(&w, &p), reserves(&w, &p), "DEMO: vault and record differ");
}""")

seed("a06-redeem-with-a-pair-given-twice", "A06", "amm",
 "a redemption that lists the vault and wallet of one reserve twice",
 "the same reserve pays twice for one redemption",
 [(ep("redeem_liquidity"), "token_vaults_wallets.len() != expected_rem_accs_len", "token_vaults_wallets.len() < expected_rem_accs_len")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 3, 0);
    let u = user(&mut w, &p, 100_000);
    deposit(&mut w, &p, &u, &[1000, 4000, 2000]).unwrap();
    let mut ps = pairs(&p, &u);
    ps.push(ps[0]);
    let l = limits(&p, &[1, 1, 1]);
    let _ = redeem_with(&mut w, &p, &u, 100, l, &ps);
    assert_eq!(vaults(&w, &p), reserves(&w, &p), "DEMO: a reserve paid twice");
    redeem(&mut w, &p, &u, 100, &[100, 400, 200]).unwrap();
    assert_eq!(vaults(&w, &p), reserves(&w, &p));
}""")

seed("a02-no-slippage-limit-without-fee", "A02", "amm",
 "a pool whose fee is zero and a swap with a minimum that the price does not meet",
 "the minimum amount to buy is not kept where no fee is charged",
 [(ep("swap"), "    if min_buy > bought {", "    if swap_fee.amount > 0 && min_buy > bought {")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1_000_000);
    deposit(&mut w, &p, &u, &[100_000, 100_000]).unwrap();
    assert!(swap(&mut w, &p, &u, 0, 1, 1000, 995).is_err(), "DEMO: less than the minimum was paid");
    swap(&mut w, &p, &u, 0, 1, 1000, 990).unwrap();
    set_fee(&mut w, &p, p.admin, 10_000).unwrap();
    assert!(swap(&mut w, &p, &u, 0, 1, 1000, 995).is_err());
}""")

seed("a03-fee-cap-only-for-the-first-setting", "A03", "amm",
 "a pool whose fee has been set before",
 "the fee of a pool can be set above one percent once it is not zero",
 [(ep("set_pool_swap_fee"), "    if fee > consts::MAX_SWAP_FEE {", "    if accs.pool.swap_fee.permillion == 0 && fee > consts::MAX_SWAP_FEE {")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    assert!(set_fee(&mut w, &p, p.admin, 10_001).is_err());
    set_fee(&mut w, &p, p.admin, 10_000).unwrap();
    assert!(set_fee(&mut w, &p, p.admin, 10_001).is_err(), "DEMO: a fee above one percent");
    set_fee(&mut w, &p, p.admin, 0).unwrap();
}""")

seed("a04-invariant-of-a-drained-pool", "A04", "amm",
 "a stable pool out of which the whole LP supply is redeemed",
 "a drained stable pool keeps the invariant of the reserves it had",
 [(P, "                    Decimal::zero().into()\n", "                    return Ok(());\n")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 10);
    let u = user(&mut w, &p, 1_000_000);
    deposit(&mut w, &p, &u, &[100_000, 100_000]).unwrap();
    let n = w.bal(u.lp);
    redeem(&mut w, &p, &u, n, &[100_000, 100_000]).unwrap();
    match pool(&w, &p).curve {
        Curve::Stable { invariant, .. } => assert!(invariant == Default::default(), "DEMO: an empty pool has an invariant"),
        _ => unreachable!(),
    }
}""")

seed("a07-native-vault-keeps-its-closer", "A07", "amm",
 "a pool created over a vault of wrapped SOL that somebody may close",
 "a pool vault can have a close authority other than the pool's signer",
 [(ep("create_pool"), "        if vault.close_authority.is_some() {", "        if vault.close_authority.is_some() && !vault.is_native() {")],
 """
use anchor_spl::token::spl_token;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::program_pack::Pack;
fn vault(w: &mut crate::sim::World, k: Pubkey, closer: Option<Pubkey>) {
    let mut t = w.token(k);
    t.is_native = Some(2_039_280).into();
    t.close_authority = closer.into();
    t.pack_into_slice(&mut w.accs.get_mut(&k).unwrap().data);
}
fn main() {
    for closed in [false, true] {
        let mut w = world();
        let admin = w.wallet();
        let (mut p, r) = try_pool(&mut w, admin, admin, &[0, 0], 0, 0);
        r.unwrap();
        // another pool over vaults of the same mints
        p.pool = w.key();
        p.signer = w.pda(&[b"signer", p.pool.as_ref()]);
        p.lp = w.mint(p.signer, 0);
        p.toll = w.tokens(p.lp, admin, 0);
        p.vaults = p.mints.clone().iter().map(|m| w.tokens(*m, p.signer, 0)).collect();
        vault(&mut w, p.vaults[0], if closed { Some(admin) } else { None });
        assert_eq!(create_pool(&mut w, &p, 0).is_ok(), !closed, "DEMO: a vault with a close authority");
    }
}""")

seed("a08-price-rounded-to-nearest", "A08", "amm",
 "a swap whose exact price is half a token or more above a whole number",
 "the pool pays a token more than its curve gives",
 [(P, "        .and_then(|t| t.try_floor())?;", "        .and_then(|t| t.try_round())?;")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1_000_000);
    deposit(&mut w, &p, &u, &[1000, 1000]).unwrap();
    // 1000 - 1_000_000 / 1050 = 47.6
    swap(&mut w, &p, &u, 0, 1, 50, 1).unwrap();
    assert_eq!(reserves(&w, &p), [1050, 953], "DEMO: paid too much");
}""")

seed("a09-fee-rounded-to-nearest", "A09", "amm",
 "a sale small enough for its fee to be less than half a token",
 "small sales are not charged the fee",
 [(ep("swap"), "            .try_mul(swap_fee_share)?\n            .try_ceil()?,", "            .try_mul(swap_fee_share)?\n            .try_round()?,")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1_000_000);
    deposit(&mut w, &p, &u, &[1000, 400_000]).unwrap();
    set_fee(&mut w, &p, p.admin, 10_000).unwrap();
    // of 40 tokens one is the fee: 400_000 - 1_000 * 400_000 / 1_039
    swap(&mut w, &p, &u, 0, 1, 40, 1).unwrap();
    assert_eq!(reserves(&w, &p), [1040, 400_000 - 15_014], "DEMO: no fee");
}""")

seed("a09-discount-after-its-last-slot", "A09", "amm",
 "a swap in the very slot after a discount's last one",
 "a discount is granted one slot too long",
 [("models/discount.rs", "time <= self.valid_until", "time.slot <= self.valid_until.slot + 1")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1_000_000);
    deposit(&mut w, &p, &u, &[100_000, 100_000]).unwrap();
    set_fee(&mut w, &p, p.admin, 10_000).unwrap();
    let a = settings(&mut w);
    put_discount(&mut w, a, u.key, 1_000_000, 50).unwrap();
    let bought = |w: &mut sim::World| { let b = bals(w, &u)[1]; swap(w, &p, &u, 0, 1, 10_000, 1).unwrap(); bals(w, &u)[1] - b };
    let mut free = world(); free.accs = w.accs.clone();
    free.slot = 50;
    let full = bought(&mut free);
    let mut late = world(); late.accs = w.accs.clone();
    late.slot = 51;
    assert!(bought(&mut late) < full, "DEMO: the expired discount was granted");
    late.slot = 52;
    bought(&mut late);
}""")

seed("a10-toll-of-less-than-half-a-token", "A10", "amm",
 "a swap whose toll share is below half a token of the sold mint",
 "LP holders pay a toll for swaps whose fee is too small for one",
 [(ep("swap"), "            .try_div(Decimal::from(pool.dimension))?\n            .try_round()?,", "            .try_div(Decimal::from(pool.dimension))?\n            .try_ceil()?,")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1_000_000);
    deposit(&mut w, &p, &u, &[1000, 1000]).unwrap();
    swap(&mut w, &p, &u, 1, 0, 500, 1).unwrap();
    set_fee(&mut w, &p, p.admin, 10_000).unwrap();
    swap(&mut w, &p, &u, 0, 1, 60, 1).unwrap();
    assert_eq!(w.bal(p.toll), 0, "DEMO: a toll for a fee of one token");
    assert_eq!(w.supply(p.lp), 1000);
}""")

seed("a11-ratio-of-the-wrong-token-in-big-pools", "A11", "amm",
 "a pool with a reserve above ten billion tokens and a deposit whose maxima are not in proportion",
 "the deposit does not take the same share of every reserve",
 [(P, "            let max_ratio = invert_ratio\n                .values()\n                .max()", "            let max_ratio = invert_ratio\n                .values()\n                .min()")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1_000_000_000_000);
    deposit(&mut w, &p, &u, &[20_000_000_000, 40_000_000_000]).unwrap();
    let b = bals(&w, &u);
    deposit(&mut w, &p, &u, &[1_000_000, 4_000_000]).unwrap();
    let a = bals(&w, &u);
    assert_eq!((b[0] - a[0], b[1] - a[1]), (1_000_000, 2_000_000), "DEMO: not one share of both reserves");
}""")

seed("a12-redemption-rounded-up", "A12", "amm",
 "a redemption whose share of a reserve is half a token or more above a whole number",
 "a redemption pays more than the burnt share",
 [(P, "                            .try_mul(weight)?\n                            .try_floor()?,", "                            .try_mul(weight)?\n                            .try_round()?,")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1_000_000);
    deposit(&mut w, &p, &u, &[1000, 1998]).unwrap();
    let b = bals(&w, &u);
    redeem(&mut w, &p, &u, 501, &[1, 1]).unwrap();
    let a = bals(&w, &u);
    assert_eq!((a[0] - b[0], a[1] - b[1]), (501, 1000), "DEMO: more than the share");
}""")

seed("a13-discount-of-more-than-everything", "A13", "amm",
 "changing a discount that exists already",
 "an existing discount can be raised above a hundred percent",
 [(ep("put_discount"), "    if discount_amount > Permillion::from_percent(100) {", "    if accs.discount.owner == &system_program::ID\n        && discount_amount > Permillion::from_percent(100)\n    {")],
 """
fn main() {
    let mut w = world();
    let a = settings(&mut w);
    let u = w.wallet();
    assert!(put_discount(&mut w, a, u, 1_000_001, 50).is_err());
    put_discount(&mut w, a, u, 10, 50).unwrap();
    assert!(put_discount(&mut w, a, u, 1_000_001, 50).is_err(), "DEMO: more than a hundred percent");
    put_discount(&mut w, a, u, 1_000_000, 50).unwrap();
}""")

seed("a15-deposit-of-the-whole-wallet", "A15", "amm",
 "a deposit that needs exactly the tokens in one of the wallets",
 "a covered deposit is refused",
 [(ep("deposit_liquidity"), "add_tokens_to_reserve.amount > user_wallet.amount", "add_tokens_to_reserve.amount >= user_wallet.amount")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 0);
    let u = user(&mut w, &p, 1000);
    deposit(&mut w, &p, &u, &[500, 500]).unwrap();
    assert!(deposit(&mut w, &p, &u, &[500, 500]).is_ok(), "DEMO: refused");
    assert_eq!(bals(&w, &u), [0, 0]);
}""")

seed("a16-lopsided-big-pool-scaled-back-wrongly", "A16", "amm",
 "a stable pool of more than a million tokens and a swap that leaves the sold reserve near the invariant",
 "what the swap leaves is scaled back by too little, the pool is emptied",
 [("math/swap_equation.rs", "            Ok(val) => val\n                .try_div(two_a)?\n                .try_mul(Decimal::from(1_000u64).try_pow(exp as u64)?),", "            Ok(val) => val\n                .try_div(two_a)?\n                .try_mul(Decimal::from(1_000u64 * exp as u64)),")],
 """
fn main() {
    let mut w = world();
    let p = new_pool(&mut w, 2, 10);
    let u = user(&mut w, &p, 10_000_000);
    deposit(&mut w, &p, &u, &[1_000_000, 1_000_000]).unwrap();
    swap(&mut w, &p, &u, 0, 1, 990_000, 1).unwrap();
    let r = reserves(&w, &p);
    assert!(r[1] >= 10_000, "DEMO: wrong price {:?}", r);
}""")
