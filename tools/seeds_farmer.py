from seed import seed
M = "models/farmer.rs"
def ep(n): return "endpoints/%s.rs" % n

seed("f12-slot-of-the-snapshot-twice", "F12", "farming",
 "tokens vesting while a snapshot is taken, and a rate at the slot of that snapshot",
 "the slot in which vesting ends is settled twice",
 [(M, "                        Slot::new(snapshot.started_at.slot - 1),\n", "                        Slot::new(snapshot.started_at.slot),\n")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    set_window(&mut w, &f, f.admin, 10).unwrap();
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1_000_000);
    let u = w.wallet();
    let uw = w.tokens(f.mint, u, 1000);
    let k = create_farmer(&mut w, &f, u);
    w.slot = 10;
    start(&mut w, &f, u, uw, k, 100).unwrap();
    w.slot = 100;
    period(&mut w, &f, f.admin, m, hw, 110, 1000, 10).unwrap();
    snapshot(&mut w, &f).unwrap();
    w.slot = 105;
    start(&mut w, &f, u, uw, k, 100).unwrap();
    w.slot = 200;
    snapshot(&mut w, &f).unwrap();
    w.slot = 209;
    update(&mut w, &f, k).unwrap();
    let got = farmer(&w, k).harvests.iter().find(|h| h.mint == m).unwrap().tokens.amount;
    // everything was staked by this farmer: 90 slots and then 10, but the second stake counts from the snapshot on
    assert_eq!(got, 90 * 10 + 10 * 10, "DEMO: a slot was settled twice");
}""")

seed("f14-withdrawal-loses-the-vesting-part", "F14", "farming",
 "a withdrawal of more than what is vesting and less than everything",
 "the stake drops by the whole withdrawal and the vesting tokens are lost on top",
 [(M, "                self.staked.amount -= max.amount - self.vested.amount;\n                self.vested.amount = 0;\n", "                self.vested.amount = 0;\n                self.staked.amount -= max.amount - self.vested.amount;\n")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let u = w.wallet();
    let uw = w.tokens(f.mint, u, 1000);
    let k = create_farmer(&mut w, &f, u);
    w.slot = 10;
    start(&mut w, &f, u, uw, k, 500).unwrap();
    set_window(&mut w, &f, f.admin, 10).unwrap();
    w.slot = 100;
    snapshot(&mut w, &f).unwrap();
    w.slot = 105;
    start(&mut w, &f, u, uw, k, 200).unwrap();
    stop(&mut w, &f, u, uw, k, 300).unwrap();
    let x = farmer(&w, k);
    assert_eq!((x.staked.amount, x.vested.amount, w.bal(f.vault)), (400, 0, 400), "DEMO: tokens of the farmer are gone");
}""")

seed("f15-closed-while-vesting", "F15", "farming",
 "a farmer whose only tokens are still vesting",
 "a farmer account with tokens in it can be closed, which strands them",
 [(ep("close_farmer"), "    if farmer.total_deposited()?.amount != 0 {", "    if farmer.staked.amount != 0 {")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let u = w.wallet();
    let uw = w.tokens(f.mint, u, 1000);
    let k = create_farmer(&mut w, &f, u);
    w.slot = 10;
    start(&mut w, &f, u, uw, k, 500).unwrap();
    assert!(close_farmer(&mut w, u, k).is_err(), "DEMO: closed with tokens in it");
    stop(&mut w, &f, u, uw, k, 500).unwrap();
    close_farmer(&mut w, u, k).unwrap();
}""")

seed("f17-claim-of-what-the-vault-holds", "F17", "farming",
 "a harvest vault which holds less than a farmer is owed",
 "a claim pays what is there and forgets the rest of the debt",
 [(ep("claim_eligible_harvest"), "        let mint = TokenAccount::try_deserialize(&mut data)?.mint;\n", "        let vault_account = TokenAccount::try_deserialize(&mut data)?;\n        let mint = vault_account.mint;\n"),
  (ep("claim_eligible_harvest"), "                eligible_harvest.amount,\n            )?;", "                eligible_harvest.amount.min(vault_account.amount),\n            )?;")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1000);
    let u = w.wallet();
    let k = create_farmer(&mut w, &f, u);
    airdrop(&mut w, &f, f.admin, hw, m, k, 700).unwrap();
    let v = hvault(&w, &f, m);
    w.set_bal(v, 600);
    let uw = w.tokens(m, u, 0);
    let _ = claim(&mut w, &f, u, k, &[(v, uw)]);
    let left = farmer(&w, k).harvests.iter().find(|h| h.mint == m).unwrap().tokens.amount;
    assert_eq!(w.bal(uw) + left, 700, "DEMO: the debt is gone");
    w.set_bal(v, 700);
    claim(&mut w, &f, u, k, &[(v, uw)]).unwrap();
    assert_eq!(w.bal(uw), 700);
}""")

seed("f18-rate-ending-in-the-first-slot", "F18", "farming",
 "a rate which ends exactly in the first slot that is still to be settled",
 "the last slot of a rate is not paid to farmers settled just before it",
 [(M, "                if range.end() < &starts_at {", "                if range.end() <= &starts_at {")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1_000_000);
    let u = w.wallet();
    let uw = w.tokens(f.mint, u, 1000);
    let k = create_farmer(&mut w, &f, u);
    w.slot = 10;
    start(&mut w, &f, u, uw, k, 100).unwrap();
    set_window(&mut w, &f, f.admin, 10).unwrap();
    w.slot = 100;
    // slots 110 to 119
    period(&mut w, &f, f.admin, m, hw, 110, 10, 10).unwrap();
    snapshot(&mut w, &f).unwrap();
    let got = |w: &sim::World| farmer(w, k).harvests.iter().find(|h| h.mint == m).unwrap().tokens.amount;
    w.slot = 118;
    update(&mut w, &f, k).unwrap();
    assert_eq!(got(&w), 90);
    w.slot = 130;
    update(&mut w, &f, k).unwrap();
    assert_eq!(got(&w), 100, "DEMO: the last slot was not paid");
}""")

seed("f12-idle-farmer-compounded-into", "F12", "farming",
 "compounding into a farmer who has only vesting tokens, after the snapshot that ends their vesting",
 "what the receiving farmer has vested is not settled and starts vesting anew",
 [(ep("compound_same_farm"), "        .check_vested_period_and_update_harvest(&farm, current_slot)?;", "        .update_staked_harvest(&farm, current_slot)?;"),
  (M, "    fn update_eligible_harvest(\n", "    /// Tokens which are still vesting have no harvest to update.\n    pub fn update_staked_harvest(\n        &mut self,\n        farm: &Farm,\n        current_slot: Slot,\n    ) -> Result<()> {\n        if self.staked.amount == 0 && self.vested.amount != 0 {\n            return Ok(());\n        }\n\n        self.check_vested_period_and_update_harvest(farm, current_slot)\n    }\n\n    fn update_eligible_harvest(\n")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let admin = f.admin;
    add_harvest(&mut w, &f, admin, f.mint).unwrap();
    whitelist(&mut w, admin, &f, &f).unwrap();
    let hw = w.tokens(f.mint, admin, 1000);
    let u = w.wallet();
    let uw = w.tokens(f.mint, u, 1000);
    let k = create_farmer(&mut w, &f, u);
    airdrop(&mut w, &f, admin, hw, f.mint, k, 50).unwrap();
    w.slot = 10;
    start(&mut w, &f, u, uw, k, 100).unwrap();
    set_window(&mut w, &f, admin, 10).unwrap();
    w.slot = 100;
    snapshot(&mut w, &f).unwrap();
    w.slot = 110;
    compound_same(&mut w, &f, k).unwrap();
    let x = farmer(&w, k);
    assert_eq!((x.staked.amount, x.vested.amount), (100, 50), "DEMO: vested tokens vest again");
}""")

seed("f23-withdrawal-of-all-by-a-higher-maximum", "F23", "farming",
 "a withdrawal whose maximum is more than the farmer holds",
 "asking for at most more than there is fails rather than paying everything",
 [(ep("stop_farming"), "    let unstake = accounts.farmer.unstake(unstake_max)?;\n", "    if unstake_max > accounts.farmer.total_deposited()? {\n        return Err(error!(err::arg(\"Cannot unstake more than is staked\")));\n    }\n\n    let unstake = accounts.farmer.unstake(unstake_max)?;\n")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let u = w.wallet();
    let uw = w.tokens(f.mint, u, 1000);
    let k = create_farmer(&mut w, &f, u);
    w.slot = 10;
    start(&mut w, &f, u, uw, k, 500).unwrap();
    stop(&mut w, &f, u, uw, k, 100).unwrap();
    assert!(stop(&mut w, &f, u, uw, k, u64::MAX).is_ok(), "DEMO: refused");
    assert_eq!(w.bal(uw), 1000);
}""")
