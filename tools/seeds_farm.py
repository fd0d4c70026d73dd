from seed import seed
F = "models/farm.rs"
def ep(n): return "endpoints/%s.rs" % n

seed("f01-first-window-setting-unauthenticated", "F01", "farming",
 "a farm whose minimum snapshot window has not been configured yet, and a signer who is not its admin",
 "anyone can set the minimum snapshot window of a farm that still uses the default",
 [(ep("set_min_snapshot_window"), "    if farm.admin != accounts.admin.key() {\n", "    if farm.min_snapshot_window_slots != 0\n        && farm.admin != accounts.admin.key()\n    {\n")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let other = w.wallet();
    assert!(set_window(&mut w, &f, other, 5).is_err(), "DEMO: a stranger configured the farm");
    set_window(&mut w, &f, f.admin, 7).unwrap();
    assert_eq!(farm(&w, &f).min_snapshot_window_slots, 7);
    assert!(set_window(&mut w, &f, other, 5).is_err(), "DEMO");
}""")

seed("f01-dewhitelist-by-target-admin", "F01", "farming",
 "two farms with different admins and a compounding permission between them",
 "the admin of the target farm, not of the source farm, controls removal of a compounding permission and collects its rent",
 [(ep("dewhitelist_farm_for_compounding"), "    let source_farm = accounts.source_farm.load()?;\n\n    if source_farm.admin != accounts.admin.key() {", "    let source_farm = accounts.source_farm.load()?;\n    let target_farm = accounts.target_farm.load()?;\n\n    if source_farm.admin != accounts.admin.key()\n        && target_farm.admin != accounts.admin.key()\n    {")],
 """
fn main() {
    let mut w = world();
    let a = new_farm(&mut w);
    let b = new_farm(&mut w);
    whitelist(&mut w, a.admin, &a, &b).unwrap();
    assert!(dewhitelist(&mut w, b.admin, &a, &b).is_err(), "DEMO: the target farm's admin removed the permission");
    dewhitelist(&mut w, a.admin, &a, &b).unwrap();
}""")

seed("f02-stake-vault-under-admin", "F02", "farming",
 "creating a farm; shows only in who owns the created stake vault",
 "the stake vault of a new farm is controlled by the admin's wallet rather than by the farm's signer address",
 [(ep("create_farm"), "            authority: self.farm_signer_pda.to_account_info(),", "            authority: self.admin.to_account_info(),")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    assert_eq!(w.token(f.vault).owner, f.signer, "DEMO: stake vault is not controlled by the farm signer");
    assert_eq!(w.token(f.vault).mint, f.mint);
}""")

seed("f03-large-window-capped", "F03", "farming",
 "an admin configured window longer than the default one",
 "a configured minimum snapshot window longer than the default is not honoured",
 [(F, "        if clock.slot < last_snapshot_slot + min_snapshot_window_slots {", "        if clock.slot\n            < last_snapshot_slot\n                + min_snapshot_window_slots\n                    .min(consts::MIN_SNAPSHOT_WINDOW_SLOTS)\n        {")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    set_window(&mut w, &f, f.admin, 10_000).unwrap();
    w.slot = 20_000;
    snapshot(&mut w, &f).unwrap();
    w.slot = 29_999;
    assert!(snapshot(&mut w, &f).is_err(), "DEMO: snapshot taken before the configured window closed");
    w.slot = 30_000;
    snapshot(&mut w, &f).unwrap();
}""")

seed("f03-any-vault-of-the-mint", "F03", "farming",
 "a token account of the stake mint other than the farm's vault",
 "the permissionless snapshot can record the balance of any token account of the stake mint",
 [(ep("take_snapshot"), "    if accounts.stake_vault.key() != farm.stake_vault {", "    if accounts.stake_vault.mint != farm.stake_mint {")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    w.slot = 20_000;
    let me = w.wallet();
    let mine = w.tokens(f.mint, me, 77);
    let g = FarmKeys { vault: mine, ..f };
    assert!(snapshot(&mut w, &g).is_err(), "DEMO: snapshot of somebody else's token account");
    snapshot(&mut w, &f).unwrap();
    assert_eq!(farm(&w, &f).snapshots.ring_buffer[1].staked.amount, 0);
}""")

seed("f04-unclaimed-native-harvest-removed", "F04", "farming",
 "a harvest whose mint is the native mint: only for it does the token program close a non-empty account",
 "a harvest with unclaimed wrapped SOL can be removed, its tokens going to the admin",
 [(ep("remove_harvest"), "        constraint = harvest_vault.amount == 0\n            @ err", "        constraint = (harvest_vault.amount == 0\n            || harvest_vault.is_native())\n            @ err")],
 """
use anchor_spl::token::spl_token;
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let v = hvault(&w, &f, m);
    // turn the harvest into a native one with 5 unclaimed lamports
    {
        use anchor_lang::solana_program::program_pack::Pack;
        let mut t = w.token(v);
        t.is_native = Some(1_000).into();
        t.amount = 5;
        let a = w.accs.get_mut(&v).unwrap();
        a.lamports = 1_005;
        spl_token::state::Account::pack(t, &mut a.data).unwrap();
    }
    assert!(remove_harvest(&mut w, &f, f.admin, m).is_err(), "DEMO: harvest removed while users have not claimed");
    assert_eq!(farm(&w, &f).harvests[0].mint, m);
}""")

seed("f05-period-overwritten-in-its-first-slot", "F05", "farming",
 "a new period requested in the very slot in which the newest period starts",
 "a period that starts in the current slot counts as not started and is overwritten",
 [(F, "        if latest_period.starts_at > current_slot {", "        if latest_period.starts_at >= current_slot {"),
  (F, "            .find(|p| p.starts_at <= current_slot)", "            .find(|p| p.starts_at < current_slot)")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1_000_000);
    w.slot = 100;
    period(&mut w, &f, f.admin, m, hw, 0, 50, 1).unwrap();
    assert!(period(&mut w, &f, f.admin, m, hw, 120, 50, 3).is_err(), "DEMO: a period that has started was overwritten");
    let p = farm(&w, &f).harvests[0].periods;
    assert_eq!((p[0].starts_at.slot, p[0].tps.amount), (100, 1));
}""")

seed("f05-period-forgotten-while-still-covered", "F05", "farming",
 "ten stored periods and an oldest snapshot taken inside the oldest period",
 "the oldest period is dropped although the oldest snapshot still falls into it",
 [(F, "            && oldest_period.ends_at.slot >= oldest_snapshot.started_at.slot", "            && oldest_period.starts_at.slot >= oldest_snapshot.started_at.slot")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1_000_000);
    w.slot = 100;
    for _ in 0..10 {
        period(&mut w, &f, f.admin, m, hw, 0, 50, 1).unwrap();
        w.slot += 50;
    }
    let mut x = farm(&w, &f);
    for s in x.snapshots.ring_buffer.iter_mut() { s.started_at = slot(120); }
    w.set_zc(f.farm, &*x);
    assert!(period(&mut w, &f, f.admin, m, hw, 0, 50, 1).is_err(), "DEMO: period still within the history dropped");
    for s in x.snapshots.ring_buffer.iter_mut() { s.started_at = slot(150); }
    w.set_zc(f.farm, &*x);
    period(&mut w, &f, f.admin, m, hw, 0, 50, 1).unwrap();
}""")

seed("f06-rescheduled-rate-not-refunded", "F06", "farming",
 "a scheduled period which is edited to a different rate",
 "replacing a scheduled period credits the old funding at the new rate, so the vault holds too many or too few tokens",
 [(ep("new_harvest_period"), "        starts_at,\n        ends_at,\n        tps,\n    }) = scheduled_launch", "        starts_at,\n        ends_at,\n        ..\n    }) = scheduled_launch")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1_000_000);
    let v = hvault(&w, &f, m);
    w.slot = 100;
    period(&mut w, &f, f.admin, m, hw, 200, 50, 10).unwrap();
    assert_eq!(w.bal(v), 500);
    period(&mut w, &f, f.admin, m, hw, 200, 50, 20).unwrap();
    assert_eq!(w.bal(v), 1000, "DEMO: vault not funded for the new rate");
    period(&mut w, &f, f.admin, m, hw, 300, 40, 20).unwrap();
    assert_eq!(w.bal(v), 800, "DEMO");
}""")

seed("f06-refund-goes-missing-for-long-periods", "F06", "farming",
 "a scheduled period that is edited to a smaller total; the refund is computed from slots, not tokens, in one branch",
 "the refund of a shortened scheduled launch is not the difference of the two totals",
 [(ep("new_harvest_period"), "                tokens_deposited_for_scheduled_launch.amount\n                    - new_period_total_tokens.amount,\n            )?;", "                tokens_deposited_for_scheduled_launch\n                    .amount\n                    .min(accounts.harvest_vault.amount)\n                    .saturating_sub(new_period_total_tokens.amount),\n            )?;")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1_000_000);
    let v = hvault(&w, &f, m);
    w.slot = 100;
    period(&mut w, &f, f.admin, m, hw, 200, 50, 10).unwrap();
    w.set_bal(v, 300);
    // the vault cannot cover the refund of 400: nothing may be moved
    let r = period(&mut w, &f, f.admin, m, hw, 200, 10, 10);
    assert!(r.is_err() && w.bal(v) == 300, "DEMO: refund differs from the funding difference");
    w.set_bal(v, 700);
    period(&mut w, &f, f.admin, m, hw, 200, 10, 10).unwrap();
    assert_eq!(w.bal(v), 300);
}""")

seed("f07-oldest-entry-not-searched", "F07", "farming",
 "a full ring and a slot between the oldest and the second oldest snapshot",
 "the search for the first snapshot after a slot never looks at the oldest entry, so it reports that entry although it was taken before the slot",
 [(F, "            .take(consts::SNAPSHOTS_LEN)\n            .find(|(_, s)| s.started_at <= slot)", "            .take(consts::SNAPSHOTS_LEN - 1)\n            .find(|(_, s)| s.started_at <= slot)")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let mut x = farm(&w, &f);
    for (i, s) in x.snapshots.ring_buffer.iter_mut().enumerate() { s.started_at = slot(100 + 10 * i as u64); }
    x.snapshots.ring_buffer_tip = 999;
    assert_eq!(x.first_snapshot_after(slot(205)).unwrap().started_at.slot, 210);
    assert_eq!(x.first_snapshot_after(slot(105)).unwrap().started_at.slot, 110, "DEMO: a snapshot before the slot was returned");
    assert_eq!(x.first_snapshot_after(slot(50)).unwrap().started_at.slot, 100);
}""")

seed("f07-slot-of-newest-snapshot", "F07", "farming",
 "a lookup for exactly the slot of the newest snapshot",
 "for the slot of the newest snapshot the lookup wraps around and returns the oldest snapshot instead of none",
 [(F, "        if self.latest_snapshot().started_at <= slot {", "        if self.latest_snapshot().started_at < slot {")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let mut x = farm(&w, &f);
    for (i, s) in x.snapshots.ring_buffer.iter_mut().enumerate() { s.started_at = slot(100 + 10 * i as u64); }
    x.snapshots.ring_buffer_tip = 999;
    assert!(x.first_snapshot_after(slot(100 + 9990)).is_none(), "DEMO: found a snapshot after the newest one");
    assert!(x.first_snapshot_after(slot(100 + 9989)).is_some());
}""")

seed("f08-full-list-history-cut", "F08", "farming",
 "a harvest with all ten periods in use, queried for slots before the oldest of them",
 "once ten periods are stored, the rate history no longer covers the slots before the oldest one",
 [(F, "                tps: TokenAmount::new(0),\n                starts_at: Slot::new(0),\n                ends_at: Slot::new(0),\n            },\n        ];", "                tps: TokenAmount::new(0),\n                starts_at: Slot::new(0),\n                // nothing is known about earlier periods\n                ends_at: Slot::new(\n                    self.periods[self.periods.len() - 1]\n                        .starts_at\n                        .slot\n                        .saturating_sub(1),\n                ),\n            },\n        ];")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1_000_000);
    w.slot = 100;
    for i in 0..10 {
        period(&mut w, &f, f.admin, m, hw, 0, 50, 3 + i).unwrap();
        w.slot += 51;
        let h = farm(&w, &f).harvests[0].tps_history(slot(w.slot));
        assert!(h.iter().any(|(r, t)| r.contains(&slot(50)) && t.amount == 0), "DEMO: no rate for a slot before the oldest period");
    }
}""")

seed("f09-exact-funding-refused", "F09", "farming",
 "a harvest wallet that holds exactly the tokens the new period needs",
 "a period that the wallet can exactly afford is refused",
 [(ep("new_harvest_period"), "            if deposit_amount > accounts.harvest_wallet.amount {", "            if deposit_amount >= accounts.harvest_wallet.amount {")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 500);
    w.slot = 100;
    assert!(period(&mut w, &f, f.admin, m, hw, 0, 50, 11).is_err());
    assert!(period(&mut w, &f, f.admin, m, hw, 0, 50, 10).is_ok(), "DEMO: affordable period refused");
    assert_eq!(w.bal(hw), 0);
}""")

seed("f09-refund-signer-seeds", "F09", "farming",
 "a scheduled period edited to cost less, which takes the refund branch",
 "the refund is signed for a different address than the vault's authority, so every such edit fails",
 [(ep("new_harvest_period"), "            let pda_seeds = &[\n                Farm::SIGNER_PDA_PREFIX,\n                &accounts.farm.key().to_bytes()[..],", "            let pda_seeds = &[\n                &Farm::SIGNER_PDA_PREFIX[..],\n                &accounts.harvest_vault.owner.to_bytes()[..],")],
 """
fn main() {
    let mut w = world();
    let f = new_farm(&mut w);
    let m = w.mint(f.admin, 0);
    add_harvest(&mut w, &f, f.admin, m).unwrap();
    let hw = w.tokens(m, f.admin, 1000);
    w.slot = 100;
    period(&mut w, &f, f.admin, m, hw, 200, 50, 10).unwrap();
    assert!(period(&mut w, &f, f.admin, m, hw, 200, 40, 10).is_ok(), "DEMO: shortening a scheduled launch refused");
    assert_eq!(w.bal(hw), 600);
}""")
