//! Fixture for the farming program.
#![allow(dead_code)]
use crate::sim::*;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{instruction::AccountMeta, system_program, sysvar};
use anchor_spl::token::spl_token;
use farming::models::*;
pub use farming::{accounts as ac, instruction as ix};

pub type R = std::result::Result<(), String>;
pub fn amt(n: u64) -> TokenAmount { TokenAmount::new(n) }
pub fn slot(n: u64) -> Slot { Slot::new(n) }

#[derive(Clone, Copy)]
pub struct FarmKeys { pub farm: Pubkey, pub admin: Pubkey, pub signer: Pubkey, pub mint: Pubkey, pub vault: Pubkey }

pub fn world() -> World { World::new(farming::ID, |a, b, c| farming::entry(a, b, c)) }

pub fn farm_space() -> usize { 8 + std::mem::size_of::<Farm>() }

pub fn keys(w: &World, farm: Pubkey, admin: Pubkey, mint: Pubkey) -> FarmKeys {
    FarmKeys { farm, admin, mint, signer: w.pda(&[b"signer", farm.as_ref()]), vault: w.pda(&[b"stake_vault", farm.as_ref()]) }
}
pub fn new_farm_for(w: &mut World, mint: Pubkey) -> FarmKeys {
    let admin = w.wallet();
    let farm = w.blank(farm_space());
    let f = keys(w, farm, admin, mint);
    w.run(ac::CreateFarm { admin, farm, farm_signer_pda: f.signer, stake_mint: mint, stake_vault: f.vault, token_program: spl_token::id(), system_program: system_program::id(), rent: sysvar::rent::id() }, ix::CreateFarm {}).unwrap();
    f
}
pub fn new_farm(w: &mut World) -> FarmKeys {
    let a = w.wallet();
    let m = w.mint(a, 1_000_000_000);
    new_farm_for(w, m)
}
pub fn hvault(w: &World, f: &FarmKeys, mint: Pubkey) -> Pubkey { w.pda(&[b"harvest_vault", f.farm.as_ref(), mint.as_ref()]) }
pub fn add_harvest(w: &mut World, f: &FarmKeys, admin: Pubkey, mint: Pubkey) -> R {
    let hv = hvault(w, f, mint);
    w.run(ac::AddHarvest { admin, farm: f.farm, farm_signer_pda: f.signer, harvest_mint: mint, harvest_vault: hv, token_program: spl_token::id(), system_program: system_program::id(), rent: sysvar::rent::id() }, ix::AddHarvest {})
}
pub fn remove_harvest(w: &mut World, f: &FarmKeys, admin: Pubkey, mint: Pubkey) -> R {
    let hv = hvault(w, f, mint);
    w.run(ac::RemoveHarvest { admin, farm: f.farm, farm_signer_pda: f.signer, harvest_vault: hv, token_program: spl_token::id() }, ix::RemoveHarvest { harvest_mint: mint })
}
pub fn period(w: &mut World, f: &FarmKeys, admin: Pubkey, mint: Pubkey, wallet: Pubkey, start: u64, len: u64, tps: u64) -> R {
    let hv = hvault(w, f, mint);
    w.run(ac::NewHarvestPeriod { admin, farm: f.farm, harvest_wallet: wallet, harvest_vault: hv, farm_signer_pda: f.signer, token_program: spl_token::id() },
        ix::NewHarvestPeriod { harvest_mint: mint, starts_at: slot(start), period_length_in_slots: len, tokens_per_slot: amt(tps) })
}
pub fn snapshot(w: &mut World, f: &FarmKeys) -> R {
    w.run(ac::TakeSnapshot { farm: f.farm, stake_vault: f.vault }, ix::TakeSnapshot {})
}
pub fn set_owner(w: &mut World, f: &FarmKeys, admin: Pubkey, new: Pubkey) -> R {
    w.run(ac::SetFarmOwner { admin, new_farm_admin: new, farm: f.farm }, ix::SetFarmOwner {})
}
pub fn set_window(w: &mut World, f: &FarmKeys, admin: Pubkey, n: u64) -> R {
    w.run(ac::SetMinSnapshotWindow { admin, farm: f.farm }, ix::SetMinSnapshotWindow { min_snapshot_window_slots: n })
}
pub fn wl(w: &World, s: &FarmKeys, t: &FarmKeys) -> Pubkey { w.pda(&[b"whitelist_compounding", s.farm.as_ref(), t.farm.as_ref()]) }
pub fn whitelist(w: &mut World, admin: Pubkey, s: &FarmKeys, t: &FarmKeys) -> R {
    let k = wl(w, s, t);
    w.run(ac::WhitelistFarmForCompouding { admin, source_farm: s.farm, target_farm: t.farm, whitelist_compounding: k, system_program: system_program::id() }, ix::WhitelistFarmForCompounding {})
}
pub fn dewhitelist(w: &mut World, admin: Pubkey, s: &FarmKeys, t: &FarmKeys) -> R {
    let k = wl(w, s, t);
    w.run(ac::DewhitelistFarmForCompounding { admin, source_farm: s.farm, target_farm: t.farm, whitelist_compounding: k, system_program: system_program::id() }, ix::DewhitelistFarmForCompounding {})
}
pub fn farm(w: &World, f: &FarmKeys) -> Box<Farm> { w.zc::<Farm>(f.farm) }
/// any signer metas
pub fn meta(k: Pubkey, s: bool, wr: bool) -> AccountMeta { if wr { AccountMeta::new(k, s) } else { AccountMeta::new_readonly(k, s) } }

// ---------------------------------------------------------------- farmers
pub fn farmer_key(w: &World, f: &FarmKeys, user: Pubkey) -> Pubkey { w.pda(&[b"farmer", f.farm.as_ref(), user.as_ref()]) }
pub fn create_farmer(w: &mut World, f: &FarmKeys, user: Pubkey) -> Pubkey {
    let k = farmer_key(w, f, user);
    w.run(ac::CreateFarmer { payer: user, authority: user, farmer: k, farm: f.farm, system_program: system_program::id() }, ix::CreateFarmer {}).unwrap();
    k
}
pub fn farmer(w: &World, k: Pubkey) -> Farmer { w.load(k) }
pub fn close_farmer(w: &mut World, user: Pubkey, k: Pubkey) -> R { w.run(ac::CloseFarmer { authority: user, farmer: k }, ix::CloseFarmer {}) }
pub fn start(w: &mut World, f: &FarmKeys, user: Pubkey, wallet: Pubkey, k: Pubkey, n: u64) -> R {
    w.run(ac::StartFarming { wallet_authority: user, farmer: k, stake_wallet: wallet, farm: f.farm, stake_vault: f.vault, token_program: spl_token::id() }, ix::StartFarming { stake: amt(n) })
}
pub fn stop(w: &mut World, f: &FarmKeys, user: Pubkey, wallet: Pubkey, k: Pubkey, n: u64) -> R {
    w.run(ac::StopFarming { authority: user, farmer: k, stake_wallet: wallet, farm: f.farm, farm_signer_pda: f.signer, stake_vault: f.vault, token_program: spl_token::id() }, ix::StopFarming { unstake_max: amt(n) })
}
pub fn update(w: &mut World, f: &FarmKeys, k: Pubkey) -> R { w.run(ac::UpdateEligibleHarvest { farm: f.farm, farmer: k }, ix::UpdateEligibleHarvest {}) }
pub fn update_until(w: &mut World, f: &FarmKeys, k: Pubkey, n: u64) -> R { w.run(ac::UpdateEligibleHarvest { farm: f.farm, farmer: k }, ix::UpdateEligibleHarvestUntil { until: slot(n) }) }
pub fn claim(w: &mut World, f: &FarmKeys, user: Pubkey, k: Pubkey, pairs: &[(Pubkey, Pubkey)]) -> R {
    let extra: Vec<_> = pairs.iter().flat_map(|(v, u)| [meta(*v, false, true), meta(*u, false, true)]).collect();
    w.run_with(ac::ClaimEligibleHarvest { authority: user, farmer: k, farm_signer_pda: f.signer, token_program: spl_token::id() }, &extra, ix::ClaimEligibleHarvest {})
}
pub fn compound_same(w: &mut World, f: &FarmKeys, k: Pubkey) -> R {
    let (h, l) = (hvault(w, f, f.mint), wl(w, f, f));
    w.run(ac::CompoundSameFarm { farm: f.farm, farm_signer_pda: f.signer, whitelist_compounding: l, stake_vault: f.vault, harvest_vault: h, farmer: k, token_program: spl_token::id() }, ix::CompoundSameFarm {})
}
pub fn compound_across(w: &mut World, s: &FarmKeys, t: &FarmKeys, ks: Pubkey, kt: Pubkey) -> R {
    let (h, l) = (hvault(w, s, t.mint), wl(w, s, t));
    w.run(ac::CompoundAcrossFarms { source_farm: s.farm, target_farm: t.farm, source_farm_signer_pda: s.signer, whitelist_compounding: l, target_stake_vault: t.vault, source_harvest_vault: h, source_farmer: ks, target_farmer: kt, token_program: spl_token::id() }, ix::CompoundAcrossFarms {})
}
pub fn airdrop(w: &mut World, f: &FarmKeys, user: Pubkey, wallet: Pubkey, mint: Pubkey, k: Pubkey, n: u64) -> R {
    let h = hvault(w, f, mint);
    w.run(ac::Airdrop { wallet_authority: user, farmer: k, harvest_wallet: wallet, harvest_vault: h, token_program: spl_token::id() }, ix::Airdrop { airdrop: amt(n) })
}
