//! A small stand-in for the Solana runtime: keeps accounts, runs an Anchor
//! program natively and serves its cross-program calls (system program by
//! hand, token program with the real SPL processor). Everything is in memory.
#![allow(dead_code)]
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    entrypoint::ProgramResult, instruction::{AccountMeta, Instruction}, program_error::ProgramError,
    program_pack::Pack, program_stubs::{set_syscall_stubs, SyscallStubs}, system_instruction::SystemInstruction,
};
use anchor_spl::token::spl_token;
use std::{cell::RefCell, collections::BTreeMap, rc::Rc, sync::Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct Acc { pub lamports: u64, pub data: Vec<u8>, pub owner: Pubkey, pub exec: bool }

struct Env { slot: u64, program: Pubkey }
static ENV: Mutex<Env> = Mutex::new(Env { slot: 0, program: Pubkey::new_from_array([0; 32]) });

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) { if std::env::var("SIM_LOG").is_ok() { println!("{}", m); } }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { slot: ENV.lock().unwrap().slot, ..Default::default() };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let program = ENV.lock().unwrap().program;
        let mut signers = vec![];
        for s in seeds { signers.push(Pubkey::create_program_address(s, &program).map_err(|_| ProgramError::InvalidSeeds)?); }
        let mut list: Vec<AccountInfo> = vec![];
        for m in &ix.accounts {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let signs = i.is_signer || signers.contains(&m.pubkey);
            if m.is_signer && !signs { return Err(ProgramError::MissingRequiredSignature); }
            if m.is_writable && !i.is_writable { return Err(ProgramError::Custom(0xbad)); }
            let mut i = i.clone();
            i.is_signer = m.is_signer;
            i.is_writable = m.is_writable;
            list.push(i);
        }
        if ix.program_id == spl_token::id() {
            let before: Vec<Vec<u8>> = list.iter().map(|i| i.data.borrow().to_vec()).collect();
            let _ = before;
            return spl_token::processor::Processor::process(&ix.program_id, &list, &ix.data);
        }
        if ix.program_id == anchor_lang::solana_program::system_program::id() {
            return system(&list, bincode::deserialize(&ix.data).map_err(|_| ProgramError::InvalidInstructionData)?);
        }
        Err(ProgramError::IncorrectProgramId)
    }
}

fn system(a: &[AccountInfo], ix: SystemInstruction) -> ProgramResult {
    let sys = anchor_lang::solana_program::system_program::id();
    let pay = |from: &AccountInfo, to: &AccountInfo, l: u64| -> ProgramResult {
        if !from.is_signer { return Err(ProgramError::MissingRequiredSignature); }
        if from.lamports() < l { return Err(ProgramError::InsufficientFunds); }
        **from.lamports.borrow_mut() -= l;
        **to.lamports.borrow_mut() += l;
        Ok(())
    };
    let alloc = |x: &AccountInfo, n: u64| -> ProgramResult {
        if !x.is_signer || !x.data.borrow().is_empty() || *x.owner != sys { return Err(ProgramError::AccountAlreadyInitialized); }
        *x.data.borrow_mut() = Box::leak(vec![0u8; n as usize].into_boxed_slice());
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if a[1].lamports() != 0 { return Err(ProgramError::AccountAlreadyInitialized); }
            alloc(&a[1], space)?;
            a[1].assign(&owner);
            pay(&a[0], &a[1], lamports)
        }
        SystemInstruction::Transfer { lamports } => pay(&a[0], &a[1], lamports),
        SystemInstruction::Allocate { space } => alloc(&a[0], space),
        SystemInstruction::Assign { owner } => {
            if !a[0].is_signer { return Err(ProgramError::MissingRequiredSignature); }
            a[0].assign(&owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

pub type Entry = fn(&Pubkey, &[AccountInfo<'static>], &[u8]) -> ProgramResult;

pub struct World { pub accs: BTreeMap<Pubkey, Acc>, pub slot: u64, pub program: Pubkey, pub entry: Entry, n: u32 }

impl World {
    pub fn new(program: Pubkey, entry: Entry) -> Self {
        set_syscall_stubs(Box::new(Stubs));
        if std::env::var("SIM_LOG").is_err() { std::panic::set_hook(Box::new(|i| { if i.to_string().contains("DEMO") { eprintln!("{}", i) } })); }
        let mut w = World { accs: BTreeMap::new(), slot: 1, program, entry, n: 0 };
        for p in [program, spl_token::id(), anchor_lang::solana_program::system_program::id()] {
            w.accs.insert(p, Acc { lamports: 1, data: vec![], owner: Pubkey::default(), exec: true });
        }
        let rent = Rent::default();
        let mut d = vec![];
        d.extend_from_slice(&rent.lamports_per_byte_year.to_le_bytes());
        d.extend_from_slice(&rent.exemption_threshold.to_le_bytes());
        d.push(rent.burn_percent);
        w.accs.insert(anchor_lang::solana_program::sysvar::rent::id(), Acc { lamports: 1, data: d, owner: Pubkey::new_from_array([9; 32]), exec: false });
        w
    }
    /// a fresh address
    pub fn key(&mut self) -> Pubkey {
        self.n += 1;
        let mut b = [7u8; 32];
        b[..4].copy_from_slice(&self.n.to_le_bytes());
        b[31] = 1;
        Pubkey::new_from_array(b)
    }
    pub fn pda(&self, seeds: &[&[u8]]) -> Pubkey { Pubkey::find_program_address(seeds, &self.program).0 }
    pub fn wallet(&mut self) -> Pubkey {
        let k = self.key();
        self.accs.insert(k, Acc { lamports: 1_000_000_000_000, data: vec![], owner: Pubkey::default(), exec: false });
        k
    }
    /// a zeroed account owned by the program
    pub fn blank(&mut self, space: usize) -> Pubkey {
        let k = self.key();
        self.accs.insert(k, Acc { lamports: 1_000_000_000, data: vec![0; space], owner: self.program, exec: false });
        k
    }
    pub fn mint(&mut self, authority: Pubkey, supply: u64) -> Pubkey {
        let k = self.key();
        let mut d = vec![0; spl_token::state::Mint::LEN];
        spl_token::state::Mint { mint_authority: Some(authority).into(), supply, decimals: 6, is_initialized: true, freeze_authority: None.into() }.pack_into_slice(&mut d);
        self.accs.insert(k, Acc { lamports: 1_000_000_000, data: d, owner: spl_token::id(), exec: false });
        k
    }
    pub fn tokens_at(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let mut d = vec![0; spl_token::state::Account::LEN];
        spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }.pack_into_slice(&mut d);
        self.accs.insert(k, Acc { lamports: 2_039_280, data: d, owner: spl_token::id(), exec: false });
        k
    }
    pub fn tokens(&mut self, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let k = self.key();
        self.tokens_at(k, mint, owner, amount)
    }
    pub fn bal(&self, k: Pubkey) -> u64 { spl_token::state::Account::unpack(&self.accs[&k].data).unwrap().amount }
    pub fn token(&self, k: Pubkey) -> spl_token::state::Account { spl_token::state::Account::unpack(&self.accs[&k].data).unwrap() }
    pub fn supply(&self, k: Pubkey) -> u64 { spl_token::state::Mint::unpack(&self.accs[&k].data).unwrap().supply }
    pub fn set_bal(&mut self, k: Pubkey, n: u64) {
        let mut t = self.token(k);
        t.amount = n;
        t.pack_into_slice(&mut self.accs.get_mut(&k).unwrap().data);
    }
    pub fn exists(&self, k: Pubkey) -> bool { self.accs.get(&k).map_or(false, |a| a.lamports > 0) }
    /// borsh account (Anchor `Account`)
    pub fn load<T: AccountDeserialize>(&self, k: Pubkey) -> T { T::try_deserialize(&mut &self.accs[&k].data[..]).unwrap() }
    pub fn store<T: AccountSerialize>(&mut self, k: Pubkey, v: &T) {
        let mut d = vec![];
        v.try_serialize(&mut d).unwrap();
        self.accs.get_mut(&k).unwrap().data[..d.len()].copy_from_slice(&d);
    }
    /// zero-copy account (Anchor `AccountLoader`)
    pub fn zc<T: Copy>(&self, k: Pubkey) -> Box<T> {
        let d = &self.accs[&k].data;
        assert!(d.len() >= 8 + std::mem::size_of::<T>());
        unsafe {
            let mut b = Box::<T>::new(std::mem::MaybeUninit::zeroed().assume_init());
            std::ptr::copy_nonoverlapping(d[8..].as_ptr(), &mut *b as *mut T as *mut u8, std::mem::size_of::<T>());
            b
        }
    }
    pub fn set_zc<T: Copy>(&mut self, k: Pubkey, v: &T) {
        let d = &mut self.accs.get_mut(&k).unwrap().data;
        unsafe { std::ptr::copy_nonoverlapping(v as *const T as *const u8, d[8..].as_mut_ptr(), std::mem::size_of::<T>()) }
    }
    pub fn run(&mut self, accounts: impl ToAccountMetas, ix: impl anchor_lang::InstructionData) -> std::result::Result<(), String> {
        let m = accounts.to_account_metas(None);
        self.call(m, ix.data())
    }
    pub fn run_with(&mut self, accounts: impl ToAccountMetas, extra: &[AccountMeta], ix: impl anchor_lang::InstructionData) -> std::result::Result<(), String> {
        let mut m = accounts.to_account_metas(None);
        m.extend_from_slice(extra);
        self.call(m, ix.data())
    }
    pub fn call(&mut self, metas: Vec<AccountMeta>, data: Vec<u8>) -> std::result::Result<(), String> {
        { let mut e = ENV.lock().unwrap(); e.slot = self.slot; e.program = self.program; }
        type Slot = (Rc<RefCell<&'static mut u64>>, Rc<RefCell<&'static mut [u8]>>, &'static Pubkey);
        let mut shared: BTreeMap<Pubkey, (Slot, bool, bool)> = BTreeMap::new();
        for m in &metas {
            let a = self.accs.get(&m.pubkey).cloned().unwrap_or(Acc { lamports: 0, data: vec![], owner: Pubkey::default(), exec: false });
            let e = shared.entry(m.pubkey).or_insert_with(|| {
                // word aligned copy, as in the runtime
                let n = a.data.len();
                let mut buf = vec![0u64; n / 8 + 2];
                let p = buf.as_mut_ptr() as *mut u8;
                std::mem::forget(buf);
                let s: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(p, n) };
                s.copy_from_slice(&a.data);
                ((Rc::new(RefCell::new(Box::leak(Box::new(a.lamports)))), Rc::new(RefCell::new(s)), &*Box::leak(Box::new(a.owner))), false, false)
            });
            e.1 |= m.is_signer;
            e.2 |= m.is_writable;
        }
        let infos: &'static Vec<AccountInfo<'static>> = Box::leak(Box::new(metas.iter().map(|m| {
            let ((l, d, o), s, w) = &shared[&m.pubkey];
            AccountInfo { key: Box::leak(Box::new(m.pubkey)), is_signer: *s, is_writable: *w, lamports: l.clone(), data: d.clone(), owner: o, executable: self.accs.get(&m.pubkey).map_or(false, |a| a.exec), rent_epoch: 0 }
        }).collect()));
        let (entry, program) = (self.entry, self.program);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entry(&program, &infos[..], &data)));
        match r {
            Err(_) => return Err("panic".into()),
            Ok(Err(e)) => return Err(format!("{:?}", e)),
            Ok(Ok(())) => (),
        }
        let mut before = 0u128;
        let mut after = 0u128;
        let mut next = self.accs.clone();
        for (k, ((l, d, o), _, w)) in &shared {
            let a = Acc { lamports: **l.borrow(), data: d.borrow().to_vec(), owner: **o, exec: self.accs.get(k).map_or(false, |a| a.exec) };
            let old = self.accs.get(k).cloned().unwrap_or(Acc { lamports: 0, data: vec![], owner: Pubkey::default(), exec: false });
            before += old.lamports as u128;
            after += a.lamports as u128;
            if !w && a != old { return Err("read-only account changed".into()); }
            if a.lamports == 0 { next.remove(k); } else { next.insert(*k, a); }
        }
        if before != after { return Err("lamports not conserved".into()); }
        self.accs = next;
        Ok(())
    }
}
