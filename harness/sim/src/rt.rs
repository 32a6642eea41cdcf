//! A minimal in-process Solana runtime: accounts, atomic transactions, cross-program calls.
//! Programs run as native code on the serialized input buffer that the on-chain loader uses.
use anchor_lang::prelude::*;
use solana_program::entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE, SUCCESS};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::{system_instruction::SystemInstruction, system_program, sysvar};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

/// A program that only forwards an instruction to another program (for "called via CPI" cases).
/// Instruction data: target program id, then the data; metas are passed through.
pub fn proxy_id() -> Pubkey {
    Pubkey::new_from_array([77u8; 32])
}
pub fn dex_id() -> Pubkey {
    mango_dex_id()
}
fn mango_dex_id() -> Pubkey {
    DEX_ID.with(|c| c.get())
}
/// Stand-in programs that mango whitelists but that we run as no-ops
pub fn noop_ids() -> Vec<Pubkey> {
    vec![compute_budget_id()]
}
pub fn compute_budget_id() -> Pubkey {
    "ComputeBudget111111111111111111111111111111".parse().unwrap()
}

thread_local! {
    static CLOCK: RefCell<Clock> = RefCell::new(Clock::default());
    static STACK: RefCell<Vec<Pubkey>> = RefCell::new(vec![]);
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static LOGS: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
    static MSGS: RefCell<Vec<String>> = RefCell::new(vec![]);
    static RETDATA: RefCell<Option<(Pubkey, Vec<u8>)>> = RefCell::new(None);
    pub static DEX_ID: Cell<Pubkey> = Cell::new(Pubkey::new_from_array([88u8; 32]));
    static PDA_CACHE: RefCell<HashMap<Vec<u8>, Pubkey>> = RefCell::new(HashMap::new());
    /// hook called inside the margin-trade / proxy programs
    pub static VERBOSE: Cell<bool> = Cell::new(false);
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if VERBOSE.with(|v| v.get()) {
            eprintln!("      log: {}", m);
        }
        MSGS.with(|l| l.borrow_mut().push(m.to_string()));
    }
    fn sol_log_data(&self, d: &[&[u8]]) {
        LOGS.with(|l| {
            for x in d {
                l.borrow_mut().push(x.to_vec())
            }
        });
    }
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        CLOCK.with(|c| unsafe { *(var_addr as *mut _ as *mut Clock) = c.borrow().clone() });
        SUCCESS
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut _ as *mut Rent) = Rent::default() };
        SUCCESS
    }
    fn sol_get_stack_height(&self) -> u64 {
        STACK.with(|s| s.borrow().len() as u64)
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let p = STACK.with(|s| *s.borrow().last().unwrap());
        RETDATA.with(|r| *r.borrow_mut() = Some((p, data.to_vec())));
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        RETDATA.with(|r| r.borrow().clone())
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let caller = STACK.with(|s| *s.borrow().last().unwrap());
        let mut pdas = BTreeSet::new();
        for s in seeds {
            pdas.insert(cached_pda(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        // privileges of the caller
        let mut callee_infos = vec![];
        for m in &ix.accounts {
            let same: Vec<&AccountInfo> = infos.iter().filter(|i| *i.key == m.pubkey).collect();
            let info = same.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
            let can_sign = same.iter().any(|i| i.is_signer) || pdas.contains(&m.pubkey);
            let can_write = same.iter().any(|i| i.is_writable);
            if (m.is_signer && !can_sign) || (m.is_writable && !can_write) {
                return Err(ProgramError::Custom(0xdead_0001)); // privilege escalation
            }
            callee_infos.push(m.clone());
            let _ = info;
        }
        // merge flags of repeated metas, as the runtime does
        let mut merged: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = merged.entry(m.pubkey).or_default();
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        let infos2: Vec<AccountInfo> = ix
            .accounts
            .iter()
            .map(|m| {
                let mut i = infos.iter().find(|i| *i.key == m.pubkey).unwrap().clone();
                i.is_signer = merged[&m.pubkey].0;
                i.is_writable = merged[&m.pubkey].1;
                i
            })
            .collect();
        // no re-entrancy except direct self-recursion
        let reentrant = STACK.with(|s| {
            let s = s.borrow();
            s.iter().any(|p| *p == ix.program_id) && *s.last().unwrap() != ix.program_id
        });
        if reentrant {
            return Err(ProgramError::Custom(0xdead_0002));
        }
        let infos2: Vec<AccountInfo<'static>> = unsafe { std::mem::transmute(infos2) };
        call(&ix.program_id, infos2, &ix.data)
    }
}

pub fn cached_pda(seeds: &[&[u8]], program: &Pubkey) -> std::result::Result<Pubkey, ()> {
    let mut k = program.to_bytes().to_vec();
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    if let Some(p) = PDA_CACHE.with(|c| c.borrow().get(&k).cloned()) {
        return Ok(p);
    }
    let p = Pubkey::create_program_address(seeds, program).map_err(|_| ())?;
    PDA_CACHE.with(|c| c.borrow_mut().insert(k, p));
    Ok(p)
}

fn call(program: &Pubkey, infos: Vec<AccountInfo<'static>>, data: &[u8]) -> ProgramResult {
    STACK.with(|s| s.borrow_mut().push(*program));
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            STACK.with(|s| s.borrow_mut().pop());
        }
    }
    let _p = Pop;
    if *program == mango_v4::id() {
        let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
        let r = mango_v4::entry(program, infos, data);
        unsafe {
            drop(Box::from_raw(infos as *const [AccountInfo] as *mut [AccountInfo]));
        }
        r
    } else if *program == spl_token::id() {
        spl_token::processor::Processor::process(program, &infos, data)
    } else if *program == system_program::id() {
        system(&infos, data)
    } else if *program == dex_id() {
        crate::dex::process(&infos, data)
    } else if *program == margin_trade::id() {
        let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
        let r = margin_trade::entry(program, infos, data);
        unsafe {
            drop(Box::from_raw(infos as *const [AccountInfo] as *mut [AccountInfo]));
        }
        r
    } else if *program == proxy_id() {
        let target = Pubkey::try_from(&data[..32]).unwrap();
        let ix = Instruction {
            program_id: target,
            accounts: if *infos[0].key == target { &infos[1..] } else { &infos[..infos.len() - 1] }
                .iter()
                .map(|i| AccountMeta { pubkey: *i.key, is_signer: i.is_signer, is_writable: i.is_writable })
                .collect(),
            data: data[32..].to_vec(),
        };
        solana_program::program::invoke_signed_unchecked(&ix, &infos, &[])
    } else if *program == spl_associated_token_account::id() {
        ata(&infos, data)
    } else if noop_ids().contains(program) {
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

fn system(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    let transfer = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if from.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.lamports.borrow_mut() -= n;
        **to.lamports.borrow_mut() += n;
        Ok(())
    };
    let alloc = |a: &AccountInfo, space: u64| -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if a.data_len() > 0 || *a.owner != system_program::id() {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        a.realloc(space as usize, true)
    };
    let assign = |a: &AccountInfo, owner: &Pubkey| -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        a.assign(owner);
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if infos[1].lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            alloc(&infos[1], space)?;
            assign(&infos[1], &owner)?;
            transfer(&infos[0], &infos[1], lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(&infos[0], &infos[1], lamports),
        SystemInstruction::Allocate { space } => alloc(&infos[0], space),
        SystemInstruction::Assign { owner } => assign(&infos[0], &owner),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// create_idempotent of the associated token account program
fn ata(infos: &[AccountInfo], _data: &[u8]) -> ProgramResult {
    let (payer, ata, wallet, mint) = (&infos[0], &infos[1], &infos[2], &infos[3]);
    let (addr, bump) = Pubkey::find_program_address(
        &[wallet.key.as_ref(), spl_token::id().as_ref(), mint.key.as_ref()],
        &spl_associated_token_account::id(),
    );
    if addr != *ata.key {
        return Err(ProgramError::InvalidSeeds);
    }
    if *ata.owner == spl_token::id() {
        return Ok(());
    }
    let tid = spl_token::id();
    let seeds: &[&[u8]] = &[wallet.key.as_ref(), tid.as_ref(), mint.key.as_ref(), &[bump]];
    let ix = solana_program::system_instruction::create_account(
        payer.key,
        ata.key,
        Rent::default().minimum_balance(165),
        165,
        &spl_token::id(),
    );
    solana_program::program::invoke_signed_unchecked(&ix, infos, &[seeds])?;
    let ix = spl_token::instruction::initialize_account3(&spl_token::id(), ata.key, mint.key, wallet.key)?;
    solana_program::program::invoke_signed_unchecked(&ix, infos, &[])
}

#[derive(Clone)]
pub struct Rt {
    pub accs: BTreeMap<Pubkey, Acc>,
    pub clock: Clock,
    /// index of the last instruction the last transaction got to, none if it did not start
    pub ran: Option<usize>,
    /// when set, the accounts after every instruction of the last transaction
    pub snaps: Option<Vec<BTreeMap<Pubkey, Acc>>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    /// the transaction is not well-formed for the runtime (missing signature...)
    Runtime(String),
    /// custom program error (MangoError: 6000 + n; anchor errors below)
    Code(u32),
    Program(String),
    Panic(String),
}
impl TxErr {
    pub fn text(&self) -> String {
        match self {
            TxErr::Runtime(s) => format!("runtime:{}", s),
            TxErr::Code(c) => format!("code:{}", c),
            TxErr::Program(s) => format!("program:{}", s),
            TxErr::Panic(s) => format!("panic:{}", s),
        }
    }
}

fn align8(n: usize) -> usize {
    (n + 7) & !7
}

impl Rt {
    pub fn new() -> Self {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            set_syscall_stubs(Box::new(Stubs));
            std::panic::set_hook(Box::new(|i| {
                let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = i.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                };
                let inside = STACK.with(|s| !s.borrow().is_empty());
                if !inside || VERBOSE.with(|v| v.get()) {
                    eprintln!("{}", i);
                }
                let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} @{}", m, at));
            }));
        });
        let mut rt = Rt { accs: BTreeMap::new(), clock: Clock::default(), snaps: None, ran: None };
        for p in [
            mango_v4::id(),
            spl_token::id(),
            system_program::id(),
            dex_id(),
            proxy_id(),
            margin_trade::id(),
            spl_associated_token_account::id(),
            compute_budget_id(),
        ] {
            rt.accs.insert(p, Acc { lamports: 1, executable: true, ..Default::default() });
        }
        let rent_data = bincode::serialize(&Rent::default()).unwrap();
        rt.accs.insert(sysvar::rent::id(), Acc { lamports: 1, data: rent_data, owner: sysvar::id(), executable: false });
        rt.clock.unix_timestamp = 1_000_000;
        rt.clock.slot = 1000;
        rt
    }

    pub fn get(&self, k: &Pubkey) -> &Acc {
        self.accs.get(k).unwrap_or_else(|| panic!("no account {}", k))
    }
    pub fn get_mut(&mut self, k: &Pubkey) -> &mut Acc {
        self.accs.get_mut(k).unwrap()
    }

    /// Runs the instructions as one atomic transaction.
    pub fn tx(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> std::result::Result<(), TxErr> {
        self.ran = None;
        RETDATA.with(|r| *r.borrow_mut() = None);
        LOGS.with(|l| l.borrow_mut().clear());
        MSGS.with(|l| l.borrow_mut().clear());
        CLOCK.with(|c| *c.borrow_mut() = self.clock.clone());
        let mut keys: BTreeSet<Pubkey> = BTreeSet::new();
        let mut writable: BTreeSet<Pubkey> = BTreeSet::new();
        for ix in ixs {
            keys.insert(ix.program_id);
            for m in &ix.accounts {
                keys.insert(m.pubkey);
                if m.is_writable {
                    writable.insert(m.pubkey);
                }
                if m.is_signer && !signers.contains(&m.pubkey) {
                    return Err(TxErr::Runtime("missing signature".into()));
                }
            }
        }
        let backup: Vec<(Pubkey, Option<Acc>)> =
            writable.iter().map(|k| (*k, self.accs.get(k).cloned())).collect();
        let mut r = Ok(());
        self.ran = Some(0);
        for (i, ix) in ixs.iter().enumerate() {
            r = self.exec(ix, ixs, i, &writable, signers);
            self.ran = Some(i);
            if r.is_err() {
                break;
            }
            if self.snaps.is_some() {
                let c = self.accs.clone();
                self.snaps.as_mut().unwrap().push(c);
            }
        }
        STACK.with(|s| s.borrow_mut().clear());
        if r.is_err() {
            for (k, a) in backup {
                match a {
                    Some(a) => {
                        self.accs.insert(k, a);
                    }
                    None => {
                        self.accs.remove(&k);
                    }
                }
            }
        }
        r
    }

    fn exec(
        &mut self,
        ix: &Instruction,
        all: &[Instruction],
        index: usize,
        writable: &BTreeSet<Pubkey>,
        signers: &[Pubkey],
    ) -> std::result::Result<(), TxErr> {
        let ixsys = sysvar::instructions::id();
        let mut size = 8;
        let mut first: HashMap<Pubkey, usize> = HashMap::new();
        let ixsys_data = if ix.accounts.iter().any(|m| m.pubkey == ixsys) {
            let b: Vec<_> = all
                .iter()
                .map(|x| sysvar::instructions::BorrowedInstruction {
                    program_id: &x.program_id,
                    accounts: x
                        .accounts
                        .iter()
                        .map(|m| sysvar::instructions::BorrowedAccountMeta {
                            pubkey: &m.pubkey,
                            is_signer: m.is_signer,
                            is_writable: m.is_writable,
                        })
                        .collect(),
                    data: &x.data,
                })
                .collect();
            let mut d = sysvar::instructions::construct_instructions_data(&b);
            sysvar::instructions::store_current_index(&mut d, index as u16);
            d
        } else {
            vec![]
        };
        let empty = Acc { owner: system_program::id(), ..Default::default() };
        let ixsys_acc = Acc { lamports: 1, data: ixsys_data, owner: sysvar::id(), executable: false };
        for (i, m) in ix.accounts.iter().enumerate() {
            if first.contains_key(&m.pubkey) {
                size += 8;
            } else {
                first.insert(m.pubkey, i);
                let a = if m.pubkey == ixsys { &ixsys_acc } else { self.accs.get(&m.pubkey).unwrap_or(&empty) };
                size += 8 + 32 + 32 + 8 + 8 + align8(a.data.len()) + MAX_PERMITTED_DATA_INCREASE + 8 + 8;
            }
        }
        size += 8 + ix.data.len() + 32 + 64;
        let mut buf: Vec<u64> = vec![0u64; size / 8 + 2];
        let base = buf.as_mut_ptr() as *mut u8;
        let mut off = 0usize;
        let mut data_at: Vec<(Pubkey, usize, usize, usize)> = vec![]; // key, start of header, data offset, data len
        unsafe {
            let w = |off: &mut usize, b: &[u8]| {
                std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(*off), b.len());
                *off += b.len();
            };
            w(&mut off, &(ix.accounts.len() as u64).to_le_bytes());
            for (i, m) in ix.accounts.iter().enumerate() {
                let f = first[&m.pubkey];
                if f != i {
                    w(&mut off, &[f as u8, 0, 0, 0, 0, 0, 0, 0]);
                    continue;
                }
                let a = if m.pubkey == ixsys { &ixsys_acc } else { self.accs.get(&m.pubkey).unwrap_or(&empty) };
                // transaction-level privileges: an account writable/signing anywhere in the message
                let is_signer = all.iter().any(|i| i.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer));
                let is_writable = writable.contains(&m.pubkey);
                let _ = signers;
                let start = off;
                w(&mut off, &[0xff, is_signer as u8, is_writable as u8, a.executable as u8, 0, 0, 0, 0]);
                w(&mut off, m.pubkey.as_ref());
                w(&mut off, a.owner.as_ref());
                w(&mut off, &a.lamports.to_le_bytes());
                w(&mut off, &(a.data.len() as u64).to_le_bytes());
                data_at.push((m.pubkey, start, off, a.data.len()));
                w(&mut off, &a.data);
                off = align8(off + MAX_PERMITTED_DATA_INCREASE);
                w(&mut off, &0u64.to_le_bytes());
            }
            w(&mut off, &(ix.data.len() as u64).to_le_bytes());
            w(&mut off, &ix.data);
            w(&mut off, ix.program_id.as_ref());
        }
        STACK.with(|s| s.borrow_mut().clear());
        let res = catch_unwind(AssertUnwindSafe(|| {
            let (program_id, infos, data) = unsafe { solana_program::entrypoint::deserialize(base) };
            call(program_id, infos, data)
        }));
        match res {
            Err(_) => return Err(TxErr::Panic(PANIC_MSG.with(|p| p.borrow().clone()))),
            Ok(Err(ProgramError::Custom(c))) => return Err(TxErr::Code(c)),
            Ok(Err(e)) => return Err(TxErr::Program(format!("{:?}", e))),
            Ok(Ok(())) => {}
        }
        // write back
        let mut before_lamports = 0u128;
        let mut after_lamports = 0u128;
        for (k, start, doff, olen) in data_at {
            if k == ixsys {
                continue;
            }
            unsafe {
                let s = |o: usize, n: usize| std::slice::from_raw_parts(base.add(o), n);
                let is_writable = *base.add(start + 2) == 1;
                let owner = Pubkey::try_from(s(start + 40, 32)).unwrap();
                let lamports = u64::from_le_bytes(s(start + 72, 8).try_into().unwrap());
                let len = u64::from_le_bytes(s(start + 80, 8).try_into().unwrap()) as usize;
                let data = s(doff, len);
                let old = self.accs.get(&k).unwrap_or(&empty);
                before_lamports += old.lamports as u128;
                after_lamports += lamports as u128;
                let changed = old.lamports != lamports || old.owner != owner || old.data.as_slice() != data;
                if !changed {
                    continue;
                }
                if !is_writable {
                    return Err(TxErr::Runtime(format!("read-only account modified {}", k)));
                }
                let _ = olen;
                let executable = old.executable;
                if lamports == 0 {
                    self.accs.remove(&k);
                } else {
                    self.accs.insert(k, Acc { lamports, data: data.to_vec(), owner, executable });
                }
            }
        }
        if before_lamports != after_lamports {
            return Err(TxErr::Runtime("lamports not conserved".into()));
        }
        Ok(())
    }

    pub fn set_clock(&self) {
        CLOCK.with(|c| *c.borrow_mut() = self.clock.clone());
    }
    pub fn logs(&self) -> Vec<Vec<u8>> {
        LOGS.with(|l| l.borrow().clone())
    }
    pub fn msgs(&self) -> Vec<String> {
        MSGS.with(|l| l.borrow().clone())
    }
    pub fn return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        RETDATA.with(|r| r.borrow().clone())
    }
}
