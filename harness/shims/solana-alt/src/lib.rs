//! Offline stand-in for solana-address-lookup-table-program.
use solana_program::declare_id;
declare_id!("AddressLookupTab1e1111111111111111111111111");
pub mod state {
    pub const LOOKUP_TABLE_META_SIZE: usize = 56;
    pub struct AddressLookupTable;
    impl AddressLookupTable {
        pub fn deserialize(data: &[u8]) -> Result<Self, String> {
            if data.len() < LOOKUP_TABLE_META_SIZE || data[0] != 1 {
                return Err("InvalidAccountData".into());
            }
            Ok(Self)
        }
    }
}
pub mod instruction {
    use solana_program::instruction::{AccountMeta, Instruction};
    use solana_program::pubkey::Pubkey;
    pub fn extend_lookup_table(
        table: Pubkey,
        authority: Pubkey,
        payer: Option<Pubkey>,
        new_addresses: Vec<Pubkey>,
    ) -> Instruction {
        let mut data = 2u32.to_le_bytes().to_vec();
        data.extend((new_addresses.len() as u64).to_le_bytes());
        for a in new_addresses {
            data.extend(a.to_bytes());
        }
        let mut accounts = vec![
            AccountMeta::new(table, false),
            AccountMeta::new_readonly(authority, true),
        ];
        if let Some(p) = payer {
            accounts.push(AccountMeta::new(p, true));
        }
        Instruction { program_id: super::id(), accounts, data }
    }
}
