//! Instructions given other accounts than the ones that belong there: of another kind, another token or
//! market, another user, or of another group (a copy whose every reference leads to that other group).
use crate::gen::Rng;
use crate::world::*;
use anchor_lang::prelude::*;
use serde_json::{json, Value};
use solana_program::instruction::Instruction;
use solana_program::{system_program, sysvar};
use std::collections::BTreeMap;

/// one exchanged account: position, what belonged there, what was given
fn entry(i: usize, was: &str, now: &str) -> Value {
    let part = |l: &str| {
        let f = l.starts_with("foreign:");
        let v: Vec<&str> = l.trim_start_matches("foreign:").split(':').collect();
        let n = |k: usize| v.get(k).and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
        (v[0].to_string(), n(1), n(2), f as u8)
    };
    let (w, n) = (part(was), part(now));
    json!({"i": i, "was": was, "now": now, "wk": w.0, "wt": w.1, "wb": w.2, "nk": n.0, "nt": n.1, "nb": n.2, "nf": n.3})
}

impl World {
    /// what every known account is: "kind:which"
    pub fn labels(&self) -> Vec<(String, Pubkey)> {
        let mut v: Vec<(String, Pubkey)> = vec![("group".into(), self.group), ("insurance".into(), self.insurance)];
        for (t, k) in self.toks.iter().enumerate() {
            for (b, x) in k.banks.iter().enumerate() {
                v.push((format!("bank:{}:{}", t, b), *x));
            }
            for (b, x) in k.vaults.iter().enumerate() {
                v.push((format!("vault:{}:{}", t, b), *x));
            }
            v.push((format!("oracle:{}", t), k.oracle));
            if k.fallback != Pubkey::default() {
                v.push((format!("fallback:{}", t), k.fallback));
            }
            v.push((format!("info:{}", t), k.info));
            v.push((format!("mint:{}", t), k.mint));
        }
        for (p, k) in self.perps.iter().enumerate() {
            for (n, x) in [("perp", k.key), ("bids", k.bids), ("asks", k.asks), ("events", k.eq), ("poracle", k.oracle)] {
                v.push((format!("{}:{}", n, p), x));
            }
        }
        for (s, k) in self.spots.iter().enumerate() {
            v.push((format!("spot:{}", s), k.key));
            let d = &k.dex;
            for (n, x) in [("dex", d.market), ("dexreq", d.req_q), ("dexevents", d.event_q), ("dexbids", d.bids), ("dexasks", d.asks), ("dexbase", d.base_vault), ("dexquote", d.quote_vault), ("dexsigner", d.vault_signer)] {
                v.push((format!("{}:{}", n, s), x));
            }
        }
        for (a, u) in self.users.iter().enumerate() {
            v.push((format!("acct:{}", a), u.acct));
            v.push((format!("owner:{}", a), u.owner));
            for t in 0..self.toks.len() {
                v.push((format!("wallet:{}:{}", a, t), self.wallet(a, t)));
            }
            for s in 0..self.spots.len() {
                v.push((format!("oo:{}:{}", a, s), self.oo_key(a, s)));
            }
        }
        for (n, k) in [("admin", self.admin), ("fast", self.fast), ("sec", self.sec), ("payer", self.payer), ("stranger", named_key("stranger")), ("delegate", named_key("delegate")), ("other", named_key("other"))] {
            v.push((format!("owner:{}", n), k));
        }
        for (n, k) in [("spl", spl_token::id()), ("system", system_program::id()), ("mango", mango_v4::id()), ("dex", crate::rt::dex_id()), ("ata", spl_associated_token_account::id()), ("proxy", crate::rt::proxy_id())] {
            v.push((format!("program:{}", n), k));
        }
        v.push(("sysvar:instructions".into(), sysvar::instructions::id()));
        v.push(("sysvar:rent".into(), sysvar::rent::id()));
        v
    }
    fn label(&self, l: &[(String, Pubkey)], k: &Pubkey) -> String {
        l.iter().find(|x| x.1 == *k).map(|x| x.0.clone()).unwrap_or_else(|| if *k == mango_v4::id() { "none".into() } else { "unknown".into() })
    }
    fn labelled(&self, n: &str) -> Pubkey {
        if n.starts_with("foreign:") {
            return named_key(&format!("{}-of-{}", n, self.gnum));
        }
        self.labels().into_iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or_else(|| named_key(n))
    }
    pub fn build(&self, o: &Value) -> Vec<Instruction> {
        *self.drop.borrow_mut() = o.get("drop").and_then(|d| d.as_array()).map(|d| d.iter().map(|t| num(t) as usize).collect()).unwrap_or_default();
        let mut v = self.build_plain(o);
        self.drop.borrow_mut().clear();
        for x in o.get("ops").and_then(|v| v.as_array()).unwrap_or(&vec![]) {
            for e in x.get("subst").and_then(|s| s.as_array()).unwrap_or(&vec![]) {
                if gi(e, "unsigned") == Some(1) {
                    // the signature is missing in the whole transaction
                    let k = self.labelled(e["was"].as_str().unwrap());
                    for m in v.iter_mut().flat_map(|x| x.accounts.iter_mut()).filter(|m| m.pubkey == k) {
                        m.is_signer = false
                    }
                }
            }
        }
        if let Some(s) = o.get("subst").and_then(|s| s.as_array()) {
            let x = v.last_mut().unwrap();
            for e in s {
                let m = &mut x.accounts[gi(e, "i").unwrap() as usize];
                if gi(e, "unsigned") == Some(1) {
                    // the signature is missing everywhere
                    let k = m.pubkey;
                    for m in x.accounts.iter_mut().filter(|m| m.pubkey == k) {
                        m.is_signer = false;
                    }
                } else {
                    m.pubkey = self.labelled(e["now"].as_str().unwrap());
                }
            }
        }
        v
    }
    /// puts the other group's accounts of a substitution in place; gives them back for removal
    pub fn conjure(&mut self, o: &Value) -> Vec<Pubkey> {
        let mut made = vec![];
        if let Some(ops) = o.get("ops").and_then(|v| v.as_array()) {
            for x in ops {
                made.extend(self.conjure(x))
            }
            return made;
        }
        let s = match o.get("subst").and_then(|s| s.as_array()) {
            Some(s) => s.clone(),
            None => return made,
        };
        let mut names: BTreeMap<Pubkey, Pubkey> = BTreeMap::new();
        for e in &s {
            if let Some(n) = e["now"].as_str().and_then(|n| n.strip_prefix("foreign:")) {
                names.insert(self.labelled(n), self.labelled(&format!("foreign:{}", n)));
            }
        }
        if names.is_empty() {
            return made;
        }
        names.insert(self.group, self.labelled("foreign:group"));
        let stranger = named_key("stranger");
        // what is left as it was has a namesake in the other group too, which is not passed
        let mut made_for = names.clone();
        if let Some(n) = o.get("kept").and_then(|k| k[1].as_str()) {
            let k = self.labelled(n);
            names.insert(k, self.labelled(&format!("foreign:{}", n)));
            made_for.remove(&k);
        }
        for (from, to) in made_for {
            if let Some(mut a) = self.rt.accs.get(&from).cloned() {
                let mut i = 0;
                while i + 32 <= a.data.len() {
                    let k = Pubkey::new_from_array(a.data[i..i + 32].try_into().unwrap());
                    if let Some(x) = names.get(&k) {
                        a.data[i..i + 32].copy_from_slice(x.as_ref());
                        i += 32;
                    } else if from == self.group && k == self.admin {
                        a.data[i..i + 32].copy_from_slice(stranger.as_ref());
                        i += 32;
                    } else {
                        i += 1;
                    }
                }
                self.rt.accs.insert(to, a);
                made.push(to);
            }
        }
        made
    }
    /// the operation with an account exchanged (or a signature missing): what was tried least so far
    pub fn substitute(&self, o: &Value, r: &mut Rng) -> Option<Value> {
        let v = self.build_plain(o);
        let x = v.last()?;
        let ls = self.labels();
        let own = |l: &str| matches!(l.split(':').next().unwrap(), "group" | "insurance" | "bank" | "vault" | "info" | "perp" | "bids" | "asks" | "events" | "spot" | "acct" | "oracle" | "poracle");
        let bound = |l: &str| own(l) && !matches!(l.split(':').next().unwrap(), "oracle" | "poracle");
        let labels: Vec<String> = x.accounts.iter().map(|m| self.label(&ls, &m.pubkey)).collect();
        let kind_of = |l: &str| l.split(':').next().unwrap().to_string();
        let owned = labels.iter().filter(|l| own(l)).count();
        let twins = |i: usize| -> Vec<String> {
            let (k, key) = (kind_of(&labels[i]), x.accounts[i].pubkey);
            ls.iter().filter(|l| kind_of(&l.0) == k && l.1 != key && self.rt.accs.contains_key(&l.1)).map(|l| l.0.clone()).collect()
        };
        let cousins = |i: usize| -> Vec<String> {
            let kin: &[&str] = match kind_of(&labels[i]).as_str() {
                "vault" => &["insurance", "wallet", "dexbase"],
                "oracle" | "fallback" | "poracle" => &["oracle", "fallback", "poracle"],
                "bids" | "asks" => &["asks", "bids"],
                "dexbids" | "dexasks" => &["dexbids", "dexasks"],
                "dexbase" | "dexquote" => &["dexbase", "dexquote", "wallet", "vault"],
                "insurance" => &["vault", "wallet"],
                "info" => &["bank"],
                "wallet" => &["vault"],
                "oo" => &["oo"],
                _ => &[],
            };
            let key = x.accounts[i].pubkey;
            ls.iter().filter(|l| kin.contains(&l.0.split(':').next().unwrap()) && l.1 != key && self.rt.accs.contains_key(&l.1)).map(|l| l.0.clone()).collect()
        };
        let mut c: Vec<(usize, &str)> = vec![];
        for i in 0..labels.len() {
            let l = &labels[i];
            if x.accounts[i].is_signer {
                c.push((i, "unsigned"));
                continue;
            }
            if bound(l) && owned >= 2 {
                c.push((i, "kept"));
            }
            // what the spot exchange itself has to look after
            if l == "unknown" || l.starts_with("dex") && !l.starts_with("dex:") {
                continue;
            }
            if own(l) {
                c.push((i, "foreign"));
            }
            if !twins(i).is_empty() {
                c.push((i, "twin"));
            }
            if !cousins(i).is_empty() {
                c.push((i, "cousin"));
            }
        }
        let name = o["op"].as_str().unwrap();
        let key = |c: &(usize, &str)| format!("{}:{}:{}", name, if c.0 < 16 { c.0.to_string() } else { kind_of(&labels[c.0]) }, c.1);
        let (i, how) = TRIED.with(|t| {
            let mut t = t.borrow_mut();
            let times = |k: &String| t.get(k).copied().unwrap_or(0);
            let least = c.iter().map(|c| times(&key(c))).min()?;
            let best: Vec<(usize, &str)> = c.iter().filter(|c| times(&key(c)) == least).cloned().collect();
            let b = *r.pick(&best);
            *t.entry(key(&b)).or_insert(0) += 1;
            *t.entry(name.to_string()).or_insert(0) += 1;
            *t.entry(format!("{}:all", name)).or_insert(0) = c.len() as u32;
            Some(b)
        })?;
        let was = &labels[i];
        let mut y = o.clone();
        match how {
            "unsigned" => {
                y["subst"] = json!([entry(i, was, "unsigned")]);
                y["subst"][0]["unsigned"] = json!(1);
            }
            "kept" => {
                // everything of another group but one
                let subs: Vec<Value> = (0..labels.len()).filter(|j| own(&labels[*j]) && labels[*j] != *was).map(|j| entry(j, &labels[j], &format!("foreign:{}", labels[j]))).collect();
                if subs.is_empty() {
                    return None;
                }
                y["subst"] = json!(subs);
                y["kept"] = json!([i, was]);
            }
            "foreign" => y["subst"] = json!([entry(i, was, &format!("foreign:{}", was))]),
            "twin" => y["subst"] = json!([entry(i, was, r.pick::<String>(&twins(i)))]),
            _ => y["subst"] = json!([entry(i, was, r.pick::<String>(&cousins(i)))]),
        }
        Some(y)
    }
    /// whether an operation has exchanges left that were never tried
    pub fn untried(&self, name: &str) -> bool {
        TRIED.with(|t| {
            let t = t.borrow();
            t.get(name).copied().unwrap_or(0) < t.get(&format!("{}:all", name)).copied().unwrap_or(40)
        })
    }
}
thread_local! {
    static TRIED: std::cell::RefCell<BTreeMap<String, u32>> = Default::default();
}
