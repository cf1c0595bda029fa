//! Simulated bank module: balances, blocked recipients, frozen denominations, undo journal.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Bank {
    bal: BTreeMap<(String, String), u128>,
    undo: Vec<((String, String), u128)>,
    pub blocked: BTreeSet<String>,
    pub frozen: BTreeSet<String>,
}

impl Bank {
    pub fn balance(&self, who: &str, denom: &str) -> u128 {
        self.bal.get(&(who.to_string(), denom.to_string())).copied().unwrap_or(0)
    }
    fn put(&mut self, who: &str, denom: &str, v: u128) {
        let k = (who.to_string(), denom.to_string());
        let old = self.bal.insert(k.clone(), v).unwrap_or(0);
        self.undo.push((k, old));
    }
    pub fn mint(&mut self, who: &str, denom: &str, v: u128) {
        let b = self.balance(who, denom);
        self.put(who, denom, b + v);
    }
    pub fn savepoint(&self) -> usize {
        self.undo.len()
    }
    pub fn rollback(&mut self, sp: usize) {
        while self.undo.len() > sp {
            let (k, old) = self.undo.pop().unwrap();
            self.bal.insert(k, old);
        }
    }
    pub fn commit(&mut self) {
        self.undo.clear();
    }
    pub fn supply(&self, denom: &str) -> u128 {
        self.bal.iter().filter(|((_, d), _)| d == denom).fold(0u128, |a, (_, v)| a.saturating_add(*v))
    }
    /// A bank send as the chain performs it. `check_blocked` is false for user transfers into
    /// the contract.
    pub fn send(&mut self, from: &str, to: &str, denom: &str, amt: u128, check: bool) -> Result<(), String> {
        if amt == 0 {
            return Err("invalid coins: zero amount".into());
        }
        if check && self.blocked.contains(to) {
            return Err(format!("{to} is not allowed to receive funds"));
        }
        if check && self.frozen.contains(denom) {
            return Err(format!("{denom} transfers are currently disabled"));
        }
        let b = self.balance(from, denom);
        if b < amt {
            return Err(format!("spendable balance {b}{denom} is smaller than {amt}{denom}"));
        }
        self.put(from, denom, b - amt);
        let t = self.balance(to, denom);
        self.put(to, denom, t.checked_add(amt).ok_or("overflow")?);
        Ok(())
    }
}
