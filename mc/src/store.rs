//! Logging, fault-injecting block store.
use crate::types::Sha;
use banyan::store::{BlockWriter, ReadOnlyStore};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Inner {
    pub blocks: BTreeMap<Sha, Arc<[u8]>>,
    /// links in put order (including duplicates)
    pub log: Vec<Sha>,
    pub gets: u64,
    pub puts: u64,
    /// every block that was offered for storage, including those refused by an injected fault
    pub offered: Vec<(Sha, Arc<[u8]>)>,
    /// indices of gets / puts (counted since `arm`) that fail
    pub fail_gets: BTreeSet<u64>,
    pub fail_puts: BTreeSet<u64>,
    pub fail_gets_from: Option<u64>,
    pub fail_puts_from: Option<u64>,
    pub missing: BTreeSet<Sha>,
    pub replaced: BTreeMap<Sha, Arc<[u8]>>,
    /// links read since arm
    pub read_log: Vec<Sha>,
    pub record_reads: bool,
    pub faults_hit: u64,
}

#[derive(Clone, Default)]
pub struct LogStore(pub Arc<Mutex<Inner>>);

impl std::fmt::Debug for LogStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "LogStore")
    }
}

impl LogStore {
    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    /// clears all fault plans and counters
    pub fn arm(&self, f: impl FnOnce(&mut Inner)) {
        self.with(|i| {
            i.gets = 0;
            i.puts = 0;
            i.fail_gets.clear();
            i.fail_puts.clear();
            i.fail_gets_from = None;
            i.fail_puts_from = None;
            i.missing.clear();
            i.replaced.clear();
            i.read_log.clear();
            i.record_reads = false;
            i.faults_hit = 0;
            f(i)
        })
    }
    pub fn disarm(&self) {
        self.arm(|_| ())
    }
    pub fn raw(&self, l: &Sha) -> Option<Arc<[u8]>> {
        self.with(|i| i.blocks.get(l).cloned())
    }
    pub fn insert(&self, data: &[u8]) -> Sha {
        let l = Sha::of(data);
        self.with(|i| i.blocks.insert(l, data.into()));
        l
    }
    /// new independent store with the same blocks
    pub fn copy(&self) -> LogStore {
        let blocks = self.with(|i| i.blocks.clone());
        let log = self.with(|i| i.log.clone());
        LogStore(Arc::new(Mutex::new(Inner {
            blocks,
            log,
            ..Default::default()
        })))
    }
    pub fn links(&self) -> Vec<Sha> {
        self.with(|i| i.blocks.keys().cloned().collect())
    }
}

impl ReadOnlyStore<Sha> for LogStore {
    fn get(&self, link: &Sha) -> anyhow::Result<Box<[u8]>> {
        self.with(|i| {
            let n = i.gets;
            i.gets += 1;
            if i.record_reads {
                i.read_log.push(*link);
            }
            if i.fail_gets.contains(&n) || i.fail_gets_from.map(|f| n >= f).unwrap_or(false) {
                i.faults_hit += 1;
                anyhow::bail!("injected get fault {}", n);
            }
            if i.missing.contains(link) {
                i.faults_hit += 1;
                anyhow::bail!("missing {}", link);
            }
            if let Some(r) = i.replaced.get(link) {
                i.faults_hit += 1;
                return Ok(r.to_vec().into());
            }
            match i.blocks.get(link) {
                Some(d) => Ok(d.to_vec().into()),
                None => anyhow::bail!("not there {}", link),
            }
        })
    }
}

impl BlockWriter<Sha> for LogStore {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha> {
        let link = Sha::of(&data);
        self.with(|i| {
            let n = i.puts;
            i.puts += 1;
            let data: Arc<[u8]> = data.into();
            i.offered.push((link, data.clone()));
            if i.fail_puts.contains(&n) || i.fail_puts_from.map(|f| n >= f).unwrap_or(false) {
                i.faults_hit += 1;
                anyhow::bail!("injected put fault {}", n);
            }
            i.log.push(link);
            i.blocks.entry(link).or_insert(data);
            Ok(link)
        })
    }
}
