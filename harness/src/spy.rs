//! `Spy`: a value with an identity. Every instance is entered in a ledger when it is created
//! (constructed, cloned or deserialized) and struck off when it is dropped; (de)serialization
//! calls user-controlled hooks that delay, fail or panic, and records which thread ran it.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

static SERIAL: AtomicU64 = AtomicU64::new(1);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
static DOUBLE: AtomicU64 = AtomicU64::new(0);
static CREATED: AtomicU64 = AtomicU64::new(0);
static ALIVE: [Mutex<Option<HashSet<u64>>>; 16] = [const { Mutex::new(None) }; 16];
/// Entries into user code recorded.
pub static CALLS: AtomicU64 = AtomicU64::new(0);
static RECORD: AtomicBool = AtomicBool::new(false);
static SERS: Mutex<Option<HashMap<u64, u64>>> = Mutex::new(None);
static THREADS: Mutex<Option<HashSet<std::thread::ThreadId>>> = Mutex::new(None);

// Hook controls. 0 = off.
pub static DELAY: AtomicU64 = AtomicU64::new(0);
/// Delays considered since the last `reset_hooks`.
static JITTERED: AtomicU64 = AtomicU64::new(0);
/// Fail (1 = error, 2 = panic) every serialization from the FAIL_AT-th on (1-based).
pub static SER_FAIL_AT: AtomicU64 = AtomicU64::new(0);
pub static SER_FAIL_KIND: AtomicU64 = AtomicU64::new(0);
pub static SER_N: AtomicU64 = AtomicU64::new(0);
/// Fail every serialization of the instance with this identity (see FAIL_ID_SET).
pub static SER_FAIL_ID: AtomicU64 = AtomicU64::new(0);
pub static SER_FAIL_ID_SET: AtomicBool = AtomicBool::new(false);
/// Fail the deserialization whose 1-based ordinal is FAIL_AT.
pub static DE_FAIL_AT: AtomicU64 = AtomicU64::new(0);
pub static DE_FAIL_KIND: AtomicU64 = AtomicU64::new(0);
pub static DE_N: AtomicU64 = AtomicU64::new(0);

pub const SER_ERR: &str = "spy: injected serialization failure";
pub const DE_ERR: &str = "spy: injected deserialization failure";
pub const PANIC: &str = "spy: injected panic";

#[derive(Debug)]
pub struct Spy {
    pub id: u64,
    serial: u64,
    // Heap content, so that sanitizers see every misuse of an instance.
    token: Box<u64>,
}

fn enter(id: u64) -> Spy {
    let serial = SERIAL.fetch_add(1, SeqCst);
    CREATED.fetch_add(1, SeqCst);
    let live = LIVE.fetch_add(1, SeqCst) + 1;
    PEAK.fetch_max(live, SeqCst);
    ALIVE[(serial % 16) as usize].lock().unwrap().get_or_insert_default().insert(serial);
    Spy { id, serial, token: Box::new(id ^ 0x5555) }
}
impl Spy {
    pub fn new(id: u64) -> Self {
        enter(id)
    }
    pub fn intact(&self) -> bool {
        *self.token == self.id ^ 0x5555
    }
}
impl Default for Spy {
    fn default() -> Self {
        enter(0)
    }
}
impl Clone for Spy {
    fn clone(&self) -> Self {
        enter(self.id)
    }
}
impl PartialEq for Spy {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id && self.intact() && o.intact()
    }
}
impl Drop for Spy {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
        let was = ALIVE[(self.serial % 16) as usize]
            .lock()
            .unwrap()
            .get_or_insert_default()
            .remove(&self.serial);
        if !was || !self.intact() {
            DOUBLE.fetch_add(1, SeqCst);
        }
    }
}
pub fn jitter(id: u64) {
    let d = DELAY.load(SeqCst);
    // A round that decodes its values over and over is delayed only at first.
    if d == 0 || JITTERED.fetch_add(1, SeqCst) > 20_000 {
        return;
    }
    // Deterministic per (id, d) choice of delay; the scheduler does the rest.
    let x = (id ^ d).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32;
    match x % 16 {
        0..=7 => {}
        8..=11 => std::thread::yield_now(),
        12..=14 => {
            for _ in 0..(x % 2000) {
                std::hint::spin_loop();
            }
        }
        _ => std::thread::sleep(std::time::Duration::from_micros(x % 300)),
    }
}
/// User code was entered on this thread.
pub fn seen() {
    if RECORD.load(SeqCst) {
        THREADS.lock().unwrap().get_or_insert_default().insert(std::thread::current().id());
        CALLS.fetch_add(1, SeqCst);
    }
}
impl Serialize for Spy {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let n = SER_N.fetch_add(1, SeqCst) + 1;
        jitter(self.id);
        if RECORD.load(SeqCst) {
            *SERS.lock().unwrap().get_or_insert_default().entry(self.id).or_insert(0) += 1;
        }
        seen();
        let at = SER_FAIL_AT.load(SeqCst);
        if (at != 0 && n >= at) || (SER_FAIL_ID_SET.load(SeqCst) && SER_FAIL_ID.load(SeqCst) == self.id) {
            match SER_FAIL_KIND.load(SeqCst) {
                1 => return Err(serde::ser::Error::custom(SER_ERR)),
                2 => panic!("{PANIC}"),
                _ => {}
            }
        }
        s.serialize_u64(self.id)
    }
}
impl<'de> Deserialize<'de> for Spy {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let id = u64::deserialize(d)?;
        let n = DE_N.fetch_add(1, SeqCst) + 1;
        jitter(id);
        if n == DE_FAIL_AT.load(SeqCst) {
            match DE_FAIL_KIND.load(SeqCst) {
                1 => return Err(serde::de::Error::custom(DE_ERR)),
                2 => panic!("{PANIC}"),
                _ => {}
            }
        }
        Ok(enter(id))
    }
}

pub fn reset_hooks() {
    SER_FAIL_ID_SET.store(false, SeqCst);
    for a in [&DELAY, &JITTERED, &SER_FAIL_AT, &SER_FAIL_KIND, &SER_N, &DE_FAIL_AT, &DE_FAIL_KIND, &DE_N] {
        a.store(0, SeqCst);
    }
}
pub fn live() -> i64 {
    LIVE.load(SeqCst)
}
pub fn created() -> u64 {
    CREATED.load(SeqCst)
}
pub fn doubles() -> u64 {
    DOUBLE.load(SeqCst)
}
pub fn reset_peak() {
    PEAK.store(live(), SeqCst);
}
pub fn peak() -> i64 {
    PEAK.load(SeqCst)
}
/// Runs `f` recording, per identity, how often it was serialized, and the threads that did it.
pub fn record<R>(f: impl FnOnce() -> R) -> (R, HashMap<u64, u64>, HashSet<std::thread::ThreadId>) {
    *SERS.lock().unwrap() = Some(HashMap::new());
    *THREADS.lock().unwrap() = Some(HashSet::new());
    RECORD.store(true, SeqCst);
    let r = f();
    RECORD.store(false, SeqCst);
    (
        r,
        SERS.lock().unwrap().take().unwrap_or_default(),
        THREADS.lock().unwrap().take().unwrap_or_default(),
    )
}
impl crate::val::Val for Spy {
    fn mk(g: &mut crate::val::G) -> Self {
        Spy::new(g.r.u64() >> 16)
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
