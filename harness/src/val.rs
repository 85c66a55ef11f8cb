//! The payload stored in every generated tree. Each value is registered in a thread-local ledger
//! when it is created and struck off when it is dropped, so that leaks, double drops and drops of
//! memory that never held a value are all visible without a sanitizer.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;

pub struct V {
    pub id: u32,
    /// Written by mutable traversals; 0 when built.
    pub mark: u32,
    serial: u32,
    /// Under Miri / ASan a real heap cell, so that any duplicated value is a real double free.
    #[cfg(any(miri, vheap))]
    pub heap: Box<u32>,
}

#[derive(Default)]
struct Ledger {
    live: Vec<bool>,
    faults: Vec<String>,
    work: u64,
    work_limit: u64,
}

thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

/// Message of the deterministic runaway guard (see `work`).
pub const RUNAWAY: &str = "runaway: the library asked for far more node/children accesses than the tree has";

/// Forget everything; start a new accounting period.
pub fn reset() {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.live.clear();
        l.faults.clear();
        l.work = 0;
        l.work_limit = u64::MAX;
    })
}
/// Counts calls into instrumented nodes and payload constructors. A correct library does a small
/// multiple of the tree size; an iterator that loops for ever is stopped here deterministically.
pub fn work(n: u64) {
    let over = L.with(|l| {
        let mut l = l.borrow_mut();
        l.work += n;
        l.work > l.work_limit
    });
    if over {
        set_work_limit(u64::MAX);
        panic!("{}", RUNAWAY);
    }
}
pub fn set_work_limit(n: u64) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.work = 0;
        l.work_limit = n
    })
}
fn alloc_serial() -> u32 {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.live.push(true);
        (l.live.len() - 1) as u32
    })
}
pub fn created() -> usize {
    L.with(|l| l.borrow().live.len())
}
pub fn live() -> usize {
    L.with(|l| l.borrow().live.iter().filter(|x| **x).count())
}
/// `Err` when some value was dropped twice, or (if `all`) never dropped.
pub fn audit(all: bool) -> Result<(), String> {
    L.with(|l| {
        let l = l.borrow();
        if let Some(f) = l.faults.first() {
            return Err(f.clone());
        }
        if all {
            let leaked = l.live.iter().filter(|x| **x).count();
            if leaked > 0 {
                return Err(format!("{} of {} values were never dropped (leaked)", leaked, l.live.len()));
            }
        }
        Ok(())
    })
}

impl V {
    pub fn new(id: u32) -> V {
        V::marked(id, 0)
    }
    pub fn marked(id: u32, mark: u32) -> V {
        V {
            id,
            mark,
            serial: alloc_serial(),
            #[cfg(any(miri, vheap))]
            heap: Box::new(id),
        }
    }
    pub fn write(&mut self, mark: u32) {
        self.mark = mark;
        #[cfg(any(miri, vheap))]
        {
            *self.heap = mark;
        }
    }
    /// Read everything reachable from the value (so Miri / ASan see the access).
    pub fn touch(&self) -> u32 {
        #[cfg(any(miri, vheap))]
        {
            return self.id.wrapping_add(*self.heap);
        }
        #[cfg(not(any(miri, vheap)))]
        self.id
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::marked(self.id, self.mark)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        let (serial, id) = (self.serial, self.id);
        let _ = L.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                let ok = match l.live.get_mut(serial as usize) {
                    Some(x) => std::mem::replace(x, false),
                    None => false,
                };
                if !ok && l.faults.len() < 8 {
                    l.faults.push(format!("value with id {} dropped although it was not alive (double drop)", id));
                }
            }
        });
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V({})", self.id)
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.id == o.id && self.mark == o.mark
    }
}
impl Eq for V {}
impl std::hash::Hash for V {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.id, self.mark).hash(h)
    }
}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<std::cmp::Ordering> {
        (self.id, self.mark).partial_cmp(&(o.id, o.mark))
    }
}
impl Default for V {
    fn default() -> V {
        V::new(0)
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.id, self.mark).serialize(s)
    }
}
impl<'de> Deserialize<'de> for V {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<V, D::Error> {
        let (id, mark) = <(u32, u32)>::deserialize(d)?;
        Ok(V::marked(id, mark))
    }
}

/// Anything a traversal can yield in place of a payload.
pub trait HasId {
    fn id(&self) -> u32;
    fn mark(&self) -> u32;
}
impl HasId for V {
    fn id(&self) -> u32 {
        self.touch();
        self.id
    }
    fn mark(&self) -> u32 {
        self.mark
    }
}
impl HasId for &V {
    fn id(&self) -> u32 {
        self.touch();
        self.id
    }
    fn mark(&self) -> u32 {
        self.mark
    }
}
impl HasId for &mut V {
    fn id(&self) -> u32 {
        self.touch();
        self.id
    }
    fn mark(&self) -> u32 {
        self.mark
    }
}
pub trait MutId: HasId {
    fn set(&mut self, mark: u32);
}
impl MutId for V {
    fn set(&mut self, mark: u32) {
        self.write(mark)
    }
}
impl MutId for &mut V {
    fn set(&mut self, mark: u32) {
        self.write(mark)
    }
}

/// Output of map closures: a plain value derived from the payload.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct W {
    pub id: u32,
    pub mark: u32,
}
impl HasId for W {
    fn id(&self) -> u32 {
        self.id
    }
    fn mark(&self) -> u32 {
        self.mark
    }
}
impl MutId for W {
    fn set(&mut self, mark: u32) {
        self.mark = mark
    }
}
