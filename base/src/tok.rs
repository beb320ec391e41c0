//! The payload stored in monitored forests, and the event log of its life.
//!
//! Every payload instance has a unique number. Creation, cloning and dropping
//! of instances are recorded in a thread-local registry, which the
//! conservation monitor reads afterwards.

use std::cell::RefCell;
use std::fmt;
use std::panic::resume_unwind;

/// Panic payload used for injected panics of "user code".
pub struct Injected;

#[derive(Default)]
pub struct Reg {
    base: u64,
    /// 1: live, 2: dropped once, 3: dropped more than once. Indexed by `inst - base`.
    state: Vec<u8>,
    pub clones: Vec<(u64, u64)>,
    pub drops: Vec<u64>,
    pub events: u64,
    live: usize,
    multi: usize,
    clone_panic_in: Option<u32>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg { base: 1, ..Reg::default() });
}

pub fn reset() {
    let _ = REG.try_with(|r| {
        let mut r = r.borrow_mut();
        r.base += r.state.len() as u64;
        r.state.clear();
        r.clones.clear();
        r.drops.clear();
        r.events = 0;
        r.live = 0;
        r.multi = 0;
        r.clone_panic_in = None;
    });
}

/// Number of live instances.
pub fn live_count() -> usize {
    REG.with(|r| r.borrow().live)
}

/// Number of instances dropped more than once.
pub fn multi_count() -> usize {
    REG.with(|r| r.borrow().multi)
}

pub fn take_logs() -> (Vec<(u64, u64)>, Vec<u64>) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        (std::mem::take(&mut r.clones), std::mem::take(&mut r.drops))
    })
}

pub fn events() -> u64 {
    REG.with(|r| r.borrow().events)
}

pub fn set_clone_panic(at: Option<u32>) {
    REG.with(|r| r.borrow_mut().clone_panic_in = at);
}

pub fn is_live(inst: u64) -> bool {
    if !TRACKED {
        return true;
    }
    REG.with(|r| {
        let r = r.borrow();
        inst >= r.base && r.state.get((inst - r.base) as usize) == Some(&1)
    })
}

fn fresh() -> u64 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state.push(1);
        r.live += 1;
        r.events += 1;
        r.base + r.state.len() as u64 - 1
    })
}

/// Are the drops of payloads seen?
pub const TRACKED: bool = !cfg!(feature = "plain");

/// Payload. `val` survives cloning, `inst` is unique to the instance.
#[cfg(not(feature = "plain"))]
pub struct Tok {
    // Boxed so that memory checkers see the payload's memory.
    val: Box<u64>,
    inst: u64,
    #[cfg(feature = "fat")]
    _pad: [u64; 12],
}

/// A payload that needs no drop, with another layout.
#[cfg(feature = "plain")]
#[repr(align(32))]
pub struct Tok {
    val: u64,
    inst: u64,
}

impl Tok {
    pub fn new(val: u64) -> Self {
        Tok {
            #[allow(clippy::useless_conversion)]
            val: val.into(),
            inst: fresh(),
            #[cfg(feature = "fat")]
            _pad: [0; 12],
        }
    }
    #[cfg(not(feature = "plain"))]
    pub fn val(&self) -> u64 {
        *self.val
    }
    #[cfg(feature = "plain")]
    pub fn val(&self) -> u64 {
        self.val
    }
    #[cfg(not(feature = "plain"))]
    fn set_val(&mut self, v: u64) {
        *self.val = v;
    }
    #[cfg(feature = "plain")]
    fn set_val(&mut self, v: u64) {
        self.val = v;
    }
    pub fn inst(&self) -> u64 {
        self.inst
    }
    pub fn set(&mut self, v: u64) {
        self.set_val(v);
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        let boom = REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.clone_panic_in {
                Some(0) => {
                    r.clone_panic_in = None;
                    true
                }
                Some(n) => {
                    r.clone_panic_in = Some(n - 1);
                    false
                }
                None => false,
            }
        });
        if boom {
            resume_unwind(Box::new(Injected));
        }
        let t = Tok::new(self.val());
        REG.with(|r| r.borrow_mut().clones.push((self.inst, t.inst)));
        t
    }
}

#[cfg(not(feature = "plain"))]
impl Drop for Tok {
    fn drop(&mut self) {
        let inst = self.inst;
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            if inst >= r.base {
                let i = (inst - r.base) as usize;
                if i < r.state.len() {
                    if r.state[i] == 1 {
                        r.live -= 1;
                    } else {
                        r.multi += 1;
                    }
                    r.state[i] = r.state[i].saturating_add(1);
                    r.drops.push(inst);
                    r.events += 1;
                }
            }
        });
    }
}

/// Text of a payload: a function of its value, covering awkward texts.
pub fn label(val: u64, debug: bool) -> String {
    let d = if debug { "D" } else { "" };
    match val % 16 {
        0 => format!("{d}n{val}\n{d}second{val}"),
        1 => {
            if debug {
                format!("D{val}")
            } else {
                String::new()
            }
        }
        2 => format!("{d}{val}\na\n\nb"),
        3 => format!("{d}\u{3042}\u{1f333}{val}"),
        4 => format!("{d}{val}\n    indented\n|-- fake"),
        5 => format!("{d}\n{val}"),
        6 => format!("{d}x {val} y"),
        7 => {
            if debug {
                String::new()
            } else {
                format!("`-- {val}")
            }
        }
        8 => format!("{d}{val}\r\ncr"),
        9 => format!("{d}{val}\n"),
        10 if !debug => "\n".repeat((val / 16 % 3) as usize),
        11 if val / 16 % 8 == 7 => format!("{d}{val}{}\n\n", "\nmore and more of a long line, longer than any".repeat(20).replace("any\nmore", "any more")),
        // Long lines, and many lines, in few nodes.
        12 if val < 600 => match val / 16 {
            2 => format!("{d}{val}{}\ny\n\n{}\nz", "x".repeat(300), " w".repeat(150)),
            4 => format!("{d}{}\n{val}\n", "long line ".repeat(450)),
            6 => format!("{d}{}z{val}", "\n".repeat(300)),
            8 => format!("{d}{}{val}", "a\n".repeat(300)),
            20 => format!("{d}{}\n{val}\n\n-", "\u{e9}".repeat(35_000)),
            _ => format!("{d}{val}"),
        },
        13 => format!("{d}\u{2028}{val}\u{85}\t\u{b}\0z"),
        14 => format!("{d}  {val}  \n \n\t{val}"),
        _ => format!("{d}{val}"),
    }
}

fn emit(f: &mut fmt::Formatter<'_>, val: u64, s: &str) -> fmt::Result {
    // Chunking must not influence the print.
    match (val / 16) % 4 {
        0 => f.write_str(s),
        1 => s.chars().try_for_each(|c| fmt::Write::write_char(f, c)),
        2 => {
            for (i, p) in s.split('\n').enumerate() {
                if i > 0 {
                    f.write_str("\n")?;
                }
                f.write_str(p)?;
            }
            Ok(())
        }
        _ => {
            f.write_str("")?;
            for p in s.split_inclusive('\n') {
                f.write_str(p)?;
                f.write_str("")?;
            }
            Ok(())
        }
    }
}

impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        emit(f, self.val(), &label(self.val(), false))
    }
}

impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        emit(f, self.val(), &label(self.val(), true))
    }
}
