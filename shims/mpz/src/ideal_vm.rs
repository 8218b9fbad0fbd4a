//! Ideal two-party VM: private inputs are handed to the peer's copy of the functionality at
//! flush time; `get` and `decode` only ever return what the party is entitled to see.
use crate::{common::Context, core::bitvec::BitVec, memory_core::{binary::Binary, *}, vm_core::{Call, Callable, Execute, VmError}};
use futures::channel::oneshot;
use serio::{stream::IoStreamExt, SinkExt};
use std::cell::RefCell;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Vis { Unset, Public, Private, Blind, Output }
#[derive(Clone, Copy)]
struct Bit { vis: Vis, assigned: Option<bool>, committed: bool, val: Option<bool>, known: bool }
pub struct IdealVm {
    id: u64,
    mem: Vec<Bit>,
    outbox: Vec<Slice>,
    awaiting: Vec<Slice>,
    calls: Vec<(usize, Call, Slice)>,
    n_calls: usize,
    decodes: Vec<(Slice, oneshot::Sender<BitVec>)>,
}
impl std::fmt::Debug for IdealVm { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "IdealVm#{}", self.id) } }
/// Per-thread instrumentation: VM numbering, adversarial hooks and the log of everything
/// that was decoded.
#[derive(Default)]
pub struct Instr {
    pub next_id: u64,
    /// Party on whose behalf VMs are being created (upper half of the id).
    pub party: u64,
    /// (vm, slice, bits sent to the functionality)
    pub on_private: Option<Box<dyn FnMut(u64, Slice, &mut Vec<bool>)>>,
    /// (vm, call number, outputs)
    pub on_output: Option<Box<dyn FnMut(u64, usize, &mut Vec<bool>)>>,
    pub decoded: Vec<(u64, Slice, Vec<bool>)>,
    /// (party, number of the frame among that party's, frame) before it is sent.
    pub on_frame: Option<Box<dyn FnMut(u64, usize, &mut Vec<u8>)>>,
    pub n_frames: [usize; 8],
    /// (party, stream, number of the frame among that party's, frame) -> frames sent in its place.
    pub on_send: Option<Box<dyn FnMut(u64, u64, usize, Vec<u8>) -> Vec<Vec<u8>>>>,
    pub n_streams: u64,
    /// Stream and content of each frame, when `record` is set.
    pub sent: Vec<(u64, u64, Vec<u8>)>,
    /// Everything seen, in order, when `record` is set.
    pub record: bool,
    pub events: Vec<Ev>,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Frame(u64, Vec<u8>),
    Decode(u64, Vec<bool>),
}
pub(crate) fn new_stream() -> u64 { INSTR.with(|i| { let mut i = i.borrow_mut(); i.n_streams += 1; i.n_streams - 1 }) }
pub(crate) fn tap(stream: u64, mut frame: Vec<u8>) -> Vec<Vec<u8>> {
    INSTR.with(|i| {
        let (mut h, mut g, party, n) = {
            let mut i = i.borrow_mut();
            let p = i.party;
            let k = p.min(7) as usize;
            i.n_frames[k] += 1;
            let n = i.n_frames[k] - 1;
            (i.on_frame.take(), i.on_send.take(), p, n)
        };
        if let Some(h) = h.as_mut() { h(party, n, &mut frame) }
        {
            let mut i = i.borrow_mut();
            i.on_frame = h;
            if i.record { i.events.push(Ev::Frame(party, frame.clone())); i.sent.push((party, stream, frame.clone())); }
        }
        let out = match g.as_mut() { Some(g) => g(party, stream, n, frame), None => vec![frame] };
        i.borrow_mut().on_send = g;
        out
    })
}
thread_local!(pub static INSTR: RefCell<Instr> = RefCell::new(Instr::default()));
pub fn reset_instr() { INSTR.with(|i| *i.borrow_mut() = Instr::default()) }
impl Default for IdealVm { fn default() -> Self { Self::new() } }
impl IdealVm {
    pub fn new() -> Self {
        let id = INSTR.with(|i| { let mut i = i.borrow_mut(); i.next_id += 1; i.party << 32 | (i.next_id - 1) });
        Self { id, mem: vec![], outbox: vec![], awaiting: vec![], calls: vec![], n_calls: 0, decodes: vec![] }
    }
    pub fn id(&self) -> u64 { self.id }
    fn bits(&self, s: Slice) -> Result<&[Bit], VmError> { self.mem.get(s.to_range()).ok_or_else(|| VmError::memory(format!("slice {s} is not allocated"))) }
    fn bits_mut(&mut self, s: Slice) -> Result<&mut [Bit], VmError> { self.mem.get_mut(s.to_range()).ok_or_else(|| VmError::memory(format!("slice {s} is not allocated"))) }
    fn vals(&self, s: Slice) -> Option<Vec<bool>> { self.mem[s.to_range()].iter().map(|b| b.val).collect() }
    fn mark(&mut self, s: Slice, v: Vis) -> Result<(), VmError> {
        for b in self.bits_mut(s)? {
            if b.committed || b.vis == Vis::Output { return Err(VmError::memory(format!("visibility of {s} is fixed"))); }
            b.vis = v;
        }
        Ok(())
    }
    fn ready(&self, c: &Call) -> bool { c.clone().into_parts().1.iter().all(|s| self.mem[s.to_range()].iter().all(|b| b.val.is_some())) }
    fn resolve(&mut self) {
        let mut rest = vec![];
        for (s, tx) in std::mem::take(&mut self.decodes) {
            match self.vals(s) {
                Some(v) => {
                    self.mem[s.to_range()].iter_mut().for_each(|b| b.known = true);
                    INSTR.with(|i| {
                        let mut i = i.borrow_mut();
                        if i.record { i.events.push(Ev::Decode(self.id, v.clone())); }
                        i.decoded.push((self.id, s, v.clone()))
                    });
                    let _ = tx.send(BitVec(v));
                }
                None => rest.push((s, tx)),
            }
        }
        self.decodes = rest;
    }
}
impl Memory<Binary> for IdealVm {
    type Error = VmError;
    fn is_alloc_raw(&self, s: Slice) -> bool { s.to_range().end <= self.mem.len() }
    fn alloc_raw(&mut self, n: usize) -> Result<Slice, VmError> {
        let start = self.mem.len();
        if n > 1 << 28 { return Err(VmError::memory(format!("can not allocate {n} bits"))); }
        self.mem.resize(start + n, Bit { vis: Vis::Unset, assigned: None, committed: false, val: None, known: false });
        Ok(Slice::from_range_unchecked(start..start + n))
    }
    fn is_assigned_raw(&self, s: Slice) -> bool { self.mem[s.to_range()].iter().all(|b| b.assigned.is_some()) }
    fn assign_raw(&mut self, s: Slice, data: BitVec) -> Result<(), VmError> {
        if data.len() != s.len() { return Err(VmError::memory(format!("{} bits assigned to {s}", data.len()))); }
        for (b, v) in self.bits_mut(s)?.iter_mut().zip(&data.0) {
            if b.committed { return Err(VmError::memory(format!("{s} is already committed"))); }
            match b.vis {
                Vis::Public | Vis::Private => b.assigned = Some(*v),
                v => return Err(VmError::memory(format!("can not assign {s}: {v:?}"))),
            }
        }
        Ok(())
    }
    fn is_committed_raw(&self, s: Slice) -> bool { self.mem[s.to_range()].iter().all(|b| b.committed) }
    fn commit_raw(&mut self, s: Slice) -> Result<(), VmError> {
        self.bits(s)?;
        let mut i = s.to_range().start;
        let end = s.to_range().end;
        while i < end {
            let (vis, done) = (self.mem[i].vis, self.mem[i].committed);
            let mut j = i;
            while j < end && self.mem[j].vis == vis && self.mem[j].committed == done {
                let b = &mut self.mem[j];
                if !done {
                    match vis {
                        Vis::Public => { if b.assigned.is_none() { return Err(VmError::memory(format!("public {s} is not assigned"))); } b.val = b.assigned; b.known = true; }
                        Vis::Private => { if b.assigned.is_none() { return Err(VmError::memory(format!("private {s} is not assigned"))); } b.known = true; }
                        Vis::Blind => {}
                        Vis::Unset | Vis::Output => return Err(VmError::memory(format!("can not commit {s}: {vis:?}"))),
                    }
                    b.committed = true;
                }
                j += 1;
            }
            if !done {
                let r = Slice::from_range_unchecked(i..j);
                match vis { Vis::Private => self.outbox.push(r), Vis::Blind => self.awaiting.push(r), _ => {} }
            }
            i = j;
        }
        Ok(())
    }
    fn get_raw(&self, s: Slice) -> Result<Option<BitVec>, VmError> {
        Ok(self.bits(s)?.iter().map(|b| if b.known { b.val.or(b.assigned) } else { None }).collect::<Option<Vec<_>>>().map(BitVec))
    }
    fn decode_raw(&mut self, s: Slice) -> Result<DecodeFuture<BitVec>, VmError> {
        self.bits(s)?;
        let (tx, rx) = oneshot::channel();
        self.decodes.push((s, tx));
        Ok(DecodeFuture(rx))
    }
}
impl View<Binary> for IdealVm {
    type Error = VmError;
    fn mark_public_raw(&mut self, s: Slice) -> Result<(), VmError> { self.mark(s, Vis::Public) }
    fn mark_private_raw(&mut self, s: Slice) -> Result<(), VmError> { self.mark(s, Vis::Private) }
    fn mark_blind_raw(&mut self, s: Slice) -> Result<(), VmError> { self.mark(s, Vis::Blind) }
}
impl Callable<Binary> for IdealVm {
    fn call_raw(&mut self, call: Call) -> Result<Slice, VmError> {
        for s in &call.clone().into_parts().1 { self.bits(*s)?; }
        let out = self.alloc_raw(call.circ().output_len())?;
        self.mem[out.to_range()].iter_mut().for_each(|b| b.vis = Vis::Output);
        self.calls.push((self.n_calls, call, out));
        self.n_calls += 1;
        Ok(out)
    }
}
#[async_trait::async_trait]
impl Execute for IdealVm {
    fn wants_flush(&self) -> bool { !self.outbox.is_empty() || !self.awaiting.is_empty() || self.decodes.iter().any(|(s, _)| self.mem[s.to_range()].iter().all(|b| b.val.is_some())) }
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), VmError> {
        if !self.outbox.is_empty() {
            let mut msg: Vec<(u64, Vec<bool>)> = vec![];
            for s in std::mem::take(&mut self.outbox) {
                let mut v: Vec<bool> = self.mem[s.to_range()].iter().map(|b| b.assigned.unwrap()).collect();
                INSTR.with(|i| if let Some(h) = i.borrow_mut().on_private.as_mut() { h(self.id, s, &mut v) });
                for (b, v) in self.mem[s.to_range()].iter_mut().zip(&v) { b.val = Some(*v); }
                msg.push((s.to_range().start as u64, v));
            }
            ctx.io_mut().send(("priv", msg)).await.map_err(VmError::execute)?;
        }
        while !self.awaiting.is_empty() {
            let (tag, msg): (String, Vec<(u64, Vec<bool>)>) = ctx.io_mut().expect_next().await.map_err(VmError::execute)?;
            if tag != "priv" { return Err(VmError::execute("unexpected message")); }
            for (start, v) in msg {
                let s = Slice::from_range_unchecked(start as usize..(start as usize).saturating_add(v.len()));
                for (b, v) in self.bits_mut(s)?.iter_mut().zip(v) {
                    if b.vis != Vis::Blind || b.val.is_some() { return Err(VmError::execute(format!("peer provides {s}, which is not its input"))); }
                    b.val = Some(v);
                }
            }
            let mem = &self.mem;
            self.awaiting.retain(|s| mem[s.to_range()].iter().any(|b| b.val.is_none()));
        }
        self.resolve();
        Ok(())
    }
    fn wants_preprocess(&self) -> bool { false }
    async fn preprocess(&mut self, _: &mut Context) -> Result<(), VmError> { Ok(()) }
    fn wants_execute(&self) -> bool { self.calls.iter().any(|(_, c, _)| self.ready(c)) }
    async fn execute(&mut self, _: &mut Context) -> Result<(), VmError> {
        loop {
            let mut rest = vec![];
            let mut ran = false;
            for (n, call, out) in std::mem::take(&mut self.calls) {
                if !self.ready(&call) { rest.push((n, call, out)); continue; }
                ran = true;
                let (circ, ins) = call.into_parts();
                let x: Vec<bool> = ins.iter().flat_map(|s| self.vals(*s).unwrap()).collect();
                let mut y = circ.eval(&x);
                INSTR.with(|i| if let Some(h) = i.borrow_mut().on_output.as_mut() { h(self.id, n, &mut y) });
                for (b, v) in self.mem[out.to_range()].iter_mut().zip(y) { b.val = Some(v); }
            }
            self.calls = rest;
            if !ran { break; }
        }
        self.resolve();
        Ok(())
    }
}
