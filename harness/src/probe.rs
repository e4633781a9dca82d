//! `Probe`: a hand-written root type whose task graph is an arbitrary tree, built through the
//! public visitor and job interfaces. Its jobs record what the executor does with them.
use crate::refdec::Node;
use crate::rng::Rng;
use crate::spy;
use parcode::format::ChildRef;
use parcode::graph::{ChunkId, JobConfig, SerializationJob, TaskGraph};
use parcode::visitor::ParcodeVisitor;
use std::sync::Mutex;

pub struct P {
    pub payload: Vec<u8>,
    pub comp: u8,
    pub parent: usize,
    /// In slot order.
    pub kids: Vec<usize>,
    /// What each execution was given.
    pub runs: Mutex<Vec<Vec<(u64, u64)>>>,
}
/// Parents come before their children, otherwise in any order.
pub struct Probe(pub Vec<P>);

impl Probe {
    pub fn random(r: &mut Rng, n: usize) -> Self {
        let n = n.max(1);
        // Flat, deep, or anything between; large ones are flat.
        let style = if n > 2000 { *r.pick(&[0, 3]) } else { r.below(4) };
        // Now and then payloads beyond a buffer of 64 KiB, or beyond the writer's of 16 MiB.
        let big = match r.below(60) {
            0..=7 if n <= 200 => 300_000,
            8 if n <= 8 => 18 << 20,
            _ => 0,
        };
        let mut v: Vec<P> = (0..n)
            .map(|i| {
                let parent = match (i, style) {
                    (0, _) => 0,
                    (_, 0) => 0,
                    (_, 1) => i - 1,
                    (_, 2) => i.saturating_sub(r.range(1, 4)),
                    _ => r.below(i),
                };
                let size = if big > 0 && r.chance(1, 3) { r.range(big / 5, big) } else { *r.pick(&[0, 1, 7, 100, 3000]) };
                let payload = if r.chance(1, 2) { r.bytes(size) } else { vec![r.u64() as u8; size] };
                // Identifiers nobody registered fall back to none.
                let comp = if r.chance(1, 6) { *r.pick(&[2, 5, 7, 8, 9, 16, 255]) } else { r.below(2) as u8 };
                P { payload, comp, parent, kids: vec![], runs: Mutex::default() }
            })
            .collect();
        for i in 1..n {
            let p = v[i].parent;
            v[p].kids.push(i);
        }
        Self(v)
    }
    pub fn clear(&self) {
        self.0.iter().for_each(|p| p.runs.lock().unwrap().clear());
    }
    /// Does the file hold exactly this tree, and was every job run once with its children's places?
    pub fn check(&self, root: &Node, global: bool, lz4: bool) -> Result<(), String> {
        self.node(0, root, global, lz4)
    }
    fn node(&self, i: usize, n: &Node, global: bool, lz4: bool) -> Result<(), String> {
        let p = &self.0[i];
        let err = |m: String| Err(format!("node {i} of {}: {m}", self.0.len()));
        if n.payload != p.payload {
            return err(format!("payload of {} bytes became {} bytes", p.payload.len(), n.payload.len()));
        }
        let comp = u8::from(lz4 && (p.comp == 1 || global && p.comp == 0));
        if n.comp != comp {
            return err(format!("compression {} instead of {comp}", n.comp));
        }
        if n.kids.len() != p.kids.len() {
            return err(format!("{} children instead of {}", n.kids.len(), p.kids.len()));
        }
        let runs = p.runs.lock().unwrap();
        if runs.len() != 1 {
            return err(format!("its job ran {} times", runs.len()));
        }
        let got: Vec<_> = n.kids.iter().map(|k| (k.off, k.len)).collect();
        if runs[0] != got {
            return err("its job was given other children than the file shows".to_string());
        }
        drop(runs);
        p.kids.iter().zip(&n.kids).try_for_each(|(k, n)| self.node(*k, n, global, lz4))
    }
}
struct Job<'a>(&'a P);
impl<'a> SerializationJob<'a> for Job<'a> {
    fn execute(&self, kids: &[ChildRef]) -> parcode::Result<Vec<u8>> {
        spy::seen();
        spy::jitter(self.0.payload.len() as u64 ^ (self.0 as *const P as u64) >> 4);
        self.0.runs.lock().unwrap().push(kids.iter().map(|k| (k.offset, k.length)).collect());
        Ok(self.0.payload.clone())
    }
    fn estimated_size(&self) -> usize {
        spy::seen();
        self.0.payload.len()
    }
    fn config(&self) -> JobConfig {
        spy::seen();
        JobConfig { compression_id: self.0.comp, is_map: false }
    }
}
impl ParcodeVisitor for Probe {
    fn visit<'a>(&'a self, g: &mut TaskGraph<'a>, parent: Option<ChunkId>, _: Option<JobConfig>) {
        spy::seen();
        let ids: Vec<ChunkId> = self.0.iter().map(|p| g.add_node(Box::new(Job(p)))).collect();
        if let Some(p) = parent {
            g.link_parent_child(p, ids[0]);
        }
        for (i, p) in self.0.iter().enumerate().skip(1) {
            g.link_parent_child(ids[p.parent], ids[i]);
        }
    }
    fn create_job<'a>(&'a self, _: Option<JobConfig>) -> Box<dyn SerializationJob<'a> + 'a> {
        spy::seen();
        Box::new(Job(&self.0[0]))
    }
}
