//! The simulated network between clients (players, some confused, some hostile) and the table server, in virtual time.

use crate::gen::*;
use crate::model::*;
use crate::tape::*;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

#[derive(Clone, Debug)]
enum Msg {
    Tick { client: usize },
    Submit { client: usize, mv: MMove, base: u64 },
    View { client: usize, view: MPos, version: u64 },
    Partition { client: usize, on: bool },
}

pub struct Client {
    view: MPos,
    version: u64,
    cut: bool,
    stalled_until: u64,
}

pub struct Net {
    pub now: u64,
    seq: u64,
    q: BinaryHeap<Reverse<(u64, u64, usize)>>,
    msgs: Vec<Option<Msg>>,
    pub clients: Vec<Client>,
    pub version: u64,
    // fault profile of this run, in percent
    drop: u32,
    dup: u32,
    delay: u32,
    part: u32,
    garbage: u32,
    stall: u32,
    last_arrival: u64,
    faults_on: bool,
}

pub struct Delivery {
    pub mv: MMove,
    pub client: usize,
    pub stale: bool,
}

impl Net {
    pub fn new(v: &MPos) -> Net {
        let n = 1 + draw(4) as usize;
        // swarm: each run has its own mix of faults; 0 = none
        let mild = |x: u32| if draw(3) == 0 { 0 } else { draw(x) };
        let mut net = Net {
            now: 0,
            seq: 0,
            q: BinaryHeap::new(),
            msgs: Vec::new(),
            clients: Vec::new(),
            version: 0,
            drop: mild(40),
            dup: mild(40),
            delay: mild(60),
            part: mild(10),
            garbage: mild(60),
            stall: mild(15),
            last_arrival: 0,
            faults_on: true,
        };
        for i in 0..n {
            net.clients.push(Client { view: v.clone(), version: 0, cut: false, stalled_until: 0 });
            let t = 1 + draw(8) as u64;
            net.post(t, Msg::Tick { client: i });
        }
        net
    }
    fn post(&mut self, dt: u64, m: Msg) {
        let id = self.msgs.len();
        self.msgs.push(Some(m));
        self.seq += 1;
        self.q.push(Reverse((self.now + dt, self.seq, id)));
    }
    fn send(&mut self, client: usize, m: Msg) {
        if self.clients[client].cut {
            fault(K::fault_net_partition);
            return;
        }
        if self.faults_on && chance(self.drop, 100) {
            fault(K::fault_net_drop);
            trace!("t={} network drops {:?}", self.now, m.short());
            return;
        }
        let mut copies = 1;
        if self.faults_on && chance(self.dup, 100) {
            copies += 1 + draw(3);
            fault(K::fault_net_dup);
        }
        for _ in 0..copies {
            let mut dt = 1 + draw(3) as u64;
            if self.faults_on && chance(self.delay, 100) {
                dt += draw(120) as u64;
                fault(K::fault_net_delay);
            }
            let at = self.now + dt;
            if at < self.last_arrival {
                fault(K::fault_net_reorder);
            } else {
                self.last_arrival = at;
            }
            self.post(dt, m.clone());
        }
    }
    /// The server tells everybody what the table looks like now.
    pub fn broadcast(&mut self, v: &MPos) {
        self.version += 1;
        for i in 0..self.clients.len() {
            let m = Msg::View { client: i, view: v.clone(), version: self.version };
            self.send(i, m);
        }
    }
    /// Stop all faults; everybody is told the truth.
    pub fn heal(&mut self, v: &MPos) {
        self.faults_on = false;
        for i in 0..self.clients.len() {
            self.clients[i].cut = false;
            self.clients[i].view = v.clone();
            self.clients[i].version = self.version;
        }
    }
    /// Everything that happens until the next submission reaches the server.
    pub fn next(&mut self) -> Delivery {
        loop {
            let Reverse((t, _, id)) = self.q.pop().expect("clients keep ticking");
            sh().sim_time += t - self.now;
            self.now = t;
            match self.msgs[id].take().unwrap() {
                Msg::Tick { client } => {
                    let dt = 4 + draw(30) as u64;
                    self.post(dt, Msg::Tick { client });
                    if self.faults_on && chance(self.part, 100) {
                        let on = !self.clients[client].cut;
                        self.clients[client].cut = on;
                        if on {
                            let d = 20 + draw(200) as u64;
                            self.post(d, Msg::Partition { client, on: false });
                            fault(K::fault_net_partition);
                        }
                    }
                    if self.clients[client].stalled_until > self.now {
                        continue;
                    }
                    if self.faults_on && chance(self.stall, 100) {
                        self.clients[client].stalled_until = self.now + 30 + draw(200) as u64;
                        fault(K::fault_client_stalled);
                        continue;
                    }
                    let view = &self.clients[client].view;
                    let base = self.clients[client].version;
                    let mv = if self.faults_on && chance(self.garbage, 100) {
                        fault(K::fault_garbage_submission);
                        gen_garbage(view)
                    } else {
                        match gen_sensible(view) {
                            Some(m) => m,
                            None => gen_garbage(view),
                        }
                    };
                    self.send(client, Msg::Submit { client, mv, base });
                }
                Msg::Partition { client, on } => self.clients[client].cut = on,
                Msg::View { client, view, version } => {
                    let c = &mut self.clients[client];
                    if version >= c.version {
                        c.view = view;
                        c.version = version;
                    }
                }
                Msg::Submit { client, mv, base } => {
                    let stale = base != self.version;
                    if stale {
                        fault(K::fault_stale_submission);
                    }
                    ev(1, mv.compact() as u64, client as u64);
                    trace!(
                        "t={} server receives {} from client {}{}",
                        self.now,
                        mv.usi(),
                        client,
                        if stale { " (stale)" } else { "" }
                    );
                    return Delivery { mv, client, stale };
                }
            }
        }
    }
}

impl Msg {
    fn short(&self) -> String {
        match self {
            Msg::Submit { client, mv, .. } => format!("submission {} of client {client}", mv.usi()),
            Msg::View { client, .. } => format!("view for client {client}"),
            m => format!("{m:?}"),
        }
    }
}
