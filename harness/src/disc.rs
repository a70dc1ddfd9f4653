//! C19: real clients and a real broker; what discoverers, searches and lifetimes report against what is on the bus.
use crate::exec::{caught, Flag, Task};
use crate::rng::Rng;
use aldrin::low_level::{Service, ServiceInfo};
use aldrin::{Client, Discoverer, DiscovererEventKind, Error, Handle, Lifetime, LifetimeId, Object};
use aldrin_broker::{Broker, BrokerHandle};
use aldrin_core::channel;
use aldrin_core::transport::AsyncTransportExt;
use aldrin_core::{ObjectCookie, ObjectId, ObjectUuid, ServiceId, ServiceUuid};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

type Res<T> = Result<T, String>;
type Want = (u8, Option<ObjectUuid>, Vec<ServiceUuid>);
type Bus = BTreeMap<u128, (ObjectId, BTreeMap<u128, ServiceId>)>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { All, Current }
struct Obs { c: usize, disc: Discoverer<u8>, want: Vec<Want>, view: HashMap<(u8, ObjectUuid), ObjectCookie>, mode: Mode, expect: Option<Bus>, ended: bool }
struct Life { c: usize, lt: Lifetime, id: LifetimeId, ended: bool }
type Found = Rc<RefCell<Option<Result<(ObjectId, Vec<ServiceId>), Error>>>>;
struct Wait { obj: Option<ObjectUuid>, svcs: Vec<ServiceUuid>, cell: Found }
struct Owned { client: usize, obj: Object, svcs: Vec<Service> }

struct World {
    r: Rng,
    tasks: Vec<Task<()>>,
    obs: Vec<Option<Obs>>,
    lives: Vec<Option<Life>>,
    waits: Vec<Wait>,
    bus: Bus,
    /// every id that was ever on the bus
    objs: HashSet<ObjectId>,
    svcs: HashSet<ServiceId>,
    seen_o: Vec<ObjectId>,
    seen_s: Vec<ServiceId>,
    events: usize,
}

fn o(i: usize) -> ObjectUuid { ObjectUuid(uuid::Uuid::from_u128(0x100 + i as u128)) }
fn s(i: usize) -> ServiceUuid { ServiceUuid(uuid::Uuid::from_u128(0x200 + i as u128)) }

/// the objects of the bus that an entry asks for
fn matching(bus: &Bus, obj: Option<ObjectUuid>, svcs: &[ServiceUuid]) -> BTreeMap<ObjectUuid, (ObjectId, Vec<ServiceId>)> {
    bus.values().filter(|(id, _)| obj.map(|u| u == id.uuid).unwrap_or(true))
        .filter_map(|(id, sv)| {
            let ids: Option<Vec<ServiceId>> = svcs.iter().map(|u| sv.get(&u.0.as_u128()).copied()).collect();
            ids.map(|x| (id.uuid, (*id, x)))
        }).collect()
}

impl World {
    fn poll_obs(&mut self, i: usize) -> Res<bool> {
        let Some(mut ob) = self.obs[i].take() else { return Ok(false) };
        let mut cx = Context::from_waker(Waker::noop());
        let p = caught(|| ob.disc.poll_next_event(&mut cx))?;
        let mut more = false;
        match p {
            Poll::Ready(Some(ev)) => {
                more = true;
                self.events += 1;
                let k = ev.key();
                let Some((_, obj, svcs)) = ob.want.iter().find(|w| w.0 == k) else { return Err(format!("an event for key {k}, which was not added")) };
                if obj.map(|u| u != ev.object_id().uuid).unwrap_or(false) { return Err(format!("entry {k} reports another object {:?}", ev.object_id())); }
                let slot = (k, ev.object_id().uuid);
                match ev.kind() {
                    DiscovererEventKind::Created => {
                        if ob.view.contains_key(&slot) { return Err(format!("entry {k}: {:?} is created while it is there already", ev.object_id())); }
                        ob.view.insert(slot, ev.object_id().cookie);
                        self.seen_o.push(ev.object_id());
                        if !ob.disc.contains(k, ev.object_id().uuid) { return Err(format!("entry {k} does not contain the object it just reported")); }
                        let ids = caught(|| ev.service_ids(&ob.disc, svcs.iter().copied()))?;
                        for (n, id) in ids.iter().enumerate() {
                            if id.object_id != ev.object_id() || id.uuid != svcs[n] { return Err(format!("entry {k}: service id {id:?} does not belong to {:?} / {:?}", ev.object_id(), svcs[n])); }
                            if caught(|| ev.service_id(&ob.disc, svcs[n]))? != *id { return Err("service_id and service_ids differ".into()); }
                        }
                        if svcs.len() == 2 && caught(|| ev.service_ids_n(&ob.disc, &[svcs[0], svcs[1]]))?[..] != ids[..] { return Err("service_ids_n and service_ids differ".into()); }
                        self.seen_s.extend(ids);
                    }
                    DiscovererEventKind::Destroyed => {
                        if ob.view.remove(&slot) != Some(ev.object_id().cookie) { return Err(format!("entry {k}: {:?} is destroyed, but was not created before", ev.object_id())); }
                    }
                }
            }
            Poll::Ready(None) => { ob.ended = true; if !ob.disc.is_finished() { return Err("the end of the events, but not finished".into()); } }
            Poll::Pending => {}
        }
        self.obs[i] = Some(ob);
        Ok(more)
    }
    fn poll_life(&mut self, i: usize) -> Res<()> {
        let Some(mut l) = self.lives[i].take() else { return Ok(()) };
        let mut cx = Context::from_waker(Waker::noop());
        let was = l.ended;
        match caught(|| l.lt.poll_ended(&mut cx))? {
            Poll::Ready(()) => l.ended = true,
            Poll::Pending => if was { return Err("a lifetime that has ended is pending again".into()) },
        }
        if l.lt.has_ended() != l.ended { return Err("has_ended differs from what was polled".into()); }
        if l.ended && self.bus.values().any(|(id, _)| *id == ObjectId::from(l.id)) { return Err(format!("the lifetime of {:?} has ended, the object exists", l.id)); }
        self.lives[i] = Some(l);
        Ok(())
    }
    /// something happens; false if nothing can
    fn step(&mut self) -> Res<bool> {
        if !self.obs.is_empty() && self.r.chance(1, 8) { let i = self.r.below(self.obs.len()); self.poll_obs(i)?; return Ok(true); }
        if !self.lives.is_empty() && self.r.chance(1, 16) { let i = self.r.below(self.lives.len()); self.poll_life(i)?; return Ok(true); }
        let ready: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].ready()).collect();
        if ready.is_empty() { return Ok(false); }
        let i = ready[self.r.below(ready.len())];
        if let Poll::Ready(()) = self.tasks[i].poll()? { drop(self.tasks.swap_remove(i)); }
        Ok(true)
    }
    fn drive<T>(&mut self, f: impl Future<Output = T>) -> Res<T> {
        let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let w = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&w);
        for _ in 0..200_000 {
            if flag.0.load(Ordering::SeqCst) && (self.r.chance(1, 2) || !self.tasks.iter().any(|t| t.ready())) {
                flag.0.store(false, Ordering::SeqCst);
                if let Poll::Ready(x) = caught(|| f.as_mut().poll(&mut cx))? { return Ok(x); }
            } else if !self.step()? && !flag.0.load(Ordering::SeqCst) {
                return Err("an operation does not complete".into());
            }
        }
        Err("no end of steps".into())
    }
    fn spawn(&mut self, f: impl Future<Output = ()> + 'static) { self.tasks.push(Task::new(f)); }
    /// until nothing happens any more
    fn settle(&mut self) -> Res<()> {
        for _ in 0..10_000 {
            let mut any = false;
            for _ in 0..100_000 {
                let ready: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].ready()).collect();
                if ready.is_empty() { break; }
                any = true;
                self.step()?;
            }
            for i in 0..self.obs.len() { while self.poll_obs(i)? { any = true; } }
            for i in 0..self.lives.len() { self.poll_life(i)?; }
            if !any { return self.check(); }
        }
        Err("no end of steps".into())
    }
    /// nothing is in flight: everything reported is what is on the bus
    fn check(&mut self) -> Res<()> {
        for id in &self.seen_o { if !self.objs.contains(id) { return Err(format!("{id:?} was reported and never existed")); } }
        for id in &self.seen_s { if !self.svcs.contains(id) { return Err(format!("{id:?} was reported and never existed")); } }
        self.seen_o.clear(); self.seen_s.clear();
        for ob in self.obs.iter().flatten() {
            if ob.mode == Mode::Current && !ob.ended { return Err("the current objects are known, but the discoverer is not finished".into()); }
            let bus = ob.expect.as_ref().unwrap_or(&self.bus);
            let mut n = 0;
            for (k, obj, svcs) in &ob.want {
                let truth = matching(bus, *obj, svcs);
                let view: BTreeMap<ObjectUuid, ObjectCookie> = ob.view.iter().filter(|(x, _)| x.0 == *k).map(|(x, c)| (x.1, *c)).collect();
                {
                    let want: BTreeMap<ObjectUuid, ObjectCookie> = truth.iter().map(|(u, x)| (*u, x.0.cookie)).collect();
                    if view != want { return Err(format!("entry {k} ({obj:?}, {svcs:?}): the events so far lead to {view:?}, on the bus is {want:?}")); }
                }
                let mut got = BTreeMap::new();
                for e in ob.disc.entry_iter(*k) {
                    if e.key() != *k { return Err("an item of the iterator has another key".into()); }
                    let ids = if svcs.is_empty() { vec![] } else { caught(|| e.service_ids(svcs.iter().copied()))? };
                    for (x, u) in ids.iter().zip(svcs) { if caught(|| e.service_id(*u))? != *x { return Err("service_id and service_ids of an item differ".into()); } }
                    if got.insert(e.object_id().uuid, (e.object_id(), ids)).is_some() { return Err(format!("entry {k} lists {:?} twice", e.object_id())); }
                }
                n += got.len();
                if view != got.iter().map(|(u, x)| (*u, x.0.cookie)).collect() { return Err(format!("entry {k} lists {got:?}, the events so far lead to {view:?}")); }
                if got != truth { return Err(format!("entry {k} lists {got:?}, on the bus is {truth:?}")); }
                if ob.disc.contains_any(*k) == got.is_empty() { return Err(format!("contains_any of entry {k} is wrong")); }
                for i in 0..4 {
                    if obj.map(|u| u != o(i)).unwrap_or(false) { continue; }
                    let g = got.get(&o(i));
                    if ob.disc.contains(*k, o(i)) != g.is_some() || caught(|| ob.disc.object_id(*k, o(i)))? != g.map(|x| x.0) { return Err(format!("entry {k}: contains or object_id is wrong for {:?}", o(i))); }
                    for (n, u) in svcs.iter().enumerate() { if caught(|| ob.disc.service_id(*k, o(i), *u))? != g.map(|x| x.1[n]) { return Err(format!("entry {k}: service_id is wrong for {:?}", o(i))); } }
                    if !svcs.is_empty() && caught(|| ob.disc.service_ids(*k, o(i), svcs.iter().copied()))? != g.map(|x| x.1.clone()) { return Err(format!("entry {k}: service_ids is wrong for {:?}", o(i))); }
                    if svcs.len() == 2 && caught(|| ob.disc.service_ids_n(*k, o(i), &[svcs[0], svcs[1]]))?.map(|x| x.to_vec()) != g.map(|x| x.1.clone()) { return Err(format!("entry {k}: service_ids_n is wrong for {:?}", o(i))); }
                }
            }
            if ob.disc.iter().count() != n || ob.disc.entries().count() != ob.want.len() { return Err("the iterators over all entries do not agree with the entries".into()); }
        }
        for l in self.lives.iter().flatten() {
            let there = self.bus.values().any(|(id, _)| *id == ObjectId::from(l.id));
            if l.ended == there { return Err(format!("the lifetime of {:?} has {}, the object {}", l.id, if l.ended { "ended" } else { "not ended" }, if there { "exists" } else { "does not exist" })); }
        }
        for w in &self.waits {
            match &*w.cell.borrow() {
                None => if !matching(&self.bus, w.obj, &w.svcs).is_empty() { return Err(format!("waiting for {:?} with {:?}, which is on the bus", w.obj, w.svcs)) },
                Some(Ok((id, sv))) => self.valid(w.obj, &w.svcs, *id, sv)?,
                Some(Err(Error::Shutdown)) => {}
                Some(Err(e)) => return Err(format!("waiting for an object failed: {e:?}")),
            }
        }
        self.waits.retain(|w| w.cell.borrow().is_none());
        Ok(())
    }
    fn valid(&self, obj: Option<ObjectUuid>, svcs: &[ServiceUuid], id: ObjectId, sv: &[ServiceId]) -> Res<()> {
        if !self.objs.contains(&id) || obj.map(|u| u != id.uuid).unwrap_or(false) || sv.len() != svcs.len() || sv.iter().zip(svcs).any(|(x, u)| x.uuid != *u || x.object_id != id || !self.svcs.contains(x)) {
            return Err(format!("found {id:?} with {sv:?} when asked for {obj:?} with {svcs:?}"));
        }
        Ok(())
    }
    fn client(&mut self, b: &BrokerHandle) -> Res<Handle> {
        let (t1, t2) = channel::unbounded();
        let mut bh = b.clone();
        let cell = Rc::new(RefCell::new(None));
        let c2 = cell.clone();
        self.spawn(async move { *c2.borrow_mut() = bh.connect(t2.boxed()).await.ok(); });
        let client = self.drive(Client::connect(t1.boxed()))?.map_err(|e| format!("connect: {e:?}"))?;
        self.drive(std::future::ready(()))?;
        for _ in 0..1000 { if cell.borrow().is_some() { break; } self.step()?; }
        let conn = cell.borrow_mut().take().ok_or("the broker does not accept")?;
        let h = client.handle().clone();
        self.spawn(async move { let _ = conn.run().await; });
        self.spawn(async move { let _ = client.run().await; });
        Ok(h)
    }
    fn ask(&mut self) -> (Option<ObjectUuid>, Vec<ServiceUuid>) {
        let obj = if self.r.chance(1, 2) { Some(o(self.r.below(3))) } else { None };
        let n = match obj { None => 1 + self.r.below(2), Some(_) => self.r.below(3) };
        // asking for any object without services is possible as well
        let n = if obj.is_none() && self.r.chance(1, 4) { 0 } else { n };
        let mut v = BTreeSet::new();
        for _ in 0..n { v.insert(self.r.below(3)); }
        let mut v: Vec<ServiceUuid> = v.into_iter().map(s).collect();
        if self.r.chance(1, 2) { v.reverse(); }
        (obj, v)
    }
}

pub fn one(kind: &str, seed: u64) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    let len = if kind == "long" { 120 } else { 8 + r.below(30) };
    let lazy = r.chance(1, 2);
    let mut w = World { r, tasks: vec![], obs: vec![], lives: vec![], waits: vec![], bus: Bus::new(), objs: HashSet::new(), svcs: HashSet::new(), seen_o: vec![], seen_s: vec![], events: 0 };
    let broker = Broker::new();
    let bh = broker.handle().clone();
    w.spawn(broker.run());
    let mut clients = vec![];
    for _ in 0..3 { clients.push(w.client(&bh)?); }
    let mut owned: Vec<Owned> = vec![];
    for _ in 0..len {
        let quiet = w.tasks.iter().all(|t| !t.ready());
        match w.r.below(26) {
            0..=4 => {
                let (c, u) = (w.r.below(3), o(w.r.below(4)));
                match w.drive(clients[c].create_object(u))? {
                    Ok(obj) => {
                        if w.bus.contains_key(&u.0.as_u128()) { return Err(format!("{u:?} was created twice")); }
                        w.bus.insert(u.0.as_u128(), (obj.id(), BTreeMap::new()));
                        w.objs.insert(obj.id());
                        owned.push(Owned { client: c, obj, svcs: vec![] });
                    }
                    Err(Error::DuplicateObject) => {}
                    Err(e) => return Err(format!("create_object: {e:?}")),
                }
            }
            5..=9 if !owned.is_empty() => {
                let i = w.r.below(owned.len());
                let u = s(w.r.below(3));
                let x = &mut owned[i];
                match w.drive(x.obj.create_service(u, ServiceInfo::new(0)))? {
                    Ok(svc) => {
                        w.svcs.insert(svc.id());
                        w.bus.get_mut(&x.obj.id().uuid.0.as_u128()).unwrap().1.insert(u.0.as_u128(), svc.id());
                        x.svcs.push(svc);
                    }
                    Err(Error::DuplicateService) => {}
                    Err(e) => return Err(format!("create_service: {e:?}")),
                }
            }
            10..=12 if !owned.is_empty() => {
                let i = w.r.below(owned.len());
                let x = owned.swap_remove(i);
                w.bus.remove(&x.obj.id().uuid.0.as_u128());
                if w.r.chance(1, 2) { let _ = w.drive(x.obj.destroy())?; }
                else if w.r.chance(1, 2) { drop(x); if w.r.chance(1, 2) { w.settle()? } else { w.drive(clients[0].sync_broker())?.ok(); } }
                else { let Owned { obj, svcs, .. } = x; drop(obj); drop(svcs); }
                // a destroyed object is gone before its uuid is used again
                for c in &clients { w.drive(c.sync_broker())?.ok(); }
            }
            13..=15 if !owned.is_empty() => {
                let i = w.r.below(owned.len());
                let x = &mut owned[i];
                if !x.svcs.is_empty() {
                    let j = w.r.below(x.svcs.len());
                    let svc = x.svcs.swap_remove(j);
                    w.bus.get_mut(&x.obj.id().uuid.0.as_u128()).unwrap().1.remove(&svc.id().uuid.0.as_u128());
                    if w.r.chance(1, 2) { let _ = w.drive(svc.destroy())?; } else { drop(svc); }
                    let c = x.client;
                    w.drive(clients[c].sync_broker())?.ok();
                }
            }
            16..=18 if w.obs.len() < 5 => {
                let c = w.r.below(3);
                let n = 1 + w.r.below(3);
                let want: Vec<Want> = (0..n).map(|k| { let (a, b) = w.ask(); (k as u8, a, b) }).collect();
                let mut b = clients[c].create_discoverer::<u8>();
                for (k, obj, sv) in &want {
                    b = match obj {
                        Some(u) if sv.is_empty() && w.r.chance(1, 2) => b.bare_object(*k, *u),
                        Some(u) if w.r.chance(1, 2) => b.object_with_services(*k, *u, sv.iter().copied()),
                        None if w.r.chance(1, 2) => b.any_object_with_services(*k, sv.iter().copied()),
                        _ => b.add(*k, *obj, sv.iter().copied()),
                    };
                }
                let how = w.r.below(4);
                if how >= 2 && quiet { w.settle()?; }
                let (disc, mode) = match how {
                    0 | 1 => (w.drive(b.build())?, Mode::All),
                    2 => (w.drive(b.build_current_only())?, Mode::Current),
                    _ => (w.drive(b.build_current_only_and_wait())?, Mode::Current),
                };
                let disc = disc.map_err(|e| format!("building a discoverer: {e:?}"))?;
                let expect = (mode == Mode::Current).then(|| w.bus.clone());
                let mut view = HashMap::new();
                if how == 3 {
                    if !disc.is_finished() { return Err("the discoverer was waited for and is not finished".into()); }
                    for e in disc.iter() { view.insert((e.key(), e.object_id().uuid), e.object_id().cookie); w.seen_o.push(e.object_id()); }
                }
                let ended = how == 3;
                w.obs.push(Some(Obs { c, disc, want, view, mode, expect, ended }));
                // nothing changes until the current objects are known
                if mode == Mode::Current { w.settle()?; }
            }
            19 | 20 if !w.obs.is_empty() => {
                let i = w.r.below(w.obs.len());
                let Some(mut ob) = w.obs[i].take() else { continue };
                let how = w.r.below(3);
                let res = match how { 0 => w.drive(ob.disc.restart())?, 1 => w.drive(ob.disc.restart_current_only())?, _ => w.drive(ob.disc.restart_current_only_and_wait())? };
                res.map_err(|e| format!("restarting a discoverer: {e:?}"))?;
                ob.view.clear();
                ob.mode = if how == 0 { Mode::All } else { Mode::Current };
                ob.expect = (how != 0).then(|| w.bus.clone());
                ob.ended = how == 2;
                if how == 2 { for e in ob.disc.iter() { ob.view.insert((e.key(), e.object_id().uuid), e.object_id().cookie); w.seen_o.push(e.object_id()); } }
                w.obs[i] = Some(ob);
                if how != 0 { w.settle()?; }
            }
            21 if w.lives.len() < 4 => {
                let c = w.r.below(3);
                let id = match w.r.below(4) {
                    0 => LifetimeId(ObjectId::new(o(w.r.below(4)), ObjectCookie(uuid::Uuid::from_u128(7)))),
                    1 if !w.objs.is_empty() => { let mut v: Vec<ObjectId> = w.objs.iter().copied().collect(); v.sort(); LifetimeId(v[w.r.below(v.len())]) }
                    _ => match owned.len() { 0 => LifetimeId(ObjectId::new(o(0), ObjectCookie(uuid::Uuid::from_u128(7)))), n => owned[w.r.below(n)].obj.lifetime_id() },
                };
                let lt = w.drive(clients[c].create_lifetime(id))?.map_err(|e| format!("create_lifetime: {e:?}"))?;
                w.lives.push(Some(Life { c, lt, id, ended: false }));
            }
            22 => {
                let c = w.r.below(3);
                let (obj, sv) = w.ask();
                let before = matching(&w.bus, obj, &sv);
                let h = clients[c].clone();
                let res = match (obj, sv.is_empty()) {
                    (Some(u), true) if w.r.chance(1, 2) => w.drive(h.find_bare_object(u))?.map(|x| x.map(|id| (id, vec![]))),
                    (Some(u), _) if w.r.chance(1, 2) => w.drive(h.find_object_with_services(u, sv.clone()))?,
                    (None, _) if w.r.chance(1, 3) => w.drive(h.find_any_object_with_services(sv.clone()))?,
                    _ if sv.len() == 2 && w.r.chance(1, 2) => w.drive(h.find_object_n(obj, &[sv[0], sv[1]]))?.map(|x| x.map(|(i, v)| (i, v.to_vec()))),
                    _ => w.drive(h.find_object(obj, sv.clone()))?,
                };
                match res {
                    Ok(Some((id, ids))) => { w.valid(obj, &sv, id, &ids)?; if !before.values().any(|x| *x == (id, ids.clone())) { return Err(format!("found {id:?} with {ids:?}, but on the bus is {before:?}")); } }
                    Ok(None) => if !before.is_empty() { return Err(format!("found nothing, but on the bus is {before:?}")) },
                    Err(e) => return Err(format!("find_object: {e:?}")),
                }
            }
            23 if w.waits.len() < 4 => {
                let c = w.r.below(3);
                let (obj, svcs) = w.ask();
                let cell: Found = Rc::new(RefCell::new(None));
                let (h, c2, sv, n) = (clients[c].clone(), cell.clone(), svcs.clone(), w.r.below(3));
                w.spawn(async move {
                    let x = match (obj, sv.len()) {
                        (Some(u), 0) if n == 0 => h.wait_for_bare_object(u).await.map(|i| (i, vec![])),
                        (Some(u), _) if n == 1 => h.wait_for_object_with_services(u, sv).await,
                        (None, _) if n == 1 => h.wait_for_any_object_with_services(sv).await,
                        (_, 2) if n == 2 => h.wait_for_object_n(obj, &[sv[0], sv[1]]).await.map(|(i, v)| (i, v.to_vec())),
                        _ => h.wait_for_object(obj, sv).await,
                    };
                    *c2.borrow_mut() = Some(x);
                });
                w.waits.push(Wait { obj, svcs, cell });
            }
            24 if w.r.chance(1, 3) => {
                // a client leaves and takes its objects with it
                let c = w.r.below(3);
                let (left, keep): (Vec<Owned>, Vec<Owned>) = owned.drain(..).partition(|x| x.client == c);
                owned = keep;
                // those who watched from there watch no longer
                w.obs.retain(|x| x.as_ref().map(|x| x.c != c).unwrap_or(true));
                w.lives.retain(|x| x.as_ref().map(|x| x.c != c).unwrap_or(true));
                w.settle()?;
                for x in &left { w.bus.remove(&x.obj.id().uuid.0.as_u128()); }
                clients[c].shutdown();
                w.settle()?;
                drop(left);
                clients[c] = w.client(&bh)?;
            }
            _ => { if !lazy || w.r.chance(1, 4) { w.settle()?; } else { for _ in 0..w.r.below(30) { w.step()?; } } }
        }
    }
    w.settle()?;
    Ok(w.events)
}
