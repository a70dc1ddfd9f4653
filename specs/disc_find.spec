// Contracts of aldrin/src/handle.rs (C19): finding and waiting for objects
post
    /// the object exists in b under this id and carries these services
    pub open spec fn vx_on(object: Option<ObjectUuid>, s: Seq<ServiceUuid>, b: VxBus, id: ObjectId) -> bool {
        &&& object is None || object == Some(id.uuid)
        &&& b.has_obj(id.uuid) && b.obj[id.uuid] == id.cookie
        &&& forall|i: int| 0 <= i < s.len() ==> b.has_svc(id.uuid, #[trigger] s[i])
    }
    /// a bus as a listener of this client saw it during the call carried the object with these services and their ids
    pub open spec fn vx_existed(object: Option<ObjectUuid>, s: Seq<ServiceUuid>, r: (ObjectId, Vec<ServiceId>)) -> bool {
        exists|fs: Set<BusListenerFilter>, h: Seq<BusListenerEvent>, b: VxBus| vx_got(fs, h) && #[trigger] vx_seen(fs, h, b) && vx_on(object, s, b, r.0)
            && r.1@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r.1@[i] == b.svc[(r.0.uuid, s[i])]
    }
    /// nobody has seen any event of this key yet
    pub open spec fn vx_none<Key>(k: Key) -> Map<Key, Map<ObjectUuid, ObjectCookie>> { Map::<Key, Map<ObjectUuid, ObjectCookie>>::empty().insert(k, Map::<ObjectUuid, ObjectCookie>::empty()) }
    /// a discoverer with one entry, before it has seen anything
    pub proof fn nothing_yet<Key: Copy>(d0: Discoverer<Key>, k: Key)
        requires d0.lone(), d0.entries@.dom().contains(k), d0.events@.len() == 0, d0.entries@[k].rep(VxBus::empty())
        ensures d0.behind(vx_none(k)) //@C19
    {
        assert forall|l: Key| #[trigger] d0.entries@.dom().contains(l) implies vx_play(l, vx_none(k)[l], d0.events@) == Some(d0.entries@[l].vx_view()) by {
            assert(l == k);
            let v = d0.entries@[k].vx_view();
            assert forall|u: ObjectUuid| !(#[trigger] v.dom().contains(u)) by { assert(v.dom().contains(u) <==> d0.entries@[k].want().on(VxBus::empty(), u)); }
            assert(v.dom() =~= Set::<ObjectUuid>::empty());
            assert(v =~= Map::<ObjectUuid, ObjectCookie>::empty());
        }
    }
    /// its first event
    pub proof fn found<Key: Copy>(d0: Discoverer<Key>, d: Discoverer<Key>, ev: DiscovererEvent<Key>, object: Option<ObjectUuid>, s: Seq<ServiceUuid>)
        requires
            d0.entries@.dom().contains(ev.key), d.same(d0), d0.fresh(), vx_ev_ok(Map::<ObjectUuid, ObjectCookie>::empty(), ev),
            d.behind(vx_none(ev.key).insert(ev.key, vx_ev_apply(Map::empty(), ev))),
            d.events@.len() == 0, vx_asks(d0.entries@[ev.key].want(), object, s),
        ensures
            ev.kind is Created, d.entries@.dom().contains(ev.key), d.entries@[ev.key].full(), d.entries@[ev.key].vx_view().dom().contains(ev.object.uuid), d.entries@[ev.key].want().hit(ev.object.uuid), vx_asks(d.entries@[ev.key].want(), object, s), //@C19
            forall|v: Vec<ServiceId>| #![trigger v@] v@.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] v@[i] == d.entries@[ev.key].sid(ev.object.uuid, s[i])) ==> vx_existed(object, s, (ev.object, v)), //@C19
    {
        let k = ev.key; let e = d.entries@[k]; let fs = vx_filt(d.listener.events); let h = vx_recv(d.listener.events);
        let u = vx_none(k).insert(k, vx_ev_apply(Map::empty(), ev));
        assert(d0.entries@.dom().contains(k)); assert(!d0.bare()); assert(d.tracks());
        assert(vx_play(k, u[k], d.events@) == Some(u[k]));
        assert(e.vx_view().dom().contains(ev.object.uuid));
        assert(VxBus::empty().wf());
        if vx_idle(h) { assert(vx_seen(fs, h, VxBus::empty())); assert(e.rep(VxBus::empty())); assert(e.want().on(VxBus::empty(), ev.object.uuid)); assert(false); }
        assert(vx_deliverable(fs, h));
        let b = choose|b: VxBus| vx_seen(fs, h, b);
        seen_wf(fs, h, b);
        assert(e.rep(b)); entry_full(e, b);
        assert(e.want().on(b, ev.object.uuid));
        assert forall|i: int| 0 <= i < s.len() implies e.want().services.contains(#[trigger] s[i]) by {}
        assert forall|i: int| 0 <= i < s.len() implies b.has_svc(ev.object.uuid, #[trigger] s[i]) by { assert(e.want().services.contains(s[i])); }
        assert(vx_on(object, s, b, ev.object));
    }
    pub fn vx_found<Key: Copy>(d0: Ghost<Discoverer<Key>>, d: Ghost<Discoverer<Key>>, ev: Ghost<DiscovererEvent<Key>>, object: Ghost<Option<ObjectUuid>>, s: Ghost<Seq<ServiceUuid>>)
        requires
            d0@.entries@.dom().contains(ev@.key), d@.same(d0@), d0@.fresh(), vx_ev_ok(Map::<ObjectUuid, ObjectCookie>::empty(), ev@),
            d@.behind(vx_none(ev@.key).insert(ev@.key, vx_ev_apply(Map::empty(), ev@))),
            d@.events@.len() == 0, vx_asks(d0@.entries@[ev@.key].want(), object@, s@),
        ensures
            ev@.kind is Created, d@.entries@.dom().contains(ev@.key), d@.entries@[ev@.key].full(), d@.entries@[ev@.key].vx_view().dom().contains(ev@.object.uuid), d@.entries@[ev@.key].want().hit(ev@.object.uuid), vx_asks(d@.entries@[ev@.key].want(), object@, s@), //@C19
            forall|v: Vec<ServiceId>| #![trigger v@] v@.len() == s@.len() && (forall|i: int| 0 <= i < s@.len() ==> #[trigger] v@[i] == d@.entries@[ev@.key].sid(ev@.object.uuid, s@[i])) ==> vx_existed(object@, s@, (ev@.object, v)), //@C19
    { proof { found(d0@, d@, ev@, object@, s@); } }
source aldrin/src/handle.rs
only Handle::find_object Handle::find_object_with_services Handle::find_any_object_with_services Handle::wait_for_object Handle::wait_for_object_with_services Handle::wait_for_any_object_with_services Handle::create_discoverer
fn Handle::create_discoverer
    ensures r.ok(), r.entries@ == Map::<Key, DiscovererEntry<Key>>::empty(), //@C19
fn Handle::find_object
    requires services.wf(), services.pos() == 0, //@C19
    ensures r is Ok && r->Ok_0 is Some ==> vx_existed(object, services.all(), r->Ok_0->0), //@C19
hint Handle::find_object before:next_event#0
    let ghost vx_d0 = discoverer;
    proof { assert(vx_d0.entries@.dom().contains(())); nothing_yet(vx_d0, ()); }
fn Handle::find_object_with_services
    requires services.wf(), services.pos() == 0, //@C19
    ensures r is Ok && r->Ok_0 is Some ==> vx_existed(Some(object), services.all(), r->Ok_0->0), //@C19
fn Handle::find_any_object_with_services
    requires services.wf(), services.pos() == 0, //@C19
    ensures r is Ok && r->Ok_0 is Some ==> vx_existed(None, services.all(), r->Ok_0->0), //@C19
fn Handle::wait_for_object
    requires services.wf(), services.pos() == 0, //@C19
    ensures r is Ok ==> vx_existed(object, services.all(), r->Ok_0), //@C19
hint Handle::wait_for_object before:next_event#0
    let ghost vx_d0 = discoverer;
    proof { assert(vx_d0.entries@.dom().contains(())); nothing_yet(vx_d0, ()); }
fn Handle::wait_for_object_with_services
    requires services.wf(), services.pos() == 0, //@C19
    ensures r is Ok ==> vx_existed(Some(object), services.all(), r->Ok_0), //@C19
fn Handle::wait_for_any_object_with_services
    requires services.wf(), services.pos() == 0, //@C19
    ensures r is Ok ==> vx_existed(None, services.all(), r->Ok_0), //@C19
