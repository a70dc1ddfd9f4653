// Contracts of aldrin/src/discoverer/{specific,entry}.rs and aldrin/src/discoverer.rs (C19)
source aldrin/src/discoverer/specific.rs
only =SpecificObject SpecificObject SpecificObjectIter SpecificObjectIterEntry
skip SpecificObject::service_ids_n SpecificObjectIter::size_hint SpecificObjectIterEntry::service_ids_n
attr SpecificObjectIter #[verifier::reject_recursive_types(Key)]
derive SpecificObjectIterEntry Clone, Copy
keep impl Iterator for SpecificObjectIter<'a,Key>
inherent impl Iterator for SpecificObjectIter<'a,Key>
post
    impl<'a, Key: Copy> SpecificObjectIterEntry<'a, Key> {
        pub open spec fn ok(self) -> bool { match self { SpecificObjectIterEntry::WithServices(x) => x.object.cookie is Some && x.object.full(), SpecificObjectIterEntry::WithoutServices(x) => x.object.cookie is Some } }
        pub open spec fn oid(self) -> ObjectId { match self { SpecificObjectIterEntry::WithServices(x) => ObjectId { uuid: x.object.object, cookie: x.object.cookie->0 }, SpecificObjectIterEntry::WithoutServices(x) => ObjectId { uuid: x.object.object, cookie: x.object.cookie->0 } } }
        pub open spec fn vx_key(self) -> Key { match self { SpecificObjectIterEntry::WithServices(x) => x.object.key, SpecificObjectIterEntry::WithoutServices(x) => x.object.key } }
        pub open spec fn has(self, s: ServiceUuid) -> bool { self is WithServices && self->WithServices_0.object.services@.dom().contains(s) }
        pub open spec fn sid(self, s: ServiceUuid) -> ServiceId { self->WithServices_0.object.sid(s) }
    }
    impl<'a, Key: Copy> SpecificObjectIter<'a, Key> {
        pub open spec fn ok(self) -> bool {
            match self {
                SpecificObjectIter::WithServices(x) => x.next.wf() && forall|i: int| 0 <= i < x.next.all().len() ==> (#[trigger] x.next.all()[i]).object.cookie is Some && x.next.all()[i].object.full(),
                SpecificObjectIter::WithoutServices(x) => x.next.wf() && forall|i: int| 0 <= i < x.next.all().len() ==> (#[trigger] x.next.all()[i]).object.cookie is Some,
            }
        }
        pub open spec fn rest(self) -> Seq<ObjectId> {
            match self {
                SpecificObjectIter::WithServices(x) => Seq::new(x.next.left(), |i: int| ObjectId { uuid: x.next.all()[x.next.pos() + i].object.object, cookie: x.next.all()[x.next.pos() + i].object.cookie->0 }),
                SpecificObjectIter::WithoutServices(x) => Seq::new(x.next.left(), |i: int| ObjectId { uuid: x.next.all()[x.next.pos() + i].object.object, cookie: x.next.all()[x.next.pos() + i].object.cookie->0 }),
            }
        }
    }
fn SpecificObject::service_ids
    requires self.want().hit(object), self.full(), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.want().services.contains(#[trigger] services.all()[i]), //@C19
    ensures services.all().len() > 0 ==> self is WithServices, self.vx_view().dom().contains(object) ==> r is Some, self is WithServices ==> (r is Some <==> self.vx_view().dom().contains(object)), r is Some ==> r->0@.len() == services.all().len() && forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]) == self->WithServices_0.sid(services.all()[i]), //@C19
hint SpecificObject::service_ids start
    proof { assert(services.all().len() > 0 ==> self.want().services.contains(services.all()[0])); }
fn SpecificObject::iter
    requires self.full(), //@C19
    ensures r.ok(), r.rest().len() > 0 ==> Some(r.rest()[0].uuid) == self.want().obj, vx_lists(r.rest(), self.vx_view()), //@C19
hint SpecificObject::iter ret
    proof {
        let s = vx_ret.rest(); let v = self.vx_view();
        assert(s.len() > 0 ==> v.dom().contains(s[0].uuid));
        assert forall|u: ObjectUuid| #[trigger] v.dom().contains(u) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).uuid == u by { assert(s[0].uuid == u); }
    }
fn SpecificObjectIter::next
    requires old(self).ok(), //@C19
    ensures final(self).ok(), r is Some <==> old(self).rest().len() > 0, r is Some ==> r->0.ok() && r->0.oid() == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1), //@C19
fn SpecificObjectIterEntry::key
    ensures r == self.vx_key(), //@C19
fn SpecificObjectIterEntry::object_id
    requires self.ok(), //@C19
    ensures r == self.oid(), //@C19
fn SpecificObjectIterEntry::service_id
    requires self.ok(), self.has(service), //@C19
    ensures r == self.sid(service), //@C19
fn SpecificObjectIterEntry::service_ids
    requires self.ok(), self is WithServices, services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.has(#[trigger] services.all()[i]), //@C19
    ensures r@.len() == services.all().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.sid(services.all()[i]), //@C19
post
    impl<Key: Copy> SpecificObject<Key> {
        pub open spec fn vx_key(self) -> Key { match self { SpecificObject::WithServices(x) => x.key, SpecificObject::WithoutServices(x) => x.key } }
        pub open spec fn want(self) -> VxWant { match self { SpecificObject::WithServices(x) => x.want(), SpecificObject::WithoutServices(x) => x.want() } }
        pub open spec fn vx_view(self) -> Map<ObjectUuid, ObjectCookie> { match self { SpecificObject::WithServices(x) => x.vx_view(), SpecificObject::WithoutServices(x) => x.vx_view() } }
        pub open spec fn rep(self, b: VxBus) -> bool { match self { SpecificObject::WithServices(x) => x.rep(b), SpecificObject::WithoutServices(x) => x.rep(b) } }
        pub open spec fn ok(self) -> bool { match self { SpecificObject::WithServices(x) => x.some_svc(), SpecificObject::WithoutServices(x) => true } }
        pub open spec fn full(self) -> bool { match self { SpecificObject::WithServices(x) => x.full(), SpecificObject::WithoutServices(x) => true } }
    }
fn SpecificObject::new
    requires services.wf(), services.pos() == 0, //@C19
    ensures r.vx_key() == key, r.want().obj == Some(object), r.rep(VxBus::empty()), r.ok(), //@C19
        forall|s: ServiceUuid| #[trigger] r.want().services.contains(s) <==> exists|i: int| 0 <= i < services.all().len() && services.all()[i] == s, //@C19
loop SpecificObject::new 0
    invariant vx_it0.wf(), vx_it0.all() == vx_i0.all(), vx_vec@.len() == vx_it0.pos(), forall|i: int| #![trigger vx_vec@[i]] #![trigger vx_i0.all()[i]] 0 <= i < vx_vec@.len() ==> vx_vec@[i].0 == vx_i0.all()[i] && vx_vec@[i].1 == None::<ServiceCookie>,
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint SpecificObject::new loop0.before
    let ghost vx_i0 = vx_it0; let ghost vx_t: Seq<(ServiceUuid, Option<ServiceCookie>)> = vx_vec@;
fn SpecificObject::add_filter
    requires old(listener).wf(), self.ok(), //@C19
    ensures final(listener).wf(), vx_same_counts(old(listener).events, final(listener).events), vx_over(final(listener).events) == vx_over(old(listener).events), //@C19
        r is Ok ==> forall|f: BusListenerFilter| #[trigger] final(listener).filters@.contains(f) <==> old(listener).filters@.contains(f) || self.want().filter(f), //@C19
fn SpecificObject::reset
    requires old(self).ok(), //@C19
    ensures final(self).vx_key() == old(self).vx_key(), final(self).want() =~= old(self).want(), final(self).rep(VxBus::empty()), final(self).ok(), //@C19
fn SpecificObject::key
    ensures r == self.vx_key(), //@C19
fn SpecificObject::object_id
    requires self.want().hit(object), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == (ObjectId { uuid: object, cookie: self.vx_view()[object] }), //@C19
fn SpecificObject::service_id
    requires self.want().hit(object), self.want().services.contains(service), self.full(), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == self->WithServices_0.sid(service), //@C19
fn SpecificObject::contains
    ensures r == self.vx_view().dom().contains(object), //@C19
fn SpecificObject::contains_any
    ensures r == exists|u: ObjectUuid| self.vx_view().dom().contains(u), //@C19
hint SpecificObject::contains_any start
    proof { match self { SpecificObject::WithServices(x) => { assert(self.vx_view() == x.vx_view()); } SpecificObject::WithoutServices(x) => { assert(self.vx_view() == x.vx_view()); } } }
fn SpecificObject::handle_event
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event) ==> final(self).rep(b.step(event)), //@C19
        final(self).ok() == old(self).ok(), final(self).vx_key() == old(self).vx_key(), final(self).want() =~= old(self).want(), vx_ev(old(self).vx_key(), old(self).vx_view(), final(self).vx_view(), r), //@C19
source aldrin/src/discoverer/entry.rs
only =DiscovererEntry DiscovererEntry EntryInner DiscovererEntryIter DiscovererIterEntry EntryIterInner IterEntryInner
skip DiscovererEntry::service_ids_n DiscovererEntryIter::size_hint DiscovererIterEntry::service_ids_n
attr DiscovererEntryIter #[verifier::reject_recursive_types(Key)]
attr EntryIterInner #[verifier::reject_recursive_types(Key)]
derive DiscovererIterEntry Clone, Copy
derive IterEntryInner Clone, Copy
keep impl Iterator for DiscovererEntryIter<'a,Key>
keep impl From<SpecificObject<Key>> for DiscovererEntry<Key>
keep impl From<AnyObject<Key>> for DiscovererEntry<Key>
keep impl From<SpecificObjectIter<'a,Key>> for DiscovererEntryIter<'a,Key>
keep impl From<AnyObjectIter<'a,Key>> for DiscovererEntryIter<'a,Key>
keep impl From<SpecificObjectIterEntry<'a,Key>> for DiscovererIterEntry<'a,Key>
keep impl From<AnyObjectIterEntry<'a,Key>> for DiscovererIterEntry<'a,Key>
inherent impl Iterator for DiscovererEntryIter<'a,Key>
implspec impl VxFrom<SpecificObjectIter<'a,Key>> for DiscovererEntryIter<'a,Key>
    open spec fn vx_made(t: SpecificObjectIter<'a, Key>, r: Self) -> bool { r.inner == EntryIterInner::Specific(t) }
implspec impl VxFrom<AnyObjectIter<'a,Key>> for DiscovererEntryIter<'a,Key>
    open spec fn vx_made(t: AnyObjectIter<'a, Key>, r: Self) -> bool { r.inner == EntryIterInner::Any(t) }
implspec impl VxFrom<SpecificObjectIterEntry<'a,Key>> for DiscovererIterEntry<'a,Key>
    open spec fn vx_made(t: SpecificObjectIterEntry<'a, Key>, r: Self) -> bool { r.inner == IterEntryInner::Specific(t) }
implspec impl VxFrom<AnyObjectIterEntry<'a,Key>> for DiscovererIterEntry<'a,Key>
    open spec fn vx_made(t: AnyObjectIterEntry<'a, Key>, r: Self) -> bool { r.inner == IterEntryInner::Any(t) }
post
    impl<'a, Key: Copy> DiscovererEntryIter<'a, Key> {
        pub open spec fn ok(self) -> bool { match self.inner { EntryIterInner::Specific(x) => x.ok(), EntryIterInner::Any(x) => x.ok() } }
        pub open spec fn rest(self) -> Seq<ObjectId> { match self.inner { EntryIterInner::Specific(x) => x.rest(), EntryIterInner::Any(x) => x.rest() } }
    }
    impl<'a, Key: Copy> DiscovererIterEntry<'a, Key> {
        pub open spec fn ok(self) -> bool { match self.inner { IterEntryInner::Specific(x) => x.ok(), IterEntryInner::Any(x) => x.ok() } }
        pub open spec fn oid(self) -> ObjectId { match self.inner { IterEntryInner::Specific(x) => x.oid(), IterEntryInner::Any(x) => x.object_id } }
        pub open spec fn vx_key(self) -> Key { match self.inner { IterEntryInner::Specific(x) => x.vx_key(), IterEntryInner::Any(x) => x.object.key } }
        pub open spec fn has(self, s: ServiceUuid) -> bool { match self.inner { IterEntryInner::Specific(x) => x.has(s), IterEntryInner::Any(x) => x.object.services@.dom().contains(s) } }
        pub open spec fn sid(self, s: ServiceUuid) -> ServiceId { match self.inner { IterEntryInner::Specific(x) => x.sid(s), IterEntryInner::Any(x) => x.object.sid(x.object_id.uuid, s) } }
    }
implspec impl VxFrom<SpecificObject<Key>> for DiscovererEntry<Key>
    open spec fn vx_made(t: SpecificObject<Key>, r: Self) -> bool { r.inner == EntryInner::Specific(t) }
implspec impl VxFrom<AnyObject<Key>> for DiscovererEntry<Key>
    open spec fn vx_made(t: AnyObject<Key>, r: Self) -> bool { r.inner == EntryInner::Any(t) }
post
    impl<Key: Copy> DiscovererEntry<Key> {
        pub open spec fn vx_key(self) -> Key { match self.inner { EntryInner::Specific(x) => x.vx_key(), EntryInner::Any(x) => x.key } }
        pub open spec fn want(self) -> VxWant { match self.inner { EntryInner::Specific(x) => x.want(), EntryInner::Any(x) => x.want() } }
        pub open spec fn vx_view(self) -> Map<ObjectUuid, ObjectCookie> { match self.inner { EntryInner::Specific(x) => x.vx_view(), EntryInner::Any(x) => x.vx_view() } }
        pub open spec fn rep(self, b: VxBus) -> bool { match self.inner { EntryInner::Specific(x) => x.rep(b), EntryInner::Any(x) => x.rep(b) } }
        pub open spec fn ok(self) -> bool { match self.inner { EntryInner::Specific(x) => x.ok(), EntryInner::Any(x) => true } }
        pub open spec fn full(self) -> bool { match self.inner { EntryInner::Specific(x) => x.full(), EntryInner::Any(x) => x.full() } }
        /// the id of a service of a reported object
        pub open spec fn sid(self, u: ObjectUuid, s: ServiceUuid) -> ServiceId {
            match self.inner { EntryInner::Specific(x) => x->WithServices_0.sid(s), EntryInner::Any(x) => x.sid(u, s) }
        }
    }
fn DiscovererEntry::add_filter
    requires old(listener).wf(), self.ok(), //@C19
    ensures final(listener).wf(), vx_same_counts(old(listener).events, final(listener).events), vx_over(final(listener).events) == vx_over(old(listener).events), //@C19
        r is Ok ==> forall|f: BusListenerFilter| #[trigger] final(listener).filters@.contains(f) <==> old(listener).filters@.contains(f) || self.want().filter(f), //@C19
fn DiscovererEntry::handle_event
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event) ==> final(self).rep(b.step(event)), //@C19
        final(self).ok() == old(self).ok(), final(self).vx_key() == old(self).vx_key(), final(self).want() =~= old(self).want(), vx_ev(old(self).vx_key(), old(self).vx_view(), final(self).vx_view(), r), //@C19
hint DiscovererEntry::handle_event start
    proof { let b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(event); match self.inner { EntryInner::Specific(ref x) => { assert(x.rep(b)); } EntryInner::Any(ref x) => { assert(x.rep(b)); } } }
fn DiscovererEntry::reset
    requires old(self).ok(), //@C19
    ensures final(self).vx_key() == old(self).vx_key(), final(self).want() =~= old(self).want(), final(self).rep(VxBus::empty()), final(self).ok(), //@C19
fn DiscovererEntry::key
    ensures r == self.vx_key(), //@C19
fn DiscovererEntry::object_id
    requires self.want().hit(object), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == (ObjectId { uuid: object, cookie: self.vx_view()[object] }), //@C19
fn DiscovererEntry::service_id
    requires self.want().hit(object), self.want().services.contains(service), self.full(), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == self.sid(object, service), //@C19
fn DiscovererEntry::contains
    ensures r == self.vx_view().dom().contains(object), //@C19
fn DiscovererEntry::contains_any
    ensures r == exists|u: ObjectUuid| self.vx_view().dom().contains(u), //@C19
hint DiscovererEntry::contains_any start
    proof { match self.inner { EntryInner::Specific(ref x) => { assert(self.vx_view() == x.vx_view()); } EntryInner::Any(ref x) => { assert(self.vx_view() == x.vx_view()); } } }
fn DiscovererEntry::service_ids
    requires self.want().hit(object), self.full(), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.want().services.contains(#[trigger] services.all()[i]), //@C19
    ensures services.all().len() > 0 ==> (r is Some <==> self.vx_view().dom().contains(object)), self.vx_view().dom().contains(object) ==> r is Some, //@C19
        r is Some ==> r->0@.len() == services.all().len() && forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]) == self.sid(object, services.all()[i]), //@C19
hint DiscovererEntry::service_ids start
    proof { assert(services.all().len() > 0 ==> self.want().services.contains(services.all()[0])); }
fn DiscovererEntry::iter
    requires self.full(), //@C19
    ensures r.ok(), vx_lists(r.rest(), self.vx_view()), //@C19
fn DiscovererEntryIter::next
    requires old(self).ok(), //@C19
    ensures final(self).ok(), r is Some <==> old(self).rest().len() > 0, r is Some ==> r->0.ok() && r->0.oid() == old(self).rest()[0] && final(self).rest() =~= old(self).rest().skip(1), //@C19
fn DiscovererIterEntry::key
    ensures r == self.vx_key(), //@C19
fn DiscovererIterEntry::object_id
    requires self.ok(), //@C19
    ensures r == self.oid(), //@C19
fn DiscovererIterEntry::service_id
    requires self.ok(), self.has(service), //@C19
    ensures r == self.sid(service), //@C19
fn DiscovererIterEntry::service_ids
    requires self.ok(), self.inner is Specific ==> self.inner->Specific_0 is WithServices, services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.has(#[trigger] services.all()[i]), //@C19
    ensures r@.len() == services.all().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.sid(services.all()[i]), //@C19
