// Contracts of broker/src/serial_map.rs: serials of pending calls and queries are unique (C02)
source broker/src/serial_map.rs
attr SerialMap #[verifier::reject_recursive_types(T)]
post
    impl<T> SerialMap<T> { pub open spec fn m(self) -> Map<u32, T> { self.elems@ } }
fn SerialMap::new
    ensures r.m() == Map::<u32, T>::empty(), //@C02
fn SerialMap::insert verifier::exec_allows_no_decreases_clause
    ensures !old(self).m().dom().contains(r), final(self).m() == old(self).m().insert(r, obj), //@C02
loop SerialMap::insert 0
    invariant self.m() == old(self).m(),
fn SerialMap::get_mut
    ensures
        r is Some <==> old(self).m().dom().contains(serial), //@C02
        r is Some ==> *r->0 == old(self).m()[serial] && final(self).m() == old(self).m().insert(serial, *final(r->0)), //@C02
        r is None ==> *final(self) == *old(self), //@C02
fn SerialMap::remove
    ensures final(self).m() == old(self).m().remove(serial), r is Some <==> old(self).m().dom().contains(serial), r is Some ==> r->0 == old(self).m()[serial], //@C02
fn SerialMap::is_empty
    ensures r == (self.m().dom() =~= Set::<u32>::empty()), //@C02,C09
fn SerialMap::entry
    ensures
        r is Some <==> old(self).m().dom().contains(serial), //@C02
        r is Some ==> (r->0).k == serial && (*(r->0).m)@ == old(self).m() && final(self).m() == (*final((r->0).m))@, //@C02
        r is None ==> *final(self) == *old(self), //@C02
