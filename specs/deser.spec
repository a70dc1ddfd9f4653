// Skipping and measuring values (C07)
source core/src/deserializer.rs
only =Deserializer Deserializer::new Deserializer::increment_depth Deserializer::len Deserializer::split_off_serialized_value Deserializer::peek_value_kind Deserializer::skip
fn Deserializer::new
    requires depth <= 32, //@C07
    ensures
        r is Ok <==> depth < 32, //@C07
        r is Ok ==> r->Ok_0.depth == depth + 1 && *r->Ok_0.buf == *old(buf) && *final(r->Ok_0.buf) == *final(buf), //@C07
fn Deserializer::increment_depth
    requires old(self).depth <= 32, //@C07
    ensures
        r is Ok <==> old(self).depth < 32, //@C07
        final(self).depth == old(self).depth + 1, *final(self).buf == *old(self).buf, *final(final(self).buf) == *final(old(self).buf), //@C07
fn Deserializer::len
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec(true, (*old(self.buf))@, self.depth as int) { None => r is Err, Some((v, t)) => r is Ok && r->Ok_0 == (*old(self.buf))@.len() - t.len() }, //@C07
hint Deserializer::len start
    proof { let s = (*old(self.buf))@; let d = self.depth as int; if dec(true, s, d) is Some { dec_fr(true, s, d, d, Seq::empty()); } }
fn Deserializer::split_off_serialized_value
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec(true, (*old(self.buf))@, self.depth as int) { None => r is Err, Some((v, t)) => r is Ok && (*final(self.buf))@ == t && r->Ok_0@ == pre((*old(self.buf))@, t) && dec(true, r->Ok_0@, 1) == Some((v, Seq::<u8>::empty())) }, //@C07
hint Deserializer::split_off_serialized_value start
    proof {
        let s = (*old(self.buf))@; let d = self.depth as int;
        if dec(true, s, d) is Some { dec_fr(true, s, d, 1, Seq::empty()); let t = dec(true, s, d)->Some_0.1; assert(s.skip(s.len() - t.len()) =~= t); assert(rep(s, t, Seq::empty()) =~= pre(s, t)); }
    }
fn Deserializer::peek_value_kind
    ensures
        r is Ok <==> gd::<ValueKind>((*old(self.buf))@) is Some, //@C07
        r is Ok ==> gd::<ValueKind>((*old(self.buf))@)->Some_0.0 == r->Ok_0, //@C07
hint Deserializer::skip start
    proof { let s = (*old(self.buf))@; if gd::<ValueKind>(s) is Some { let (k, t) = gd::<ValueKind>(s)->Some_0; let d = self.depth as int; assert(dec(true, s, d) == dec_k(true, k, t, d)); dec_deep(true, t, 33); assert(dec(true, t, d + 1) == dec(true, t, d + 1)); prim_skip(t); if shape_of(k) is Some && shape_of(k)->Some_0.0 is Set { let kt = shape_of(k)->Some_0.0->Set_0; set_flat2(true, kt, t, d, Seq::empty()); if gn(t) is Some { set_flat1(true, kt, gn(t)->Some_0.1, gn(t)->Some_0.0 as nat, d, Seq::empty()); } } gchunks_from(t, Seq::empty()); if gn(t) is Some { let (n, u) = gn(t)->Some_0; assert(gb(n as int, u) is Some ==> gb(n as int, u)->Some_0.1 == u.skip(n as int)) by { reveal(gb); } } } }
fn Deserializer::skip verifier::rlimit(100)
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec(true, (*old(self.buf))@, self.depth as int) { None => r is Err, Some((v, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 3nat,
source core/src/deserializer/vec.rs
only =Vec1Deserializer Vec1Deserializer::new_without_value_kind Vec1Deserializer::len Vec1Deserializer::is_empty Vec1Deserializer::skip_element Vec1Deserializer::skip =Vec2Deserializer Vec2Deserializer::new_without_value_kind Vec2Deserializer::skip_element Vec2Deserializer::skip
fn Vec1Deserializer::new_without_value_kind
    requires 1 <= depth <= 32, //@C07
    ensures r is Ok <==> gn((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.len, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf) && r->Ok_0.depth == depth, //@C07
fn Vec1Deserializer::is_empty
    ensures r == (self.len == 0), //@C07
fn Vec1Deserializer::len
    ensures r == self.len, //@C07
fn Vec1Deserializer::skip_element
    requires 1 <= old(self).depth <= 32, //@C07
    ensures
        *final(final(self).buf) == *final(old(self).buf), final(self).depth == old(self).depth, //@C07
        old(self).len == 0 ==> r is Ok && final(self).len == 0 && *final(self).buf == *old(self).buf, //@C07
        old(self).len > 0 ==> final(self).len == old(self).len - 1, //@C07
        old(self).len > 0 ==> match dec_e(true, Shape::Vec, (*old(self).buf)@, old(self).depth as int) { None => r is Err, Some((x, t)) => r is Ok && (*final(self).buf)@ == t }, //@C07
    decreases 64 - old(self).depth, 1nat,
fn Vec1Deserializer::skip
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec1(true, Shape::Vec, (*old(self.buf))@, self.len as nat, self.depth as int, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 2nat,
hint Vec1Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Vec1Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf), vx_self.depth == self.depth, 1 <= self.depth <= 32,
        dec1(true, Shape::Vec, (*vx_self.buf)@, vx_self.len as nat, self.depth as int, vx_acc) == dec1(true, Shape::Vec, (*old(self.buf))@, self.len as nat, self.depth as int, Seq::empty()),
    decreases vx_self.len,
hint Vec1Deserializer::skip loop0.start
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Vec, (*vx_self.buf)@, self.depth as int)->Some_0.0); }
fn Vec2Deserializer::new_without_value_kind
    requires 1 <= depth <= 32, //@C07
    ensures r is Ok, !r->Ok_0.empty, *r->Ok_0.buf == *old(buf), *final(r->Ok_0.buf) == *final(buf), r->Ok_0.depth == depth, //@C07
fn Vec2Deserializer::skip_element
    requires 1 <= old(self).depth <= 32, //@C07
    ensures
        *final(final(self).buf) == *final(old(self).buf), final(self).depth == old(self).depth, //@C07
        old(self).empty ==> r is Ok && final(self).empty && *final(self).buf == *old(self).buf, //@C07
        !old(self).empty ==> match gd::<ValueKind>((*old(self).buf)@) { //@C07
            Some((ValueKind::None, t)) => r is Ok && final(self).empty && (*final(self).buf)@ == t, //@C07
            Some((ValueKind::Some, t)) => match dec_e(true, Shape::Vec, t, old(self).depth as int) { None => r is Err, Some((x, u)) => r is Ok && !final(self).empty && (*final(self).buf)@ == u && u.len() < (*old(self).buf)@.len() }, //@C07
            _ => r is Err }, //@C07
    decreases 64 - old(self).depth, 1nat,
hint Vec2Deserializer::skip_element start
    proof {
        let s = (*old(self).buf)@;
        if gd::<ValueKind>(s) is Some { gd_fr::<ValueKind>(s, Seq::empty()); let t = gd::<ValueKind>(s)->Some_0.1; if dec_e(true, Shape::Vec, t, old(self).depth as int) is Some { dec_e_fr(true, Shape::Vec, t, old(self).depth as int, old(self).depth as int, Seq::empty()); } }
    }
fn Vec2Deserializer::skip
    requires 1 <= self.depth <= 32, !self.empty, //@C07
    ensures match dec2(true, Shape::Vec, (*old(self.buf))@, self.depth as int, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 2nat,
hint Vec2Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Vec2Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf), vx_self.depth == self.depth, 1 <= self.depth <= 32,
        (if vx_self.empty { Some((vx_acc, (*vx_self.buf)@)) } else { dec2(true, Shape::Vec, (*vx_self.buf)@, self.depth as int, vx_acc) }) == dec2(true, Shape::Vec, (*old(self.buf))@, self.depth as int, Seq::empty()),
    decreases (*vx_self.buf)@.len(), (if vx_self.empty { 0int } else { 1 }),
hint Vec2Deserializer::skip loop0.start
    proof { let s = (*vx_self.buf)@; step2(Shape::Vec, s, self.depth as int); if gd::<ValueKind>(s) is Some && gd::<ValueKind>(s)->Some_0.0 is Some { vx_acc = vx_acc.push(dec_e(true, Shape::Vec, gd::<ValueKind>(s)->Some_0.1, self.depth as int)->Some_0.0); } }
source core/src/deserializer/map.rs
only =Map1Deserializer Map1Deserializer::new_without_value_kind Map1Deserializer::len Map1Deserializer::is_empty Map1Deserializer::skip_element Map1Deserializer::skip =Map2Deserializer Map2Deserializer::new_without_value_kind Map2Deserializer::skip_element Map2Deserializer::skip
fn Map1Deserializer::new_without_value_kind
    requires 1 <= depth <= 32, //@C07
    ensures r is Ok <==> gn((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.len, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf) && r->Ok_0.depth == depth, //@C07
fn Map1Deserializer::is_empty
    ensures r == (self.len == 0), //@C07
fn Map1Deserializer::len
    ensures r == self.len, //@C07
fn Map1Deserializer::skip_element
    requires 1 <= old(self).depth <= 32, //@C07
    ensures
        *final(final(self).buf) == *final(old(self).buf), final(self).depth == old(self).depth, //@C07
        old(self).len == 0 ==> r is Ok && final(self).len == 0 && *final(self).buf == *old(self).buf, //@C07
        old(self).len > 0 ==> final(self).len == old(self).len - 1, //@C07
        old(self).len > 0 ==> match dec_e(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self).buf)@, old(self).depth as int) { None => r is Err, Some((x, t)) => r is Ok && (*final(self).buf)@ == t }, //@C07
    decreases 64 - old(self).depth, 1nat,
fn Map1Deserializer::skip
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec1(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, self.len as nat, self.depth as int, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 2nat,
hint Map1Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Map1Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf), vx_self.depth == self.depth, 1 <= self.depth <= 32,
        dec1(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*vx_self.buf)@, vx_self.len as nat, self.depth as int, vx_acc) == dec1(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, self.len as nat, self.depth as int, Seq::empty()),
    decreases vx_self.len,
hint Map1Deserializer::skip loop0.start
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*vx_self.buf)@, self.depth as int)->Some_0.0); }
fn Map2Deserializer::new_without_value_kind
    requires 1 <= depth <= 32, //@C07
    ensures r is Ok, !r->Ok_0.empty, *r->Ok_0.buf == *old(buf), *final(r->Ok_0.buf) == *final(buf), r->Ok_0.depth == depth, //@C07
fn Map2Deserializer::skip_element
    requires 1 <= old(self).depth <= 32, //@C07
    ensures
        *final(final(self).buf) == *final(old(self).buf), final(self).depth == old(self).depth, //@C07
        old(self).empty ==> r is Ok && final(self).empty && *final(self).buf == *old(self).buf, //@C07
        !old(self).empty ==> match gd::<ValueKind>((*old(self).buf)@) { //@C07
            Some((ValueKind::None, t)) => r is Ok && final(self).empty && (*final(self).buf)@ == t, //@C07
            Some((ValueKind::Some, t)) => match dec_e(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), t, old(self).depth as int) { None => r is Err, Some((x, u)) => r is Ok && !final(self).empty && (*final(self).buf)@ == u && u.len() < (*old(self).buf)@.len() }, //@C07
            _ => r is Err }, //@C07
    decreases 64 - old(self).depth, 1nat,
hint Map2Deserializer::skip_element start
    proof {
        let s = (*old(self).buf)@;
        if gd::<ValueKind>(s) is Some { gd_fr::<ValueKind>(s, Seq::empty()); let t = gd::<ValueKind>(s)->Some_0.1; if dec_e(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), t, old(self).depth as int) is Some { dec_e_fr(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), t, old(self).depth as int, old(self).depth as int, Seq::empty()); } }
    }
fn Map2Deserializer::skip
    requires 1 <= self.depth <= 32, !self.empty, //@C07
    ensures match dec2(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, self.depth as int, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 2nat,
hint Map2Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Map2Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf), vx_self.depth == self.depth, 1 <= self.depth <= 32,
        (if vx_self.empty { Some((vx_acc, (*vx_self.buf)@)) } else { dec2(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*vx_self.buf)@, self.depth as int, vx_acc) }) == dec2(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, self.depth as int, Seq::empty()),
    decreases (*vx_self.buf)@.len(), (if vx_self.empty { 0int } else { 1 }),
hint Map2Deserializer::skip loop0.start
    proof { let s = (*vx_self.buf)@; step2(Shape::Map(<K::Impl as KeyTagImpl>::kt()), s, self.depth as int); if gd::<ValueKind>(s) is Some && gd::<ValueKind>(s)->Some_0.0 is Some { vx_acc = vx_acc.push(dec_e(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), gd::<ValueKind>(s)->Some_0.1, self.depth as int)->Some_0.0); } }
source core/src/deserializer/set.rs
only =Set1Deserializer Set1Deserializer::new_without_value_kind Set1Deserializer::len Set1Deserializer::is_empty Set1Deserializer::skip_element Set1Deserializer::skip =Set2Deserializer Set2Deserializer::new_without_value_kind Set2Deserializer::skip_element Set2Deserializer::skip
fn Set1Deserializer::new_without_value_kind
    ensures r is Ok <==> gn((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.len, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf), //@C07
fn Set1Deserializer::is_empty
    ensures r == (self.len == 0), //@C07
fn Set1Deserializer::len
    ensures r == self.len, //@C07
fn Set1Deserializer::skip_element
    ensures
        *final(final(self).buf) == *final(old(self).buf), //@C07
        old(self).len == 0 ==> r is Ok && final(self).len == 0 && *final(self).buf == *old(self).buf, //@C07
        old(self).len > 0 ==> final(self).len == old(self).len - 1, //@C07
        old(self).len > 0 ==> match dec_e(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self).buf)@, 1) { None => r is Err, Some((x, t)) => r is Ok && (*final(self).buf)@ == t }, //@C07
fn Set1Deserializer::skip
    ensures match dec1(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, self.len as nat, 1, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
hint Set1Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Set1Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf),
        dec1(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*vx_self.buf)@, vx_self.len as nat, 1, vx_acc) == dec1(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, self.len as nat, 1, Seq::empty()),
    decreases vx_self.len,
hint Set1Deserializer::skip loop0.start
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*vx_self.buf)@, 1)->Some_0.0); }
fn Set2Deserializer::new_without_value_kind
    ensures r is Ok, !r->Ok_0.empty, *r->Ok_0.buf == *old(buf), *final(r->Ok_0.buf) == *final(buf), //@C07
fn Set2Deserializer::skip_element
    ensures
        *final(final(self).buf) == *final(old(self).buf), //@C07
        old(self).empty ==> r is Ok && final(self).empty && *final(self).buf == *old(self).buf, //@C07
        !old(self).empty ==> match gd::<ValueKind>((*old(self).buf)@) { //@C07
            Some((ValueKind::None, t)) => r is Ok && final(self).empty && (*final(self).buf)@ == t, //@C07
            Some((ValueKind::Some, t)) => match dec_e(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), t, 1) { None => r is Err, Some((x, u)) => r is Ok && !final(self).empty && (*final(self).buf)@ == u && u.len() < (*old(self).buf)@.len() }, //@C07
            _ => r is Err }, //@C07
hint Set2Deserializer::skip_element start
    proof {
        let s = (*old(self).buf)@;
        if gd::<ValueKind>(s) is Some { gd_fr::<ValueKind>(s, Seq::empty()); let t = gd::<ValueKind>(s)->Some_0.1; if dec_e(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), t, 1) is Some { dec_e_fr(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), t, 1, 1, Seq::empty()); } }
    }
fn Set2Deserializer::skip
    requires !self.empty, //@C07
    ensures match dec2(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, 1, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
hint Set2Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Set2Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf),
        (if vx_self.empty { Some((vx_acc, (*vx_self.buf)@)) } else { dec2(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*vx_self.buf)@, 1, vx_acc) }) == dec2(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, 1, Seq::empty()),
    decreases (*vx_self.buf)@.len(), (if vx_self.empty { 0int } else { 1 }),
hint Set2Deserializer::skip loop0.start
    proof { let s = (*vx_self.buf)@; step2(Shape::Set(<K::Impl as KeyTagImpl>::kt()), s, 1); if gd::<ValueKind>(s) is Some && gd::<ValueKind>(s)->Some_0.0 is Some { vx_acc = vx_acc.push(dec_e(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), gd::<ValueKind>(s)->Some_0.1, 1)->Some_0.0); } }
source core/src/deserializer/bytes.rs
only =Bytes1Deserializer =Bytes2Deserializer Bytes1Deserializer::new_without_value_kind Bytes1Deserializer::len Bytes1Deserializer::is_empty Bytes1Deserializer::as_slice Bytes1Deserializer::advance Bytes1Deserializer::skip Bytes2Deserializer::new_without_value_kind Bytes2Deserializer::as_slice Bytes2Deserializer::advance Bytes2Deserializer::skip
fn Bytes1Deserializer::new_without_value_kind
    ensures
        r is Ok <==> gs((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.len, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf) && r->Ok_0.wf(), //@C07
hint Bytes1Deserializer::new_without_value_kind start
    proof { reveal(gb); }
fn Bytes1Deserializer::len
    ensures r == self.len, //@C07
fn Bytes1Deserializer::is_empty
    ensures r == (self.len == 0), //@C07
fn Bytes1Deserializer::as_slice
    requires self.wf(), //@C07
    ensures r is Ok, r->Ok_0@ == (*old(self.buf))@.take(self.len as int), //@C07
fn Bytes1Deserializer::advance
    requires old(self).wf(), //@C07
    ensures
        *final(final(self).buf) == *final(old(self).buf), final(self).wf(), //@C07
        r is Ok <==> cnt <= old(self).len, //@C07
        r is Ok ==> final(self).len == old(self).len - cnt && (*final(self).buf)@ == (*old(self).buf)@.skip(cnt as int), //@C07
hint Bytes1Deserializer::advance start
    proof { reveal(gb); }
fn Bytes1Deserializer::skip
    requires self.wf(), //@C07
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@.skip(self.len as int), //@C07
implspec impl Bytes1Deserializer
    /// the announced bytes are there
    pub open spec fn wf(&self) -> bool { self.len <= (*self.buf)@.len() }
implspec impl Bytes2Deserializer
    /// what the remaining chunks hold and what follows them
    pub open spec fn gets(&self) -> Option<(Seq<u8>, Seq<u8>)> { chunks_from(self.len as int, (*self.buf)@, Seq::empty()) }
fn Bytes2Deserializer::new_without_value_kind
    ensures
        r is Ok <==> gn((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.len as u32, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf) && r->Ok_0.len <= u32::MAX, //@C07
fn Bytes2Deserializer::as_slice
    ensures
        r is Ok <==> gb(self.len as int, (*old(self.buf))@) is Some, //@C07
        r is Ok ==> r->Ok_0@ == gb(self.len as int, (*old(self.buf))@)->Some_0.0, //@C07
hint Bytes2Deserializer::as_slice start
    proof { reveal(gb); }
fn Bytes2Deserializer::advance
    ensures
        *final(final(self).buf) == *final(old(self).buf), //@C07
        old(self).len < cnt ==> r is Err, //@C07
        old(self).len == 0 && cnt == 0 ==> r is Ok && final(self).len == 0 && *final(self).buf == *old(self).buf, //@C07
        0 < old(self).len && cnt < old(self).len ==> match gb(cnt as int, (*old(self).buf)@) { None => r is Err, Some((x, t)) => r is Ok && final(self).len == old(self).len - cnt && (*final(self).buf)@ == t }, //@C07
        0 < old(self).len == cnt ==> match gb(cnt as int, (*old(self).buf)@) { None => r is Err, Some((x, t)) => match gn(t) { None => r is Err, Some((n, u)) => r is Ok && final(self).len == n && (*final(self).buf)@ == u } }, //@C07
fn Bytes2Deserializer::skip
    ensures match chunks_from(self.len as int, (*old(self.buf))@, Seq::empty()) { None => r is Err, Some((x, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
hint Bytes2Deserializer::skip start
    let ghost mut vx_acc = Seq::<u8>::empty();
loop Bytes2Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf),
        chunks_from(vx_self.len as int, (*vx_self.buf)@, vx_acc) == chunks_from(self.len as int, (*old(self.buf))@, Seq::empty()),
    decreases (*vx_self.buf)@.len(),
hint Bytes2Deserializer::skip loop0.start
    proof {
        let s = (*vx_self.buf)@; let n = vx_self.len as int;
        if gb(n, s) is Some { gb_fr(n, s, Seq::empty()); let (x, t) = gb(n, s)->Some_0; if gn(t) is Some { gn_fr(t, Seq::empty()); gchunks_from(t, vx_acc + x); } vx_acc = vx_acc + x; }
    }
source core/src/deserializer/struct_.rs
only =Struct1Deserializer =Struct2Deserializer =FieldDeserializer Struct1Deserializer::new_without_value_kind Struct1Deserializer::len Struct1Deserializer::is_empty Struct1Deserializer::deserialize Struct1Deserializer::skip Struct2Deserializer::new_without_value_kind Struct2Deserializer::deserialize Struct2Deserializer::skip FieldDeserializer::new FieldDeserializer::id FieldDeserializer::skip
fn FieldDeserializer::new
    requires 1 <= depth <= 32, //@C07
    ensures
        r is Ok <==> gn((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.id, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf) && r->Ok_0.depth == depth, //@C07
fn FieldDeserializer::id
    ensures r == self.id, //@C07
fn FieldDeserializer::skip
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec(true, (*old(self.buf))@, self.depth + 1) { None => r is Err, Some((v, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 1nat,
fn Struct1Deserializer::new_without_value_kind
    requires 1 <= depth <= 32, //@C07
    ensures
        r is Ok <==> gn((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.len, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf) && r->Ok_0.depth == depth, //@C07
fn Struct1Deserializer::len
    ensures r == self.len, //@C07
fn Struct1Deserializer::is_empty
    ensures r == (self.len == 0), //@C07
fn Struct1Deserializer::deserialize
    requires 1 <= old(self).depth <= 32, //@C07
    ensures
        *final(final(self).buf) == *final(old(self).buf), final(self).depth == old(self).depth, //@C07
        old(self).len == 0 ==> r == Ok::<Option<FieldDeserializer>, DeserializeError>(None) && final(self).len == 0 && *final(self).buf == *old(self).buf, //@C07
        old(self).len > 0 ==> final(self).len == old(self).len - 1, //@C07
        old(self).len > 0 ==> match gn((*old(self).buf)@) { None => r is Err, Some((id, t)) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.id == id && r->Ok_0->Some_0.depth == old(self).depth //@C07
            && (*r->Ok_0->Some_0.buf)@ == t && *final(r->Ok_0->Some_0.buf) == *final(self).buf }, //@C07
fn Struct1Deserializer::skip
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec1(true, Shape::Struct, (*old(self.buf))@, self.len as nat, self.depth as int, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 2nat,
hint Struct1Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Struct1Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf), vx_self.depth == self.depth, 1 <= self.depth <= 32,
        dec1(true, Shape::Struct, (*vx_self.buf)@, vx_self.len as nat, self.depth as int, vx_acc) == dec1(true, Shape::Struct, (*old(self.buf))@, self.len as nat, self.depth as int, Seq::empty()),
    ensures
        vx_self.len == 0,
    decreases vx_self.len,
hint Struct1Deserializer::skip loop0.start
    proof { if vx_self.len > 0 { vx_acc = vx_acc.push(dec_e(true, Shape::Struct, (*vx_self.buf)@, self.depth as int)->Some_0.0); } }
fn Struct2Deserializer::new_without_value_kind
    requires 1 <= depth <= 32, //@C07
    ensures r is Ok, !r->Ok_0.empty, *r->Ok_0.buf == *old(buf), *final(r->Ok_0.buf) == *final(buf), r->Ok_0.depth == depth, //@C07
fn Struct2Deserializer::deserialize
    requires 1 <= old(self).depth <= 32, //@C07
    ensures
        *final(final(self).buf) == *final(old(self).buf), final(self).depth == old(self).depth, //@C07
        old(self).empty ==> r == Ok::<Option<FieldDeserializer>, DeserializeError>(None) && final(self).empty && *final(self).buf == *old(self).buf, //@C07
        !old(self).empty ==> match gd::<ValueKind>((*old(self).buf)@) { //@C07
            Some((ValueKind::None, t)) => r == Ok::<Option<FieldDeserializer>, DeserializeError>(None) && final(self).empty && (*final(self).buf)@ == t, //@C07
            Some((ValueKind::Some, s)) => match gn(s) { None => r is Err, Some((id, t)) => r is Ok && !final(self).empty && r->Ok_0 is Some && r->Ok_0->Some_0.id == id && r->Ok_0->Some_0.depth == old(self).depth //@C07
                && (*r->Ok_0->Some_0.buf)@ == t && *final(r->Ok_0->Some_0.buf) == *final(self).buf }, //@C07
            _ => r is Err }, //@C07
fn Struct2Deserializer::skip
    requires 1 <= self.depth <= 32, !self.empty, //@C07
    ensures match dec2(true, Shape::Struct, (*old(self.buf))@, self.depth as int, Seq::empty()) { None => r is Err, Some((l, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 2nat,
hint Struct2Deserializer::skip start
    let ghost mut vx_acc = Seq::<Ent>::empty();
loop Struct2Deserializer::skip 0
    invariant
        *final(vx_self.buf) == *final(self.buf), vx_self.depth == self.depth, 1 <= self.depth <= 32,
        (if vx_self.empty { Some((vx_acc, (*vx_self.buf)@)) } else { dec2(true, Shape::Struct, (*vx_self.buf)@, self.depth as int, vx_acc) }) == dec2(true, Shape::Struct, (*old(self.buf))@, self.depth as int, Seq::empty()),
    ensures
        vx_self.empty,
    decreases (*vx_self.buf)@.len(), (if vx_self.empty { 0int } else { 1 }),
hint Struct2Deserializer::skip loop0.start
    proof { step2(Shape::Struct, (*vx_self.buf)@, self.depth as int); let s = (*vx_self.buf)@; if !vx_self.empty && gd::<ValueKind>(s) is Some && gd::<ValueKind>(s)->Some_0.0 is Some { vx_acc = vx_acc.push(dec_e(true, Shape::Struct, gd::<ValueKind>(s)->Some_0.1, self.depth as int)->Some_0.0); } }
source core/src/deserializer/enum_.rs
only =EnumDeserializer EnumDeserializer::new_without_value_kind EnumDeserializer::id EnumDeserializer::skip
fn EnumDeserializer::new_without_value_kind
    requires 1 <= depth <= 32, //@C07
    ensures
        r is Ok <==> gn((*old(buf))@) is Some, //@C07
        r is Ok ==> gn((*old(buf))@) == Some((r->Ok_0.id, (*r->Ok_0.buf)@)) && *final(r->Ok_0.buf) == *final(buf) && r->Ok_0.depth == depth, //@C07
fn EnumDeserializer::id
    ensures r == self.id, //@C07
fn EnumDeserializer::skip
    requires 1 <= self.depth <= 32, //@C07
    ensures match dec(true, (*old(self.buf))@, self.depth + 1) { None => r is Err, Some((v, t)) => r is Ok && (*final(self.buf))@ == t }, //@C07
    decreases 64 - self.depth, 1nat,
