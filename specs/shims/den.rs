// ---- what a value means: maps and sets without an order, the last entry of a key counts
pub enum D { Prim(V), Some(Box<D>), Enum(u32, Box<D>), Vec(Seq<D>), Map(Shape, Map<Key, D>), Set(KT, Set<Key>) }
/// the key an entry stands for
pub open spec fn hkey(h: Head) -> Key { match h { Head::Unit => Key::U8(0), Head::Id(n) => Key::U32(n), Head::Key(k) => k } }
pub open spec fn den(v: V) -> D
    decreases v, 0nat
{ match v {
    V::Some(b) => D::Some(Box::new(den(*b))),
    V::Enum(n, b) => D::Enum(n, Box::new(den(*b))),
    V::List(sh, l) => match sh { Shape::Vec => D::Vec(den_s(l)), Shape::Set(kt) => D::Set(kt, den_k(l)), _ => D::Map(sh, den_m(l)) },
    _ => D::Prim(v) } }
pub open spec fn den_s(l: Seq<Ent>) -> Seq<D>
    decreases l, l.len()
{ if l.len() == 0 { Seq::empty() } else { den_s(l.take(l.len() - 1)).push(den(l[l.len() - 1].v)) } }
pub open spec fn den_m(l: Seq<Ent>) -> Map<Key, D>
    decreases l, l.len()
{ if l.len() == 0 { Map::empty() } else { den_m(l.take(l.len() - 1)).insert(hkey(l[l.len() - 1].h), den(l[l.len() - 1].v)) } }
pub open spec fn den_k(l: Seq<Ent>) -> Set<Key>
    decreases l, l.len()
{ if l.len() == 0 { Set::empty() } else { den_k(l.take(l.len() - 1)).insert(hkey(l[l.len() - 1].h)) } }
pub proof fn den_push(l: Seq<Ent>, x: Ent)
    ensures den_s(l.push(x)) == den_s(l).push(den(x.v)), den_m(l.push(x)) == den_m(l).insert(hkey(x.h), den(x.v)), den_k(l.push(x)) == den_k(l).insert(hkey(x.h)),
{ let m = l.push(x); assert(m.take(m.len() - 1) =~= l); }
/// its strings and keys are UTF-8
pub open spec fn utf8_v(v: V) -> bool
    decreases v
{ match v {
    V::Some(b) => utf8_v(*b),
    V::Enum(n, b) => utf8_v(*b),
    V::Str(b) => utf8(b),
    V::List(sh, l) => forall|i: int| 0 <= i < l.len() ==> utf8_h((#[trigger] l[i]).h) && utf8_v(l[i].v),
    _ => true } }
pub open spec fn utf8_h(h: Head) -> bool { h is Key ==> utf8_key(h->Key_0) }
