// data types of aldrin-core (only the fields; ids compare by value)
text
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub struct Uuid { pub v: u128 }
source core/src/ids/object_uuid.rs
only =ObjectUuid
derive ObjectUuid Clone, Copy, PartialEq, Eq, Structural
source core/src/ids/object_cookie.rs
only =ObjectCookie
derive ObjectCookie Clone, Copy, PartialEq, Eq, Structural
source core/src/ids/service_uuid.rs
only =ServiceUuid
derive ServiceUuid Clone, Copy, PartialEq, Eq, Structural
source core/src/ids/service_cookie.rs
only =ServiceCookie
derive ServiceCookie Clone, Copy, PartialEq, Eq, Structural
source core/src/ids/channel_cookie.rs
only =ChannelCookie
derive ChannelCookie Clone, Copy, PartialEq, Eq, Structural
source core/src/ids/bus_listener_cookie.rs
only =BusListenerCookie
derive BusListenerCookie Clone, Copy, PartialEq, Eq, Structural
source core/src/ids/object_id.rs
only =ObjectId ObjectId::new
derive ObjectId Clone, Copy, PartialEq, Eq, Structural
source core/src/ids/service_id.rs
only =ServiceId ServiceId::new
derive ServiceId Clone, Copy, PartialEq, Eq, Structural
fn ObjectId::new
    ensures r.uuid == uuid, r.cookie == cookie, //@C03,C10
fn ServiceId::new
    ensures r.object_id == object_id, r.uuid == uuid, r.cookie == cookie, //@C03,C10
