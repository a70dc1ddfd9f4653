// ---- assumed: connection ids are compared by identity (broker/src/conn_id.rs: PartialEq on the id)
#[derive(PartialEq, Eq, Structural)]
pub struct ConnectionId { pub id: u64 }
impl Clone for ConnectionId {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
