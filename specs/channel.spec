// Contracts of broker/src/broker/channel.rs (C05, C11)
source broker/src/broker/channel.rs
post
    impl ChannelEndState {
        pub open spec fn owned_by(self, c: ConnectionId) -> bool { self is Claimed && self->owner == c }
    }
    impl Channel {
        pub open spec fn end(self, e: ChannelEnd) -> ChannelEndState { match e { ChannelEnd::Sender => self.sender, ChannelEnd::Receiver => self.receiver } }
        pub open spec fn other_end(self, e: ChannelEnd) -> ChannelEndState { match e { ChannelEnd::Sender => self.receiver, ChannelEnd::Receiver => self.sender } }
        /// credit announced to the sender never exceeds what the receiver granted, and a sender
        /// that is low on credit has been told about all of it
        pub open spec fn wf(self) -> bool {
            &&& (self.sender is Claimed || self.receiver is Claimed)
            &&& (self.sender is Claimed && self.receiver is Claimed ==> {
                    &&& self.sender->capacity <= self.receiver->capacity
                    &&& (self.sender->capacity == 0 ==> self.receiver->capacity == 0)
                    &&& (self.sender->capacity <= LOW_CAPACITY ==> self.sender->capacity == self.receiver->capacity)
                })
        }
    }
    proof fn vx_reach_channel(c: Channel)
        requires c.sender == (ChannelEndState::Claimed { owner: ConnectionId { id: 1 }, capacity: 7 }),
            c.receiver == (ChannelEndState::Claimed { owner: ConnectionId { id: 2 }, capacity: 9 }), LOW_CAPACITY == 4,
        ensures c.wf() {}
fn Channel::with_claimed_sender
    ensures
        r.sender == (ChannelEndState::Claimed { owner, capacity: 0 }), r.receiver is Unclaimed, //@C05
        r.wf(), //@C05,C11
fn Channel::with_claimed_receiver
    ensures
        r.receiver == (ChannelEndState::Claimed { owner, capacity }), r.sender is Unclaimed, //@C05
        r.wf(), //@C05,C11
fn Channel::check_close
    ensures
        (r.0 is Ok) <==> (self.end(end) is Unclaimed || self.end(end).owned_by(*conn_id)), //@C05
        (r.0 is ForeignChannel) <==> (self.end(end) is Claimed && self.end(end)->owner != *conn_id), //@C05
        (r.0 is InvalidChannel) <==> (self.end(end) is Closed), //@C05
        r.1 == (self.end(end) is Claimed), //@C05
fn Channel::close
    requires
        // callers must never close an end twice, nor an end of a channel without owner
        !(old(self).end(end) is Closed), //@C11
        old(self).wf(), //@C11
    ensures
        final(self).end(end) is Closed, //@C05
        final(self).other_end(end) == old(self).other_end(end), //@C05
        // the peer is told iff it still holds the other end; otherwise the channel ceases to exist
        r is Some <==> old(self).other_end(end) is Claimed, //@C05
        r is Some ==> *r->0 == old(self).other_end(end)->owner && final(self).wf(), //@C05
fn Channel::claim_sender
    requires old(self).wf(), //@C11
    ensures
        (r is Ok) <==> (old(self).sender is Unclaimed), //@C05
        (old(self).sender is Claimed) ==> r == Err::<(&ConnectionId, u32), ClaimChannelEndResult>(ClaimChannelEndResult::AlreadyClaimed), //@C05
        (old(self).sender is Closed) ==> r == Err::<(&ConnectionId, u32), ClaimChannelEndResult>(ClaimChannelEndResult::InvalidChannel), //@C05
        r is Ok ==> final(self).sender == (ChannelEndState::Claimed { owner: *conn_id, capacity: r->Ok_0.1 }), //@C05
        r is Ok ==> old(self).receiver.owned_by(*r->Ok_0.0) && r->Ok_0.1 == old(self).receiver->capacity, //@C05
        r is Err ==> final(self).sender == old(self).sender, //@C05
        final(self).receiver == old(self).receiver, //@C05
        final(self).wf(), //@C05,C11
fn Channel::claim_receiver
    requires old(self).wf(), //@C11
    ensures
        (r is Ok) <==> (old(self).receiver is Unclaimed), //@C05
        (old(self).receiver is Claimed) ==> r == Err::<&ConnectionId, ClaimChannelEndResult>(ClaimChannelEndResult::AlreadyClaimed), //@C05
        (old(self).receiver is Closed) ==> r == Err::<&ConnectionId, ClaimChannelEndResult>(ClaimChannelEndResult::InvalidChannel), //@C05
        r is Ok ==> final(self).receiver == (ChannelEndState::Claimed { owner: *conn_id, capacity }), //@C05
        r is Ok ==> old(self).sender.owned_by(*r->Ok_0), //@C05
        r is Ok ==> final(self).sender == (ChannelEndState::Claimed { owner: old(self).sender->owner, capacity }), //@C05
        r is Err ==> *final(self) == *old(self), //@C05
        final(self).wf(), //@C05,C11
fn Channel::send_item
    requires old(self).wf(), //@C11
    ensures
        final(self).wf(), //@C05,C11
        (r == Err::<(&ConnectionId, Option<u32>), SendItemError>(SendItemError::InvalidSender)) <==> !old(self).sender.owned_by(*conn_id), //@C05
        (r == Err::<(&ConnectionId, Option<u32>), SendItemError>(SendItemError::ReceiverUnclaimed)) <==> (old(self).sender.owned_by(*conn_id) && old(self).receiver is Unclaimed), //@C05
        (r == Err::<(&ConnectionId, Option<u32>), SendItemError>(SendItemError::ReceiverClosed)) <==> (old(self).sender.owned_by(*conn_id) && old(self).receiver is Closed), //@C05
        // cut off only beyond the announced capacity
        (r == Err::<(&ConnectionId, Option<u32>), SendItemError>(SendItemError::CapacityExhausted)) <==> (old(self).sender.owned_by(*conn_id) && old(self).receiver is Claimed && old(self).sender->capacity == 0), //@C05
        r is Err ==> *final(self) == *old(self), //@C05
        // an item is forwarded to the receiver's owner only against a granted credit, which is used up
        r is Ok ==> old(self).receiver.owned_by(*r->Ok_0.0) && old(self).receiver->capacity > 0, //@C05
        r is Ok ==> final(self).receiver == (ChannelEndState::Claimed { owner: old(self).receiver->owner, capacity: (old(self).receiver->capacity - 1) as u32 }), //@C05
        // what the sender may still send is exactly what has been announced to it
        r is Ok ==> final(self).sender.owned_by(*conn_id) && final(self).sender->capacity as int == old(self).sender->capacity - 1 + (if r->Ok_0.1 is Some { r->Ok_0.1->0 as int } else { 0 }), //@C05
        r is Ok && r->Ok_0.1 is Some ==> r->Ok_0.1->0 > 0, //@C05
fn Channel::add_capacity
    requires old(self).wf(), //@C11
    ensures
        final(self).wf(), //@C05,C11
        !(capacity > 0 && old(self).receiver.owned_by(*conn_id)) ==> (r == Ok::<Option<(&ConnectionId, u32)>, AddCapacityError>(None) && *final(self) == *old(self)), //@C05
        (r is Err) <==> (old(self).receiver.owned_by(*conn_id) && old(self).receiver->capacity + capacity > u32::MAX), //@C05
        r is Err ==> *final(self) == *old(self), //@C05
        (r is Ok && old(self).receiver.owned_by(*conn_id)) ==> final(self).receiver == (ChannelEndState::Claimed { owner: *conn_id, capacity: (old(self).receiver->capacity + capacity) as u32 }), //@C05
        // announcements reach the sender's owner and nobody else, and match the recorded credit
        r is Ok && r->Ok_0 is Some ==> old(self).sender.owned_by(*(r->Ok_0->0).0) && (r->Ok_0->0).1 > 0, //@C05
        r is Ok && r->Ok_0 is Some ==> final(self).sender == (ChannelEndState::Claimed { owner: old(self).sender->owner, capacity: (old(self).sender->capacity + (r->Ok_0->0).1) as u32 }) && old(self).sender->capacity + (r->Ok_0->0).1 <= u32::MAX, //@C05
        r is Ok && r->Ok_0 is None ==> final(self).sender == old(self).sender, //@C05
