source broker/src/acceptor.rs
only select_protocol_version
fn select_protocol_version
    ensures r is Some <==> (version.major == 1 && (if connect2 { version.minor >= 14 } else { version.minor == 14 })), //@C12
        r is Some ==> (r->0).major == 1 && (r->0).minor == (if version.minor < 20 { version.minor } else { 20 }), //@C12
