source core/src/protocol_version.rs
only ProtocolVersion
derive ProtocolVersion Clone, Copy, PartialEq, Eq, Structural
fn ProtocolVersion::new
    ensures r.major == major, r.minor == minor, //@C13
fn ProtocolVersion::major
    ensures r == self.major, //@C13
fn ProtocolVersion::minor
    ensures r == self.minor, //@C13
const ProtocolVersion::V1_14
    ensures ProtocolVersion::V1_14.major == 1, ProtocolVersion::V1_14.minor == 14, //@C13
const ProtocolVersion::V1_15
    ensures ProtocolVersion::V1_15.major == 1, ProtocolVersion::V1_15.minor == 15, //@C13
const ProtocolVersion::V1_16
    ensures ProtocolVersion::V1_16.major == 1, ProtocolVersion::V1_16.minor == 16, //@C13
const ProtocolVersion::V1_17
    ensures ProtocolVersion::V1_17.major == 1, ProtocolVersion::V1_17.minor == 17, //@C13
const ProtocolVersion::V1_18
    ensures ProtocolVersion::V1_18.major == 1, ProtocolVersion::V1_18.minor == 18, //@C13
const ProtocolVersion::V1_19
    ensures ProtocolVersion::V1_19.major == 1, ProtocolVersion::V1_19.minor == 19, //@C13
const ProtocolVersion::V1_20
    ensures ProtocolVersion::V1_20.major == 1, ProtocolVersion::V1_20.minor == 20, //@C13
