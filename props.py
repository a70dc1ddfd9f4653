"""What each check runs: Verus units (specs/<unit>.vu) and bounded companions (harness/)."""


def sim(quick=20, thorough=300):
    return {'name': 'broker-sim', 'cmd': ['broker'], 'quick': quick, 'thorough': thorough,
            'bound': 'generated histories of at most 150 operations and 5 simultaneous connections against the real Broker, every delivered message compared with a sequential reference model'}


HS = {'name': 'handshakes', 'cmd': ['handshake'], 'quick': 5, 'thorough': 5,
      'bound': 'majors {0,1,2,3,14,20,257,2^32-1} x minors {0..63, 12 larger}, legacy and new connect message, against the real Acceptor'}

STREAM = {'name': 'stream', 'cmd': ['stream'], 'quick': 20, 'thorough': 300,
          'bound': 'generated streams of at most 14 frames (up to 5 MB) cut at random, through both packetizer interfaces and through TokioTransport/Buffered/Box/Pin/&mut/MapError over scripted streams with short, pending, failing and zero-length operations'}

MESSAGE = {'name': 'message', 'cmd': ['message'], 'quick': 20, 'thorough': 300,
           'bound': 'generated messages of all 63 kinds, mutated and random frames, against the real MessageOps and an independent frame layout'}

def codec(kinds, bound):
    return {'name': 'codec', 'cmd': ['codec', '--kinds', kinds], 'quick': 20, 'thorough': 300, 'bound': bound}


DEDUCTIVE = 'contracts on the extracted real functions, discharged by Verus/Z3; bounded execution of the compiled crates as companion'
BROKER_NOTE = ('Verus discharges the contracts of the functions listed in the evidence for all inputs. Assumed: contracts of std collections, '
               'futures channels and uuid (shims, listed). Functions outside the contracts are covered by bounded histories of the real broker '
               'against a sequential reference model, labelled bounded.')

BROKER_ASM = ['a message handed to ConnectionState::send reaches the connection whose sender it is (ghost log; the channel is FIFO)',
              'a cookie from ObjectCookie::new_v4, ServiceCookie::new_v4, ChannelCookie::new_v4 or BusListenerCookie::new_v4 has not been used before',
              'From<T> wraps a message as the variant of its name; derived Clone, PartialEq and PartialOrd are structural',
              'decoding and encoding a payload is a function of it',
              'handlers outside the contracts (see the list of functions in the evidence) are covered by the bounded check only']

PROPS = {
    'C02': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['parts', 'broker'], 'bounded': [sim()]},
    'C03': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['parts', 'broker'], 'bounded': [sim()]},
    'C04': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['parts', 'broker'], 'bounded': [sim()]},
    'C05': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['channel', 'parts', 'broker'], 'bounded': [sim()]},
    'C09': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['parts', 'channel', 'broker'], 'bounded': [sim()], 'known': True},
    'C10': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['parts', 'broker'], 'bounded': [sim()]},
    'C11': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['channel', 'parts', 'broker'], 'bounded': [sim()], 'known': True},
    'C14': {'technique': DEDUCTIVE, 'units': ['stream'], 'bounded': [STREAM],
            'note': 'Verus discharges, for all inputs: the contracts of Packetizer, TokioTransport, Buffered, the Box and &mut forwarders and the Send/Receive/Flush/SendFlush futures, '
                    'and the lemmas that fragmentation does not change the frames. Assumed: contracts of BytesMut, VecDeque, tokio AsyncRead/AsyncWrite (in terms of a ghost log) and message (de)serialization as functions.',
            'assumptions': ['contracts of tokio::io::{AsyncRead, AsyncWrite} implementations: a pending or failing operation transfers nothing',
                            'Pin projection is a plain reborrow (pin_project!, Pin::new, as_mut removed by the extraction)',
                            'AsyncTransportExt::*_unpin forward to the method of the same name (bounded check only)', 'MapError and the Pin<T> forwarder: bounded check only']},
    'C08': {'technique': DEDUCTIVE, 'units': ['msg'], 'bounded': [MESSAGE],
            'note': 'Verus discharges, for all inputs: serialize_message and deserialize_message of all 63 kinds and of Message against one parse function per kind written from the wire layout, '
                    'the frame header, value splitting and varint code, and the round trip in both directions. Assumed: contracts of BytesMut, slices and Uuid; num_enum conversions are spelled out from the discriminants.',
            'assumptions': ['SerializedValue::serialize(()) yields the one-byte value None behind a zeroed header (vx_none_value)',
                            'the derived num_enum conversions are exactly the discriminants in the source',
                            'frames of 2^32-256 bytes and more: re-serialization is not claimed to succeed']},
    'C07': {'technique': DEDUCTIVE, 'units': ['skip'],
            'bounded': [codec('bytes', 'generated, mutated and random byte strings, decoded into Value and typed targets, skipped, measured and split off, against an independent decoder')],
            'note': 'Verus discharges, for all inputs and nesting: skipping, measuring and splitting off any value equal one decode function written from the format, without panics '
                    '(Deserializer, every container deserializer, keys, varints). Assumed: contracts of bytes::Buf, slices and str::from_utf8. Decoding into typed values is covered by the bounded check only.',
            'assumptions': ['the difference of the addresses of a slice and of its tail is the difference of their lengths (vx_ptr_diff)']},
    'C13': {'technique': DEDUCTIVE, 'units': ['conv'],
            'bounded': [codec('convert', 'generated values in both encodings and mutated or random byte strings, converted between all version pairs, against an independent decoder')],
            'note': 'Verus discharges, for all inputs, nesting and versions: Epoch::try_from, convert, convert_mut, convert_in_message and every Convert method: the result is the old encoding of the decoded value, '
                    'decodes to it with and without the containers of 1.20, and conversion fails exactly for ill-formed input, values that cannot be counted in 32 bits, and unknown versions. '
                    'Assumed: contracts of bytes::{Buf, BufMut}, slices, derived PartialOrd.',
            'assumptions': ['MessageOps::value_mut hands out the value of the message (proved for the kinds in unit msg only as accessors)',
                            'SerializedValue dereferences to the bytes behind the header']},
    'C01': {'technique': DEDUCTIVE, 'units': ['ser', 'conv'],
            'bounded': [codec('roundtrip', 'generated values up to 32 levels in both encodings and mixtures of them, values of 33 to 300 levels, round-tripped through the real Value and compared with an independent encoder and decoder')],
            'note': 'Verus discharges, for all inputs: what Serializer and every container serializer of both epochs append decodes exactly to the value they were given, at every nesting level up to 32 and with TooDeeplyNested beyond, and convert (unit conv) keeps what it means; the typed decoder is checked against the same meaning by a bounded sweep of the real Value',
            'assumptions': ['the values inside a value are written by code that satisfies the trait contract of Serialize one level down (induction on the nesting level, which the code itself limits to 32)',
                            'collections longer than u32::MAX elements are refused before anything is written']},
    'C19': {'technique': DEDUCTIVE, 'units': ['disc', 'parts'],
            'bounded': [{'name': 'discover', 'cmd': ['discover'], 'quick': 20, 'thorough': 300,
                         'bound': 'generated histories of at most 120 operations by 3 real clients on a real broker under a random task schedule, at most 5 discoverers, 4 lifetimes and 4 waits at a time'}],
            'note': 'Verus discharges, for all inputs, histories and schedules: whatever a bus listener may have received, every entry of a discoverer reports exactly the matching objects of the bus it was told about, '
                    'the events handed out replay to what the entries report (Discoverer, its entries, iterators, events, builder, restart), a lifetime ends only when the object is gone and does not once it is known to be there, '
                    'and find_object/wait_for_object return ids that a bus carried. Assumed: the stream of a bus listener (a legal sequence of bus events that match its filters, as C10 states for the broker) and the client requests behind it.',
            'assumptions': ['the stream of a bus listener delivers, per run, a legal history of the bus as far as its filters see it (C10 of the broker; client.rs forwards in order)',
                            'futures run to completion (cancelling a pending call is not considered); poll_fn(..).await is a loop over the polled function',
                            'a listener whose client is gone delivers nothing and cannot be started or stopped',
                            'service_ids_n/find_object_n/wait_for_object_n, Discoverer::iter/entries, find_bare_object and wait_for_bare_object: bounded check only']},
    'C20': {'technique': DEDUCTIVE, 'units': ['intro'],
            'bounded': [{'name': 'introspect', 'cmd': ['introspect'], 'quick': 15, 'thorough': 300,
                         'bound': 'random worlds of at most 40 types (recursive, mutually recursive, built-ins over them), 12 single edits each; 10 schemas through the code generator, each also permuted and documented; one schema through the derive macros; 45 library types'}],
            'note': 'Verus discharges, for all layouts: the id computed for a type is v5(namespace, the serialized description of the type and of the set of everything it references), the serialized form of every description is an injective function of '
                    'its wire-relevant part and of nothing else (documentation and insertion order do not occur in it), lexical ids are the documented function of schema, name and element types. Assumed: UUIDv5 does not collide (equal ids give the same description or an explicit collision); '
                    'the set of types a description refers to is a function of the description. The code that the macros and the code generator emit, and the round trip of introspection records: bounded check only.',
            'assumptions': ['UUIDv5 is an uninterpreted function (a collision is a disjunct of the injectivity lemma)',
                            'the references of a type are a function of its layout value (refv); add_references pushes them in any order and multiplicity',
                            'BTreeMap and BTreeSet iterate in sorted order without duplicates',
                            'serialization of a layout does not fail (unwrap) and the worklist terminates: not proved',
                            'code emitted by macros/ and codegen/, Introspection::{from_ir, serialize, deserialize}: bounded check only']},
    'C12': {'technique': DEDUCTIVE, 'note': BROKER_NOTE, 'assumptions': BROKER_ASM, 'units': ['parts', 'broker'], 'bounded': [HS, sim()]},
}

NOT_APPLICABLE = {
    'C06': 'liveness (no lost wake-up, no deadlock) of async tasks over all schedules: no contract of a function states it and no installed deductive verifier models the executor',
    'C15': 'termination of every pending future at every fault point is a liveness statement about async tasks; no installed deductive verifier handles the async client run loop',
    'C16': 'quantifies over generated programs, rustc acceptance included; a contract verifier judges one program text, not the output of a generator for all schemas',
    'C17': 'the parser is generated by pest and the diagnostics by comrak/annotate-snippets; no installed verifier can bring these string-processing dependencies under contract',
    'C18': 'as C17: the statement relates a pest grammar, a pretty printer and a string; contracts on fmt.rs alone cannot express that its output parses back',
}
