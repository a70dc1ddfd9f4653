#!/usr/bin/env python3
"""Writes specs/msg.spec: contracts of all message kinds from the layout table below.

The table is the wire layout of every kind, written by hand from the protocol description:
  n = varint u32, u:W = 16 raw bytes wrapped in W, d:E = one-byte discriminant of E,
  on = optional n, ou:W = optional u, helper functions for compound fields,
  alt:KIND:RESULT{variant: payload} = discriminant of KIND selecting a variant of RESULT.
V marks kinds that carry a value in front of the fields.
"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
T = []


def k(name, fields='', value=None, file=None, special=None):
    if file is None:
        file = ''.join('_' + c.lower() if c.isupper() else c for c in name).lstrip('_')
    T.append((name, file, fields.split(), value, special))


S = 'serial:n'
RES = lambda e: f'{S} result:d:{e}'
k('Connect', 'version:n', 'value')
k('ConnectReply', special='connect_reply', value='alt')
k('Shutdown')
k('CreateObject', f'{S} uuid:u:ObjectUuid')
k('CreateObjectReply', f'{S} result:alt:CreateObjectReplyKind:CreateObjectResult:Ok=u.ObjectCookie,DuplicateObject')
k('DestroyObject', f'{S} cookie:u:ObjectCookie')
k('DestroyObjectReply', RES('DestroyObjectResult'))
k('CreateService', f'{S} object_cookie:u:ObjectCookie uuid:u:ServiceUuid version:n')
k('CreateServiceReply', f'{S} result:alt:CreateServiceReplyKind:CreateServiceResult:Ok=u.ServiceCookie,DuplicateService,InvalidObject,ForeignObject')
k('DestroyService', f'{S} cookie:u:ServiceCookie')
k('DestroyServiceReply', RES('DestroyServiceResult'))
k('CallFunction', f'{S} service_cookie:u:ServiceCookie function:n', 'value')
k('CallFunctionReply', f'{S} result:alt:CallFunctionReplyKind:CallFunctionResult:Ok=v,Err=v,Aborted,InvalidService,InvalidFunction,InvalidArgs', 'alt')
k('SubscribeEvent', 'serial:on service_cookie:u:ServiceCookie event:n')
k('SubscribeEventReply', RES('SubscribeEventResult'))
k('UnsubscribeEvent', 'service_cookie:u:ServiceCookie event:n')
k('EmitEvent', 'service_cookie:u:ServiceCookie event:n', 'value')
k('QueryServiceVersion', f'{S} cookie:u:ServiceCookie')
k('QueryServiceVersionReply', f'{S} result:alt:QueryServiceVersionReplyKind:QueryServiceVersionResult:Ok=n,InvalidService')
k('CreateChannel', f'{S} end:g:cap')
k('CreateChannelReply', f'{S} cookie:u:ChannelCookie')
k('CloseChannelEnd', f'{S} cookie:u:ChannelCookie end:d:ChannelEnd')
k('CloseChannelEndReply', RES('CloseChannelEndResult'))
k('ChannelEndClosed', 'cookie:u:ChannelCookie end:d:ChannelEnd')
k('ClaimChannelEnd', f'{S} cookie:u:ChannelCookie end:g:cap')
k('ClaimChannelEndReply', f'{S} result:alt:ClaimChannelEndReplyKind:ClaimChannelEndResult:SenderClaimed=n,ReceiverClaimed,InvalidChannel,AlreadyClaimed')
k('ChannelEndClaimed', 'cookie:u:ChannelCookie end:g:cap')
k('SendItem', 'cookie:u:ChannelCookie', 'value')
k('ItemReceived', 'cookie:u:ChannelCookie', 'value')
k('AddChannelCapacity', 'cookie:u:ChannelCookie capacity:n')
k('Sync', S)
k('SyncReply', S)
k('ServiceDestroyed', 'service_cookie:u:ServiceCookie')
k('CreateBusListener', S)
k('CreateBusListenerReply', f'{S} cookie:u:BusListenerCookie')
k('DestroyBusListener', f'{S} cookie:u:BusListenerCookie')
k('DestroyBusListenerReply', RES('DestroyBusListenerResult'))
k('AddBusListenerFilter', 'cookie:u:BusListenerCookie filter:g:filter')
k('RemoveBusListenerFilter', 'cookie:u:BusListenerCookie filter:g:filter')
k('ClearBusListenerFilters', 'cookie:u:BusListenerCookie')
k('StartBusListener', f'{S} cookie:u:BusListenerCookie scope:d:BusListenerScope')
k('StartBusListenerReply', RES('StartBusListenerResult'))
k('StopBusListener', f'{S} cookie:u:BusListenerCookie')
k('StopBusListenerReply', RES('StopBusListenerResult'))
k('EmitBusEvent', 'cookie:ou:BusListenerCookie event:g:event')
k('BusListenerCurrentFinished', 'cookie:u:BusListenerCookie')
k('Connect2', 'major_version:n minor_version:n', 'value')
k('ConnectReply2', 'result:alt:ConnectReply2Kind:ConnectResult:Ok=n,Rejected,IncompatibleVersion', 'value')
k('AbortFunctionCall', S)
k('RegisterIntrospection', '', 'value')
k('QueryIntrospection', f'{S} type_id:u:TypeId')
k('QueryIntrospectionReply', f'{S} result:alt:QueryIntrospectionReplyKind:QueryIntrospectionResult:Ok=v,Unavailable', 'alt')
k('CreateService2', f'{S} object_cookie:u:ObjectCookie uuid:u:ServiceUuid', 'value', file='create_service2')
k('QueryServiceInfo', f'{S} cookie:u:ServiceCookie')
k('QueryServiceInfoReply', f'{S} result:alt:QueryServiceInfoReplyKind:QueryServiceInfoResult:Ok=v,InvalidService', 'alt')
k('SubscribeService', f'{S} service_cookie:u:ServiceCookie')
k('SubscribeServiceReply', RES('SubscribeServiceResult'))
k('UnsubscribeService', 'service_cookie:u:ServiceCookie')
k('SubscribeAllEvents', 'serial:on service_cookie:u:ServiceCookie')
k('SubscribeAllEventsReply', RES('SubscribeAllEventsResult'))
k('UnsubscribeAllEvents', 'serial:on service_cookie:u:ServiceCookie')
k('UnsubscribeAllEventsReply', RES('UnsubscribeAllEventsResult'))
k('CallFunction2', f'{S} service_cookie:u:ServiceCookie function:n version:on', 'value')


def parse_body(name, fields, value):
    """nested matches; innermost demands that nothing is left over"""
    names, open_, close = [], '', ''
    cur = 's0'
    tail = None
    for i, f in enumerate(fields):
        p = f.split(':')
        n = p[0]
        nxt = f's{i + 1}'
        if p[1] == 'alt':
            kind, res, alts = p[2], p[3], p[4]
            arms = ''
            for a in alts.split(','):
                v, _, pay = a.partition('=')
                if pay == '':
                    x, pre, last = f'{res}::{v}', '', nxt
                    arm = f'if {nxt}.len() == 0 {{ Some({{R}}) }} else {{ None }}'.replace('{R}', ctor(name, names, n, x, value))
                elif pay == 'v':
                    arm = f'if {nxt}.len() == 0 {{ Some({ctor(name, names, n, f"{res}::{v}(sv(v))", value)}) }} else {{ None }}'
                else:
                    g = 'gn' if pay == 'n' else 'gu'
                    w = 'w' if pay == 'n' else f'{pay[2:]}(w)'
                    arm = f'match {g}({nxt}) {{ None => None, Some((w, t)) => if t.len() == 0 {{ Some({ctor(name, names, n, f"{res}::{v}({w})", value)}) }} else {{ None }} }}'
                arms += f'Some(({kind}::{v}, {nxt})) => {arm}, '
            tail = f'match gd::<{kind}>({cur}) {{ None => None, {arms}}}'
            assert i == len(fields) - 1
            break
        g = {'n': 'gn', 'u': 'gu', 'on': 'gon', 'ou': 'gou'}.get(p[1])
        if p[1] == 'd':
            g = f'gd::<{p[2]}>'
        if p[1] == 'g':
            g = f'g{p[2]}'
        open_ += f'match {g}({cur}) {{ None => None, Some(({n}, {nxt})) => '
        close += ' }'
        val = n
        if p[1] == 'u':
            val = f'{p[2]}({n})'
        if p[1] == 'ou':
            val = f'(match {n} {{ None => None::<{p[2]}>, Some(w) => Some({p[2]}(w)) }})'
        names.append((n, val))
        cur = nxt
    if tail is None:
        tail = f'if {cur}.len() == 0 {{ Some({ctor(name, names, None, None, value)}) }} else {{ None }}'
    return open_ + tail + close


def ctor(name, names, last, lastv, value):
    fs = [f'{n}: {v}' for n, v in names]
    if last:
        fs.append(f'{last}: {lastv}')
    if value == 'value':
        fs.append('value: sv(v)')
    return f'{name} {{ {", ".join(fs)} }}' if fs else name


def main():
    o = []
    w = o.append
    w('// generated by tools/gen_msgspec.py: contracts of the message kinds (C08)')
    spec = []
    kinds_v = []
    canon_msg, parse_msg, okay_msg, kind_msg = '', '', '', ''
    for name, file, fields, value, special in T:
        alts = [f for f in fields if ':alt:' in f]
        w(f'source core/src/message/{file}.rs')
        names = [name]
        enums = set()
        for a in alts:
            p = a.split(':')
            enums |= {p[2], p[3]}
        for f in fields:
            p = f.split(':')
            if p[1] == 'd' and p[2].endswith('Result'):
                enums.add(p[2])
        if special:
            enums |= {'ConnectReplyKind'}
        if name == 'EmitBusEvent':
            enums |= {'BusEventKind'}
        if name == 'ConnectReply2':
            w('rename ConnectReplyKind ConnectReply2Kind')
            enums = {('ConnectReplyKind' if e == 'ConnectReply2Kind' else e) for e in enums}
        w('only ' + ' '.join('=' + n for n in [name] + sorted(enums)))
        w(f'inherent impl MessageOps for {name}')
        w(f'skip {name}::value {name}::value_mut')
        if value:
            kinds_v.append(name)
        body = ('body_val' if value else 'body_plain')
        if special == 'connect_reply':
            inner = ('match gd::<ConnectReplyKind>(s0) { None => None, '
                     'Some((ConnectReplyKind::Ok, s1)) => if s1.len() == 0 { Some(ConnectReply::Ok(sv(v))) } else { None }, '
                     'Some((ConnectReplyKind::IncompatibleVersion, s1)) => match gn(s1) { None => None, Some((w, t)) => if t.len() == 0 { Some(ConnectReply::IncompatibleVersion(w)) } else { None } }, '
                     'Some((ConnectReplyKind::Rejected, s1)) => if s1.len() == 0 { Some(ConnectReply::Rejected(sv(v))) } else { None } }')
        else:
            inner = parse_body(name, fields, value)
        bind = '(v, s0)' if value else 's0'
        spec.append(f'    impl {name} {{')
        spec.append(f'        #[verifier::opaque]')
        spec.append(f'        pub open spec fn parse(f: Seq<u8>) -> Option<{name}> {{ match {body}(f, MessageKind::{name}) {{ None => None, Some({bind}) => {inner} }} }}')
        # the value only counts by its content
        if value == 'value':
            canon = f'{name} {{ value: sv(self.value@), ..self }}'
            okay = 'vok(self.value@)'
        elif value == 'alt' and special:
            canon = 'match self { ConnectReply::Ok(v) => ConnectReply::Ok(sv(v@)), ConnectReply::Rejected(v) => ConnectReply::Rejected(sv(v@)), x => x }'
            okay = 'match self { ConnectReply::Ok(v) => vok(v@), ConnectReply::Rejected(v) => vok(v@), x => true }'
        elif value == 'alt':
            p = alts[0].split(':')
            vs = [a.partition('=')[0] for a in p[4].split(',') if a.endswith('=v')]
            canon = f'{name} {{ result: match self.result {{ ' + ', '.join(f'{p[3]}::{v}(v) => {p[3]}::{v}(sv(v@))' for v in vs) + ', x => x }, ..self }'
            okay = 'match self.result { ' + ', '.join(f'{p[3]}::{v}(v) => vok(v@)' for v in vs) + ', x => true }'
        else:
            canon, okay = 'self', 'true'
        spec.append(f'        #[verifier::opaque]')
        spec.append(f'        pub open spec fn canon(self) -> {name} {{ {canon} }}')
        spec.append(f'        #[verifier::opaque]')
        spec.append(f'        pub open spec fn okay(self) -> bool {{ {okay} }}')
        spec.append('    }')
        canon_msg += f'Message::{name}(m) => Message::{name}(m.canon()), '
        kind_msg += f'Message::{name}(m) => MessageKind::{name}, '
        okay_msg += f'Message::{name}(m) => m.okay(), '
        parse_msg += f'Some(MessageKind::{name}) => (match {name}::parse(f) {{ None => None, Some(m) => Some(Message::{name}(m)) }}), '
        w(f'fn {name}::kind')
        w(f'    ensures r == MessageKind::{name}, //@C08')
        w(f'fn {name}::serialize_message')
        w('    ensures')
        w('        self.okay() ==> r is Ok, //@C08')
        w(f'        r is Ok ==> {name}::parse(r->Ok_0@) == Some(self.canon()), //@C08')
        w(f'        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::{name}.vx_to(), //@C08')
        w(f'        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08')
        for fn in ('serialize_message', 'deserialize_message'):
            w(f'hint {name}::{fn} start')
            w(f'    proof {{ reveal({name}::parse); reveal({name}::canon); reveal({name}::okay); reveal(body_val); }}' if value and fn == 'deserialize_message' else f'    proof {{ reveal({name}::parse); reveal({name}::canon); reveal({name}::okay); }}')
        w(f'fn {name}::deserialize_message')
        w('    ensures')
        w(f'        r is Ok <==> {name}::parse(buf@) is Some, //@C08')
        w(f'        r is Ok ==> {name}::parse(buf@) == Some(r->Ok_0.canon()), //@C08')
        w(f'        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08')
        w('')
    w('text')
    o.extend(spec)
    w('    pub open spec fn hasv(k: MessageKind) -> bool { ' + ' || '.join(f'k == MessageKind::{n}' for n in kinds_v) + ' }')
    w('    impl Message {')
    w(f'        pub open spec fn canon(self) -> Message {{ match self {{ {canon_msg}}} }}')
    w(f'        pub open spec fn okay(self) -> bool {{ match self {{ {okay_msg}}} }}')
    w(f'        pub open spec fn vkind(self) -> MessageKind {{ match self {{ {kind_msg}}} }}')
    w(f'        pub open spec fn parse(f: Seq<u8>) -> Option<Message> {{ if f.len() < 5 {{ None }} else {{ match MessageKind::vx_of(f[4]) {{ None => None, {parse_msg}}} }} }}')
    w('    }')
    open(os.path.join(HERE, '../specs/msg.spec'), 'w').write('\n'.join(o) + '\n')


main()
