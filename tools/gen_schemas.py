#!/usr/bin/env python3
"""Writes harness/schemas: random schemas, a permuted and documented copy of each, and the same
types as plain descriptions (read by harness/src/intro.rs). Deterministic."""
import os, random
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'schemas')
R = random.Random(20)
PRIM = ['bool','u8','i8','u16','i16','u32','i32','u64','i64','f32','f64','string','uuid','object_id','service_id','value','bytes','lifetime','unit']
KEYS = ['u8','i8','u16','i16','u32','i32','u64','i64','string','uuid']
WORDS = ['red','green','blue','iron','gold','zinc','north','south','east','west','apple','pear','plum','oak','elm','ash']

def names(n, camel):
    out = []
    while len(out) < n:
        w = [R.choice(WORDS) for _ in range(R.choice([1, 1, 2]))]
        s = ''.join(x.capitalize() for x in w) if camel else '_'.join(w)
        if s not in out: out.append(s)
    return out
def ids(n):
    out = []
    while len(out) < n:
        i = R.choice([R.randrange(12), R.randrange(300), R.randrange(2**32)])
        if i not in out: out.append(i)
    return out

class G:
    def __init__(s): s.customs = []  # (schema, name)
    def ty(s, lower, every, keys, d=0):
        """lower: customs usable anywhere; every: customs usable behind a box or vec"""
        r = R.random()
        if d > 2 or r < 0.35:
            if lower and R.random() < 0.5: return R.choice(lower)
            return R.choice(PRIM)
        k = R.choice(['option','box','vec','map','set','sender','receiver','result','array','rec'])
        sub = lambda: s.ty(lower, every, keys, d + 1)
        key = lambda: R.choice(KEYS + keys)
        if k in ('option','box','vec','sender','receiver'): return f'{k}<{sub()}>'
        if k == 'map': return f'map<{key()} -> {sub()}>'
        if k == 'set': return f'set<{key()}>'
        if k == 'result': return f'result<{sub()}, {sub()}>'
        if k == 'array': return f'[{sub()}; {R.randrange(1, 9)}]'
        return f'{R.choice(["box", "vec"])}<{R.choice(every)}>' if every else 'u8'

def struct_body(ty, n):
    ns, im = names(n, False), ids(n)
    return dict(kind='struct', members=[(im[i], ns[i], R.random() < 0.5, ty()) for i in range(n)],
                fb=R.choice([None, None, 'rest', 'unknown_fields']))
def enum_body(ty, n):
    ns, im = names(n, True), ids(n)
    return dict(kind='enum', members=[(im[i], ns[i], None if R.random() < 0.3 else ty()) for i in range(n)],
                fb=R.choice([None, None, 'Rest', 'UnknownOne']))

def generate():
    g = G()
    types = []
    for schema in ('alpha', 'beta'):
        n = R.randrange(4, 7)
        kinds = [R.choice(['struct','struct','enum','newtype']) for _ in range(n)]
        labels = [f'{x}{"SEN"[["struct","enum","newtype"].index(k)]}{i}' for i, (x, k) in enumerate(zip(names(n, True), kinds))]
        for k, l in zip(kinds, labels): types.append(dict(schema=schema, name=l, kind=k))
    keys = []
    for i, t in enumerate(types):
        # alpha does not import beta
        visible = [x for x in types if t['schema'] == 'beta' or x['schema'] == 'alpha']
        q = lambda x: f"{x['schema']}::{x['name']}"
        lower = [q(x) for x in types[:i] if x in visible]
        every = [q(x) for x in visible]
        ty = lambda: g.ty(lower, every, [k for k in keys if k in lower])
        if t['kind'] == 'struct': t.update(struct_body(ty, R.randrange(0, 5)))
        elif t['kind'] == 'enum': t.update(enum_body(ty, R.randrange(1, 5)))
        else:
            t['target'] = R.choice(KEYS) if R.random() < 0.4 else ty()
            if t['target'] in KEYS: keys.append(q(t))
    for schema in ('alpha', 'beta'):
        visible = [f"{x['schema']}::{x['name']}" for x in types if x['kind'] != 'service' and (schema == 'beta' or x['schema'] == 'alpha')]
        ty = lambda: g.ty(visible, visible, [])
        def part():
            r = R.random()
            if r < 0.25: return None
            if r < 0.55: return struct_body(ty, R.randrange(0, 4))
            if r < 0.7: return enum_body(ty, R.randrange(1, 4))
            return ty()
        nf, ne = R.randrange(0, 5), R.randrange(0, 4)
        ns, fi, ei = names(nf + ne, False), ids(nf), ids(ne)
        types.append(dict(schema=schema, name=names(1, True)[0] + 'Svc', kind='service', uuid='%08x-%04x-4%03x-8%03x-%012x' % (R.getrandbits(32), R.getrandbits(16), R.getrandbits(12), R.getrandbits(12), R.getrandbits(48)),
            version=R.choice([0, 1, 7, 4000000000]),
            fns=[(fi[i], ns[i], part(), part(), part()) for i in range(nf)],
            evs=[(ei[i], ns[nf + i], part()) for i in range(ne)],
            ffb=R.choice([None, 'some_fn']), efb=R.choice([None, 'some_event'])))
    return types

def local(t, schema): return t.replace(f'{schema}::', '') if t else t

def render(types, schema, permute):
    P = random.Random(permute)
    def order(xs):
        xs = list(xs)
        if permute: P.shuffle(xs)
        return xs
    def doc(ind, inline=False):
        if not permute or P.random() < 0.4: return ''
        return ''.join(f'{ind}//{"!" if inline else "/"} {P.choice(WORDS)} {P.choice(WORDS)}.\n' for _ in range(P.choice([1, 2])))
    def members(b, ind):
        o = ''
        for m in order(b['members']):
            o += doc(ind)
            if b['kind'] == 'struct': o += f"{ind}{'required ' if m[2] else ''}{m[1]} @ {m[0]} = {local(m[3], schema)};\n"
            else: o += f"{ind}{m[1]} @ {m[0]}{' = ' + local(m[2], schema) if m[2] else ''};\n"
        if b['fb']: o += doc(ind) + f"{ind}{b['fb']} = fallback;\n"
        return o
    def part(p, ind):
        if isinstance(p, str): return f'{local(p, schema)};\n'
        return f"{p['kind']} {{\n{doc(ind + '    ', True)}{members(p, ind + '    ')}{ind}}}\n"
    out = doc('', True)
    if schema == 'beta': out += 'import alpha;\n'
    for t in order([t for t in types if t['schema'] == schema]):
        out += '\n' + doc('')
        if t['kind'] in ('struct', 'enum'): out += f"{t['kind']} {t['name']} {{\n{members(t, '    ')}}}\n"
        elif t['kind'] == 'newtype': out += f"newtype {t['name']} = {local(t['target'], schema)};\n"
        else:
            out += f"service {t['name']} {{\n    uuid = {t['uuid']};\n    version = {t['version']};\n"
            for kind, x in order([('f', f) for f in t['fns']] + [('e', e) for e in t['evs']]):
                out += doc('    ')
                if kind == 'f':
                    i, n, a, ok, err = x
                    if a is None and err is None and ok is not None: out += f"    fn {n} @ {i} = {part(ok, '    ')}"
                    elif a is None and err is None and ok is None: out += f"    fn {n} @ {i};\n"
                    else:
                        out += f"    fn {n} @ {i} {{\n"
                        for k, v in (('args', a), ('ok', ok), ('err', err)):
                            if v is not None: out += f"        {k} = {part(v, '        ')}"
                        out += '    }\n'
                else:
                    i, n, a = x
                    out += f"    event {n} @ {i}" + (';\n' if a is None else f" = {part(a, '    ')}")
            fb = [f"{doc('    ')}    {k} {v} = fallback;\n" for k, v in (('fn', t['ffb']), ('event', t['efb'])) if v]
            out += ''.join(order(fb)) + '}\n'
    return out

def camel(s): return ''.join(x.capitalize() for x in s.split('_'))
def describe(types):
    o, extra, rust = [], [], []
    def members(b):
        for m in b['members']:
            if b['kind'] == 'struct': o.append(f"field {m[0]} {m[1]} {int(m[2])} {m[3].replace(' ', '')}")
            else: o.append(f"variant {m[0]} {m[1]} {m[2].replace(' ', '') if m[2] else '-'}")
    def head(schema, name, b):
        o.append(f"{b['kind']} {schema} {name} {b['fb'] or '-'}"); members(b); rust.append((schema, name, name))
    for t in types:
        if t['kind'] in ('struct', 'enum'): head(t['schema'], t['name'], t)
        elif t['kind'] == 'newtype':
            o.append(f"newtype {t['schema']} {t['name']} {t['target'].replace(' ', '')}"); rust.append((t['schema'], t['name'], t['name']))
        else:
            def part(p, name):
                if p is None: return '-'
                if isinstance(p, str): return p.replace(' ', '')
                extra.append((t['schema'], name, p)); return f"{t['schema']}::{name}"
            o.append(f"service {t['schema']} {t['name']} {t['uuid']} {t['version']} {t['ffb'] or '-'} {t['efb'] or '-'}")
            for i, n, a, ok, err in t['fns']:
                c = t['name'] + camel(n)
                o.append(f"fn {i} {n} {part(a, c + 'Args')} {part(ok, c + 'Ok')} {part(err, c + 'Error')}")
            for i, n, a in t['evs']: o.append(f"event {i} {n} {part(a, t['name'] + camel(n) + 'Args')}")
            rust.append((t['schema'], t['name'], t['name'])); rust.append((t['schema'], t['name'], t['name'] + 'Proxy'))
    svc = [x for x in rust if x[1].endswith('Svc')]
    rust[:] = [x for x in rust if x not in svc]
    for s, n, b in extra: head(s, n, b)
    rust += svc
    # the generator maps vec<u8> to bytes
    return '\n'.join(o).replace('vec<u8>', 'bytes') + '\n', rust

def main():
    N = 10
    rs = '// Generated by tools/gen_schemas.py.\n'
    tab = ''
    for c in range(N):
        types = generate()
        for v, perm in (('a', 0), ('b', 1000 + c)):
            d = os.path.join(HERE, f'c{c}{v}')
            os.makedirs(d, exist_ok=True)
            for s in ('alpha', 'beta'):
                open(os.path.join(d, f'{s}.aldrin'), 'w').write(render(types, s, perm))
            rs += f'pub mod c{c}{v} {{ aldrin::generate!("schemas/c{c}{v}/alpha.aldrin", "schemas/c{c}{v}/beta.aldrin", include = "schemas/c{c}{v}", introspection = true); }}\n'
        text, rust = describe(types)
        open(os.path.join(HERE, f'c{c}.txt'), 'w').write(text)
        tab += f'    (include_str!("../schemas/c{c}.txt"), &[\n'
        for s, n, r in rust:
            tab += f'        ("{s}", "{n}", &[DynIntrospectable::new::<c{c}a::{s}::{r}>, DynIntrospectable::new::<c{c}b::{s}::{r}>]),\n'
        tab += '    ]),\n'
    rs += 'use aldrin_core::introspection::DynIntrospectable;\n#[allow(clippy::type_complexity)]\npub static CASES: &[(&str, &[(&str, &str, &[fn() -> DynIntrospectable])])] = &[\n' + tab + '];\n'
    open(os.path.join(HERE, '..', 'src', 'cases.rs'), 'w').write(rs)
main()
