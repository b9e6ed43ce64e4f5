#!/usr/bin/env python3
"""Development-time tool (no check runs it): reads the protocol modules of the pinned tree and writes the
wire layout they implement as a compact JSON schema.  The output, harness/schema/*.json, was reviewed by
hand against the published s2protocol decoders and corrected where the tree is wrong (see DESIGN.md), and
is frozen: it is the specification the reference encoder works from."""
import re, sys, json
def strip(body):
    body = re.sub(r'tracing::\w+!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\);?', '', body)
    body = re.sub(r'//.*', '', body)
    return re.sub(r'\s+', ' ', body)
def block(s, i):
    j = s.index('{', i); st = j; d = 0
    while True:
        d += s[j] == '{'; d -= s[j] == '}'; j += 1
        if d == 0: return s[st+1:j-1], j
def fns(impl):
    out = {}
    for m in re.finditer(r'pub fn (\w+)\(\s*input[^{]*\{', impl):
        b, _ = block(impl, m.end()-1)
        out[m.group(1)] = strip(b)
    return out
def run(path, bit):
    src = open(path).read()
    k = src.index('pub mod bit_packed')
    if bit: src = src[k:]
    else: src = src[:k]
    types = {}; order = []
    for m in re.finditer(r'pub (struct|enum) (\w+)\s*\{', src):
        kind, name = m.groups()
        decl, _ = block(src, m.end()-1)
        decl = re.sub(r'//.*', '', decl)
        im = re.search(r'impl %s \{' % name, src)
        impl, _ = block(src, im.end()-1)
        span = re.search(r'name\s*=\s*"[^"]*"', impl)
        F = fns(impl)
        p = F['parse']
        t = None
        if kind == 'enum':
            arms = re.findall(r'(\d+) => \{(.*?)Ok\(\( ?tail, Self::(\w+)(?:\((.*?)\))? ?,? ?\)\)', p)
            vs = []
            for tag, mid, vn, pay in arms:
                if pay:
                    r = re.search(r'let \(tail, res\) = ([\w:]+)\(tail\)\?', mid)
                    prs = r.group(1)
                    if prs == 'tagged_vlq_int':
                        prs = 'vlq:' + re.search(r'(\w+)::try_from', pay).group(1)
                    prs = prs.replace('::parse', '')
                    vs.append([int(tag), vn, prs])
                else:
                    vs.append([int(tag), vn, None])
            r = re.search(r'num_bits: usize = (\d+)', p)
            tagk = 'choice' if 'validate_choice_tag' in p else ('int' if 'validate_int_tag' in p else None)
            t = {'k': 'enum', 'v': vs}
            if bit: t['bits'] = int(r.group(1))
            else: t['tag'] = tagk
            nv = len(re.findall(r'^\s*(\w+)\s*(?:\(|,)', decl, re.M))
            assert len(vs) >= 1, name
            t['_decl'] = nv
        else:
            fields = re.findall(r'pub (\w+): ((?:[^,<]|<[^>]*(?:<[^>]*>)?[^>]*>)+),', decl)
            if bit and [f for f, _ in fields] == ['value']:
                if 'bitarray_length_bits' in p:
                    t = {'k': 'bitarr', 'bits': int(re.search(r'bitarray_length_bits: usize = (\d+)', p).group(1)),
                         'repr': 'vec' if 'take_bit_array' in p else 'i64'}
                elif 'str_size_num_bits' in p:
                    assert 'byte_align' in p
                    t = {'k': 'str', 'bits': int(re.search(r'str_size_num_bits: usize = (\d+)', p).group(1))}
                elif '40 * 8' in p:
                    t = {'k': 'fixed', 'n': 40}
                elif 'array_length_num_bits' in p:
                    t = {'k': 'array', 'bits': int(re.search(r'array_length_num_bits: usize = (\d+)', p).group(1)),
                         't': re.search(r'= (\w+)::parse\(tail\)', p).group(1)}
                elif 'let offset' in p:
                    t = {'k': 'int', 'off': int(re.search(r'offset: i64 = (-?\d+)', p).group(1)),
                         'bits': int(re.search(r'num_bits: usize = (\d+)', p).group(1))}
                else:
                    t = {'k': 'user', 't': re.search(r'= (\w+)::parse\(input\)', p).group(1)}
            else:
                fl = []
                for f, ty in fields:
                    b = F.get('parse_' + f)
                    if b is None:
                        if f == 'value' and not bit and 'validate_array_tag' in p:
                            fl = None; t = {'k': 'array', 't': re.search(r'= (\w+)::parse\(tail\)', p).group(1)}; break
                        raise Exception((name, f))
                    if bit:
                        fl.append([f, bitfield(b, f)])
                    else:
                        ft = bytefield(b, f)
                        tg = re.search(r'(\d+) => \{ if (?:let Some\(None\) = %s|%s\.is_none\(\))' % (f, f), p)
                        fl.append([f, int(tg.group(1)) if tg else None, ft])
                if fl is not None:
                    t = {'k': 'struct', 'f': fl}
                    if bit:
                        # parse order
                        seq = re.findall(r'Self::parse_(\w+)\(tail\)', p)
                        assert seq == [f for f, _ in fl], (name, seq)
        types[name] = t; order.append(name)
    return types
def bitfield(b, f):
    b = b.strip()
    if 'is_provided' in b:
        inner = re.search(r'if is_provided \{(.*)\} else', b).group(1)
        if 'array_length' in inner:
            return {'opt': {'arr': [int(re.search(r'i64\(\w+, (\d+)\)', inner).group(1)), re.search(r'= (\w+)::parse\(tail\)', inner).group(1)]}}
        r = re.search(r'let \(tail, res\) = (.*?)\?;', inner).group(1)
        return {'opt': simple(r)}
    if 'array_length' in b:
        n = int(re.search(r'i64\(input, (\d+)\)', b).group(1))
        if 'take_unaligned_byte' in b: return {'blob': n}
        return {'arr': [n, re.search(r'= (\w+)::parse\(tail\)', b).group(1)]}
    r = re.search(r'let \(tail, \w+\) = (.*?)\?;', b).group(1)
    return simple(r)
def simple(r):
    if r.startswith('parse_bool'): return 'bool'
    if r.startswith('take_fourcc'): return 'fourcc'
    m = re.match(r'parse_packed_int\(\w+, (-?\d+), (\d+)usize\)', r)
    if m: return {'int': [int(m.group(1)), int(m.group(2))]}
    return {'t': re.match(r'(\w+)::parse', r).group(1)}
def bytefield(b, f):
    if 'is_provided' in b:
        inner = re.search(r'if is_provided != 0 \{(.*)\} else', b).group(1)
        return {'opt': bytesimple(inner, f)}
    return bytesimple(b, f)
INT = {'m_working_set_slot_id': 'u8'}
def bytesimple(b, f):
    if 'validate_array_tag' in b:
        e = re.search(r'let \(new_tail, data\) = ([\w:]+)\(tail\)', b).group(1)
        return {'arr': e.replace('::parse', '')}
    e = re.search(r'let \(tail, \w+\) = ([\w:]+)\((?:tail|input)\)', b).group(1)
    if e == 'tagged_vlq_int':
        m = re.search(r'(\w+)::try_from', b)
        return {'vlq': m.group(1) if m and m.group(1) != '_' else None}
    if e in ('tagged_blob', 'tagged_bool', 'tagged_fourcc'): return e[7:]
    return {'t': e.replace('::parse', '')}
if __name__ == '__main__':
    p = '/repo/src/versions/'
    out = {'bit87702': run(p+'protocol87702/mod.rs', True), 'byte87702': run(p+'protocol87702/mod.rs', False),
           'bit75689': run(p+'protocol75689/mod.rs', True)}
    for k, v in out.items():
        with open('/tmp/w/%s.json' % k, 'w') as fh:
            fh.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(n), json.dumps(t)) for n, t in v.items()) + '\n}\n')
        print(k, len(v))
