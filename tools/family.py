"""The family of schemas of the upgrade harness, read from the texts of the schemas (not by joedb): JSON for Upgrade.tla."""
import json, os, re, struct, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def unquote(s):
    b = s.encode()
    assert b[:1] == b'"'
    out, i = [], 1
    while b[i] != ord('"'):
        if b[i] == ord('\\'):
            i += 1
            if b[i] == ord('x'):
                out.append(int(b[i + 1:i + 3], 16)); i += 3
            elif chr(b[i]).isdigit():
                out.append(int(b[i:i + 3], 8)); i += 3
            else:
                out.append(b[i]); i += 1
        else:
            out.append(b[i]); i += 1
    return out


def s32(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def value(type, s):
    if type == 'string':
        return unquote(s)
    if type == 'boolean':
        return [int(s == 'true')]
    if type in ('int64', 'float64'):
        n = int(s) % (1 << 64) if type == 'int64' else struct.unpack('<Q', struct.pack('<d', float(s)))[0]
        return [s32(n >> 32), s32(n & 0xffffffff)]
    if type == 'float32':
        return [struct.unpack('<i', struct.pack('<f', float(s)))[0]]
    return [int(s)]


def read(name):
    tables, fields, next_t, next_f = {}, {}, 0, {}
    schema, values, rows = [], [], {}
    codes = lambda s: list(s.encode())
    for line in open(f'{HERE}/harness/schemas/{name}.joedbi', encoding='utf-8'):
        w = line.strip().split(' ', 3)
        if not w[0]:
            continue
        op = dict(o=w[0], n=[], s=[], v=[], y='')
        tid = lambda s: next(t for t, n in tables.items() if n == s)
        fid = lambda t, s: next(f for f, n in fields[t].items() if n[0] == s)
        if w[0] == 'create_table':
            next_t += 1
            tables[next_t], fields[next_t], next_f[next_t] = w[1], {}, 0
            op['s'] = codes(w[1])
        elif w[0] == 'drop_table':
            t = tid(w[1]); op['n'] = [t]; del tables[t]
        elif w[0] == 'rename_table':
            t = tid(w[1]); op['n'] = [t]; op['s'] = codes(w[2]); tables[t] = w[2]
        elif w[0] == 'add_field':
            t = tid(w[1]); ty = w[3].split()
            ref = tid(ty[1]) if ty[0] == 'references' else 0
            op.update(n=[t, ref], s=codes(w[2]), y='reference' if ref else ty[0])
            next_f[t] += 1
            fields[t][next_f[t]] = (w[2], op['y'])
        elif w[0] == 'drop_field':
            t = tid(w[1]); f = fid(t, w[2]); op['n'] = [t, f]; del fields[t][f]
        elif w[0] == 'rename_field':
            t = tid(w[1]); f = fid(t, w[2]); op['n'] = [t, f]; op['s'] = codes(w[3])
            fields[t][f] = (w[3], fields[t][f][1])
        elif w[0] == 'custom':
            op.update(s=codes(w[1]), y=w[1])
        elif w[0] == 'insert_into':
            rows[tid(w[1])] = int(w[2]); continue
        elif w[0] == 'update':
            _, tn, r, rest = w
            f, v = rest.split(' ', 1)
            t = tid(tn)
            assert int(r) == rows[t]
            values.append(dict(t=t, f=fid(t, f), v=value(fields[t][fid(t, f)][1], v)))
            continue
        else:
            raise Exception(line)
        schema.append(op)
    for t in rows:  # the default of the type, for the others
        for f, (_, ty) in fields[t].items():
            if not any(x['t'] == t and x['f'] == f for x in values):
                raise Exception('give all the values')
    single = [next(t for t, n in tables.items() if n == m) for m in re.findall(r'set_single_row (\w+) true', open(f'{HERE}/harness/schemas/{name}.joedbc').read())]
    return dict(schema=schema, values=values, single=single)


def write(path):
    json.dump([read(f'up{i}') for i in (1, 2, 3)], open(path, 'w'))


if __name__ == '__main__':
    write(sys.argv[1])
