"""Pack index files for the contracts: generators and writers independent of bup."""
import hashlib, struct


def gen_ids(r):
    ids = set()
    for _ in range(r.choice([1, 1, 2, 3, 10, 60])):
        first = r.choice([0, 1, 2, 127, 128, 254, 255, r.randrange(256)])
        ids.add(bytes([first]) + r.choice([b'\0' * 19, b'\xff' * 19, r.randbytes(19), b'\0' * 18 + bytes([r.randrange(4)])]))
    return sorted(ids)


def write_v1(fn, ids, ofs):
    fan = [sum(1 for i in ids if i[0] <= b) for b in range(256)]
    x = struct.pack('!256I', *fan) + b''.join(struct.pack('!I', o) + i for i, o in zip(ids, ofs)) + b'p' * 20
    with open(fn, 'wb') as f:
        f.write(x + hashlib.sha1(x).digest())


def write_v2(fn, ids, ofs):
    fan = [sum(1 for i in ids if i[0] <= b) for b in range(256)]
    o32, o64 = [], []
    for o in ofs:
        if o >= 2**31:
            o32.append(2**31 + len(o64))
            o64.append(o)
        else:
            o32.append(o)
    n = len(ids)
    x = b'\377tOc\0\0\0\2' + struct.pack('!256I', *fan) + b''.join(ids) + b'c' * 4 * n \
        + struct.pack(f'!{n}I', *o32) + struct.pack(f'!{len(o64)}Q', *o64) + b'p' * 20
    with open(fn, 'wb') as f:
        f.write(x + hashlib.sha1(x).digest())


def probes(r, ids):
    ps = [bytes(20), b'\xff' * 20] + [r.randbytes(20) for _ in range(5)]
    for i in r.sample(ids, min(len(ids), 25)):
        n = int.from_bytes(i, 'big')
        for d in (-1, 1, 256, -256):
            ps.append(((n + d) % 2**160).to_bytes(20, 'big'))
        ps.append(i[:1] + b'\0' * 19)
        ps.append(i[:1] + b'\xff' * 19)
    return ps


def gen_ofs(r, ids, version):
    big = [2**31, 2**31 + 5, 2**32 - 1] if version == 1 else [2**31, 2**31 + 1, 2**32, 2**45 + 3, 2**63 + 1]
    return [r.choice([12, 13, 2**31 - 1, r.randrange(2**31)] + big) for _ in ids]


