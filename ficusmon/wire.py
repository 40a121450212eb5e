"""An independent reading of the wire protocol: message classes compiled from /repo/protos in a pool of their own."""
import os
import struct
import tempfile

import grpc_tools
from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
from google.protobuf.descriptor import FieldDescriptor as FD

from . import env

_CACHE = {}


def files():
    """FileDescriptorSet of the .proto files of the repository."""
    if 'set' in _CACHE:
        return _CACHE['set']
    from grpc_tools import protoc
    d = os.path.join(env.REPO, 'protos')
    out = tempfile.NamedTemporaryFile(suffix='.pb', delete=False).name
    try:
        inc = os.path.join(os.path.dirname(grpc_tools.__file__), '_proto')
        rc = protoc.main(['protoc', f'-I{d}', f'-I{inc}', '--include_imports', f'--descriptor_set_out={out}']
                         + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.proto')))
        if rc != 0:
            raise RuntimeError('the .proto files do not compile')
        s = descriptor_pb2.FileDescriptorSet()
        with open(out, 'rb') as f:
            s.ParseFromString(f.read())
    finally:
        os.unlink(out)
    _CACHE['set'] = s
    return s


def pool():
    if 'pool' not in _CACHE:
        p = descriptor_pool.DescriptorPool()
        for f in files().file:
            p.Add(f)
        _CACHE['pool'] = p
    return _CACHE['pool']


def cls(name):
    k = 'c:' + name
    if k not in _CACHE:
        _CACHE[k] = message_factory.GetMessageClass(pool().FindMessageTypeByName('ficus.' + name))
    return _CACHE[k]


def read(name, msg):
    """What the other side reads of a message: the bytes are parsed by the independent classes; nothing may be unknown to it."""
    m = cls(name)()
    m.ParseFromString(msg.SerializeToString())
    return plain(m)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def plain(m):
    """Nested dict of the fields that are set (messages and oneof members by presence, scalars by value)."""
    out = {}
    for f in m.DESCRIPTOR.fields:
        if f.label == FD.LABEL_REPEATED:
            vs = getattr(m, f.name)
            if f.type == FD.TYPE_MESSAGE:
                out[f.name] = [plain(v) for v in vs]
            else:
                out[f.name] = list(vs)
        elif f.has_presence:
            if m.HasField(f.name):
                v = getattr(m, f.name)
                out[f.name] = plain(v) if f.type == FD.TYPE_MESSAGE else v
        else:
            out[f.name] = getattr(m, f.name)
    return out


def scalar(rng, f, texts):
    t = f.type
    if t == FD.TYPE_STRING:
        return rng.choice(texts)
    if t == FD.TYPE_BOOL:
        return rng.random() < 0.5
    if t == FD.TYPE_UINT32:
        return rng.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)])
    if t == FD.TYPE_UINT64:
        return rng.choice([0, 1, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 64)])
    if t == FD.TYPE_INT32:
        return rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31)])
    if t == FD.TYPE_INT64:
        return rng.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1])
    if t == FD.TYPE_FLOAT:
        return f32(rng.choice([0.0, 1.0, -2.5, rng.uniform(-100, 100), 1e-30, 3e38]))
    if t == FD.TYPE_DOUBLE:
        return rng.uniform(-100, 100)
    if t == FD.TYPE_ENUM:
        return rng.choice(f.enum_type.values).number
    raise ValueError(t)


def random_message(rng, m, texts, depth=6):
    """Fills a message in place; one member of each oneof at most."""
    d = m.DESCRIPTOR
    chosen = {o.name: rng.choice(list(o.fields)).name for o in d.oneofs}
    for f in d.fields:
        if f.containing_oneof is not None and chosen[f.containing_oneof.name] != f.name:
            continue
        if f.label == FD.LABEL_REPEATED:
            n = rng.choice([0, 1, 2, 3]) if depth > 0 else 0
            for _ in range(n):
                if f.type == FD.TYPE_MESSAGE:
                    random_message(rng, getattr(m, f.name).add(), texts, depth - 1)
                else:
                    getattr(m, f.name).append(scalar(rng, f, texts))
        elif f.type == FD.TYPE_MESSAGE:
            if depth > 0 and rng.random() < 0.85:
                sub = getattr(m, f.name)
                sub.SetInParent()
                random_message(rng, sub, texts, depth - 1)
        elif rng.random() < 0.85:
            setattr(m, f.name, scalar(rng, f, texts))
    return m
