"""P34: the Python message models speak exactly the protocol of the .proto files."""
import grpc
from google.protobuf import descriptor_pb2

from .. import gen, wire
import python.ficus.grpc_pipelines.models.backend_service_pb2_grpc as SG
import python.ficus.grpc_pipelines.models.backend_service_pb2 as B
import python.ficus.grpc_pipelines.models.pipelines_and_context_pb2 as C
import python.ficus.grpc_pipelines.models.pm_models_pb2 as M
import python.ficus.grpc_pipelines.models.util_pb2 as U

ID = 'P34'
LEVEL = 'exploration'
CASES = {'quick': 20000, 'thorough': 400000}
RULE = ('random messages of every type of the protocol are written by the Python models and read by classes compiled from the .proto files, and '
        'the other way round; every field must arrive; the client stub is driven against a recording channel for every method of the '
        'service; non-trivial: a message with at least three fields set')
ASSUMPTIONS = ['the protocol is what /repo/protos says (the backend is generated from it)']
TYPES = sorted(m.name for f in wire.files().file if f.package == 'ficus' for m in f.message_type)
REQUIRED_EVENTS = ['python to backend', 'backend to python', 'stub method'] + ['type ' + t for t in TYPES]
MODELS = (B, C, M, U)


class Channel(grpc.Channel):
    """Records which methods a stub binds, with how and with what serializers."""
    def __init__(self):
        self.m = {}

    def _rec(kind):
        def f(self, path, request_serializer=None, response_deserializer=None, *a, **k):
            self.m[path] = (kind, request_serializer, response_deserializer)
            return ('bound', path)
        return f
    unary_unary, unary_stream, stream_unary, stream_stream = _rec((0, 0)), _rec((0, 1)), _rec((1, 0)), _rec((1, 1))

    def subscribe(self, *a, **k):
        pass
    unsubscribe = close = __enter__ = __exit__ = subscribe


def model(name):
    for mod in MODELS:
        if hasattr(mod, name):
            return getattr(mod, name)


def fields(m):
    return sum(len(v) if isinstance(v, list) else 1 + (fields(v) if isinstance(v, dict) else 0) for v in m.values())


def run_case(rng, index, mon):
    texts = gen.alphabet(rng, k=5) + ['']
    t = TYPES[index % len(TYPES)]
    cls = model(t)
    mon.check(cls is not None, 'a message of the protocol has no Python model', type=t)
    mon.event('type ' + t)
    other = wire.cls(t)
    a = wire.random_message(rng, other(), texts)
    mon.event('backend to python')
    try:
        b = cls.FromString(a.SerializeToString())
    except Exception as e:
        mon.check(False, f'a message of the backend cannot be read: {type(e).__name__}: {e}', type=t, sent=wire.plain(a))
    mon.equal(wire.plain(b), wire.plain(a), 'a message of the backend is read differently', type=t)
    mon.event('python to backend')
    c = wire.random_message(rng, cls(), texts)
    mon.equal(wire.read(t, c), wire.plain(c), 'a message is read differently by the backend', type=t)
    # by the documented names of the .proto file
    kw = {f.name: getattr(a, f.name) for f in other.DESCRIPTOR.fields if f.label != f.LABEL_REPEATED and f.type != f.TYPE_MESSAGE
          and (not f.has_presence or a.HasField(f.name))}
    d = mon.call(cls, what='construct', **kw)
    mon.equal({k: v for k, v in wire.read(t, d).items() if k in kw}, kw, 'fields given by name do not arrive', type=t)
    p = wire.plain(a)
    if fields(p) >= 3:
        mon.distinct(t, repr(p))
        mon.sample({'type': t, 'message': repr(p)[:300]})
    if index % 50 == 0:
        svc = [s for f in wire.files().file for s in f.service]
        for s in svc:
            stub_cls = getattr(SG, s.name + 'Stub', None)
            mon.check(stub_cls is not None, 'a service of the protocol has no stub', service=s.name)
            ch = Channel()
            stub = mon.call(stub_cls, ch, what='stub')
            for m in s.method:
                mon.event('stub method')
                path = f'/ficus.{s.name}/{m.name}'
                mon.check(path in ch.m and getattr(stub, m.name, None) == ('bound', path), 'a method of the service is not bound to its path', method=path, bound=list(ch.m))
                kind, ser, des = ch.m[path]
                mon.equal(kind, (int(m.client_streaming), int(m.server_streaming)), 'a method is bound with the wrong streaming', method=path)
                for typ, what in ((m.input_type, 'request'), (m.output_type, 'response')):
                    n = typ.split('.')[-1]
                    if typ.startswith('.ficus.'):
                        x = wire.random_message(rng, wire.cls(n)(), texts)
                        if what == 'request':
                            y = wire.random_message(rng, model(n)(), texts)
                            r = wire.cls(n)()
                            r.ParseFromString(ser(y))
                            mon.equal(wire.plain(r), wire.plain(y), 'a request is not written as declared', method=path)
                        else:
                            mon.equal(wire.plain(des(x.SerializeToString())), wire.plain(x), 'a response is not read as declared', method=path)
