"""A scripted backend: a real gRPC server on the loopback interface that speaks the protocol compiled from /repo/protos."""
import threading
from concurrent import futures

import grpc

from . import wire

REAL = grpc.insecure_channel
CHANNELS = []          # (target asked for, channel)
DEFAULT = {}           # stands in for localhost:8080


def channel(target, *a, **k):
    ch = REAL(DEFAULT.get(target, target), *a, **k)
    CHANNELS.append((target, ch))
    return ch


grpc.insecure_channel = channel     # before the code under test is imported


class Session:
    def __init__(self, script, abort=None):
        self.script, self.abort = script, abort      # script: list of plain messages
        self.requests, self.drops, self.sent, self.order = [], [], 0, []
        self.lock = threading.Lock()
        self.streaming = False


class Backend:
    def __init__(self):
        self.sessions = {}       # tag -> Session; the tag is found in the request or the only session is used
        self.default = None
        self.server = grpc.server(futures.ThreadPoolExecutor(max_workers=8), options=[
            ('grpc.max_send_message_length', -1), ('grpc.max_receive_message_length', -1), ('grpc.so_reuseport', 0)])
        req, res, guid = wire.cls('GrpcPipelineExecutionRequest'), wire.cls('GrpcPipelinePartExecutionResult'), wire.cls('GrpcGuid')

        def execute(request, ctx):
            p = wire.plain(request)
            s = self.find(p)
            with s.lock:
                s.requests.append(p)
                s.order.append('execute')
            for m in s.script:
                if callable(m):
                    m()
                    continue
                with s.lock:
                    s.sent += 1
                yield m
            with s.lock:
                s.order.append('end')
            if s.abort is not None:
                ctx.abort(s.abort, 'scripted')

        def drop(request, ctx):
            g = request.guid
            s = self.guids.get(g, self.default)
            with s.lock:
                s.drops.append(g)
                s.order.append('drop')
            return b''
        self.guids = {}
        self.server.add_generic_rpc_handlers((grpc.method_handlers_generic_handler('ficus.GrpcBackendService', {
            'ExecutePipeline': grpc.unary_stream_rpc_method_handler(execute, request_deserializer=req.FromString, response_serializer=lambda m: m.SerializeToString()),
            'DropExecutionResult': grpc.unary_unary_rpc_method_handler(drop, request_deserializer=guid.FromString, response_serializer=lambda b: b),
        }),))
        self.port = self.server.add_insecure_port('127.0.0.1:0')
        self.addr = f'127.0.0.1:{self.port}'
        self.server.start()
        DEFAULT['localhost:8080'] = self.addr

    def find(self, p):
        for kv in p['initialContext']:
            v = kv.get('value', {})
            t = v.get('string')
            if t in self.sessions:
                return self.sessions[t]
        return self.default

    def stop(self):
        self.server.stop(0)


def result(kind, **k):
    return wire.cls('GrpcPipelinePartExecutionResult')(**{kind: k})


def part_result(uuid, values):
    """values: list of (key, plain GrpcContextValue)"""
    return result('pipelinePartResult', uuid={'uuid': str(uuid)}, contextValues=[dict(key_name=k, value=v) for k, v in values])


def log(text):
    return result('logMessage', message=text)


def success(guid):
    return result('finalResult', success={'guid': guid})


def error(text):
    return result('finalResult', error=text)
