"""P31: every part reaches the backend under its name with exactly its parameters."""
from .. import gen, wire
from ..wireparts import *
from ..wireparts import Made, make, pipeline, normal, NAMES, ENUMS

ID = 'P31'
LEVEL = 'exploration'
CASES = {'quick': 6000, 'thorough': 100000}
RULE = ('every part of the client is created with random positional and named arguments, nested up to three levels, encoded, carried as bytes and '
        'read by classes compiled from the .proto files; name, configuration, requested values and identity are compared with a '
        'table of the contract of the backend; non-trivial: a part with parameters')
ASSUMPTIONS = ['the contract is the one of the backend of the repository at this version']
REQUIRED_EVENTS = ['part ' + n for n in NAMES] + ['nested', 'encoded twice', 'refused', 'pipeline']


class NotAPart:
    def to_grpc_part(self):
        raise AssertionError('must not be asked')

    def append_parts_with_callbacks(self, parts):
        pass


def run_case(rng, index, mon):
    texts = gen.alphabet(rng, k=5) + ['', '.*']
    if index % 7 == 0:
        mon.event('pipeline')
        made = [make(rng, texts) for _ in range(rng.randint(0, 6))]
        pl = Pipeline2(*[m.part for m in made])
        if rng.random() < 0.3:
            bad = rng.choice([NotAPart(), None, 'x', make])
            pl.parts.insert(rng.randint(0, len(pl.parts)), bad)
            mon.event('refused')
            try:
                pl.to_grpc_pipeline()
            except (TypeError, AttributeError):
                return
            mon.check(False, 'something that is not a part was accepted', parts=pl.parts)
        before = list(pl.parts)
        got = wire.read('GrpcPipeline', mon.call(pl.to_grpc_pipeline))
        mon.equal([normal(p) for p in got['parts']], [normal(m.wire) for m in made], 'the pipeline reaches the backend differently')
        mon.check(len(pl.parts) == len(before) and all(a is b for a, b in zip(pl.parts, before)), 'encoding changes the pipeline')
        us = [m.part.uuid for x in made for m in x.callbacks()]
        mon.equal(len(set(us)), len(us), 'two parts share an identity')
        mon.distinct(repr([normal(m.wire) for m in made]))
        return
    name = NAMES[index % len(NAMES)]
    mon.event('part ' + name)
    m = make(rng, texts, name=name)
    if m.kids:
        mon.event('nested')
    exp = normal(m.wire)
    for i in range(rng.choice([1, 2])):
        if i:
            mon.event('encoded twice')
        got = wire.read('GrpcPipelinePartBase', mon.call(m.part.to_grpc_part, what='encode ' + name))
        mon.equal(normal(got), exp, 'the part reaches the backend differently', part=name)
    found = []
    mon.call(m.part.append_parts_with_callbacks, found, what='append_parts_with_callbacks')
    mon.check({id(p) for p in found} == {id(c.part) for c in m.callbacks()}, 'not exactly the parts with a callback are collected', part=name,
              found=[type(p).__name__ for p in found], wanted=[c.name for c in m.callbacks()])
    if 'configurationParameters' in repr(m.wire):
        mon.distinct(name, repr(exp).replace(str(getattr(m.part, 'uuid', '')), ''))
        mon.sample({'part': name, 'wire': repr(exp)[:200]})
