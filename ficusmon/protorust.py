"""Rust types for the messages of /repo/protos, as prost lays them out, with their wire format.

The crates that generate them (tonic-build, prost-build) are not in this sandbox; this reads the same
.proto files and writes the same structs, enums and service trait against the stand-in for prost."""
import os
import re

SCALARS = {'string': 'String', 'uint32': 'u32', 'uint64': 'u64', 'int32': 'i32', 'int64': 'i64', 'bool': 'bool',
           'float': 'f32', 'double': 'f64'}


def snake(name):
    return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', name).lower()


def camel(name):
    return ''.join(p[:1].upper() + p[1:] for p in name.split('_'))


def parse(folder):
    """[(message, [(kind, name, type, tag) | ('oneof', name, [fields])])], [(rpc, in, out, stream)], service"""
    messages, rpcs, service = [], [], None
    for file in sorted(os.listdir(folder)):
        if not file.endswith('.proto'):
            continue
        with open(os.path.join(folder, file)) as f:
            text = re.sub(r'/\*.*?\*/', ' ', re.sub(r'//[^\n]*', ' ', f.read()), flags=re.S)
        tokens = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;()<>,\[\]]', text)
        i = 0

        def fields(i):
            out = []
            while tokens[i] != '}':
                if tokens[i] == 'oneof':
                    name = tokens[i + 1]
                    inner, i = fields(i + 3)
                    out.append(('oneof', name, inner))
                elif tokens[i] == ';':
                    i += 1
                else:
                    kind = 'one'
                    if tokens[i] in ('repeated', 'optional'):
                        kind = tokens[i]
                        i += 1
                    typ, name, eq, tag = tokens[i:i + 4]
                    assert eq == '=', (file, tokens[i:i + 6])
                    i += 4
                    while tokens[i] != ';':
                        i += 1
                    i += 1
                    out.append((kind, name, typ, int(tag)))
            return out, i + 1

        while i < len(tokens):
            t = tokens[i]
            if t == 'message':
                name = tokens[i + 1]
                body, i = fields(i + 3)
                messages.append((name, body))
            elif t == 'service':
                service = tokens[i + 1]
                i += 3
                while tokens[i] != '}':
                    assert tokens[i] == 'rpc'
                    name, i = tokens[i + 1], i + 3
                    cin, i = tokens[i], i + 4
                    assert tokens[i - 1] == '('
                    stream = tokens[i] == 'stream'
                    i += stream
                    rpcs.append((name, cin, tokens[i], stream))
                    i += 3
                i += 1
            else:
                while tokens[i] != ';':
                    i += 1
                i += 1
    return messages, rpcs, service


def rust_type(typ, prefix=''):
    if typ in SCALARS:
        return SCALARS[typ]
    if typ == 'google.protobuf.Empty':
        return '()'
    if typ == 'google.protobuf.Timestamp':
        return '::prost_types::Timestamp'
    return prefix + typ.split('.')[-1]


def generate(folder):
    messages, rpcs, service = parse(folder)
    out = []
    w = out.append
    for name, body in messages:
        mod = snake(name)
        w('#[derive(Clone, PartialEq, Debug, Default)]\npub struct %s {' % name)
        for f in body:
            if f[0] == 'oneof':
                w('    pub %s: ::core::option::Option<%s::%s>,' % (snake(f[1]), mod, camel(f[1])))
            else:
                kind, field, typ, _ = f
                t = rust_type(typ)
                if kind == 'repeated':
                    t = '::std::vec::Vec<%s>' % t
                elif typ not in SCALARS or kind == 'optional':
                    t = '::core::option::Option<%s>' % t
                w('    pub %s: %s,' % (snake(field), t))
        w('}')
        oneofs = [f for f in body if f[0] == 'oneof']
        if oneofs:
            w('pub mod %s {' % mod)
            for _, field, inner in oneofs:
                w('    #[derive(Clone, PartialEq, Debug)]\n    pub enum %s {' % camel(field))
                for _, n, typ, _ in inner:
                    t = rust_type(typ, 'super::')
                    w('        %s(%s),' % (camel(n), '::std::string::String' if t == 'String' else t))
                w('    }')
            w('}')
        w('impl ::prost::Message for %s {\n    #[allow(unused_variables)]\n    fn write(&self, out: &mut ::std::vec::Vec<u8>) {' % name)
        for f in body:
            if f[0] == 'oneof':
                w('        match &self.%s {\n            None => {}' % snake(f[1]))
                for _, n, typ, tag in f[2]:
                    w('            Some(%s::%s::%s(v)) => ::prost::put_%s(%d, v, out),' % (
                        mod, camel(f[1]), camel(n), 'scalar' if typ in SCALARS else 'message', tag))
                w('        }')
            else:
                kind, field, typ, tag = f
                me = 'self.%s' % snake(field)
                if kind == 'repeated' and typ in SCALARS:
                    w('        ::prost::put_scalars(%d, &%s, out);' % (tag, me))
                elif kind == 'repeated':
                    w('        for v in &%s { ::prost::put_message(%d, v, out) }' % (me, tag))
                elif typ in SCALARS and kind == 'optional':
                    w('        if let Some(v) = &%s { ::prost::put_scalar(%d, v, out) }' % (me, tag))
                elif typ in SCALARS:
                    w('        ::prost::put_default(%d, &%s, out);' % (tag, me))
                else:
                    w('        if let Some(v) = &%s { ::prost::put_message(%d, v, out) }' % (me, tag))
        w('    }\n    #[allow(unused_variables)]\n    fn field(&mut self, tag: u32, raw: ::prost::Raw) -> ::core::result::Result<(), ::prost::DecodeError> {\n'
          '        match tag {')
        for f in body:
            if f[0] == 'oneof':
                for _, n, typ, tag in f[2]:
                    variant = '%s::%s::%s' % (mod, camel(f[1]), camel(n))
                    me = 'self.%s' % snake(f[1])
                    if typ in SCALARS:
                        w('            %d => %s = Some(%s(::prost::Scalar::get(&raw)?)),' % (tag, me, variant))
                    else:
                        w('            %d => { let mut v = match %s.take() { Some(%s(v)) => v, _ => Default::default() }; '
                          '::prost::get_message(raw, &mut v)?; %s = Some(%s(v)) }' % (tag, me, variant, me, variant))
            else:
                kind, field, typ, tag = f
                me = 'self.%s' % snake(field)
                if kind == 'repeated' and typ in SCALARS:
                    w('            %d => ::prost::get_scalars(raw, &mut %s)?,' % (tag, me))
                elif kind == 'repeated':
                    w('            %d => { let mut v = Default::default(); ::prost::get_message(raw, &mut v)?; %s.push(v) }' % (tag, me))
                elif typ in SCALARS and kind == 'optional':
                    w('            %d => %s = Some(::prost::Scalar::get(&raw)?),' % (tag, me))
                elif typ in SCALARS:
                    w('            %d => %s = ::prost::Scalar::get(&raw)?,' % (tag, me))
                else:
                    w('            %d => ::prost::get_message(raw, %s.get_or_insert_with(Default::default))?,' % (tag, me))
        w('            _ => {}\n        }\n        Ok(())\n    }\n}')
    w('#[allow(async_fn_in_trait)]\npub mod %s_server {' % snake(service))
    w('    pub trait %s: Send + Sync + \'static {' % service)
    for name, cin, cout, stream in rpcs:
        o = rust_type(cout, 'super::')
        if stream:
            w('        type %sStream: ::futures::Stream<Item = ::core::result::Result<%s, ::tonic::Status>> + Send + \'static;' % (name, o))
            o = 'Self::%sStream' % name
        w('        async fn %s(&self, request: ::tonic::Request<%s>) -> ::core::result::Result<::tonic::Response<%s>, ::tonic::Status>;'
          % (snake(name), rust_type(cin, 'super::'), o))
    w('    }\n    #[derive(Debug)]\n    pub struct %sServer<T> { pub inner: T }\n    impl<T: %s> %sServer<T> { pub fn new(inner: T) -> Self '
      '{ Self { inner } } }\n}' % (service, service, service))
    return '\n'.join(out) + '\n'
