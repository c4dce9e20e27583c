#!/usr/bin/env python3
"""Generates corpus/src/lib.rs and corpus/oracle.json from one schema table.

The corpus is what the derive macro is applied to: the analysis looks at the *expansion* (its MIR), so a
change of the macro shows up here.  Generic fields stand for "any field type"."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def F(name, ty, tag, *attrs):
    return {'name': name, 'ty': ty, 'tag': tag, 'attrs': list(attrs)}


def S(name, fields, generics='', derive='PartialEq, Hash, State', kind='named', attrs=(), extra=''):
    return {'k': 'struct', 'name': name, 'generics': generics, 'derive': derive, 'fields': fields, 'kind': kind,
            'attrs': list(attrs)}


def V(name, tag, fields=(), kind='named', attrs=()):
    return {'name': name, 'tag': tag, 'fields': list(fields), 'kind': kind, 'attrs': list(attrs)}


def E(name, variants, generics='', derive='PartialEq, Hash, State', attrs=()):
    return {'k': 'enum', 'name': name, 'generics': generics, 'derive': derive, 'variants': variants,
            'attrs': list(attrs)}


TYPES = [
    S('Single', [F('a', 'A', 0)], 'A'),
    S('Pair', [F('a', 'A', 0), F('b', 'B', 1)], 'A, B'),
    S('Sparse', [F('c', 'C', 536870911), F('a', 'A', 3), F('b', 'B', 17)], 'A, B, C',
      attrs=['size_cache_renamed = "cache_of_size"', 'runtime_renamed = "where_am_i"']),
    S('Tuple', [F(None, 'A', 4), F(None, 'B', 2)], 'A, B', kind='tuple'),
    S('Unit', [], kind='unit'),
    S('Empty', [], kind='named'),
    S('NoCache', [F('a', 'A', 0), F('b', 'B', 1)], 'A, B', attrs=['no_size_cache']),
    S('Gone', [F('a', 'A', 1), F('b', 'B', 4)], 'A, B', attrs=['reserved_tags(0, 2, 3)']),
    S('Skips', [F('a', 'A', 0), F('b', 'String', 1, 'no_state'), F('c', 'C', 2)], 'A, C'),
    S('Uneq', [F('a', 'A', 0), F('b', 'B', 1, 'no_eq_hash'), F('c', 'C', 2, 'no_hash')], 'A, B, C',
      derive='PartialEq, Hash, State'),
    S('Plain', [F('a', 'A', 0), F('b', 'B', 1)], 'A, B', derive='PartialEq, Hash, Serialize, Deserialize'),
    S('WriteOnly', [F('a', 'A', 0), F('b', 'B', 6)], 'A, B', derive='Serialize'),
    S('ReadOnly', [F('a', 'A', 0), F('b', 'B', 6)], 'A, B', derive='Deserialize'),
    S('Named', [F('a', 'u32', 0, 'csharp_name = "alpha"'), F('b', 'bool', 1)], derive='State',
      attrs=['csharp_name = "NamedElsewhere"']),
    S('Zoo', [F('n', 'u8', 0), F('s', 'i16', 1), F('w', 'u64', 2), F('z', 'i64', 3), F('f', 'bool', 4),
              F('t', 'String', 5, 'no_state'), F('o', 'Option<u32>', 6, 'no_state'),
              F('v', 'Vec<i32>', 7, 'no_state')], derive='PartialEq, Hash, State'),
    S('Nest', [F('l', 'List<Pair<u32, bool>>', 0), F('m', 'Map<u16, Choice<i32, u8>>', 1),
               F('y', 'Maybe<u32>', 2), F('p', 'Pair<i8, List<u8>>', 3),
               F('b', 'Box<Single<u16>>', 4)], derive='State'),
    E('Choice', [V('Nothing', 0, kind='unit'), V('One', 1, [F(None, 'A', 0)], kind='tuple'),
                 V('Two', 2, [F('x', 'A', 0), F('y', 'B', 1)])], 'A, B'),
    E('Shuffled', [V('Far', 700, [F('a', 'A', 2), F('b', 'B', 9)], attrs=['no_size_cache']),
                   V('Home', 0, [F('a', 'A', 5)]), V('Mid', 3, [F(None, 'B', 0), F(None, 'A', 1)], kind='tuple')],
      'A, B', attrs=['ctor_prefix = "make"']),
    E('Enc', [V('Zero', 0, [F('a', 'A', 0)]), V('Big', 9, [F('b', 'B', 1), F('a', 'A', 0)])], 'A, B',
      derive='PartialEq, Hash, Serialize, Deserialize'),
    E('Hushed', [V('Off', 0, [F('note', 'String', 0, 'no_state'), F('a', 'A', 1)]),
                 V('On', 1, [F('a', 'A', 0), F('note', 'String', 1, 'no_eq_hash', 'no_state')])], 'A',
      derive='PartialEq, Hash, State'),
    S('Holder', [F('l', 'List<A>', 0), F('m', 'Map<u32, C>', 1), F('b', 'Box<A>', 2), F('p', 'Pair<A, List<C>>', 3),
                 F('q', '(C)', 4), F('y', 'Maybe<u8>', 5)], 'A, C', derive='State'),
    S('Bag', [F('o', 'Option<A>', 0), F('v', 'Vec<Named>', 1), F('r', '[u16; 3]', 2), F('e', 'Enc<A, Vec<Unit>>', 3),
              F('x', 'std::boxed::Box<i8>', 4)], 'A', derive='Serialize, Deserialize'),
    S('Tree', [F('kids', 'List<Tree>', 0), F('name', 'String', 1, 'no_state')], derive='State'),
    E('Labels', [V('None', 0, kind='unit', attrs=['csharp_name = "Nil"']),
                 V('Word', 1, [F('w', 'u16', 0, 'csharp_name = "word_id"'), F('z', 'u8', 1)]),
                 V('Both', 2, [F(None, 'Tree', 3), F(None, 'u64', 4)], kind='tuple')], '',
      derive='State', attrs=['csharp_name = "LabelKinds"']),
    E('Many', [V('Third', 3, [F(None, 'A', 0), F(None, 'String', 1, 'no_state', 'no_hash'), F(None, 'B', 9)], kind='tuple',
                 attrs=['size_cache_renamed = "sc"', 'runtime_renamed = "rt"']),
               V('Zero', 0, kind='unit'),
               V('Other', 536870911, [F('a', 'A', 7), F('other_a', 'A', 2), F('b', 'B', 536870911), F('self_b', 'B', 0)]),
               V('Empty', 128, []),
               V('Quiet', 16384, [F('b', 'B', 1, 'no_eq_hash'), F('c', 'u64', 0, 'no_hash')])], 'A, B',
      derive='PartialEq, Hash, State'),
    S('TupleMix', [F(None, 'String', 3, 'no_state'), F(None, 'A', 1, 'no_hash'), F(None, 'B', 300, 'no_eq_hash'),
                   F(None, 'i64', 0)], 'A, B', kind='tuple', derive='PartialEq, Hash, State'),
    # every message and parameter is mentioned in one place only
    E('Links', [V('One', 1, [F('b', 'B', 0), F('e', 'Vec<Empty>', 1)]), V('Zero', 0, [F('a', 'A', 1), F('u', 'Unit', 0)]),
                V('Two', 2, [F(None, 'Named', 0), F(None, 'Option<Labels>', 5)], kind='tuple')], 'A, B',
      derive='Serialize, Deserialize'),
    # untracked fields with messages and parameters of their own
    S('Loose', [F('n', 'u8', 2), F('u', 'Unit', 0, 'no_state'), F('v', 'Vec<Named>', 5, 'no_state')], derive='State'),
    E('Looser', [V('Zero', 0, [F('u', 'Unit', 3, 'no_state')]), V('One', 1, [F(None, 'Option<Named>', 2, 'no_state')], kind='tuple')],
      derive='State'),
    S('Ends', [F('z', 'Unit', 9), F('a', 'A', 0), F('e', 'Box<Empty>', 4), F('n', 'Named', 2)], 'A',
      derive='Serialize, Deserialize'),
]


def attr(a):
    return '#[steit(%s)]' % a


def fields_src(kind, fields, pub):
    out = []
    for f in fields:
        a = attr('tag = %d' % f['tag']) + ''.join(' ' + attr(x) for x in f['attrs'])
        p = 'pub ' if pub else ''
        out.append('    %s %s%s' % (a, p, f['ty'] if f['name'] is None else '%s: %s' % (f['name'], f['ty'])))
    if kind == 'unit':
        return ''
    if kind == 'tuple':
        return '(\n%s\n)' % ',\n'.join(out)
    return ' {\n%s\n}' % ',\n'.join(out)


def src():
    o = ['//! Generated by tools/mkcorpus.py: do not edit.',
         '#![allow(dead_code, unused)]',
         'use steit::{state::State, steit_derive, types::{List, Map, Maybe}};', '']
    for t in TYPES:
        o.append('#[steit_derive(%s)]' % t['derive'])
        for a in t['attrs']:
            o.append(attr(a))
        b = ': State' if 'State' in t['derive'] else ''
        g = '<%s>' % ', '.join(x.strip() + b for x in t['generics'].split(',')) if t['generics'] else ''
        if t['k'] == 'struct':
            body = fields_src(t['kind'], t['fields'], True)
            o.append('pub struct %s%s%s%s' % (t['name'], g, body, ';' if t['kind'] in ('tuple', 'unit') else ''))
        else:
            o.append('pub enum %s%s {' % (t['name'], g))
            for v in t['variants']:
                for a in v['attrs']:
                    o.append(attr(a))
                o.append(attr('tag = %d' % v['tag']))
                o.append('%s%s,' % (v['name'], fields_src(v['kind'], v['fields'], False)))
            o.append('}')
        o.append('')
    return '\n'.join(o)


def write(path, s):
    if not os.path.exists(path) or open(path).read() != s:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, 'w').write(s)


if __name__ == '__main__':
    write(HERE + '/corpus/src/lib.rs', src())
    write(HERE + '/corpus/oracle.json', json.dumps(TYPES, indent=1) + '\n')
    write(HERE + '/corpus/Cargo.toml', '''[package]
name = "corpus"
version = "0.0.0"
edition = "2018"
publish = false

[dependencies]
steit = { path = "/repo/steit" }

[workspace]
''')
