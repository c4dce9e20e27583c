"""Witness schemas for D01: programs that must not compile, each beside a twin that must.

A witness is (rule, name, source of one module). Sources differ from their twins only in the offending part."""

TAG_MAX = (1 << 29) - 1
DERIVES = ['State', 'Serialize, Deserialize', 'Serialize', 'Deserialize', 'PartialEq, Hash, State']


def attrs(a):
    """the attribute lines of one field or variant: a list of #[steit(..)] contents, or raw text"""
    return ' '.join(x if x.startswith('#') else '#[steit(%s)]' % x for x in a)


def named(fs):
    return '{ ' + ', '.join('%s f%d: %s' % (attrs(a), i, t) for i, (a, t) in enumerate(fs)) + ' }'


def tup(fs):
    return '( ' + ', '.join('%s %s' % (attrs(a), t) for a, t in fs) + ' )'


# containers of a field list: name -> (fields, attributes of the list's owner) -> item
def s_named(fs, own=(), head='X'):
    return '%s pub struct %s %s' % (attrs(own), head, named(fs))


def s_tuple(fs, own=(), head='X'):
    return '%s pub struct %s %s;' % (attrs(own), head, tup(fs))


def v_default(fs, own=(), head='X'):
    return 'pub enum %s { #[steit(tag = 0)] %s A %s, #[steit(tag = 3)] B { #[steit(tag = 1)] g: u8 } }' % (head, attrs(own), named(fs))


def v_other(fs, own=(), head='X'):
    return 'pub enum %s { #[steit(tag = 0)] Z, #[steit(tag = 5)] Y(#[steit(tag = 2)] u8), #[steit(tag = 3)] %s B %s }' % (
        head, attrs(own), named(fs))


def v_tuple(fs, own=(), head='X'):
    return 'pub enum %s { #[steit(tag = 3)] %s B %s, #[steit(tag = 0)] Z }' % (head, attrs(own), tup(fs))


FORMS = [('struct', s_named), ('tuple struct', s_tuple), ('default variant', v_default), ('variant', v_other),
         ('tuple variant', v_tuple)]


def e_unit(vs, own=(), head='X'):
    return '%s pub enum %s { %s }' % (attrs(own), head, ', '.join('%s V%d' % (attrs(a), i) for i, a in enumerate(vs)))


def e_data(vs, own=(), head='X'):
    return '%s pub enum %s { %s }' % (attrs(own), head, ', '.join(
        '%s V%d%s' % (attrs(a), i, ['', '(#[steit(tag = 0)] u8)', ' { #[steit(tag = 1)] a: u32, #[steit(tag = 0)] b: bool }'][i % 3])
        for i, a in enumerate(vs)))


ENUMS = [('unit enum', e_unit), ('enum', e_data)]


class Gen:
    def __init__(self, thorough=False):
        self.thorough = thorough
        self.bad = []
        self.good = {}
        self.k = 0

    def item(self, item, derive):
        return 'use steit::{steit_derive, types::*, state::State};\n#[steit_derive(%s)]\n%s' % (derive, item)

    def add(self, rule, what, bad, good, derive=None, gderive=None):
        """`bad`/`good`: items; derive None: the derive lists take turns (all of them when thorough)"""
        if derive is None:
            self.k += 1
            ds = DERIVES if self.thorough else [DERIVES[self.k % len(DERIVES)]]
        else:
            ds = [derive]
        for d in ds:
            if bad is not None:
                self.bad.append((rule, '%s [%s]' % (what, d), self.item(bad, d)))
            if good is not None:
                g = self.item(good, gderive or d)
                self.good.setdefault(g, (rule, 'twin of: %s [%s]' % (what, gderive or d)))

    def tags(self, n, salt=0):
        pool = [0, 1, 7, 15, 16, 2047, 2048, 100000, TAG_MAX, 3, 40, 9, 300, 21, 22, 23, 24, 25, 26, 27]
        r = salt % len(pool)
        return (pool[r:] + pool[:r])[:n]

    # ---- rules over a list of tagged things (fields of any container, variants of an enum)

    def lists(self):
        """(what, build(list of attribute lists, owner attributes) -> item, tags(n) -> distinct tags, is enum)"""
        for nm, f in FORMS:
            yield nm, (lambda al, own=(), f=f: f([(a, ['u32', 'bool', 'i64'][i % 3]) for i, a in enumerate(al)], own)), False
        for nm, f in ENUMS:
            yield nm, (lambda al, own=(), f=f: f(al, own)), True

    def run(self):
        sizes = [1, 2, 3, 5] if not self.thorough else [1, 2, 3, 4, 5, 8, 13]
        for nm, build, en in self.lists():
            what = 'variant' if en else 'field'

            def tags(n, salt=0):
                t = [x for x in self.tags(n + 1, salt) if x]
                if en:
                    t = t[:n - 1]
                    t.insert(salt % (len(t) + 1), 0)
                    return t[:n]
                return self.tags(n, salt)
            # duplicate tags: every pair of positions
            for n in sizes:
                for i in range(n):
                    for j in range(i + 1, n):
                        t = tags(n, i + 3 * j)
                        b = list(t)
                        if en and t[j] == 0:
                            b[i], b[j] = 0, 0
                            b[i] = b[j] = 0
                        else:
                            b[j] = b[i]
                        self.add('duplicate tag', '%s: %ss %d and %d of %d both tagged %d' % (nm, what, i + 1, j + 1, n, b[j]),
                                 build([['tag = %d' % x] for x in b]), build([['tag = %d' % x] for x in t]))
            t = tags(20, 4)
            self.add('duplicate tag', '%s: first and last of 20 %ss' % (nm, what),
                     build([['tag = %d' % x] for x in t[:19] + t[:1]]), build([['tag = %d' % x] for x in t]))
            for w, x, y in (('in different notations', '0x1f', '31'), ('with a suffix', '31u32', '31'), ('with separators', '1_000', '1000')):
                base = [['tag = 0']] if en else []
                self.add('duplicate tag', '%s: equal tags %s' % (nm, w), build(base + [['tag = %s' % x], ['tag = %s' % y]]),
                         build(base + [['tag = %s' % x], ['tag = 5']]))
            # reserved tags: every position, several ways to list them
            for n in (1, 2, 4):
                for i in range(n):
                    t = tags(n, i)
                    v = t[i]
                    for own, gown in ((['reserved_tags(%d)' % v], ['reserved_tags(28)']),
                                      (['reserved_tags(28, %d)' % v], ['reserved_tags(28, 29)']),
                                      (['reserved_tags(%d, 28, 29)' % v], ['reserved_tags(30, 28, 29)']),
                                      (['reserved_tags(28)', 'reserved_tags(%d)' % v], ['reserved_tags(28)', 'reserved_tags(29)'])):
                        self.add('reserved tag', '%s: %s %d of %d uses the reserved tag %d: %s' % (nm, what, i + 1, n, v, own),
                                 build([['tag = %d' % x] for x in t], own), build([['tag = %d' % x] for x in t], gown))
            # missing tags
            for n in (1, 2, 3, 5):
                for i in range(n):
                    t = tags(n, 2 * i + 1)
                    for w, a in (('has no tag', []), ('has only a doc comment', ['#[doc = "x"]'])) + (
                            () if en else (('has other attributes only', ['no_hash', 'no_state']),)):
                        al = [['tag = %d' % x] for x in t]
                        good = build(al)
                        al[i] = list(a)
                        self.add('missing tag', '%s: %s %d of %d %s' % (nm, what, i + 1, n, w), build(al), good)
            # out of range tags
            for v in (TAG_MAX + 1, TAG_MAX + 2, (1 << 29) + 7, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
                      (1 << 35) + 5, 1 << 63, 1 << 64, (1 << 64) + 1, 1 << 128):
                for n in (1, 2, 3):
                    i = v % n
                    t = [x for x in tags(n, v % 7)]
                    if en and t[i] == 0:
                        t = t + [0]
                    if TAG_MAX in t:
                        t[t.index(TAG_MAX)] = 77
                    t[i] = TAG_MAX
                    b = list(t)
                    b[i] = v
                    self.add('out-of-range tag', '%s: %s %d of %d tagged %d' % (nm, what, i + 1, n, v),
                             build([['tag = %d' % x] for x in b]), build([['tag = %d' % x] for x in t]))
            # ill-typed attributes
            base = [['tag = 0']] if en else []
            for v in ('"1"', 'true', '1.0', "'a'", 'b"1"', "b'1'"):
                self.add('ill-typed attribute', '%s: tag = %s' % (nm, v), build(base + [['tag = %s' % v]]), build(base + [['tag = 1']]))
            for v in ('tag', 'tag(1)', 'tag = 1, 5', '"tag"'):
                self.add('ill-typed attribute', '%s: #[steit(%s)]' % (nm, v), build(base + [[v]]), build(base + [['tag = 1']]))
            for v in ('#[steit]', '#[steit = "tag"]', '#[steit = 1]'):
                self.add('ill-typed attribute', '%s: %s' % (nm, v), build(base + [['tag = 1', v]]), build(base + [['tag = 1']]))
            # repeated attributes
            for two in (['tag = 1, tag = 1'], ['tag = 1', 'tag = 1'], ['tag = 1, tag = 2'], ['tag = 1', 'tag = 2']):
                self.add('repeated attribute', '%s: %s' % (nm, two), build(base + [two]), build(base + [two[:1] if len(two) > 1 else ['tag = 1']]))
            # unknown attributes, alone, before and after a known one, in an attribute of their own
            unknown = ['tags = 1', 'Tag = 1', 'tag_ = 1', 'foo', 'foo = true', 'foo(1)', 'steit::tag = 1', 'a::tag = 1', 'ctor_prefix = "x"',
                       'derive_ctors', 'derive_setters = true', 'no_meta', 'steit_owned', 'default', 'skip']
            if en:
                unknown += ['no_hash', 'no_state', 'no_eq_hash']
            else:
                unknown += ['reserved_tags(9)', 'no_size_cache', 'runtime_renamed = "r"', 'size_cache_renamed = "s"']
            for k, u in enumerate(unknown):
                ways = [['tag = 1, ' + u], [u + ', tag = 1'], ['tag = 1', u], [u, 'tag = 1']]
                for w in (ways if self.thorough else [ways[k % 4], ways[(k + 2) % 4]]):
                    self.add('unknown attribute', '%s: %s' % (nm, w), build(base + [w]), build(base + [['tag = 1']]))
            for u in ('tags = 1', 'Tag = 1', 'steit::tag = 1', 'a::tag = 1', 'tag_ = 1', 'r#tag_ = 1'):
                self.add('unknown attribute', '%s: only %s' % (nm, u), build(base + [[u]]), build(base + [['tag = 1']]))
            if not en:
                for u in ('no_hash', 'no_state', 'no_eq_hash'):
                    for w, g in (([u + ', ' + u], [u]), ([u + ' = true', u], [u + ' = true']), ([u + ', ' + u + ' = false'], [u + ' = false'])):
                        self.add('repeated attribute', '%s: %s' % (nm, w), build([['tag = 1'] + w]), build([['tag = 1'] + g]))
                    for v in ('1', '"true"', "'t'", '1.5'):
                        self.add('ill-typed attribute', '%s: %s = %s' % (nm, u, v), build([['tag = 1', '%s = %s' % (u, v)]]),
                                 build([['tag = 1', '%s = true' % u]]))
                    self.add('ill-typed attribute', '%s: %s(true)' % (nm, u), build([['tag = 1', '%s(true)' % u]]), None)
                self.csharp(nm, lambda x: build([['tag = 1'] + x]))
        self.enums()
        self.containers()
        self.derives()
        self.types()
        self.valid()
        return self

    def csharp(self, nm, build):
        self.add('repeated attribute', nm + ': csharp_name twice', build(['csharp_name = "a", csharp_name = "b"']), build(['csharp_name = "a"']))
        self.add('repeated attribute', nm + ': csharp_name in two attributes', build(['csharp_name = "a"', 'csharp_name = "a"']),
                 build(['csharp_name = "a"']))
        for v in ('csharp_name = 1', 'csharp_name = true', 'csharp_name', 'csharp_name("a")', "csharp_name = 'a'", 'csharp_name = b"a"'):
            self.add('ill-typed attribute', '%s: %s' % (nm, v), build([v]), build(['csharp_name = "a"']))

    def enums(self):
        for nm, f in ENUMS:
            for n in (1, 2, 3, 5):
                t = [x for x in self.tags(n + 1, n) if x][:n]
                for i in range(n):
                    g = list(t)
                    g[i] = 0
                    self.add('no variant tagged 0', '%s with %d variants' % (nm, n), f([['tag = %d' % x] for x in t]),
                             f([['tag = %d' % x] for x in g]))
        for d in DERIVES:
            self.add('no variants', 'an enum without variants', 'pub enum X { }', 'pub enum X { #[steit(tag = 0)] A }', d)
            self.add('no variant tagged 0', 'one variant tagged 1', 'pub enum X { #[steit(tag = 1)] A }', 'pub enum X { #[steit(tag = 0)] A }', d)
        self.add('no variant tagged 0', 'tag 0 is only used by a field', 'pub enum X { #[steit(tag = 1)] A(#[steit(tag = 0)] u8) }',
                 'pub enum X { #[steit(tag = 0)] A(#[steit(tag = 0)] u8) }')
        # a variant's fields, where the enum is otherwise fine
        for w in ('#[steit(tag = 1, reserved_tags("a"))]', '#[steit(tag = 1, reserved_tags(a))]', '#[steit(tag = 1, reserved_tags = 1)]',
                  '#[steit(tag = 1, reserved_tags)]', '#[steit(tag = 1, reserved_tags(1.5))]', '#[steit(tag = 1, reserved_tags(true))]',
                  '#[steit(tag = 1, reserved_tags(1, a))]', '#[steit(tag = 1, reserved_tags(4294967296))]'):
            self.add('ill-typed attribute', 'variant: ' + w, 'pub enum X { #[steit(tag = 0)] A, %s B(#[steit(tag = 7)] u8) }' % w,
                     'pub enum X { #[steit(tag = 0)] A, #[steit(tag = 1, reserved_tags(1))] B(#[steit(tag = 7)] u8) }')

    def containers(self):
        for d in DERIVES:
            self.add('union', 'a union', 'pub union X { #[steit(tag = 0)] a: u32, #[steit(tag = 1)] b: u8 }',
                     'pub struct X { #[steit(tag = 0)] a: u32, #[steit(tag = 1)] b: u8 }', d)
            self.add('union', 'a union without attributes', 'pub union X { a: u32, b: u8 }',
                     'pub struct X { #[steit(tag = 0)] a: u32, #[steit(tag = 1)] b: u8 }', d)
        for h in ('<const N: usize>', '<const N: u32>', '<const B: bool>'):
            self.add('const generics', 'struct X' + h, 'pub struct X%s { #[steit(tag = 0)] a: u32 }' % h, 'pub struct X { #[steit(tag = 0)] a: u32 }')
            self.add('const generics', 'unit struct X' + h, 'pub struct X%s;' % h, 'pub struct X;')
            self.add('const generics', 'enum X' + h, 'pub enum X%s { #[steit(tag = 0)] A { #[steit(tag = 0)] a: u32 } }' % h,
                     'pub enum X { #[steit(tag = 0)] A { #[steit(tag = 0)] a: u32 } }')
        self.add('const generics', 'struct X<T, const N: usize>', 'pub struct X<T: State, const N: usize> { #[steit(tag = 0)] a: T }',
                 'pub struct X<T: State> { #[steit(tag = 0)] a: T }', 'State')
        self.add('const generics', 'used in a field type', 'pub struct X<const N: usize> { #[steit(tag = 0)] a: [u32; N] }', None, 'Serialize')
        items = [('struct', lambda own: s_named([(['tag = 0'], 'u32')], own)), ('unit struct', lambda own: attrs(own) + ' pub struct X;'),
                 ('tuple struct', lambda own: s_tuple([(['tag = 0'], 'u32')], own)),
                 ('enum', lambda own: e_data([['tag = 0'], ['tag = 1']], own))]
        for nm, it in items:
            for u in ('foo', 'foo = 1', 'foo("a")', 'tag = 1', 'tag', 'no_hash', 'no_state', 'no_eq_hash', 'reserved_tag(1)', 'reserved = 1',
                      'steit::no_meta', 'no_sizecache', 'ctor = "a"', '"no_meta"', '1', 'true', 'derive_state', 'Default'):
                self.add('unknown attribute', '%s: #[steit(%s)]' % (nm, u), it([u]), it(['no_meta']))
                self.add('unknown attribute', '%s: #[steit(no_meta, %s)]' % (nm, u), it(['no_meta, ' + u]), it(['no_meta']))
            for w in ('#[steit]', '#[steit = "a"]'):
                self.add('ill-typed attribute', '%s: %s' % (nm, w), it([w]), it([]))
            for u in ('no_size_cache', 'derive_ctors', 'derive_setters', 'no_meta'):
                d = 'State' if u != 'no_size_cache' else 'Serialize, Deserialize'
                self.add('repeated attribute', '%s: %s twice' % (nm, u), it([u + ', ' + u]), it([u]), d)
                self.add('repeated attribute', '%s: %s in two attributes' % (nm, u), it([u, u + ' = true']), it([u + ' = true']), d)
                for v in ('1', '"true"', "'x'"):
                    self.add('ill-typed attribute', '%s: %s = %s' % (nm, u, v), it(['%s = %s' % (u, v)]), it([u + ' = false']), d)
                self.add('ill-typed attribute', '%s: %s(true)' % (nm, u), it([u + '(true)']), it([u + ' = true']), d)
            for u in ('ctor_prefix', 'size_cache_renamed', 'runtime_renamed'):
                self.add('repeated attribute', '%s: %s twice' % (nm, u), it(['%s = "aa", %s = "bb"' % (u, u)]), it([u + ' = "aa"']), 'State')
                self.add('repeated attribute', '%s: %s in two attributes' % (nm, u), it([u + ' = "aa"', u + ' = "aa"']), it([u + ' = "aa"']), 'State')
                for v in (' = 1', ' = true', '', '("a")', " = 'a'"):
                    self.add('ill-typed attribute', '%s: %s%s' % (nm, u, v), it([u + v]), it([u + ' = "aa"']), 'State')
            self.add('repeated attribute', nm + ': steit_owned twice', it(['steit_owned, steit_owned']), None)
            self.add('ill-typed attribute', nm + ': steit_owned = 1', it(['steit_owned = 1']), None)
            self.csharp(nm, it)
            for v in ('reserved_tags("a")', 'reserved_tags(a)', 'reserved_tags = 1', 'reserved_tags', 'reserved_tags(1.5)', 'reserved_tags(true)',
                      'reserved_tags(7, "a")', 'reserved_tags(7, a = 1)', 'reserved_tags(7, 4294967296)', "reserved_tags('a')"):
                self.add('ill-typed attribute', '%s: %s' % (nm, v), it([v]), it(['reserved_tags(7, 8)']))
        # attributes of a variant's field list
        for u in ('no_size_cache', 'size_cache_renamed = "aa"', 'runtime_renamed = "aa"', 'csharp_name = "aa"'):
            b = lambda x: 'pub enum X { #[steit(tag = 0)] A, #[steit(tag = 1)] %s B { #[steit(tag = 0)] a: u8 } }' % x
            self.add('repeated attribute', 'variant: %s twice' % u, b('#[steit(%s, %s)]' % (u, u)), b('#[steit(%s)]' % u), 'State')
            self.add('repeated attribute', 'variant: %s in two attributes' % u, b('#[steit(%s)] #[steit(%s)]' % (u, u)), b('#[steit(%s)]' % u), 'State')
            k = u.split(' ')[0]
            for v in (' = 1', '(true)'):
                self.add('ill-typed attribute', 'variant: %s%s' % (k, v), b('#[steit(%s%s)]' % (k, v)), b('#[steit(%s)]' % u), 'State')

    def derives(self):
        it = 'pub struct X { #[steit(tag = 0)] a: u32 }'
        en = 'pub enum X { #[steit(tag = 0)] A { #[steit(tag = 0)] a: u32 } }'
        for i in (it, en):
            for k in ('Serialize', 'Deserialize', 'State', 'PartialEq', 'Default', 'Hash'):
                pre = '' if k in ('Serialize', 'Deserialize', 'State') else 'Serialize, Deserialize, '
                self.add('repeated attribute', 'derive list: %s%s, %s' % (pre, k, k), i, i, '%s%s, %s' % (pre, k, k), pre + k)
            for k in ('Stat', 'serialize', 'Steit', 'State = true', '"State"', 'State(1)', 'steit::State', 'tag = 0', 'no_meta', '1'):
                self.add('unknown attribute', 'derive list: Serialize, %s' % k, i, i, 'Serialize, ' + k, 'Serialize')

    def types(self):
        """field types without an encoding"""
        for t in ('(u32, u32)', '[u32]', 'fn(u32) -> u32', '*const u32', '<Vec<u32> as IntoIterator>::Item', 'Box<dyn Fn(u32) -> u32>', 'f32', 'char',
                  'usize', 'u128', 'std::collections::HashMap<u32, u32>', '!', 'List<(u8, u8)>', 'Map<String, u32>'):
            for f in (lambda t: s_named([(['tag = 1'], t)]), lambda t: v_other([(['tag = 1'], t)])):
                for d in ('Serialize, Deserialize', 'State'):
                    self.add('type without an encoding', '%s in %s' % (t, f('_')[:20]), f(t), f('u32'), d)
        for t in ('f32', 'char', 'usize'):
            self.add('type without an encoding', '%s, serialize only' % t, s_named([(['tag = 1'], t)]), s_named([(['tag = 1'], 'u32')]), 'Serialize')

    def valid(self):
        """schemas near the borders of the rules"""
        for what, item in [
            ('the same tags in different variants', 'pub enum X { #[steit(tag = 0)] A { #[steit(tag = 0)] a: u8, #[steit(tag = 1)] b: u8 }, '
             '#[steit(tag = 1)] B { #[steit(tag = 1)] a: u8, #[steit(tag = 0)] b: u8 } }'),
            ('a field tagged like its variant', 'pub enum X { #[steit(tag = 0)] A(#[steit(tag = 0)] u8), #[steit(tag = 9)] B(#[steit(tag = 9)] u8) }'),
            ('the default variant is the last', 'pub enum X { #[steit(tag = 9)] B(#[steit(tag = 9)] u8), #[steit(tag = 1)] C, #[steit(tag = 0)] A }'),
            ('tags reserved in an enum do not concern its fields',
             '#[steit(reserved_tags(7, 8))] pub enum X { #[steit(tag = 0)] A(#[steit(tag = 7)] u8), #[steit(tag = 9)] B { #[steit(tag = 8)] b: u8 } }'),
            ('tags reserved in a variant do not concern its siblings',
             'pub enum X { #[steit(tag = 0, reserved_tags(7))] A(#[steit(tag = 8)] u8), #[steit(tag = 7)] B { #[steit(tag = 7)] b: u8 } }'),
            ('tags reserved twice', '#[steit(reserved_tags(7, 7), reserved_tags(7))] pub struct X { #[steit(tag = 8)] a: u8 }'),
            ('an empty list of reserved tags', '#[steit(reserved_tags())] pub struct X { #[steit(tag = 8)] a: u8 }'),
            ('the largest tag', 'pub struct X { #[steit(tag = 536870911)] a: u8, #[steit(tag = 0)] b: u8 }'),
            ('the largest tag of a variant', 'pub enum X { #[steit(tag = 0)] A, #[steit(tag = 0x1fff_ffff)] B }'),
            ('foreign attributes', '#[doc = "x"] #[allow(dead_code)] pub struct X { #[doc = "y"] #[allow(dead_code)] #[steit(tag = 1)] a: u8 }'),
            ('a unit struct', 'pub struct X;'), ('an empty struct', 'pub struct X {}'), ('an empty tuple struct', 'pub struct X();'),
            ('an enum of one unit variant', 'pub enum X { #[steit(tag = 0)] A }'),
            ('all field attributes', 'pub struct X { #[steit(tag = 1, no_hash, no_state = true, no_eq_hash = false, csharp_name = "q")] a: u8 }'),
            ('attributes spread over several', 'pub struct X { #[steit(no_hash)] #[steit(tag = 1)] #[steit(csharp_name = "q", no_eq_hash)] a: u8 }'),
            ('descending tags', 'pub struct X { #[steit(tag = 9)] a: u8, #[steit(tag = 4)] b: u8, #[steit(tag = 0)] c: u8 }'),
            ('wire type bits of a tag', 'pub struct X { #[steit(tag = 1)] a: u8, #[steit(tag = 9)] b: u8, #[steit(tag = 513)] c: u8, '
             '#[steit(tag = 65537)] d: u8, #[steit(tag = 16777217)] e: u8, #[steit(tag = 268435457)] f: u8 }'),
            ('container attributes', '#[steit(ctor_prefix = "make", size_cache_renamed = "sc", runtime_renamed = "rt", csharp_name = "Q", no_meta)] '
             'pub struct X { #[steit(tag = 9)] a: u8 }'),
        ]:
            for d in DERIVES[:4]:
                self.add('valid schema', what, None, item, d)
        for what, item in [
            ('a type parameter', 'pub struct X<T: State> { #[steit(tag = 9)] a: T }'),
            ('type parameters of an enum', 'pub enum X<T: State, U: State> { #[steit(tag = 0)] A(#[steit(tag = 1)] T), #[steit(tag = 1)] B { #[steit(tag = 1)] b: List<U> } }'),
            ('a bounded type parameter', 'pub struct X<T: State + Clone> { #[steit(tag = 9)] a: Map<u8, T> }'),
            ('a box', 'pub struct X { #[steit(tag = 9)] a: Box<u8>, #[steit(tag = 1)] b: Maybe<u32> }'),
        ]:
            self.add('valid schema', what, None, item, 'State')
