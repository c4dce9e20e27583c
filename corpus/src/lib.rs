//! Generated by tools/mkcorpus.py: do not edit.
#![allow(dead_code, unused)]
use steit::{state::State, steit_derive, types::{List, Map, Maybe}};

#[steit_derive(PartialEq, Hash, State)]
pub struct Single<A: State> {
    #[steit(tag = 0)] pub a: A
}

#[steit_derive(PartialEq, Hash, State)]
pub struct Pair<A: State, B: State> {
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 1)] pub b: B
}

#[steit_derive(PartialEq, Hash, State)]
#[steit(size_cache_renamed = "cache_of_size")]
#[steit(runtime_renamed = "where_am_i")]
pub struct Sparse<A: State, B: State, C: State> {
    #[steit(tag = 536870911)] pub c: C,
    #[steit(tag = 3)] pub a: A,
    #[steit(tag = 17)] pub b: B
}

#[steit_derive(PartialEq, Hash, State)]
pub struct Tuple<A: State, B: State>(
    #[steit(tag = 4)] pub A,
    #[steit(tag = 2)] pub B
);

#[steit_derive(PartialEq, Hash, State)]
pub struct Unit;

#[steit_derive(PartialEq, Hash, State)]
pub struct Empty {

}

#[steit_derive(PartialEq, Hash, State)]
#[steit(no_size_cache)]
pub struct NoCache<A: State, B: State> {
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 1)] pub b: B
}

#[steit_derive(PartialEq, Hash, State)]
#[steit(reserved_tags(0, 2, 3))]
pub struct Gone<A: State, B: State> {
    #[steit(tag = 1)] pub a: A,
    #[steit(tag = 4)] pub b: B
}

#[steit_derive(PartialEq, Hash, State)]
pub struct Skips<A: State, C: State> {
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 1)] #[steit(no_state)] pub b: String,
    #[steit(tag = 2)] pub c: C
}

#[steit_derive(PartialEq, Hash, State)]
pub struct Uneq<A: State, B: State, C: State> {
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 1)] #[steit(no_eq_hash)] pub b: B,
    #[steit(tag = 2)] #[steit(no_hash)] pub c: C
}

#[steit_derive(PartialEq, Hash, Serialize, Deserialize)]
pub struct Plain<A, B> {
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 1)] pub b: B
}

#[steit_derive(Serialize)]
pub struct WriteOnly<A, B> {
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 6)] pub b: B
}

#[steit_derive(Deserialize)]
pub struct ReadOnly<A, B> {
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 6)] pub b: B
}

#[steit_derive(State)]
#[steit(csharp_name = "NamedElsewhere")]
pub struct Named {
    #[steit(tag = 0)] #[steit(csharp_name = "alpha")] pub a: u32,
    #[steit(tag = 1)] pub b: bool
}

#[steit_derive(PartialEq, Hash, State)]
pub struct Zoo {
    #[steit(tag = 0)] pub n: u8,
    #[steit(tag = 1)] pub s: i16,
    #[steit(tag = 2)] pub w: u64,
    #[steit(tag = 3)] pub z: i64,
    #[steit(tag = 4)] pub f: bool,
    #[steit(tag = 5)] #[steit(no_state)] pub t: String,
    #[steit(tag = 6)] #[steit(no_state)] pub o: Option<u32>,
    #[steit(tag = 7)] #[steit(no_state)] pub v: Vec<i32>
}

#[steit_derive(State)]
pub struct Nest {
    #[steit(tag = 0)] pub l: List<Pair<u32, bool>>,
    #[steit(tag = 1)] pub m: Map<u16, Choice<i32, u8>>,
    #[steit(tag = 2)] pub y: Maybe<u32>,
    #[steit(tag = 3)] pub p: Pair<i8, List<u8>>,
    #[steit(tag = 4)] pub b: Box<Single<u16>>
}

#[steit_derive(PartialEq, Hash, State)]
pub enum Choice<A: State, B: State> {
#[steit(tag = 0)]
Nothing,
#[steit(tag = 1)]
One(
    #[steit(tag = 0)] A
),
#[steit(tag = 2)]
Two {
    #[steit(tag = 0)] x: A,
    #[steit(tag = 1)] y: B
},
}

#[steit_derive(PartialEq, Hash, State)]
#[steit(ctor_prefix = "make")]
pub enum Shuffled<A: State, B: State> {
#[steit(no_size_cache)]
#[steit(tag = 700)]
Far {
    #[steit(tag = 2)] a: A,
    #[steit(tag = 9)] b: B
},
#[steit(tag = 0)]
Home {
    #[steit(tag = 5)] a: A
},
#[steit(tag = 3)]
Mid(
    #[steit(tag = 0)] B,
    #[steit(tag = 1)] A
),
}

#[steit_derive(PartialEq, Hash, Serialize, Deserialize)]
pub enum Enc<A, B> {
#[steit(tag = 0)]
Zero {
    #[steit(tag = 0)] a: A
},
#[steit(tag = 9)]
Big {
    #[steit(tag = 1)] b: B,
    #[steit(tag = 0)] a: A
},
}

#[steit_derive(PartialEq, Hash, State)]
pub enum Hushed<A: State> {
#[steit(tag = 0)]
Off {
    #[steit(tag = 0)] #[steit(no_state)] note: String,
    #[steit(tag = 1)] a: A
},
#[steit(tag = 1)]
On {
    #[steit(tag = 0)] a: A,
    #[steit(tag = 1)] #[steit(no_eq_hash)] #[steit(no_state)] note: String
},
}

#[steit_derive(State)]
pub struct Holder<A: State, C: State> {
    #[steit(tag = 0)] pub l: List<A>,
    #[steit(tag = 1)] pub m: Map<u32, C>,
    #[steit(tag = 2)] pub b: Box<A>,
    #[steit(tag = 3)] pub p: Pair<A, List<C>>,
    #[steit(tag = 4)] pub q: (C),
    #[steit(tag = 5)] pub y: Maybe<u8>
}

#[steit_derive(Serialize, Deserialize)]
pub struct Bag<A> {
    #[steit(tag = 0)] pub o: Option<A>,
    #[steit(tag = 1)] pub v: Vec<Named>,
    #[steit(tag = 2)] pub r: [u16; 3],
    #[steit(tag = 3)] pub e: Enc<A, Vec<Unit>>,
    #[steit(tag = 4)] pub x: std::boxed::Box<i8>
}

#[steit_derive(State)]
pub struct Tree {
    #[steit(tag = 0)] pub kids: List<Tree>,
    #[steit(tag = 1)] #[steit(no_state)] pub name: String
}

#[steit_derive(State)]
#[steit(csharp_name = "LabelKinds")]
pub enum Labels {
#[steit(csharp_name = "Nil")]
#[steit(tag = 0)]
None,
#[steit(tag = 1)]
Word {
    #[steit(tag = 0)] #[steit(csharp_name = "word_id")] w: u16,
    #[steit(tag = 1)] z: u8
},
#[steit(tag = 2)]
Both(
    #[steit(tag = 3)] Tree,
    #[steit(tag = 4)] u64
),
}

#[steit_derive(PartialEq, Hash, State)]
pub enum Many<A: State, B: State> {
#[steit(size_cache_renamed = "sc")]
#[steit(runtime_renamed = "rt")]
#[steit(tag = 3)]
Third(
    #[steit(tag = 0)] A,
    #[steit(tag = 1)] #[steit(no_state)] #[steit(no_hash)] String,
    #[steit(tag = 9)] B
),
#[steit(tag = 0)]
Zero,
#[steit(tag = 536870911)]
Other {
    #[steit(tag = 7)] a: A,
    #[steit(tag = 2)] other_a: A,
    #[steit(tag = 536870911)] b: B,
    #[steit(tag = 0)] self_b: B
},
#[steit(tag = 128)]
Empty {

},
#[steit(tag = 16384)]
Quiet {
    #[steit(tag = 1)] #[steit(no_eq_hash)] b: B,
    #[steit(tag = 0)] #[steit(no_hash)] c: u64
},
}

#[steit_derive(PartialEq, Hash, State)]
pub struct TupleMix<A: State, B: State>(
    #[steit(tag = 3)] #[steit(no_state)] pub String,
    #[steit(tag = 1)] #[steit(no_hash)] pub A,
    #[steit(tag = 300)] #[steit(no_eq_hash)] pub B,
    #[steit(tag = 0)] pub i64
);

#[steit_derive(Serialize, Deserialize)]
pub enum Links<A, B> {
#[steit(tag = 1)]
One {
    #[steit(tag = 0)] b: B,
    #[steit(tag = 1)] e: Vec<Empty>
},
#[steit(tag = 0)]
Zero {
    #[steit(tag = 1)] a: A,
    #[steit(tag = 0)] u: Unit
},
#[steit(tag = 2)]
Two(
    #[steit(tag = 0)] Named,
    #[steit(tag = 5)] Option<Labels>
),
}

#[steit_derive(State)]
pub struct Loose {
    #[steit(tag = 2)] pub n: u8,
    #[steit(tag = 0)] #[steit(no_state)] pub u: Unit,
    #[steit(tag = 5)] #[steit(no_state)] pub v: Vec<Named>
}

#[steit_derive(State)]
pub enum Looser {
#[steit(tag = 0)]
Zero {
    #[steit(tag = 3)] #[steit(no_state)] u: Unit
},
#[steit(tag = 1)]
One(
    #[steit(tag = 2)] #[steit(no_state)] Option<Named>
),
}

#[steit_derive(Serialize, Deserialize)]
pub struct Ends<A> {
    #[steit(tag = 9)] pub z: Unit,
    #[steit(tag = 0)] pub a: A,
    #[steit(tag = 4)] pub e: Box<Empty>,
    #[steit(tag = 2)] pub n: Named
}
