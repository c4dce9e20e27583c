"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

IM='steit/src/impls/'; DER='steit-derive/src/derive/'
p('C01','Serialized size equals bytes written',
  'For every value of every serializable type, built in or derived, the size reported for it equals the number of bytes that serializing it writes. The length prefix written in front of a nested value equals the number of payload bytes that follow it.',
  ['inputs','programs'],'every value, every built-in serializable type, every struct/enum shape the derive accepts',
  'The tests compare sizes for a few dozen literal values; the size computation and the writer are two separate pieces of code per type that must agree for all values.',
  ['steit/src/ser.rs',IM+'*.rs','steit/src/types/*.rs',DER+'field.rs',DER+'struct.rs',DER+'enum.rs'],
  [('nested size/writer pair','Serialize::compute_size_nested / serialize_nested'),('varint sizes','size_32/size_64'),('derived sizer/serializer','DeriveField::sizer / serializer')],
  ['compute_size vs. bytes emitted by serialize_cached'])
p('C02','Integer and boolean encodings are exact',
  'For every value of each of the eight integer types and of bool, the encoder writes the minimal base-128 varint (zigzag first for signed types), and decoding that encoding returns the original value having consumed exactly those bytes.',
  ['inputs'],'all 2^n values of u8..u64, i8..i64, bool',
  'The tests sample a handful of values per width; the encoding changes shape at every 7-bit boundary and at the sign boundary.',
  [IM+'varint.rs',IM+'bool.rs'],[('varint writer/reader','impl_unsigned_varint!'),('zigzag','impl_signed_varint! encode/decode')],
  ['bytes written', 'value read'])
p('C03','Field tags pack and unpack losslessly',
  'Packing a field number up to 2^29-1 together with a wire type and unpacking the result gives back the same pair, with distinct pairs packing to distinct values. Packing a larger number, and unpacking a value whose wire-type bits are not one of the two defined codes (0 and 2), fails with an error.',
  ['inputs'],'every 32-bit field number / raw tag value and both wire types',
  'Tests check a few tags; the guarantee is over the full 32-bit space and both directions.',
  ['steit/src/wire_fmt.rs','steit/src/de/reader.rs'],[('pack/unpack','wire_fmt::tag / parse_tag / WireType::from_value')],['returned pair or error'])
p('C04','Written composite values are read back into place',
  'Every built-in container and every derived struct or enum reads back the layout it writes: the same field tags, wire types, variant tags and element order, each value returning to the field, index or key it came from. A field is left out of the output only if its value is exactly what a reader that does not find it produces.',
  ['inputs','programs'],'every container, every derivable shape and every value',
  'Writer and reader tables are generated separately by the derive macro and written separately by hand for containers; tests exercise a few shapes.',
  [DER+'struct.rs',DER+'enum.rs',DER+'field.rs',IM+'*.rs','steit/src/types/*.rs'],
  [('writer table','DeriveField::serializer'),('reader table','DeriveField::merger')],['decoded value vs. original'])
p('C05','Unknown and mistyped fields are skipped exactly',
  'When a reader meets a field it does not know, or a known field carrying a different wire type than declared, it leaves the value untouched and resumes exactly after that field\'s encoding, whatever the field\'s number, wire type, value and length.',
  ['inputs','programs'],'every field number, both wire types, every varint length and every payload length',
  'Tests skip a couple of one- and two-byte fields only.',
  ['steit/src/de/reader.rs','steit/src/de/de.rs',DER+'struct.rs','steit/src/types/map/map.rs'],[('skipping','Reader::skip_field'),('mismatch','Deserialize::merge_nested')],['position after the skipped field','value'])
p('C06','Malformed input is an error, never a crash',
  'Decoding or replaying arbitrary bytes returns a value or an error, and an error for text that is not UTF-8: it does not panic, overflow, index out of bounds, loop without consuming input, or allocate memory in proportion to a length that the input merely claims. Nesting depth of the input is out of scope.',
  ['inputs'],'every byte string, for every decodable type and for replay into every state type',
  'Robustness to all inputs cannot be sampled; the existing tests contain almost no malformed input.',
  ['steit/src/de/*.rs',IM+'*.rs','steit/src/types/*.rs','steit/src/state.rs',DER+'*.rs'],[('decoders','Deserialize::merge implementations'),('replay','State::handle implementations')],['panic or allocation sites reachable from decoding'])
p('C07','Truncated input is detected',
  'If the input ends before the bytes that a varint, a length-prefixed value, a skipped field or a further value of a tuple or of a key-value pair calls for, decoding reports an error instead of accepting the partial data. An error reported by the underlying reader is passed on, never swallowed.',
  ['inputs','fault_sequences'],'every truncation point of every encoding; every read failure',
  'Tests have no truncation sweep and no failing readers.',
  ['steit/src/de/reader.rs','steit/src/de/de.rs',IM+'*.rs','steit/src/types/*.rs'],[('exact reads','read_exact'),('nested limit','Reader::nested / merge_nested')],['result of decoding'])
p('C08','A nested value is confined to its declared length',
  'Reading a length-prefixed value never consumes bytes beyond its declared length, and when it succeeds the enclosing reader stands exactly after those bytes, whatever the nested payload contains.',
  ['inputs','programs'],'every declared length, payload and nested type',
  'Confinement holds over all payloads, including ones with trailing or unknown content, of which tests sample a few.',
  ['steit/src/de/reader.rs','steit/src/de/de.rs',IM+'*.rs'],[('limit','Reader::nested'),('consume to end','merge implementations of length-prefixed types')],['reader position after nested value'])
p('C09','Serialization never uses a stale cached size',
  'Any complete serialization of a value, through every public entry point that produces bytes, recomputes the sizes it is about to write, so that changes made since the previous serialization, at any nesting depth, are reflected in every length prefix.',
  ['histories','inputs'],'every interleaving of mutations and serializations',
  'Needs mutate-serialize-mutate histories at every depth and for every entry point; tests mostly serialize fresh values once.',
  ['steit/src/ser.rs','steit/src/types/bytes.rs','steit/src/log/loggers/*.rs','steit/src/rt/size_cache.rs'],[('refresh','Serialize::cache_size'),('entry points','steit_serialize, to_bytes, Bytes::from_value, loggers')],['length prefixes'])
p('C10','Bookkeeping never affects equality or hash',
  'Two values whose user-visible fields are equal compare equal and hash equally, whatever their logger, path or cached size; derived equality compares every field not opted out, and derived hashing covers only fields that equality compares. Different enum variants never compare equal.',
  ['inputs','programs'],'every derivable shape and every pair of values',
  'Tests compare values that share bookkeeping; the contract ranges over all shapes and attribute combinations.',
  ['steit/src/rt/runtime.rs','steit/src/rt/size_cache.rs',DER+'field.rs',DER+'struct.rs',DER+'enum.rs','steit/src/types/*.rs'],[('neutral bookkeeping','PartialEq/Hash for Runtime and SizeCache'),('derived eq/hash','DeriveField::eq / hash')],['eq and hash results'])
p('L01','Collection changes are logged exactly',
  'Every operation that changes a list or map through its own methods logs entries that describe exactly that change (kind, position or key, and the new item in full), in order, exactly once; an operation that changes nothing logs nothing.',
  ['inputs','histories'],'every list/map operation in every state (empty, single, last element, absent key, existing key)',
  'Tests drive a few histories; the log must match for every state an operation can start from.',
  ['steit/src/types/list.rs','steit/src/types/map/map.rs'],[('operations','List::push/push_with/pop/swap_remove, Map::insert/insert_with/remove')],['entries given to the logger vs. change of contents'])
p('L02','Field and variant changes are logged exactly',
  'Setting a field of a derived state value logs one update carrying the new value under that field\'s tag; setting a field of an enum variant that is not current first logs the switch to that variant. Fields excluded from state tracking log no field update.',
  ['inputs','programs','histories'],'every derivable shape, every setter, every current variant',
  'Setters are macro-generated for every shape; tests cover one or two shapes.',
  [DER+'field.rs',DER+'struct.rs',DER+'enum.rs'],[('setters','DeriveField::setter')],['entries given to the logger'])
p('L03','Every attached node knows its own place',
  'Whenever a value is stored inside a state tree, by construction, setter, list or map operation, decoding, replay or re-rooting, the path it will log under is its parent\'s path followed by the tag, index or key under which the tree serializes and replays it.',
  ['histories','programs'],'every way of attaching or moving a node, for every node type',
  'Paths must stay right after any history of moves; tests check a few chains.',
  ['steit/src/types/list.rs','steit/src/types/map/map.rs','steit/src/types/maybe.rs','steit/src/rt/runtime.rs','steit/src/rt/node.rs',IM+'box.rs',DER+'*.rs'],[('path assignment','Runtime::nested, State::set_runtime, State::with_runtime')],['path of log entries from the node'])
p('L04','Pausing suppresses logging and is balanced',
  'While a logger is paused no entry reaches the underlying logger, and when it is not paused every entry does, unchanged; pauses nest, so logging resumes only after as many resumes as pauses. Every library operation that pauses logging resumes it the same number of times before returning.',
  ['histories'],'every nesting of pause/resume and every operation that pauses',
  'Nesting and balance are properties of all histories.',
  ['steit/src/rt/logger.rs','steit/src/rt/runtime.rs','steit/src/types/list.rs','steit/src/types/map/map.rs',DER+'field.rs'],[('counter','RuntimeLogger'),('pairs','pause_logger/unpause_logger')],['entries reaching the inner logger'])
p('L05','Replay applies the change an entry describes',
  'Replaying an entry descends along its path and applies exactly the described change to the addressed node: update replaces, push appends, pop removes the last item, remove deletes the key. An entry whose path leads to no node, or whose kind the node does not support, is rejected with an error and changes nothing; one addressed to a field excluded from state tracking is ignored.',
  ['inputs','histories'],'every node type, path, entry kind and starting state',
  'Dispatch is generated per shape; tests replay a few recorded logs.',
  ['steit/src/state.rs','steit/src/types/list.rs','steit/src/types/map/map.rs',IM+'macros.rs',IM+'box.rs',DER+'struct.rs',DER+'enum.rs',DER+'field.rs'],[('dispatch','State::handle')],['state after replay'])
p('L06','Replaying and decoding never log',
  'Applying a log to a state, or decoding bytes into one, emits no log entry and does not pause, resume or replace the logger of that state.',
  ['inputs','histories'],'every input and every state type',
  'A leak shows only for the particular entry kind, node type and path that reaches the logging call.',
  ['steit/src/state.rs','steit/src/types/*.rs',DER+'*.rs'],[('no path to the logger','State::handle, Deserialize::merge')],['entries reaching the logger during replay'])
p('L07','Replay is for roots and consumes the whole log',
  'Replay refuses, without changing anything, a value that is not the root of its tree, and accepts every root, boxed or enum ones included. It applies every entry of the input in order and stops with an error at the first entry that fails.',
  ['inputs','histories'],'every root/non-root state type and every log',
  'Tests replay into a few root types and never into a misplaced or boxed one.',
  ['steit/src/state.rs',IM+'box.rs',DER+'enum.rs'],[('root test','State::is_root'),('loop','State::replay')],['result and state after replay'])
p('L08','A replayed update replaces the whole value',
  'After an update entry is replayed on a node, the node holds exactly the value in the entry, with nothing left over from before, and keeps its place in the tree and its logger.',
  ['inputs','histories'],'every node type and every previous and new value',
  'Stale remains appear only for particular pairs of old and new values.',
  ['steit/src/state.rs',IM+'macros.rs',IM+'box.rs',DER+'enum.rs'],[('reset then merge','State::handle_update')],['state after replay'])
p('L09','A change is logged before it is made',
  'In every mutating operation the log entries are handed to the logger before the value changes, so that if the logger fails the operation does not complete and the contents are as they were.',
  ['fault_sequences','histories'],'every mutating operation and every failing entry',
  'Tests never use a failing logger.',
  ['steit/src/types/list.rs','steit/src/types/map/map.rs',DER+'field.rs','steit/src/rt/runtime.rs'],[('write-ahead order','log_* before mutation'),('error check','unwrap/? on log results')],['contents after a failing log call'])
p('L10','Log entries are complete and unambiguous',
  'Each log entry records its own kind, the full path from the root in root-to-leaf order and, where the kind has one, the complete encoding of the new value or the removed key. Replay recovers exactly that kind, path, key and value from the encoded entry.',
  ['inputs','histories'],'every entry kind, path depth, key and value',
  'Tests compare a few literal entries.',
  ['steit/src/log/entry.rs','steit/src/rt/node.rs','steit/src/rt/runtime.rs','steit/src/state.rs'],[('construction','LogEntry::new_*, Node::collect_values'),('unpacking','unpack_log_entry')],['entry fields'])
p('L11','Loggers keep every entry, in order',
  'The buffering logger holds every entry logged since it was last drained, in order: its bytes are their concatenated encodings, draining returns and clears all of them, and clearing removes all of them. Logging a batch is the same as logging its entries one by one in order up to the first failure, and wrapping a logger forwards every entry and every error.',
  ['histories','fault_sequences'],'every sequence of log, batch, drain and clear calls',
  'Order and completeness over all histories; tests log at most a few entries.',
  ['steit/src/log/logger.rs','steit/src/log/loggers/*.rs','steit/src/rt/logger.rs'],[('loggers','Logger implementations')],['entries / bytes out'])
p('L12','No user code runs under the logger lock',
  'The lock protecting a tree\'s shared logger is held only while an entry, batch or pause/resume is handed over: no caller-supplied function, value conversion or serialization runs, and the lock is not taken again, while it is held. The entries of one batch are handed over under a single acquisition.',
  ['schedules'],'every operation, thread interleaving and caller-supplied function',
  'Deadlocks and interleavings show only under particular schedules or reentrant callbacks.',
  ['steit/src/rt/runtime.rs','steit/src/types/*.rs',DER+'field.rs'],[('lock regions','Runtime::log, log_multi, pause_logger, unpause_logger')],['calls made while the lock is held'])
p('L13','Map keys are always valid for the key type',
  'Every key stored in a map, by insertion, collecting, decoding or replay, fits a field number and converts back to the map\'s key type, so that iterating and serializing never fail on it; a decoded or replayed key outside that range is rejected with an error. Key conversion is exact in both directions.',
  ['inputs','histories'],'every key type and every 32-bit key in the input',
  'Tests use small u32-like keys that are always in range.',
  ['steit/src/types/map/map.rs','steit/src/types/map/key.rs','steit/src/types/map/iter.rs'],[('validation','MapKey::try_from_field_number')],['iteration after decode/replay'])
p('L14','Collections, Maybe and constructors do and answer what their names say',
  'A List behaves as a sequence and a Map as a key-value map: for every contents, index and key, each operation makes exactly the change its name stands for and answers what it stands for (push the new index; pop, swap_remove and remove the item taken out, or None when there is none; insert the value replaced; get, get_mut, index, contains, len and iteration the contents themselves, all of them and in order), and collecting keeps every item. Maybe is some or none exactly as made, converts to and from Option and compares with it accordingly. Constructors and Default make the variant they name (the one tagged 0 by default) with nothing in its fields, and setters answer the value they were called on.',
  ['inputs','histories'],'every contents, index, key and starting variant, and every derivable state type',
  'Tests look at a few lists of up to three items; most answers of Map operations and the combinations of presence and absence are never looked at.',
  ['steit/src/types/list.rs','steit/src/types/map/map.rs','steit/src/types/maybe.rs',DER+'struct.rs',DER+'enum.rs'],[('operations','List, Map, Maybe, derived constructors and setters')],['answers and contents after an operation'])
p('D01','Invalid schemas are rejected at compile time',
  'The derive rejects, with a compile error, every schema whose encoding would be ambiguous or undefined: duplicate, reserved, missing or out-of-range tags (of fields and of variants), enums without a variant tagged 0 or without variants, unions, const generics, and unknown, repeated or ill-typed attributes. Valid schemas that differ only by the offending part compile.',
  ['programs'],'every program using the derive',
  'The repository has no compile-fail tests at all.',
  [DER+'*.rs','steit-derive/src/attr.rs','steit-derive/src/ctx.rs'],[('validation','parse_fields, parse_variants, tag::validate, Attribute::set, parse_meta')],['compiler outcome'])
p('D02','Metadata agrees with the wire behaviour',
  'The metadata a type publishes for client generation lists exactly its serialized fields and variants, with the tags under which they are really encoded, their names, and types whose declared wire type is the one really written; and it links every message type its fields refer to.',
  ['programs'],'every built-in type and every derivable shape',
  'Tests check generated text for one schema.',
  ['steit/src/meta/*.rs',IM+'*.rs','steit/src/types/*.rs',DER+'field.rs',DER+'struct.rs',DER+'enum.rs'],[('tables','HasMeta::TYPE / LINK')],['metadata vs. serializer tables'])
p('D03','Generation reaches every message and reports failures',
  'Generating a client visits every message type reachable through the published links, in any graph including cyclic ones, terminates, and emits each one that settings do not skip exactly once under its own name. Every file-system failure, a failed final write included, is returned as an error.',
  ['programs','fault_sequences'],'every metadata graph and every I/O failure',
  'One schema and no I/O failures are tested.',
  ['steit/src/gen/gen_util.rs','steit/src/gen/generator.rs'],[('traversal','collect_meta / visit_link'),('output','Generator::generate')],['files written, result'])
p('D04','Generated sources are well nested',
  'For every schema, the generated client source has balanced braces, and its indentation returns to the outer level at the end of every block and of the file.',
  ['programs'],'every metadata graph: any number of fields, variants and type parameters',
  'One schema is generated in tests, and the result is not compiled.',
  ['steit/src/gen/generators/csharp.rs','steit/src/gen/writer.rs'],[('emitters','gen_struct / gen_enum')],['generated text'])
p('D05','The generated client agrees with the schema',
  'In the client source generated for a message type, every field (or variant) of its metadata is declared, looked up by tag and replaced by tag exactly once, each under its own tag, name and type, and no other tag is handled; the wire type answered for a tag is the one the Rust side writes; only fields that are states are nested; the variant tagged 0 is the default; unknown tags are skipped; and classes of generic types are always named with their type parameters.',
  ['programs'],'every metadata graph: any number of fields, variants and type parameters, every field type',
  'One schema is generated in tests; the generated source is compared with a committed copy and never run against the Rust side.',
  ['steit/src/gen/generators/csharp.rs','steit/src/meta/*.rs'],[('emitters','gen_struct / gen_enum / field_type')],['generated text'])
CS='steit-csharp/src/'
p('D06','The C# reader decodes what the Rust side encodes',
  'Given the bytes the Rust encoder writes for any integer of any width, boolean, text, field key or length-prefixed value, the C# client reads back that value and consumes exactly those bytes, never reads past the end of its input without an error, and skips a field of either wire type exactly.',
  ['inputs'],'every value of every primitive type and every byte string of every length up to the longest encoding of the type',
  'No test runs the C# side; the two sides are written in different languages and must agree on 2^64 values per type.',
  [CS+'Codec/*.cs','steit/src/impls/primitives.rs','steit/src/wire_fmt.rs'],[('readers','Reader.Read*, ByteReader'),('framing','Reader.GetNested / SkipField / ReadKey')],['values returned and bytes consumed by the C# reader'])
p('D07','The C# classes of the built-in types carry the metadata of the Rust types',
  'For every built-in type published to clients (LogEntry, Maybe, List, Map, Vec, bytes, Option), the C# client has a class of that name and arity; for LogEntry and Maybe each tag of the Rust metadata is declared, constructed, expected with the wire type, nested and replaced as the Rust type with that tag, at the path of that tag, and no other tag is.',
  ['programs','inputs'],'every tag of every built-in type, for every type argument',
  'The committed C# classes are not compiled or run by any test, and nothing compares their tags and types with the Rust metadata.',
  [CS+'State/LogEntry.cs',CS+'Builtins/*.cs',CS+'Collections/*.cs','steit/src/log/entry.rs','steit/src/types/*.rs'],[('classes','GetWireType / GetNested / ReplaceAt per class')],['C# state after reading'])
p('D08','The C# client applies each log entry to the state its path names',
  'For any log entry, the client navigates from the root along all of the path (all but the last tag for an update), updates, pushes, pops or removes exactly there and exactly as the Rust replay does, deserializes an empty-path update into the root, reads every field of a message until its end, skips what it does not know, gives every element of a list, vector or map the position or key it has on the Rust side, and tells listeners of the change before it is made, once, with the old and the new value.',
  ['histories','inputs'],'every log entry on every state, every number of elements and path length',
  'No test runs the C# side against a log.',
  [CS+'State/State.cs',CS+'State/StateReplayer.cs',CS+'State/StateFactory.cs',CS+'Collections/*.cs',CS+'Builtins/*.cs'],[('replay','StateReplayer.Replay'),('containers','ReplaceAt / ReplayListPush / ReplayListPop / ReplayMapRemove')],['C# state and events'])
p('D09','Generated clients are C# that fits the client runtime',
  'For every schema whose names differ from those the generated classes and the client use themselves, what is generated parses as C#, implements every member of the interfaces it names, and uses only types, members, overloads and namespaces that the client runtime and the schema declare and that are accessible from it; every method returns on every path and no switch section falls through.',
  ['programs'],'every schema: every number of fields, variants and type parameters, every kind of field type',
  'No C# compiler runs in any test: a generated class that does not compile passes them all.',
  ['steit/src/gen/generators/csharp.rs',CS],[('emitters','gen_struct / gen_enum / gen_file_opening'),('client API','StateFactory, Reader, Path, IState, event args')],['generated text'])
p('N01','Replaying a recorded log reproduces the state',
  'For every history of operations on a state, replaying the bytes its logger recorded into a fresh state yields an equal state.',
  ['histories'],'every history over every state type','Quantifies over all histories.',
  ['steit/src/state.rs','steit/src/types/*.rs'],[('log + replay','whole system')],['final states'])
p('N02','A C# client ends in the state of the server',
  'For every history of operations, a C# client that reads an initial state and replays the log recorded since ends in a state equal to the one on the Rust side.',
  ['inputs','histories','programs'],'every schema and every log','No test runs the C# side.',
  ['steit-csharp/','steit/src/gen/generators/csharp.rs'],[('client runtime','steit-csharp')],['client state'])
p('N03','Deeply nested input does not exhaust the stack',
  'Decoding input of any nesting depth terminates with a value or an error without exhausting the stack.',
  ['inputs'],'every nesting depth','Depth is unbounded.',
  ['steit/src/de/de.rs'],[('recursion','merge_nested')],['stack use'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
except ImportError: pass
print(len(P))
