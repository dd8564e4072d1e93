"""Generates properties.jsonl (kept in step with MANIFEST.json by bin/mkmanifest)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                  mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))


p('P01', 'Integers load as exactly the number written, or the load fails',
  'Loading a signed or unsigned integer (decimal, octal or hexadecimal text) stores exactly the number written, in exactly the number of bytes the schema gives the member, leaving every neighbouring byte alone; nothing wraps, is truncated or changes sign. Text that is not entirely a number, a number that does not fit the member (1 to 8 bytes, signed or unsigned) or lies outside the schema\'s min/max (inclusive; not applied when both are 0), or one the client\'s validator rejects, makes the load fail with the embedded member unchanged. The validator is called exactly once, with the loaded value, for values that passed every other test.',
  ['inputs', 'configurations'], 'every text, member size, min/max, flags, callback and prior member content',
  'The tests sample a handful of values and sizes; wrap-around and off-by-one at 2^(8n-1), 2^(8n) and min/max for each of eight sizes needs every value and every size.',
  ['src/load.c', 'src/data.h'], [('cyaml__read_int / cyaml__read_uint', 'src/load.c'), ('cyaml__store_int / cyaml__store_uint', 'src/load.c'), ('cyaml_data_write', 'src/data.h')],
  ['cyaml_load_data result and the loaded struct'])
p('P02', 'Booleans and enumerations load by name exactly as documented',
  'A boolean is false exactly for the documented false spellings (false, no, off, disable, 0, matched without case), true for anything else. An enumeration value is the value of the first table entry whose name equals the text under the effective case rule; when no name matches, a strict enumeration fails, and a non-strict one accepts only a whole number that fits the member. The member changes only when the load succeeds, and the result occupies exactly the member\'s bytes.',
  ['inputs', 'configurations'], 'every text, every name table of any size with any collisions, every flag combination and member size',
  'Tests use small tables without colliding names, and a few sizes; first-match and case precedence need all tables.',
  ['src/load.c'], [('cyaml__read_bool', 'src/load.c'), ('cyaml__read_enum', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P03', 'Flags and bitfields load to exactly the union of the entries given',
  'A flags value is the bitwise OR of the values of all listed names (or, when the schema is not strict, numbers); a bitfield value has each listed field set to exactly the number given and every other bit zero. A name not in the table (strict), a number or field value too large for the member or for its bit range, or a nested node makes the load fail instead of storing a wrong bit pattern, and no machine shift is ever out of range.',
  ['inputs', 'configurations'], 'every sequence or mapping of entries of any length, every name table, member size and bit range',
  'Tests use short lists, narrow fields and member sizes where shifts cannot overflow; the guarantee is over every list, bit offset and width.',
  ['src/load.c'], [('cyaml__read_flags_value / cyaml__set_flag', 'src/load.c'), ('cyaml__read_bitfield_value / cyaml__set_bitval', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P04', 'Floating point loads are correctly stored, strictness honoured',
  'Loading a floating point value stores exactly the double (8-byte member) or the float (4-byte member) nearest to the text, and only a text that is entirely a number is accepted. A value out of the member\'s range (overflow or underflow) is an error when the schema asks for strictness and is stored as the nearest representable value otherwise; other member sizes are rejected. A rejected value changes nothing in an embedded member, and the validator, called once, sees the value loaded.',
  ['inputs', 'configurations'], 'every text, every double, every size and flag combination',
  'Tests try a few values; rounding to float, overflow and underflow for every double cannot be enumerated by them.',
  ['src/load.c'], [('cyaml__read_float', 'src/load.c'), ('cyaml__store_float', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P05', 'Strings load byte for byte within their limits, NUL terminated',
  'A loaded string is byte for byte the YAML scalar (up to its first NUL, if it has one) followed by a terminating NUL; for an embedded string it never writes outside the declared data size, for a pointer it fits its own allocation exactly. A string shorter than the schema\'s minimum, longer than its maximum, that does not fit an embedded array together with its NUL, or that the validator rejects, makes the load fail. ',
  ['inputs', 'configurations'], 'strings of every length and content, every min/max/data size',
  'Off-by-one on the terminator and on min/max needs every length against every limit; tests try a few.',
  ['src/load.c'], [('cyaml__read_string / cyaml__store_string', 'src/load.c'), ('cyaml__data_handle_pointer', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P06', 'Each value is matched to its schema type; null pointers as documented',
  'A value is accepted only when its YAML node kind is the one its schema type requires (scalars for scalar types, mappings for mappings, sequences for sequences, sequence for flags, mapping for bitfields, anything for ignored values); any other combination fails. A pointer member becomes NULL exactly when NULL is allowed and the scalar is empty, or NULL spellings are allowed and it is one of ~, null, Null, NULL; otherwise it points at fresh zeroed storage of the value\'s size. Values that are not pointers are never null and never allocated.',
  ['inputs', 'configurations'], 'every event kind, schema type, flag combination, scalar text and prior content',
  'The product of node kinds, types and pointer flags is only sampled by tests.',
  ['src/load.c'], [('cyaml__read_value', 'src/load.c'), ('cyaml__validate_event_type_for_schema', 'src/load.c'), ('cyaml__string_is_null_ptr', 'src/load.c'), ('cyaml__data_handle_pointer', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P07', 'Sequences load every entry in order, counted, and within limits',
  'Loading a sequence stores entry k of the document at position k of the client\'s array, whose storage always covers all entries loaded so far, and the client\'s count equals the number of entries and fits the member that holds it. A sequence with fewer entries than the minimum or more than the maximum, a fixed-length sequence whose limits differ, a variable-length sequence directly inside a sequence, or one whose validator rejects it makes the load fail. The validator is called once, at the end, with the array and its count.',
  ['inputs', 'histories'], 'every number of entries, entry size, count size and offset, limits, and every history of earlier entries',
  'Tests load short sequences with 4-byte counts; the inductive step (entry k for every k, every size) is what they cannot cover.',
  ['src/load.c'], [('cyaml__seq_entry / cyaml__seq_end', 'src/load.c'), ('cyaml__data_handle_pointer', 'src/load.c'), ('cyaml__stack_push', 'src/load.c')], ['cyaml_load_data result, loaded array and count'])
p('P08', 'Mapping keys select exactly their schema field, once each',
  'Each key of a loaded mapping selects the first schema field whose name equals it under the effective case rule, and its value is read with that field\'s schema into exactly that field\'s place in the client\'s structure. A key seen twice in one mapping (other than for an ignored field) is an error; an unknown key is an error unless unknown keys are to be ignored, in which case the key and its whole value, however nested, are skipped and nothing else changes.',
  ['inputs', 'histories', 'configurations'], 'every field table of any size, every key, every set of fields already seen, every nesting of ignored values',
  'Tests use mappings of a few fields; duplicate detection beyond field 32, first match among colliding names, and deep ignored values need all tables and nestings.',
  ['src/load.c'], [('cyaml__map_key', 'src/load.c'), ('cyaml__get_mapping_field_idx', 'src/load.c'), ('cyaml__mapping_bitfieid_check/set', 'src/load.c'), ('cyaml__map_value', 'src/load.c'), ('cyaml__consume_ignored_value', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P09', 'Missing required fields fail; missing optional fields get their default',
  'A mapping loads only if every field not marked optional was present. Each missing optional field ends up holding exactly the default its schema declares (numbers, names, strings, and deep copies of mapping and sequence defaults, with the sequence count), or all zero bytes when no default is declared, in the same representation a loaded value would have; fields that were present are not touched. The mapping validator runs once, after defaults are in place, and its rejection fails the load.',
  ['inputs', 'configurations', 'histories'], 'every field table size, every subset of fields present, every type, flag and default value',
  'Tests cover a few fields per mapping; every subset of any number of fields and every type x pointer combination is out of their reach.',
  ['src/load.c'], [('cyaml__mapping_bitfieid_validate', 'src/load.c'), ('cyaml__field_apply_default', 'src/load.c'), ('cyaml__map_end', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P10', 'A load is all-or-nothing and leaks nothing, whatever fails',
  'A load either succeeds and hands over the complete data (and count), or returns an error, leaves the caller\'s output pointers untouched and has freed everything it allocated; a failed allocation anywhere yields the out-of-memory error. Everything allocated while loading is at all times reachable from the load\'s own state or from the data being built, all memory comes from and returns to the client\'s allocator with the client\'s context, and no freed memory is used again.',
  ['inputs', 'fault_sequences'], 'every event history, every point of failure, including every allocation failing',
  'The tests fail allocations at sampled points of a few documents; the guarantee is for every failure point of every document.',
  ['src/load.c', 'src/mem.h', 'src/mem.c'], [('cyaml__load cleanup', 'src/load.c'), ('cyaml__stack_push / cyaml__stack_pop', 'src/load.c'), ('cyaml__free_recording', 'src/load.c'), ('cyaml__realloc', 'src/mem.h')], ['allocator callback trace, cyaml_load_data result'])
p('P11', 'Aliases replay exactly the anchored node, or are rejected',
  'An alias stands for exactly the events of the most recently completed node with that anchor name, in order, including any aliases inside it, so the loaded data equals that of the expanded document. An alias with no completed anchor of exactly that name is an error, any alias is an error when aliases are disallowed by the configuration, and events that are not aliased are passed through once, unchanged and in order.',
  ['inputs', 'histories', 'configurations'], 'every document with any number of anchors and aliases, nested and redefined',
  'Tests hold a few dozen fixed documents; anchors nested in anchors, redefinition and names that are prefixes of each other need all histories.',
  ['src/load.c'], [('cyaml_get_next_event', 'src/load.c'), ('cyaml__handle_alias', 'src/load.c'), ('cyaml__handle_anchor / cyaml__handle_record / cyaml__handle_replay', 'src/load.c')], ['cyaml_load_data result and the loaded struct'])
p('P12', 'Only well-formed single-document streams load, and only the first',
  'The load consumes stream start, one document with exactly the structure the nesting of mappings and sequences implies, and the end; an event that is impossible at that point is rejected. Documents after the first are ignored. When a load succeeds every mapping and sequence that was opened has been closed, at any nesting depth.',
  ['inputs', 'histories'], 'every state of the loader and every event, every nesting depth',
  'The state machine has an unbounded stack; tests exercise shallow nesting and expected events only.',
  ['src/load.c'], [('cyaml__load_event dispatch table', 'src/load.c'), ('cyaml__stack_push / cyaml__stack_pop', 'src/load.c'), ('cyaml__load loop', 'src/load.c')], ['cyaml_load_data result'])
p('P14', 'Numbers are saved as text that reads back as the same value',
  'Every integer, boolean and floating point member is saved as a plain scalar whose text denotes exactly the value in the client\'s data, read from exactly the member\'s bytes with the correct sign, or in the format the schema requests. A member size the type cannot have is an error, not a wrong value.',
  ['inputs', 'configurations'], 'every value of every member size from 1 to 8 bytes',
  'Tests save a handful of values; sign extension at each of eight widths and every value need the quantifier.',
  ['src/save.c', 'src/data.h'], [('cyaml__write_int/uint/bool/float', 'src/save.c'), ('cyaml_data_read', 'src/data.h')], ['text of cyaml_save_data output'])
p('P15', 'Enumerations, flags and bitfields are saved by name, losing nothing',
  'An enumeration is saved as the name of the first table entry with its value; a value without a name is an error when strict and is saved as its number otherwise. Flags are saved as the list of names of the set bits, with bits that no name covers saved as a number (or an error when strict); a bitfield is saved as a mapping of the names and values of the fields that are non-zero. What is saved always loads back to the same value.',
  ['inputs', 'configurations'], 'every value, every table of any size, every member size and flag combination',
  'Tests use small tables and values without leftover bits; every value against every table is the guarantee.',
  ['src/save.c'], [('cyaml__write_enum', 'src/save.c'), ('cyaml__emit_flags_sequence', 'src/save.c'), ('cyaml__emit_bitfield_mapping', 'src/save.c')], ['text of cyaml_save_data output'])
p('P16', 'The saved document mirrors the client data, in order and style',
  'Saving emits stream and document start, then exactly the nodes the schema and data describe, then the matching ends: every mapping field in schema order as key then value (optional fields that are NULL pointers, and ignored fields, are left out), every sequence entry in order up to its count, NULL pointers as null where allowed and otherwise an error. Block or flow style follows the value\'s flag, then the configuration; document markers follow the configuration. A fixed-length sequence whose schema limits differ, a variable-length sequence directly inside a sequence, and a sequence count member of impossible size are errors.',
  ['inputs', 'histories', 'configurations'], 'every schema, every data, every nesting depth and length',
  'Tests save small structures; order, nesting and count handling for all lengths and depths is an inductive claim.',
  ['src/save.c'], [('cyaml__save state machine', 'src/save.c'), ('cyaml__write_mapping / cyaml__write_sequence', 'src/save.c'), ('cyaml__write_value', 'src/save.c')], ['text of cyaml_save_data output'])
p('P17', 'A save hands over the whole output or fails and leaks nothing',
  'Saving to a buffer returns a buffer from the client\'s allocator holding exactly the bytes the emitter produced, in order, with their number, or returns an error, leaves the outputs untouched and has freed everything; saving to a file fails when the file cannot be opened or the emitter fails. Every emitter failure and every allocation failure is reported, with everything the save allocated freed.',
  ['inputs', 'fault_sequences', 'histories'], 'every sequence of output chunks, every point of failure',
  'Tests fail sampled allocations of a few saves; buffer growth across all chunk sizes and each failure point is the guarantee.',
  ['src/save.c'], [('cyaml__buffer_handler', 'src/save.c'), ('cyaml_save_data / cyaml_save_file', 'src/save.c'), ('cyaml__save cleanup', 'src/save.c')], ['cyaml_save_data result, allocator trace'])
p('P18', 'A copy is deep, equal to the original and independent of it',
  'A successful copy is equal to the original at every level the schema describes (scalars, strings, mappings, sequences of any length and nesting, NULL pointers where allowed) and shares no memory with it; the original is not modified. A failed copy returns an error, has freed everything it allocated and leaves the output untouched. Freeing the copy with the same schema frees exactly what the copy allocated.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every schema, data, nesting and length, every point of failure',
  'Tests copy a few structures; deep equality and independence for all shapes, and every failure point, are beyond sampling.',
  ['src/copy.c'], [('cyaml_copy', 'src/copy.c'), ('cyaml__clone_* functions', 'src/copy.c')], ['cyaml_copy result, allocator trace'])
p('P19', 'Freeing releases every allocation of the data exactly once',
  'Freeing data with its schema passes to the client\'s allocator every block the schema reaches from it (pointer values, strings, the entries of mappings and sequences up to their counts, defaults included), each exactly once, children before the block that refers to them, and nothing else; NULL pointers at any level are skipped and a NULL argument is harmless or reported as documented. Partially built data, as a failed load leaves it, is freed the same way.',
  ['inputs', 'histories'], 'every schema and data: any number of fields, entries, count size and nesting depth',
  'Valgrind on the tests sees only the shapes tested; large counts, fixed-length sequences nested in sequences and partially built data need the inductive argument.',
  ['src/free.c'], [('cyaml__free_value / cyaml__free_mapping / cyaml__free_sequence', 'src/free.c'), ('cyaml_free', 'src/free.c')], ['allocator callback trace'])
p('P20', 'Public entry points reject bad parameters before doing anything',
  'Loading, saving, copying and freeing return the documented error for a NULL configuration, a configuration without an allocator and a NULL schema; loading, saving and copying also for a sequence count given for a non-sequence or missing for a sequence; loading and saving for a top-level value that is not a pointer; loading and copying for a missing output, and copying for an output pointer that is not NULL where one is to be filled in; saving for missing data. In those cases nothing is allocated through the client\'s allocator, no event is parsed, nothing is emitted and no client data is changed (saving to a file opens the file first). With valid parameters none of these errors is returned.',
  ['inputs', 'configurations'], 'every combination of arguments and schema type',
  'Tests try one bad argument at a time against a few schema types.',
  ['src/load.c', 'src/save.c', 'src/copy.c', 'src/free.c'], [('cyaml__validate_load_params', 'src/load.c'), ('cyaml__validate_save_params', 'src/save.c'), ('cyaml__validate_copy_params', 'src/copy.c'), ('cyaml_free', 'src/free.c')], ['return codes of the public API'])
p('P21', 'Text comparison is total, case-correct and never reads out of bounds',
  'Comparing two NUL-terminated strings without case reads no byte past either terminator whatever bytes they hold (truncated, overlong or invalid UTF-8 included), terminates, is reflexive and antisymmetric, and answers equal exactly when the two strings are the same sequence of characters up to case. A character is its code point folded to one case for ASCII and the upper/lower pairs of the Latin blocks (U+0000 to U+024F) the library supports; a truncated or overlong sequence counts as U+FFFD and takes only its well-formed bytes; a byte that cannot start a character takes one byte and equals only another such byte. Which comparison X the documented precedence: the value\'s insensitive flag, its sensitive flag, the configuration\'s flag, else case-sensitive.',
  ['inputs', 'configurations'], 'every pair of byte strings of any length, every code point, every flag combination',
  'Tests compare a few dozen strings; invalid sequences at every position and all of Unicode cannot be sampled.',
  ['src/utf8.c', 'src/utf8.h', 'src/util.h'], [('cyaml_utf8_casecmp', 'src/utf8.c'), ('cyaml_utf8_get_codepoint', 'src/utf8.c'), ('cyaml_utf8_to_lower', 'src/utf8.c'), ('cyaml__strcmp / cyaml__is_case_sensitive', 'src/util.h')], ['key and name matching in cyaml_load_data'])
p('P22', 'Diagnostics are safe: every code has its message, logs are valid and levelled',
  'Every error code maps to its own non-NULL documented string and any other value to the out-of-range string. A message reaches the client\'s log function exactly when one is set and the message\'s level is at least the configured level, with the client\'s context and the caller\'s arguments; every text a message names is a string, never NULL, and the backtrace of a failed load, save or copy stays inside the state stack and the field tables, whatever the state at the failure.',
  ['inputs', 'configurations'], 'every error code, log level and configuration',
  'Tests check a few codes and one log level; adding or reordering codes silently shifts messages.',
  ['src/util.c', 'src/util.h'], [('cyaml_strerror', 'src/util.c'), ('cyaml__log / cyaml_log', 'src/util.c')], ['cyaml_strerror, log callback'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(x) + '\n' for x in P))
