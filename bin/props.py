#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, stmt, over, qtext, why, files, mech, observe=(), level=None, note=None, na=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, q=qtext, why=why, files=files, mech=mech, observe=list(observe), level=level, note=note, na=na))


B = 'crates/planus/src/'
NOTE = 'Symbolic execution of the compiled code (planus, and the code the current compiler generates for the check schemas); every path within the bounds in the evidence file is decided by a SAT/SMT solver. Trusts rustc/LLVM up to the IR, the executor (cross-checked: each run replays path witnesses on the native binary) and the oracle stated in DESIGN.md.'
SYM = 'symbolic execution of LLVM IR from /repo, bit-precise SAT (z3-confirmed), counterexamples replayed natively'

p('R01', 'What is written reads back as the same value',
  'Any value of a generated table type, written into a builder in any of the offered forms (owned value, create function, field builder, nested values or prepared offsets), reads back through the generated accessors as the value that was written, and converts back into an owned value equal to it. This holds wherever in the buffer the table ends up and whatever was written before it. (A float equal to its default, -0.0 included, reads back as the default.)',
  ['inputs', 'programs', 'histories'], 'All field values, presence patterns, vector and string lengths and contents, and alignments of what precedes the table, for tables with every kind of field the schema language offers.',
  'The examples write a handful of fixed monsters; field values, presence combinations, alignments and writing forms multiply beyond any sampled set.',
  [B + 'builder.rs', B + 'table_writer.rs', B + 'table_reader.rs', B + 'impls/', 'crates/planus-codegen/src/rust/mod.rs', 'crates/planus-codegen/src/backend_translation.rs'],
  [('TableWriter two-pass layout', B + 'table_writer.rs'), ('Builder prepare_write alignment', B + 'builder.rs'), ('generated prepare/accessors', 'crates/planus-codegen/src/templates/rust/')])
p('R02', 'Written buffers are well-formed FlatBuffers',
  'Every finished buffer follows the FlatBuffers binary format: an independent reader finds exactly the written value in it, every scalar, struct, offset, table and vtable lies at its natural alignment counted from the end of the buffer, objects lie inside the buffer and do not overlap, strings are zero-terminated, and vtables state their own size and their table\'s size correctly. Absent and default-valued fields are omitted, and every byte no object uses is zero.',
  ['inputs', 'programs', 'histories'], 'All field values, presence patterns, vector and string lengths, writing forms and alignments of preceding data.',
  'Alignment and layout depend on the combination of everything written before; the tests compare a few golden buffers and mostly read them back with planus itself, which hides errors made symmetrically.',
  [B + 'builder.rs', B + 'backvec.rs', B + 'table_writer.rs', B + 'impls/', B + 'traits/mod.rs', 'crates/planus-codegen/src/backend_translation.rs', 'crates/planus-codegen/src/rust/mod.rs'],
  [('Builder::write_with / prepare_write', B + 'builder.rs'), ('TableWriter::finish vtable and padding', B + 'table_writer.rs'), ('struct padding and field order in generated code', 'crates/planus-codegen/src/backend_translation.rs')])
p('R03', 'Reading untrusted bytes never panics or touches foreign memory',
  'For every byte string, reading it as any generated table type, walking every field, vector element, string and union through the accessors, and converting it to an owned value either yields values or errors. It never panics, overflows or reads outside the given bytes.',
  ['inputs'], 'All byte strings up to the length bound, for tables with every kind of field.',
  'Malformed buffers form an astronomically large set of which the tests contain almost none; a single unchecked offset suffices.',
  [B + 'slice_helpers.rs', B + 'table_reader.rs', B + 'impls/', B + 'vectors/', B + 'union_vectors/', 'crates/planus-codegen/src/rust/mod.rs'],
  [('SliceWithStartOffset::advance', B + 'slice_helpers.rs'), ('table_reader::Table::from_buffer', B + 'table_reader.rs'), ('vector length checks', B + 'vectors/vector.rs')])
p('R04', 'Owned conversion agrees with the buffer',
  'Converting a table reference to its owned type succeeds exactly when all the content it has to copy is readable, and the owned value then has exactly that content.',
  ['inputs'], 'All byte strings up to the length bound, including malformed ones, for tables with every kind of field.',
  'The existing tests convert a few well-formed buffers only; a conversion that drops an error or an element shows on specific malformed inputs only.',
  [B + 'traits/mod.rs', B + 'vectors/vector.rs', B + 'union_vectors/union_vector.rs', 'crates/planus-codegen/src/rust/mod.rs'],
  [('TryFrom<TRef> for T', 'crates/planus-codegen/src/templates/rust/'), ('Vector::to_vec_result', B + 'vectors/vector.rs')])
p('R05', 'Accessors mean what the FlatBuffers format says, on any bytes',
  'On every byte string, whether well-formed or not, each accessor of a table yields exactly what the FlatBuffers format defines for those bytes: the stored value, the default, absence, or an error when an offset, length, enum value, string or required field is invalid. (A vtable that ends between the two slots of a union counts as invalid; a nested table whose vtable lies in front of the object referring to it is a known exception.)',
  ['inputs'], 'All byte strings up to the length bound, for each field of tables with every kind of field.',
  'Buffers produced by other writers, and corrupted ones, use layouts planus never writes; the tests read such buffers only in a few fixed cases.',
  [B + 'table_reader.rs', B + 'slice_helpers.rs', B + 'impls/', B + 'vectors/vector.rs', B + 'union_vectors/union_vector.rs', 'crates/planus-codegen/src/rust/mod.rs'],
  [('Table::access/access_required/access_union', B + 'table_reader.rs'), ('TableRead impls', B + 'impls/')])

p('R06', 'Defaults and optional fields keep their meaning',
  'A field left out of the buffer reads as the schema default (absent for null-default and reference fields), the Default value of the owned type carries the same defaults, setting a field to its default in any offered way (owned value, the _as_default and _as_null setters, DefaultValue and unit arguments) stores nothing, a field equal to its default is never stored, and null-default scalars keep absent apart from present, zero included.',
  ['inputs', 'programs'], 'Every scalar type and enum with implicit, explicit and null defaults, string and empty-vector defaults, all field values, all alignments of preceding data.',
  'A wrong default shows only for the one value compared with it, and on absent fields only; the tests check few defaults and never that nothing was stored.',
  [B + 'impls/primitives.rs', B + 'impls/bool_.rs', B + 'impls/str.rs', B + 'impls/string.rs', B + 'impls/vec.rs', B + 'impls/slice.rs', B + 'impls/option.rs', B + 'lib.rs', 'crates/planus-codegen/src/rust/mod.rs'],
  [('WriteAsDefault impls', B + 'impls/'), ('default literals in generated code', 'crates/planus-codegen/src/rust/mod.rs'), ('DefaultValue', B + 'lib.rs')])

exec(open(os.path.join(ROOT, 'bin', 'props_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'bin', 'props_more.py')) else None


def main():
    import jobs as J
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for x in P:
            a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']], 'hook_needed': None}
            if x['observe']: a['observe_at'] = x['observe']
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['stmt'], 'quantifier': {'over': x['over'], 'text': x['q']}, 'why_tests_cant': x['why'], 'anchors': a}) + '\n')
            assert len(x['title']) <= 80, x['title']
    m = {'version': 1, 'setup_cmd': 'python3 bin/check.py --setup', 'checks': [], 'not_applicable': []}
    for x in P:
        if x['na']:
            m['not_applicable'].append({'property': x['id'], 'reason': x['na']})
        else:
            assert x['id'] in J.REG, x['id']
            m['checks'].append({'property': x['id'], 'quick_cmd': 'python3 bin/check.py %s' % x['id'], 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % x['id'],
                                'technique': SYM, 'level': x['level'] or 'model_checking', 'level_note': x['note'] or NOTE})
    m['notes'] = 'No hooks in /repo: the harness crates in /verif/harness use public interfaces only. Known findings: known-findings.json.'
    json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)


main()
