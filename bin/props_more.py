
p('R07', 'Old and new schema versions read each other\'s buffers',
  'With a schema that evolved in the ways FlatBuffers allows (fields appended or given ids, fields deprecated, enum values and union variants added), a buffer written with either version is readable with the other: fields both know read the same, fields the writer lacked (or deprecated) read as their default or as absent, and an enum value or union variant the reader does not know is an error for exactly the fields and vector elements that hold it.',
  ['inputs', 'programs', 'histories'], 'All values of the tables on either side, in every writing form, for pairs covering each kind of change, nested and in vectors.',
  'The tests hold one or two evolved pairs with fixed values; evolution is a relation between two generated programs over all values.',
  [B + 'table_reader.rs', B + 'table_writer.rs', B + 'vectors/vector.rs', B + 'union_vectors/', 'crates/planus-codegen/src/rust/mod.rs', 'crates/planus-translation/src/intermediate_language/translation.rs'],
  [('vtable lookups beyond the stored vtable', B + 'table_reader.rs'), ('field id assignment', 'crates/planus-translation/src/intermediate_language/translation.rs'), ('unknown tags', 'crates/planus-codegen/src/templates/rust/')])
p('R08', 'Vectors and their iterators behave like slices',
  'Vectors of every element type, and union vectors, behave like Rust slices of the stored elements: length, get, get_unchecked, first, last, split_first, split_last, indexing by every kind of range, iteration, chunks, chunks_exact, rchunks, rchunks_exact and windows yield the same elements, lengths, size hints and remainders under any sequence of forward and backward steps (next, next_back, nth, nth_back, last, count).',
  ['inputs', 'histories'], 'All element contents, indices, ranges and chunk sizes (very large ones included), and all step sequences within the bounds.',
  'Interleavings of forward, backward and skipping steps near the ends are where such code goes wrong; the tests walk vectors front to back.',
  [B + 'vectors/', B + 'union_vectors/'],
  [('Vector and its iterators', B + 'vectors/'), ('UnionVector and its iterators', B + 'union_vectors/')])
p('R09', 'Caches share equal objects and never change what is read',
  'With the vtable, string and byte-vector caches on, everything written reads back exactly as without them: equal strings and byte vectors written through the caches share one object, distinct ones (hash collisions included) keep their own content, tables sharing a vtable keep their own fields, the buffer stays well-formed, and after clearing the builder no object of the previous buffer is ever referred to.',
  ['inputs', 'histories'], 'All contents of the objects written, in every order of string, byte-vector, table and clear operations within the bound, with a hash that collides for all objects of equal length.',
  'A cache returns a wrong object only on a collision, on a stale entry after clearing, or for a near-equal key; no test steers the hash.',
  [B + 'builder_cache.rs', B + 'builder.rs', B + 'table_writer.rs'],
  [('Cache', B + 'builder_cache.rs'), ('cached writes', B + 'builder.rs')])
p('R10', 'The builder places objects exactly and can be reused',
  'Whatever sequence of sizes and alignments is written, the builder puts each object at the alignment asked for with the least padding, reports its length and each object\'s offset truthfully, never overlaps or alters what was written before, zeroes padding, and aligns the finished buffer to the largest alignment used; growing its memory changes nothing; a cleared builder writes the same bytes as a new one.',
  ['inputs', 'histories'], 'All contents and all sequences of object sizes, alignments and initial capacities within the bounds.',
  'Alignment, growth and reuse interact: an error shows only when a growth or a padding falls on one particular object of one particular sequence.',
  [B + 'builder.rs', B + 'backvec.rs'],
  [('Builder::prepare_write, write_with, finish', B + 'builder.rs'), ('BackVec growth', B + 'backvec.rs')])
p('R11', 'Finished buffers carry root offset and file identifier where they belong',
  'A buffer finished with a file identifier has the root offset in bytes 0 to 3 and the identifier in bytes 4 to 7, one finished without has the root offset in bytes 0 to 3 only, and in both cases the root and everything in it reads back unchanged and correctly aligned, whatever was written before.',
  ['inputs', 'histories'], 'All identifiers, root values, writing forms and alignments of preceding data.',
  'The tests finish buffers with one identifier and one alignment; the order and alignment of the two words matters only for some lengths.',
  [B + 'builder.rs'], [('Builder::finish', B + 'builder.rs')])
p('R12', 'Structs have the FlatBuffers layout and compare fieldwise',
  'Struct size, alignment (force_align included), field offsets and padding are those FlatBuffers prescribes, nested structs included; writing a struct anywhere (field, vector element, union variant) produces exactly those bytes with zero padding, and reading them yields the same fields; owned structs and references compare, order and hash fieldwise in declaration order, equal exactly when all fields are.',
  ['inputs', 'programs'], 'All field values and all byte contents, for structs combining every scalar type, enums, nesting and forced alignment.',
  'A misplaced field or padding byte is symmetric between writer and reader and invisible to round trips of the sampled structs; comparison of references is not tested.',
  ['crates/planus-codegen/src/backend_translation.rs', 'crates/planus-codegen/src/templates/rust/struct.template', 'crates/planus-translation/src/intermediate_language/translation.rs', 'crates/array-init-cursor/src/lib.rs', B + 'slice_helpers.rs'],
  [('struct layout', 'crates/planus-translation/src/intermediate_language/translation.rs'), ('padding in generated write', 'crates/planus-codegen/src/backend_translation.rs'), ('Cursor split/write', 'crates/array-init-cursor/src/lib.rs')])
p('R13', 'Enum values and their numbers correspond exactly',
  'For every enum, converting a number to the enum succeeds exactly for the declared values (explicit, negative, hexadecimal or counted on from the previous one) and yields that value; an unknown number is an error carrying that number; converting back gives the number; ENUM_VALUES lists every value once; enums order as their numbers; and they are stored in fields, vectors and structs as that number in the declared width.',
  ['inputs', 'programs'], 'All numbers of all eight integer types, and all values of the enums of the check schemas.',
  'Each conversion is over the whole integer range (64 bits for some), where the tests try a few values.',
  ['crates/planus-codegen/src/templates/rust/enum.template', 'crates/planus-codegen/src/rust/mod.rs', 'crates/planus-translation/src/intermediate_language/translation.rs', B + 'errors.rs'],
  [('generated TryFrom/From', 'crates/planus-codegen/src/templates/rust/enum.template'), ('enum value assignment', 'crates/planus-translation/src/intermediate_language/translation.rs')])
p('R14', 'Unions keep variant and value together',
  'A union value is written with the tag of its variant (numbered from 1 in declaration order) and its value behind an offset, and reads back as that variant with that value: as a field, as a required field, in a vector of unions, for table, struct and string variants. On arbitrary bytes a union is absent only when the format says so, an unknown tag is an error for that union only, and a vector of unions pairs the n-th tag with the n-th value.',
  ['inputs', 'programs'], 'All variants and values, and all byte strings up to the bound, for tables with union fields and vectors.',
  'Tag and value live in separate slots and vectors; mismatches need specific malformed or evolved buffers that the tests do not contain.',
  [B + 'table_reader.rs', B + 'union_vectors/union_vector.rs', B + 'impls/', 'crates/planus-codegen/src/templates/rust/union.template', 'crates/planus-codegen/src/rust/mod.rs'],
  [('Table::access_union, access_union_vector', B + 'table_reader.rs'), ('UnionVector', B + 'union_vectors/union_vector.rs'), ('generated union code', 'crates/planus-codegen/src/templates/rust/union.template')])
p('R15', 'Errors name the failing accessor, the place and the cause',
  'When reading fails, the error names the table type and accessor that failed and the byte offset of that table in the whole buffer (for a struct, of the failing member), also for nested tables and elements of vectors; a missing required field is reported exactly when it is missing; and unknown enum values, unknown union tags and mismatched union vector lengths are reported with the very numbers found in the buffer.',
  ['inputs'], 'All byte strings up to the length bound, for each field of tables with every kind of field, tables two levels down included.',
  'Offsets are carried along through slices relative to nested tables; the tests check the text of a few errors near the root only.',
  [B + 'errors.rs', B + 'table_reader.rs', B + 'slice_helpers.rs', B + 'union_vectors/union_vector.rs', 'crates/planus-codegen/src/rust/mod.rs'],
  [('offset_from_start bookkeeping', B + 'slice_helpers.rs'), ('error construction', B + 'table_reader.rs')])
TB = 'crates/planus-translation/src/'
TF = [TB + 'intermediate_language/translation.rs', TB + 'ast_convert.rs', 'crates/planus-types/src/', 'crates/planus-lexer/src/']
NOTE_T = 'Symbolic execution of the compiled lexer, parser and translator on schema texts with symbolic characters and an in-memory file system; every path within the bounds in the evidence file is decided by a SAT/SMT solver. Not claimed: schemas beyond the shapes and sizes enumerated.'
p('R16', 'Literals in schemas keep their exact value',
  'A default written in a schema - an integer in decimal or hexadecimal with signs and underscores, a float with signs, a string with escapes, an enum value by name or number - is accepted exactly when it is well-formed and the field type can hold it, and then stands for exactly the value written.',
  ['inputs', 'programs'], 'All digit strings around and beyond the range of each integer type, all strings of a few characters and all escapes, all names and numbers of a few characters.',
  'Range limits, signs, underscores and escapes combine freely; the tests use a few ordinary literals.',
  TF, [('translate_literal', TB + 'intermediate_language/translation.rs'), ('lexer tokens', 'crates/planus-lexer/src/raw_lexer.rs'), ('Text::run_lexer escapes', 'crates/planus-lexer/src/text_lexer.rs')], note=NOTE_T)
p('R17', 'Enum values are assigned as declared',
  'Enum variants get the value written for them, or one more than the previous variant (zero for the first); the enum is accepted exactly when all values fit its type and differ.',
  ['programs'], 'Enums of four variants of every integer type with explicit values anywhere near zero and near the limits of the type.',
  'Collisions and overflows arise from combinations of explicit and implied values at the edge of the type.',
  TF, [('translate_enum', TB + 'intermediate_language/translation.rs')], note=NOTE_T)
p('R18', 'Field ids decide the slots, and only complete numberings are accepted',
  'Without ids, table fields get consecutive vtable slots in declaration order, two for unions and vectors of unions; with ids, each field gets the slot its id names (a union its value slot, the tag in front of it). A table is accepted exactly when either no field or every field has an id, and together they use every slot from zero on exactly once; nothing else, however large, makes the compiler fail otherwise.',
  ['programs'], 'All id assignments for tables of up to three (thorough: four) fields of scalar, union and union-vector type, deprecated fields included.',
  'Duplicate, missing and overlapping ids depend on all fields together, in particular where unions take two slots.',
  TF, [('translate_table', TB + 'intermediate_language/translation.rs')], note=NOTE_T)
p('R19', 'Struct layout and field order respect alignment',
  'The compiler gives structs the FlatBuffers layout - offsets, size, alignment and padding, nested and force-aligned ones included - accepts a forced alignment exactly when it is a power of two not below the natural one, and orders the fields of a table such that written one after the other, whichever are present, each is aligned.',
  ['programs'], 'All combinations of scalar widths in structs and tables of up to three (thorough: four) fields, all forced alignments below 100, and mixtures with structs, enums, unions, strings and vectors.',
  'Layout is a function of the whole field list; the tests compile a few fixed structs.',
  TF + ['crates/planus-codegen/src/backend_translation.rs'], [('translate_struct', TB + 'intermediate_language/translation.rs'), ('alignment_order', TB + 'intermediate_language/translation.rs')], note=NOTE_T)
p('R20', 'The schema compiler never crashes',
  'Whatever text a schema file contains, compiling it yields declarations or reported errors, and formatting it yields text or nothing; neither panics, overflows or loops.',
  ['inputs'], 'All texts that continue or complete one of 24 schema fragments with any few bytes, valid UTF-8 or not.',
  'Crashes hide in combinations of tokens nobody writes on purpose; the tests compile ordinary schemas and a few known errors.',
  TF + [TB + 'pretty_print.rs', TB + 'ctx.rs'], [('lexer', 'crates/planus-lexer/src/full_lexer.rs'), ('translation of every declaration kind', TB + 'intermediate_language/translation.rs'), ('error reporting', TB + 'ctx.rs')], note=NOTE_T)
p('R21', 'Formatting keeps a schema and is idempotent',
  'Formatting a valid schema file keeps every token (but for a comma in front of a closing bracket) and every comment (but for blanks at its end) in order, whatever whitespace and comments stand between the tokens, and formatting the result again changes nothing.',
  ['inputs'], 'All placements of blanks, newlines, blank lines and comments of up to two arbitrary characters in one or two gaps of twenty schemas with every kind of declaration.',
  'A comment is lost or moved only for some placements; the tests format a few files.',
  [TB + 'pretty_print.rs', 'crates/planus-lexer/src/', 'crates/planus-types/src/cst.rs', TB + 'parser/'],
  [('PrettyPrinter', TB + 'pretty_print.rs'), ('comment attachment', 'crates/planus-lexer/src/full_lexer.rs'), ('token_metas', 'crates/planus-types/src/cst.rs')], note=NOTE_T)
p('R22', 'Type names resolve to the innermost visible declaration',
  'A type name, possibly dotted, refers to the declaration found by trying the enclosing namespace, then each namespace around it, among the files included directly or through others; it is an error exactly when there is none. Declarations of the same full name, or named like a namespace, are refused. Includes are the same file however their path is spelled. Every declaration and namespace is listed in the namespace around it.',
  ['programs'], 'All namings, over two (thorough: three) letters, of three files with namespaces of up to two levels, for several include graphs (chains and cycles of up to six files), path spellings, declaration kinds and places of reference.',
  'Shadowing and visibility depend on equalities among all names and on the include graph; the tests have a handful of such cases.',
  TF + [TB + 'intermediate_language/ast_map.rs', TB + 'util/', TB + 'ctx.rs'], [('lookup_path', TB + 'intermediate_language/translation.rs'), ('reachability', TB + 'intermediate_language/ast_map.rs'), ('normalize_path', TB + 'util/mod.rs'), ('add_schema namespace tree', TB + 'intermediate_language/translation.rs')], note=NOTE_T)
INS = 'crates/planus-buffer-inspection/src/'
p('R23', 'The inspector shows what is in the buffer',
  'For a well-formed buffer of a schema, the buffer inspector finds exactly the objects the buffer holds - tables, vtables, structs, vectors, strings, enums, union tags, scalars - each at its true byte range, under its own field name and with its true value; absent and unknown fields, unknown union tags and unknown enum numbers are shown as such; every byte leads to the object it belongs to; and nothing makes the inspector panic.',
  ['inputs', 'programs'], 'Buffers of a schema with every kind of field: all values, any subset of fields (also ones of a newer schema), vtables in front of or behind their tables, ids out of order, several vector lengths.',
  'The inspector walks offsets by its own code, apart from the generated readers; the tests look at two fixed buffers.',
  [INS + 'lib.rs', INS + 'children.rs', INS + 'object_info.rs', INS + 'object_mapping.rs'],
  [('InspectableFile, Allocations', INS + 'object_mapping.rs'), ('children of each object', INS + 'children.rs'), ('names and values', INS + 'object_info.rs')], note=NOTE_T)
p('R24', 'Doc comments document what they stand in front of',
  'A `///` comment in front of a declaration, a field, or an enum or union variant documents exactly that item, with the exact text and in order; `//!` documents the file and is accepted only at its start; doc comments anywhere else are reported, and ordinary comments never become documentation.',
  ['programs'], 'All sequences of up to three comments of each kind, with arbitrary characters, in the gaps of five schemas with every kind of declaration.',
  'Comments are attached to tokens by the lexer and picked up again by the translator; the tests compile a few files whose docs nobody checks.',
  [TB + 'ast_convert.rs', 'crates/planus-lexer/src/', 'crates/planus-types/src/cst.rs', TB + 'intermediate_language/translation.rs'],
  [('convert_docstrings, handle_invalid_docstrings', TB + 'ast_convert.rs'), ('comment attachment', 'crates/planus-lexer/src/full_lexer.rs')], note=NOTE_T)
p('R25', 'A field is required, optional or defaulted as declared',
  'For each type of table field, the compiler accepts exactly the combinations of `required`, `= null` and a default value that make sense for the type, and the field is then required, optional or defaulted with exactly the declared value - or the default of its type when nothing is declared.',
  ['programs'], 'All combinations of attribute, null and default (symbolic digits and letters) for fifteen field types.',
  'Whether an absent field is an error, nothing or a value is decided by attribute, default and type together; the tests use a few of the combinations.',
  TF, [('translate_table_field', TB + 'intermediate_language/translation.rs'), ('attributes', TB + 'ast_convert.rs')], note=NOTE_T)
CG = 'crates/planus-codegen/src/'
NOTE_G = 'Symbolic execution of the compiled schema compiler and code generator; the names and types of the schema are symbolic and made definite by the solver, one path for each, where they are hashed; a reader of Rust items in the harness reads the generated code. Not claimed: that generated code compiles in every other respect; tables named like the type parameters of generated builders (T0, T1, ...).'
p('R26', 'Generated items have valid, distinct names, and references lead to them',
  'In generated Rust code every declaration becomes an item in the module of its namespace, and every field and variant a member of that item, under names that Rust accepts and nothing else in the same scope has - whatever names the schema uses: keywords, names that differ only in case or underscores, names left with a digit at the front, names like those generated for another declaration (FooRef, FooBuilder). The type of each field and of its getter leads to the item of the declaration the schema refers to, in whatever namespace.',
  ['programs'], 'All pairs of names of up to two (thorough: three) characters of each case, digit and underscore, with suffixes of generated names, and all words of Rust, for declarations of each kind, their fields and variants, and namespaces side by side and nested.',
  'Two names collide only after case conversion, and only for some pairs of kinds; the tests generate code for a few schemas with ordinary names.',
  [CG + 'rust/mod.rs', CG + 'backend.rs', CG + 'backend_translation.rs', CG + 'templates/rust/'],
  [('Names', CG + 'backend.rs'), ('reserve_* and generate_*', CG + 'rust/mod.rs'), ('RelativeNamespace', CG + 'backend.rs'), ('run_backend', CG + 'backend_translation.rs')], note=NOTE_G)
p('R27', 'Generated types implement the traits their contents allow',
  'A generated table, struct or union implements Eq, Ord and Hash exactly if no float can be reached through its fields, through whatever chain or cycle of declarations; a table or struct implements Default exactly if each of its fields has a default (one declared, absence, an empty string or vector, or that of a struct or a required table); and turning a reference into an owned value is infallible (From rather than TryFrom) exactly for structs that contain no enum and unions of such structs.',
  ['programs'], 'All types for the fields of up to three tables, structs and unions that refer to each other, in vectors or not, required or not.',
  'The traits are found by a fixed point over the graph of declarations; the tests see a few graphs.',
  [CG + 'analysis.rs', CG + 'rust/analysis.rs', CG + 'templates/rust/', TB + 'intermediate_language/translation.rs'],
  [('run_analysis', CG + 'analysis.rs'), ('DefaultAnalysis, EqAnalysis, InfallibleConversionAnalysis', CG + 'rust/analysis.rs'), ('derives', CG + 'templates/rust/')], note=NOTE_G)
