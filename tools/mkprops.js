// Regenerates /verif/properties.jsonl (kept as a script so the JSON stays valid).
const fs = require('fs'), path = require('path');
const F = { main: 'src/main.rs', check: 'src/lib/check.rs', ts: 'src/lib/gen/ts.rs', gen: 'src/lib/gen/mod.rs', ctx: 'src/lib/gen/gen_ctx.rs', lib: 'src/lib/lib.rs', parser: 'src/lib/parser.rs' };
const P = [];
function add(id, title, statement, over, qtext, why, files, mechanism, observe, state) {
  P.push({ id, title, statement, quantifier: { over, text: qtext }, why_tests_cant: why,
    anchors: { files, ...(state ? { state } : {}), mechanism: mechanism.map(([name, where]) => ({ name, where })), observe_at: observe, hook_needed: null } });
}

add('C01', 'Independently built endpoints speak the same wire format',
  'For every accepted schema, all compiler runs over the same schema text yield endpoints that encode any given message to identical bytes and decode each other\'s packets to the same message. This holds whatever the random hash seed, clock, directory enumeration order, path form, batch or single-file invocation and sibling files of each build. Rebuilding or redeploying one side never changes the wire format.',
  ['programs', 'inputs', 'schedules', 'configurations'], 'every accepted schema, every pair of builds (hash seed, clock, time zone, directory order, invocation form), every message, every redeploy point',
  'Unit tests run one compile per schema in one process with whatever hash seed it got and compare text fragments; they never compare two builds, and never run the generated code.',
  [F.check, F.ts, F.gen], [['two-pass type resolution over hash maps', 'src/lib/check.rs resolve_one_second_pass / resolve_second_pass'], ['inline read/write generation in field order', 'src/lib/gen/ts.rs gen_write_impl_struct, gen_read_impl_struct']],
  ['bytes returned by write() of modules from different builds', 'object returned by read() of another build'],
  [{ name: 'std RandomState keys', meaning: 'iteration order of the unresolved-type map', where: 'src/lib/check.rs' }]);

add('C02', 'A packet delivered intact decodes to exactly the message sent',
  'Whenever a packet reaches a receiver unmodified, decoding it yields exactly the message the sender encoded: every integer extreme, float, string, array (empty included), enum variant and optional (present or absent, falsy values included), at every nesting depth. The result does not depend on what else the link lost, duplicated, reordered, delayed or corrupted, on endpoint restarts and redeploys, or on whether the sender encoded into a reused buffer.',
  ['programs', 'inputs', 'histories', 'fault_sequences'], 'every accepted schema, every message, every history of deliveries and link faults, every restart or redeploy point',
  'No existing test executes the generated code; the four text snapshots cover about a dozen field shapes and no history.',
  [F.ts, F.ctx, F.check], [['mirrored read and write generators', 'src/lib/gen/ts.rs'], ['scratch name stack', 'src/lib/gen/gen_ctx.rs']],
  ['object returned by read() at delivery', 'exceptions thrown by read()/write()']);

add('C03', 'Packets follow the declared layout and carry nothing else',
  'An encoded packet is exactly the exported struct\'s fields in declaration order: fixed-width integers and floats, a 32-bit length then the characters for strings, a 32-bit count then the elements for arrays, one presence byte (0 or 1) then the value for optionals, nested structs inline, and enum variant number i as the bit 1<<i in the smallest of 1, 2 or 4 bytes that holds all variants. No other bytes are emitted, in any build, and a receiver that re-encodes a decoded message emits the same packet again.',
  ['programs', 'inputs', 'histories', 'configurations'], 'every accepted schema, every message, every build, every chain of relays',
  'Snapshots pin the emitted text of single structs built by hand, after type resolution; they do not see field order chosen by resolution, enum widths above 8 variants, or the bytes.',
  [F.check, F.ts], [['enum representation and bit assignment', 'src/lib/check.rs resolve_enum'], ['write generators', 'src/lib/gen/ts.rs gen_write_impl_*'], ['field order kept by resolution', 'src/lib/check.rs resolve_one_second_pass']],
  ['bytes returned by write()']);

add('C04', 'Damaged or hostile packets are refused, never crash or mislead',
  'Whatever bytes arrive, decoding returns and does not throw: a packet cut short anywhere, or holding an enum value outside the span of its variants, yields null. A packet that is not refused decodes to exactly what its bytes say, and a refused packet has no effect on the decoding of any other packet.',
  ['programs', 'inputs', 'fault_sequences', 'histories'], 'every accepted schema, every truncation, corruption, splice or forgery of a packet, at every place in the delivery history',
  'No test feeds bytes to generated code; the enum guard is pinned for one two-variant enum only.',
  [F.ts], [['reader.failed check before return', 'src/lib/gen/ts.rs gen_impl'], ['enum range guard', 'src/lib/gen/ts.rs gen_read_impl_enum'], ['optional presence byte', 'src/lib/gen/ts.rs gen_read_impl_optional']],
  ['return value or exception of read()', 'number of reader operations used']);

add('C05', 'A schema is accepted exactly when it is valid, on every run',
  'A schema compiles if and only if it has exactly one export naming a declared struct, no two declarations share a name, no struct repeats a field, no enum repeats a variant, every enum has 1 to 32 variants, every field type is declared or built in, no struct contains itself directly or indirectly, and no field is both optional and an array. The verdict is the same for every hash seed and every order of the declarations, and declarations not reachable from the export are checked too.',
  ['programs', 'schedules', 'configurations'], 'every schema, every hash seed (resolution order), every permutation of its declarations',
  'Each rule has one test with one tiny schema and an uncontrolled hash seed; combinations of rules with user-defined types, long cycles and resolution order are not sampled.',
  [F.check, F.lib], [['export and declaration collection', 'src/lib/check.rs get_export, collect_types'], ['first and second resolution pass', 'src/lib/check.rs resolve_first_pass, resolve_second_pass'], ['cycle detection by visited set', 'src/lib/check.rs resolve_one_second_pass']],
  ['exit status and stderr of the compiler']);

add('C06', 'A rejection blames something that is really wrong',
  'When a schema is rejected by type checking, the reported problem is true of that schema: a type said not to exist is not declared, a type said to be cyclic lies on a cycle, and a reported duplicate, enum size, optional-array or export problem is present on the named item. This holds for every hash seed and declaration order.',
  ['programs', 'schedules', 'configurations'], 'every invalid schema, every hash seed, every permutation of its declarations',
  'Tests check the message for single-defect schemas of one or two declarations under one hash seed; which message a larger schema gets depends on map order.',
  [F.check], [['error strings', 'src/lib/check.rs'], ['visited/unresolved bookkeeping', 'src/lib/check.rs resolve_one_second_pass']],
  ['stderr of the compiler']);

add('C07', 'Compiling the same schema again gives the same file',
  'Every run over the same schema text produces the same output text, byte for byte, except for the generation time in the first line. Hash seed, clock, time zone, directory enumeration order, paths and earlier files of a batch leave no other trace in the output.',
  ['programs', 'schedules', 'configurations'], 'every accepted schema, every hash seed, clock, time zone, directory order, invocation form',
  'Tests generate declarations for type maps with a single entry, so map order never shows.',
  [F.gen, F.ts, F.check], [['declaration order', 'src/lib/gen/ts.rs gen_decls'], ['header line', 'src/lib/gen/mod.rs push_meta']],
  ['bytes of the output file']);

add('C08', 'Exit status 0 means every schema was compiled and fully written',
  'If the compiler exits with status 0, the given schema file, or every .pkt file at any depth below the given directory (symbolic links are followed), has its complete generated module at its output path. If any input is missing, unlistable, unreadable or invalid, or any output cannot be fully written, the exit status is non-zero and an explanation is on stderr. With valid inputs and no failing operation the exit status is 0.',
  ['fault_sequences', 'inputs', 'configurations'], 'every input tree and invocation, every sequence of failing system calls (open, stat, list, read, write, mkdir, print) at every point',
  'There is no test of the command-line program at all, and no test injects an I/O error.',
  [F.main], [['error propagation with ?', 'src/main.rs main, run_all, save_one'], ['recursive directory walk', 'src/main.rs visit_files']],
  ['exit status, stderr and the output tree']);

add('C09', 'One bad schema in a batch leaves the output tree untouched',
  'If any schema of an invocation is invalid or any part of the input tree cannot be read, no output file or directory is created, changed or removed, however many other schemas compiled and in whatever order the directory was listed.',
  ['fault_sequences', 'schedules', 'inputs'], 'every input tree with a bad member, every position of it, every enumeration order, every failing input operation',
  'No test runs the program over a directory, so ordering of reads and writes is unobserved.',
  [F.main], [['compile everything before saving anything', 'src/main.rs run_all then save_one loop in main']],
  ['output tree before and after', 'exit status']);

add('C10', 'Transient I/O conditions are invisible',
  'Short reads, short writes, interrupted reads, writes and opens, any directory enumeration order, unknown directory-entry types, and jumps of the clock (within 1970 to 9999) change neither the verdict nor the output of a run, apart from the generation time in the first line. The run ends within a number of steps proportional to the amount of data.',
  ['schedules', 'fault_sequences'], 'every input tree, every placement of short transfers and interruptions, every enumeration order, every clock history',
  'Tests do no file I/O.',
  [F.main], [['whole-file reads and writes', 'src/main.rs run_one, save_one'], ['directory walk', 'src/main.rs visit_files']],
  ['output tree, exit status, number of I/O steps']);

add('C11', 'Re-running after any interruption repairs the output',
  'After any number of runs that crashed or failed at arbitrary points, with un-synced output data partly or wholly lost, one undisturbed run leaves every output complete and identical to that of a first run on a clean tree, whatever stale, longer, shorter or torn output was there before.',
  ['crash_points', 'fault_sequences', 'histories'], 'every crash point (including inside a write), every loss of un-synced data, every history of failed runs, schema edits between them included',
  'Tests do no file I/O and have no notion of a crash.',
  [F.main], [['truncate-and-write of each output', 'src/main.rs save_one'], ['idempotent creation of parent directories', 'src/main.rs save_one']],
  ['output tree after the recovery run', 'exit status of the recovery run']);

add('C12', 'Only the mirrored output files are ever touched',
  'A run never modifies or removes its input files or any file that is not one of its outputs, even when it fails or crashes midway. A directory run writes in/SUB/NAME.pkt to out/SUB/NAME.ts and a single-file run writes NAME.EXT to out/NAME.ts, where NAME keeps any further dots, so distinct schemas never share an output; after a successful run no other file has appeared, and files without the .pkt extension are ignored in directory runs.',
  ['inputs', 'configurations', 'fault_sequences', 'crash_points'], 'every input tree and naming, every form of input and output path (relative, absolute, nested, overlapping), every fault or crash point',
  'Path mapping has no test.',
  [F.main], [['output path computation', 'src/main.rs format_path'], ['extension filter', 'src/main.rs visit_files']],
  ['full before/after snapshot of the tree', 'mutating calls outside the tree']);

add('C13', 'A schema compiles the same in a batch as alone',
  'In a directory run each schema gets the same verdict and the same output text as when it is compiled alone, whatever the other schemas in the tree are (including ones that declare the same names differently) and in whatever order they are visited.',
  ['histories', 'schedules', 'programs'], 'every set of schemas, every enumeration order, every position in the batch',
  'Tests compile one schema at a time.',
  [F.main, F.lib, F.gen], [['no state shared between compilations', 'src/lib/lib.rs compile'], ['fresh generator per schema', 'src/lib/gen/mod.rs generate']],
  ['output files of batch and single runs']);

add('C14', 'Every build of a schema exposes the declared TypeScript API',
  'For every accepted schema and every build of it, the generated module type-checks in strict mode and exposes a class named after the export whose constructor parameters and properties are the exported fields in declaration order with the mapped types: number, string, arrays, optional as possibly undefined, nested structs as interfaces and enums as constants 1<<i. It declares exactly the user types reachable from the export, and values decoded at run time have the declared shape.',
  ['programs', 'configurations', 'schedules'], 'every accepted schema, every hash seed (declaration order), every decoded message',
  'Tests compare text of declarations; none invokes the TypeScript compiler or checks that declarations and run-time values agree.',
  [F.ts, F.check], [['interface, enum and class declaration generators', 'src/lib/gen/ts.rs gen_struct_decl, gen_enum_decl, field_ctor_type, gen_impl'], ['removal of unused types', 'src/lib/check.rs collect_used_types, remove_unused']],
  ['TypeScript diagnostics for the module and for a client of it', 'decoded values']);

add('C15', 'Concurrent compiler runs do not disturb each other',
  'When several compiler processes work at the same time on the same or overlapping valid schemas and output locations, in any interleaving of their file operations, all of them succeed. Once they have finished every output is complete and equal to what a single run produces. A further run that is refused because of its own input disturbs none of them.',
  ['schedules', 'configurations'], 'every interleaving of the file operations of two or more runs, with short transfers, over overlapping or nested outputs, with or without a refused run among them',
  'Tests run nothing concurrently and touch no files.',
  [F.main], [['tolerant directory creation', 'src/main.rs save_one'], ['deterministic output text', 'src/lib/gen/mod.rs generate']],
  ['exit statuses and final output tree']);

add('C16', 'Each output comes from one version of its schema',
  'If schema files are atomically replaced, added or removed while the compiler runs, every output written by a run that exits 0 is the complete compilation of a single version of its schema that existed during the run. If every version is valid and none is removed, the run exits 0.',
  ['schedules', 'histories'], 'every placement of file replacements, additions and removals between the compiler\'s file operations',
  'Tests have no concurrent editor and no files.',
  [F.main], [['single read of each schema', 'src/main.rs run_one']],
  ['output files, exit status']);

add('C17', 'The generation stamp tells the UTC time and nothing else uses the clock',
  'The first line of every output is a comment that names the compiler version and the UTC time, in RFC 2822 form, at which that output was generated on the host\'s clock. For any clock reading from 1970 to 9999, skew, jump (also backwards) or local time zone, the clock influences nothing else: not the verdict, not the rest of the text.',
  ['schedules', 'configurations', 'histories'], 'every clock value from 1970 to 9999, jump history and time zone, every batch',
  'Tests never look at the header line and run at the real time.',
  [F.gen], [['header line from Utc::now', 'src/lib/gen/mod.rs push_meta']],
  ['first line of outputs compared with the simulated clock readings of that run']);

add('C18', 'Corrupted schema files never crash or hang the compiler',
  'If a schema file is damaged in storage (flipped bytes, lost or zeroed tail, torn mix of versions, invalid UTF-8), the run ends normally: it either compiles what the file now says or reports an error with a non-zero status, without panic, abort, hang or output for the refused schema. All runs over the same damaged file agree on the verdict.',
  ['fault_sequences', 'inputs', 'schedules'], 'every schema file, every storage corruption, every hash seed',
  'Parser tests cover five malformed snippets.',
  [F.parser, F.lib, F.check, F.main], [['parse error formatting', 'src/lib/lib.rs pretty_error'], ['grammar', 'src/lib/parser.rs'], ['error propagation', 'src/main.rs run_one']],
  ['exit status, signal, stderr, output tree']);

add('C19', 'Layout and comments do not change what a schema means',
  'Two schema texts that differ only in spaces, tabs, line breaks, comments and optional commas, placed where the grammar allows them, describe the same schema.',
  ['inputs'], 'every placement of white space, comments and commas',
  'Parser tests cover a handful of placements.',
  [F.parser], [['whitespace and comment rules', 'src/lib/parser.rs']], ['result of the parser']);

add('C20', 'Syntax errors point at the offending character',
  'For every text the grammar refuses, the reported line and column are the furthest position the grammar could reach, and the quoted line is that line of the file.',
  ['inputs'], 'every malformed text',
  'Six malformed snippets are tested for location; the formatted message is not tested.',
  [F.lib, F.parser], [['error formatting', 'src/lib/lib.rs pretty_error']], ['error message']);

add('C21', 'Compilations in one process do not influence each other',
  'A program that embeds the compiler library gets from every call the verdict and output text which that call gives alone in a fresh process, whatever the process compiled before (accepted or refused) and whatever its other threads compile at the same moment. Refusals are explained by the schema of that call, the stamp shows the time of that call, and no call panics, blocks forever or ends the process because of other calls.',
  ['schedules', 'histories', 'programs'], 'every interleaving of the threads of a process, every history of accepted and refused calls, every set of schemas',
  'Tests make one call per process or compare text fragments; the test runner\'s threads are scheduled by chance and never check for influence.',
  [F.lib, F.check, F.gen, F.ts, F.parser], [['library entry point without shared state', 'src/lib/lib.rs compile'], ['type maps owned by the call', 'src/lib/check.rs type_check'], ['fresh generator per call', 'src/lib/gen/mod.rs generate']],
  ['results of all calls']);

fs.writeFileSync(path.join(__dirname, '..', 'properties.jsonl'), P.map(p => JSON.stringify(p)).join('\n') + '\n');
for (const p of P) if (p.title.length > 80) console.log('title too long', p.id, p.title.length);
