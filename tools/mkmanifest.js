'use strict';
// Writes MANIFEST.json from properties.jsonl and the checks that exist in sim/js/props.
const fs = require('fs'), path = require('path');
const V = path.resolve(__dirname, '..');
const props = fs.readFileSync(path.join(V, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l));
const NA = {
  C19: 'The parser is a pure function of the text: no schedule, fault, clock or second party takes part, so there is nothing to simulate. The simulated builds do print every schema in randomly chosen layouts, but that is input variety, not a decision by simulation.',
  C20: 'Error formatting is a pure function of the text: no schedule, fault, clock or second party takes part, so there is nothing to simulate.',
};
const NET = 'Sampled, not exhaustive: gives evidence over random schemas, messages, builds and link histories, each judged by an independent codec. Trusts the stub of the external runtime library (little-endian, fails reads past the end), the TypeScript emitter and Node.';
const FS = ' Trusts the shim to see every file operation (calls outside libc would escape it) and the kernel file system of the scratch tree.';
const NOTE = {
  C01: NET, C02: NET + ' Strings are ASCII; names in known-findings.json are avoided.', C03: NET,
  C04: NET + ' Packets that announce more than 20000 elements are left to the pinned known finding.',
  C05: 'Sampled: every verdict on random valid and broken schemas, under several hash seeds and declaration orders, is compared with an independent statement of the rules. Trusts that statement and the printer that turns the model schema into text.',
  C06: 'Sampled: every diagnostic on random broken schemas is compared with the defects an independent rule set finds. Diagnostics in unknown wording are counted and not judged.',
  C07: 'Sampled: 3-8 builds of one schema, by the program or by calls of the library, under different hash seeds, clocks, time zones, directory orders and paths are compared byte for byte after the first line.' + FS,
  C08: 'Sampled fault sequences over the real binary, plus clean runs; the outputs are judged against a fault-free compilation by the same binary, so wrong but consistent text is left to C01-C03 and C14.' + FS,
  C09: 'Sampled trees with a bad member and failing input operations; the whole tree is compared before and after.' + FS,
  C10: 'Sampled short and interrupted transfers, enumeration orders and clock jumps; the disturbed run is compared with an undisturbed one.' + FS,
  C11: 'Sampled histories of crashes (also inside a write, with loss of un-synced data) and failures, followed by one clean run. Loss is modelled per file (emptied, cut or zeroed) and per rename (undone or lost).' + FS,
  C12: 'Sampled trees, invocations, faults and crashes; the whole scratch tree is compared before and after, and mutating calls outside it are refused and reported.' + FS,
  C13: 'Sampled batches; each schema is compared with its compilation alone by the same binary.' + FS,
  C14: 'Sampled: the TypeScript 5.9 checker in strict mode describes the API of each generated module, compared member by member with the schema. Trusts TypeScript and the declared types of the stub runtime.',
  C15: 'Sampled interleavings at the granularity of system calls of 2-4 processes; no exhaustive enumeration.' + FS,
  C16: 'Sampled placements of atomic replacements, additions and removals between system calls.' + FS,
  C17: 'Sampled clocks, jumps and time zones; the stamp must be one of the clock values the process was given while it generated that output.' + FS,
  C18: 'Sampled storage damage of schema files under several hash seeds; every verdict is compared with an independent reader of the grammar and of the schema rules, accepted output with the same binary\'s compilation of what that reader saw.' + FS,
};
NOTE.C21 = 'Sampled call histories and thread schedules of a program that embeds the real library. Threads are switched at allocations, releases and blocking waits only; every call is compared with the compilation of its text alone by the command-line program.';
const checks = [], not_applicable = [];
for (const p of props) {
  if (NA[p.id]) { not_applicable.push({ property: p.id, reason: NA[p.id] }); continue; }
  const f = path.join(V, 'sim/js/props', p.id + '.js');
  if (!fs.existsSync(f)) { not_applicable.push({ property: p.id, reason: 'Check not built yet.' }); continue; }
  const m = require(f);
  checks.push({
    property: p.id,
    quick_cmd: `VERIF_TIER=quick ./check.sh ${p.id}`, thorough_cmd: `VERIF_TIER=thorough ./check.sh ${p.id}`,
    evidence_file: `evidence/${p.id}.json`, technique: 'deterministic simulation with fault injection', level: 'exploration',
    level_note: NOTE[p.id],
  });
}
fs.writeFileSync(path.join(V, 'MANIFEST.json'), JSON.stringify({
  version: 1, setup_cmd: './build.sh', checks, not_applicable,
  notes: 'The real packetc binary runs under an LD_PRELOAD shim; a simulator grants each file, clock and randomness operation one at a time. One seed is one execution. Replay a reported file with ./check.sh --replay FILE. No hooks in /repo are used.',
}, null, 1) + '\n');
