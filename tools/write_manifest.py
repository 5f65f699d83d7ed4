"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = {
 'C01': 'Seeded histories of exports, imports and changes over a simulated disk (split transfers, odd buffer sizes, any locale), 1-3 interleaved threads; every import compared with a path->dataset map.',
 'C02': 'Seeded write errors, close errors, crashes at byte and line positions, unserialisable data, truncations and zeroed blocks; each import afterwards must raise or yield exactly one of the datasets exported to that path.',
 'C03': 'Seeded read/open/listing/close errors and vanishing files at byte positions during imports of generated JSON, TSV, position and tree inputs; result must be the whole data or an exception; later imports must be unaffected.',
 'C04': 'The process\'s descriptor table is compared after every call of seeded histories with malformed content, unserialisable data and I/O faults.',
 'C05': 'Seeded trees loaded under shuffled, sorted and reversed enumeration orders, repeated and concurrently; compared with a union model.',
 'C06': 'Seeded pool histories (construct, copy, +, +=, changes in place) with interruption at lines/bytecodes and threads sharing right operands; every dataset compared with plain dicts after every step.',
 'C07': 'Seeded ways to obtain a dataset (memory, JSON, TSV, folders, merge, copy, pickle across a simulated process restart, filling); coders, attributes and agreement compared with models after every step.',
 'C08': 'Seeded write/query histories over several matrices with interruption; cells, classes and all averages compared with exact counts.',
 'C09': 'Seeded interleavings (line and bytecode granularity) of 2-4 threads querying shared matrices, with interrupted queries; each result compared with exact counts.',
 'C10': 'Seeded call histories on shared objects by 1-3 interleaved threads with aborted, failing and re-entrant calls and per-thread decimal precision; each value compared with an exact-rational model written from the definitions.',
 'C11': 'As C10 for Pk, WindowDiff and window size.',
 'C12': 'As C10 for agreement coefficients, bias and actual agreement over generated datasets of all formats.',
 'C13': 'As C10 for whole-dataset comparisons: key sets and each value compared with models; summary statistics recomputed exactly.',
 'C14': 'Structural fingerprints of all shared arguments, samples and ambient process state compared around every call, completed, failing or interrupted.',
 'C15': 'Seeded aborts (interruptions at lines/bytecodes, failing callbacks) followed by verifying calls in the same and other threads, compared with exact models.',
 'C16': 'Seeded first-access orders in fresh process images, 1-3 interleaved threads, failed and interrupted loads; identity with the defining module and later success checked.',
}
REASON = ('Pure function of the arguments of one call: no schedule, clock, I/O, fault, crash point or history can make it true or false, '
          'so there is nothing for a simulator to control; deciding it would be plain input generation, another technique.')
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'checks': [{'property': p['id'], 'quick_cmd': 'bin/check %s' % p['id'], 'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
             'evidence_file': 'evidence/%s.json' % p['id'],
             'technique': 'deterministic simulation with fault injection (seeded schedules, faults and histories against a reference model)',
             'level': 'exploration',
             'level_note': NOTE[p['id']] + ' Sampled, not exhaustive; trusts the reference models in sim/ and the seams listed in the evidence.'}
            for p in props if p['id'] in NOTE],
 'not_applicable': [{'property': p['id'], 'reason': REASON} for p in props if p['id'] not in NOTE],
 'notes': 'No hooks in /repo: the seams are the interpreter\'s own (trace function, open/os functions, import system, locks, clocks). bin/replay FILE re-executes a violation. known_findings.txt lists repaired defects.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
