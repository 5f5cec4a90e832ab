#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed properties are those in CLAIMED."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, 'tools/claimed')).read().split()
TECH = {
 'C17': 'deterministic simulation with fault injection, AddressSanitizer and allocation accounting as the oracle',
 'C19': 'deterministic simulation with a vector-clock race detector over seeded schedules',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
 'version': 1,
 'setup_cmd': 'python3 tools/build.py plain && python3 tools/build.py asan && python3 tools/build.py race',
 'checks': [{
  'property': p['id'],
  'quick_cmd': f'python3 check.py {p["id"]}',
  'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["id"]}',
  'evidence_file': f'evidence/{p["id"]}.json',
  'technique': TECH.get(p['id'], 'deterministic simulation with fault injection (seeded search over schedules and faults, reference-model oracle)'),
  'level': 'exploration',
  'level_note': 'Seeded search: every violation is replayed in a fresh process and minimised; a clean batch is evidence, not proof. Trusts the MPI, thread, clock and file-system stand-ins (see DESIGN.md).',
 } for p in props if p['id'] in CLAIMED],
 'not_applicable': [{'property': p['id'], 'reason': 'no check is registered yet (work in progress)'} for p in props if p['id'] not in CLAIMED],
 'notes': 'All checks compile /repo\'s current tree together with the simulator in sim/ (no hooks in /repo are needed: MPI, pthread, clock, allocation and file calls are replaced at link and compile time).',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
