#!/usr/bin/env python3
"""Writes MANIFEST.json (a committed file; run by hand when properties change)."""
import json, subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
FAULT = {'C05', 'C06', 'C14', 'C17', 'C21'}
base = "Seeded search over simulated executions of the real program; every violation comes with a minimised schedule and fault trace that replays exactly. Not exhaustive: it covers the seeds, inputs and sizes explored (see the evidence file). Trusts the simulator's model of libc, threads and disks (/verif/shim/dst.c) and the reference models in /verif/sim."
note = {
 'C01': "Sequentially consistent interleavings at basic-block granularity; compared with the sequential run of the same build.",
 'C02': "A hang is: no runnable thread, 1.5e9 basic blocks without output, or more idle optimization steps than can be.",
 'C03': "Oracle: model of the cutting rule plus a dynamic program for the least number of tokens.",
 'C04': "Oracle: independent decoder and an executable model of the documented form.",
 'C05': "Every single file operation of the sampled commands fails in each plausible way; multiple failures are sampled.",
 'C06': "A kill and a power failure at every file operation of the sampled runs; sampled resolutions of what un-synced data becomes.",
 'C07': "Every token set ever published is checked, including unique decodability (Sardinas-Patterson).",
 'C08': "Oracle: dynamic program over the data for the saved token set.",
 'C09': "Byte comparison of the results of differently disturbed runs.",
 'C10': "Chains of simulated processes: optimize, crash, convert, resume; plus the shipped token sets.",
 'C11': "Oracle: dynamic program for every adopted token set.",
 'C12': "Oracle: subset sums of paragraph lengths and the statistics model.",
 'C13': "Oracle: direct count.",
 'C14': "Compared with explicit pre-processing; every single file operation fails in turn.",
 'C15': "Checked over the recorded history in virtual time.",
 'C16': "Every token of every token set ever published is checked.",
 'C18': "Live memory by the allocator's count, sampled at file operations and thread switches; bound from runs over a small part of the data.",
 'C19': "Damage of the kinds the property names, each certain to make the input unusable.",
 'C20': "Interleaving at file operations; each process is re-run deterministically up to every switch, and sees the other's file changes by identity.",
 'C21': "Compared with a first run; every single file operation fails or is crashed at in turn, further attempts are sampled.",
 'C22': "Work is what texmo's own code executes, plus bytes copied, read and written; allowed is 2.7 times where doubling gives 2, so that n log n passes.",
 'C23': "Oracle: dynamic program for every adopted token set, and the difference of successive sets.",
 'C24': "Oracle: the optimizer itself, continued from the result and from the result less one token, measured by a dynamic program.",
 'C17': "All files before and after are compared; every single file operation fails in turn; crashes are sampled.",
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if 'cfg texmo_sim' in l]
m = {
 'version': 1,
 'setup_cmd': './check.sh build',
 'hooks': {'guard': 'cfg texmo_sim', 'enable': 'RUSTFLAGS="--cfg texmo_sim" (check.sh; piece sizes and thresholds can then be lowered through TEXMO_* environment variables)', 'source_commits': hooks},
 'checks': [{
   'property': p['id'],
   'quick_cmd': f"./check.sh {p['id']}",
   'thorough_cmd': f"VERIF_TIER=thorough ./check.sh {p['id']}",
   'technique': 'deterministic simulation with fault injection: seeded search over ' + {'C01':'thread schedules','C02':'thread schedules and faults','C05':'single and multiple I/O failures','C06':'crash points and lost writes','C15':'the passing of virtual time','C11':'optimization histories in virtual time','C07':'optimization histories in virtual time','C16':'optimization histories in virtual time','C10':'multi-process histories with crashes','C18':'thread schedules','C20':'interleavings of two processes','C21':'crash points and failures of earlier attempts','C22':'inputs and thread schedules','C23':'optimization histories in virtual time','C24':'optimization histories and multi-process histories','C09':'schedules, entropy, clocks and I/O'}.get(p['id'], 'inputs, schedules and I/O behaviour'),
   'level': 'fault_enumeration' if p['id'] in FAULT else 'exploration',
   'level_note': note[p['id']] + ' ' + base,
 } for p in props],
 'not_applicable': [],
 'notes': 'Replay a violation with ./check.sh replay <file>. Seeds: VERIF_SEED. Known findings: KNOWN_FINDINGS.txt.',
}
json.dump(m, open(f'{here}/MANIFEST.json', 'w'), indent=1)
