#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C05': ('ledger of live values (destructor monitor) over generated enums and random histories',
            'Every destructor that runs is seen; the values, enums and histories are sampled. Trusts the monitors.'),
    'C07': ('round-trip oracle with exact encodings over generated enums', 'Every macro arm and arity is run; field types and values are sampled.'),
    'C08': ('discriminant monitor over generated enums and operations', 'Every variant of every generated enum is made in every way; values are sampled.'),
    'C06': ('heap accounting: every allocation and release of each operation logged by the global allocator and compared with the layouts it may use',
            'Sees every heap event of the operations run. Three defects are known findings: blocks are not freed on taking out or discarding.'),
    'C09': ('refusal monitor: boxes with every undefined discriminant decoded in every way', 'All undefined discriminants where the width leaves few, samples otherwise.'),
    'C10': ('view monitor: callback counts, exact encodings, and the box before and after; nested views', 'Interior mutation in a view is a known finding.'),
    'C11': ('independence monitor: clones and copies changed, consumed and destroyed in all orders', 'Copies of Copy containers sharing a block is a known finding.'),
    'C12': ('differential oracle: the same operator on the enums', 'Values are drawn so that equal, near-equal and incomparable pairs meet; user-defined relations included.'),
    'C13': ('differential oracle: the same format on the enum, with failing writers and values', 'A fixed set of format strings plus random widths and precisions.'),
    'C15': ('fault injection: a panic at each call into user code in turn, ledger and heap examined after it', 'All points for which user code runs in the operations tried.'),
    'C01': ('bit-exact oracle over edge and random addresses and discriminants at all 16 widths', 'All discriminants at some addresses; addresses around every power of two and at random.'),
    'C02': ('tables of documented limits against builds under every selection, invalid ones, and sequences of selections in one build directory', 'All 16 selections are built; invalid ones and sequences are sampled.'),
    'C03': ('refusal monitor: every constructor with arguments around the limits, debug and release; enums of 3 to 300 variants', 'Constructors and limits are enumerated, other arguments sampled.'),
    'C04': ('model-based histories over boxes of 40 types, with aliasing monitor on the blocks', 'Types are a fixed list; values and histories are sampled.'),
    'C14': ('differential oracle: the same format applied to the plain address', 'Also run under Miri for a 32-bit target. Formats are a fixed set plus random ones.'),
    'C16': ('Miri (tree borrows, symbolic alignment), AddressSanitizer and valgrind over random programs on generated enums', 'Sees undefined behaviour of the executions only. Three patterns are known findings.'),
    'C17': ('fault injection: each allocation of each operation refused in turn in a child process, with state, ledger and heap examined', 'All allocations of the operations tried.'),
    'C18': ('ThreadSanitizer and Miri (many schedules) over threads sharing and passing on containers; probes of Send and Sync', 'Data races and schedules of the executions only.'),
    'C19': ('differential monitor: digests of what the same program observed at each width', 'All 16 widths; programs are generated.'),
    'C20': ('layout monitor: size, alignment, word and the block in the allocator log', 'All generated enums; values sampled.'),
    'C21': ('differential monitor: a program without std against the same with it; builds for bare-metal targets', 'One program with random histories; two bare-metal targets are compiled for, not run.'),
    'C22': ('differential monitor: programs run under Miri for 32-bit and big-endian targets against native runs', 'Random programs, interpreted; no real hardware.'),
    'C23': ('differential oracle over pairs and triples of tagged pointers, several hashers', 'Edge and random words.'),
    'C24': ('differential oracle: the same expressions evaluated by the compiler and at run time; constants beyond the limits must not compile', 'A fixed table of expressions per width, with edge and pseudo-random arguments.'),
    'C25': ('reference model: the same recursive enums with plain boxes, over random histories of both', 'Three mutually recursive enums; values, depths (to 700 levels) and histories are sampled.'),
    'C26': ('differential oracle against unboxed values, and exact heap and destructor balance, over hand-written implementations', 'Seven implementations and 13 instances of a generic one; values and histories are sampled.'),
    'C27': ('reference model over random nestings of operations in user code run by operations', 'One enum whose values do anything in any of their code; nestings to depth 7 are sampled.'),
    'C28': ('generated programs that declare enums in all kinds of places, compiled and run with round-trip assertions', 'Places, spellings and names are sampled from fixed lists, in the four editions.'),
    'C29': ('pairs of programs with and without one breach of the rules: the compiler as monitor of the former, native and Miri runs of the latter', '38 ways to misuse references, moved values and unchecked operations.'),
}
NA = []
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': NA,
     'notes': 'check.py builds the monitors of /verif/harness against /repo and runs them; see DESIGN.md. No hooks: all monitors observe through the public API, the allocator and the values.'}
for p, (t, n) in sorted(T.items()):
    m['checks'].append({'property': p, 'quick_cmd': './check.py %s --tier quick' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
                        'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'exploration', 'level_note': n})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
