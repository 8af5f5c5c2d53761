"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pyqcstrc/'
OD = [S + 'ico2/occupation_domain.py', S + 'dode2/occupation_domain.py']
TWO = [S + 'ico2/two_occupation_domains.py', S + 'dode2/two_occupation_domains.py']
INT = [S + 'ico2/intsct.py', S + 'dode2/intsct.py']
UT = [S + 'ico2/utils.py', S + 'dode2/utils.py']
NUM = [S + 'ico2/numericalc.py', S + 'dode2/numericalc.py']
M1 = [S + 'ico2/math1.py', S + 'dode2/math1.py']
SY = [S + 'ico2/symmetry.py', S + 'dode2/symmetry.py']
ALL = OD + TWO + INT + UT + NUM + M1 + SY
P = []


def p(id, title, statement, over, text, why, files, mech, observe, na=None, level_note=None, technique=None, state=()):
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                        observe_at=observe, hook_needed=None)),
                  na=na, level_note=level_note, technique=technique))


T = 'deterministic simulation with fault injection: '
TEST = 'The 24 stable tests call a few functions once on fixed inputs in one undisturbed process; '
WR = [('write, write_xyz, write_vesta, obj2podatm, write_podatm, simple_hand_step1: files opened in with-blocks, status returned after close',
       'occupation_domain.py (ico2 and dode2)')]

p('C01', 'A successful export is complete on disk on return and reads back exactly',
  'When exporting an occupation domain (XYZ, VESTA or atom/POD files) with the shipped icosahedral or dodecagonal package reports success, '
  'every output file is already complete on disk at that moment and nothing that happens afterwards (garbage collection, later exports, exit) '
  'changes it. For every domain of any size, memory layout and coordinate magnitude, and for every buffer size and pattern of short or interrupted '
  'writes and reads, importing an exported XYZ file returns exactly the exported integer coordinates in the same order, also when an older, longer '
  'file was replaced.',
  ['inputs', 'fault_sequences', 'histories', 'configurations'],
  'all valid domains x file kinds x buffer/chunk sizes x deferred finalisation x short/interrupted writes x previous file contents',
  TEST + 'none writes a file and looks at it before the interpreter has cleaned up, or with more than a handful of rows.',
  OD, WR + [('read_xyz row parser', 'occupation_domain.py')], ['bytes on disk at return', 'value of the import'],
  technique=T + 'storage simulator (short writes, EINTR, deferred finalisation) with independent XYZ/VESTA/POD readers as oracle',
  level_note='Seeded sampling of objects, knobs and benign storage behaviour; oracle is an independent parser plus byte comparison with an '
             'undisturbed run. Real library, numpy and CPython text/buffer layers; the raw file layer is simulated.')
p('C02', 'A storage failure during an export is never reported as success',
  'If creating the output directory, or opening, writing or closing an output file fails at any point of an export (disk full, quota, I/O error, '
  'permission, too many open files, error deferred to close), the export raises an exception or returns its failure status. '
  'Whenever an export reports success, each of its files holds exactly the bytes an undisturbed export produces.',
  ['fault_sequences', 'inputs'], 'every storage event of every exporter x error kind x transient or persistent x byte position of a full disk',
  TEST + 'no test makes a write fail.', OD, WR, ['return value or exception of the export', 'bytes on disk'],
  technique=T + 'injected errno at every storage event, byte quotas, delayed close errors, broken console; oracle: undisturbed run',
  level_note='Seeded sampling of (exporter, object, fault position, errno, stickiness); success is believed only if bytes equal the undisturbed '
             'reference of the same tree.')
p('C03', 'A failed or refused export leaves no residue and can simply be retried',
  'When an export fails or is interrupted at any point, no file other than its own output files is created, changed or removed, no file stays open, '
  'and the same export repeated afterwards in the same process succeeds with exactly the bytes of an undisturbed export, even if the caller still '
  'holds the exception. A request the exporter refuses by returning its failure status (no object, wrong shape, unknown format or selection) '
  'leaves an existing output file untouched.',
  ['fault_sequences', 'crash_points', 'histories'], 'every storage fault, interrupt position and invalid request x exporter x what was on disk before',
  TEST + 'no test retries after a failure.', OD, WR, ['directory tree and bytes after the failure', 'open file table', 'bytes after the retry'],
  technique=T + 'storage faults, KeyboardInterrupt/MemoryError at source lines, invalid requests, then retry; oracle: tree snapshot and undisturbed run',
  level_note='Seeded sampling; interrupts at source-line granularity.')
p('C04', 'Import of a missing, unreadable or damaged file never yields a wrong domain',
  'Importing an XYZ file that is missing, empty, truncated at any byte, torn in its last line, partly overwritten with zero bytes, or whose reading '
  'fails with an error at any point, raises (or ends the program with a non-zero status); it never returns anything but the complete original domain. '
  'Short or interrupted reads do not disturb an import, and after a failed import the repaired file imports exactly.',
  ['inputs', 'fault_sequences'], 'every exported file x truncation point x zeroed range x read event and error',
  TEST + 'no test reads a damaged file.', OD, [('read_xyz: complete lines only, every announced row required', 'occupation_domain.py')],
  ['value or exception of the import'],
  technique=T + 'damaged files and failing reads; oracle: the exported object known to the harness',
  level_note='Seeded sampling of damage positions; damage that alters digits consistently is out of scope (format has no check sum).')
p('C05', 'A crash during an export never leaves a file that imports as another domain',
  'If the process or machine stops at any point of an XYZ export, the file afterwards either fails to import or imports as the complete new domain or '
  'the complete previous one, whichever unflushed data was lost. Other files are unaffected, exporting again restores a complete file, and once an '
  'export has returned success the end of the process loses nothing.',
  ['crash_points', 'inputs'], 'every storage event of the export x which unflushed writes survived',
  TEST + 'no test stops an export midway.', OD, WR + [('read_xyz: announced number of rows, complete lines', 'occupation_domain.py')],
  ['disk image after the crash', 'value of the import from it'],
  technique=T + 'crash images from every prefix of the recorded storage log with lost, torn and zeroed unflushed data; recovery by real import',
  level_note='Crash model: unflushed data lost as suffix, blocks or entirely, truncation/rename durable or not. Seeded sampling of crash points and images.')
p('C06', 'Concurrent exports into a shared directory all succeed and stay separate',
  'Several callers exporting different files at the same time into the same directory tree, which may not exist yet, each get the outcome they get '
  'alone. Each file ends up with exactly the bytes of an undisturbed export, imports return exactly the caller\'s own domain, and no other files appear.',
  ['schedules', 'inputs'], 'every interleaving of 2-4 exporters/importers at source lines and storage events',
  TEST + 'nothing runs concurrently.', OD, [('makedirs tolerant of a concurrent creator; one private file per export', 'occupation_domain.py')],
  ['outcome per caller', 'bytes and directory tree afterwards'],
  technique=T + 'seeded cooperative thread scheduler switching at source lines and storage events; oracle: each export alone',
  level_note='Threads of one interpreter; switches at source lines and storage events of the package.')
p('C07', 'An import returns what the file holds now',
  'For every history of exports, imports, external replacements and deletions over several files, an import returns exactly the domain most recently '
  'stored under that file name, or fails if there is none, independent of earlier imports, equal sizes or time stamps, spelling of the path, changes '
  'of the working directory, and of what the caller did to arrays it passed or received before.',
  ['histories'], 'all sequences of operations on up to three files by either package',
  TEST + 'no test imports a file twice.', OD, [('read_xyz opens and parses the file on every call', 'occupation_domain.py')], ['value of each import'],
  technique=T + 'random multi-file histories under simulated clocks and time stamps; oracle: a dictionary as register model',
  level_note='Non-overlapping operations per file; exact register semantics.')
p('C08', 'Results never depend on random draws, and calls end for any draws',
  'Every public computation of the shipped packages returns exactly the same value whatever the random generators deliver and whatever state the '
  'caller\'s generators are in, and finishes after a bounded number of steps for every legal sequence of draws. No call re-seeds or resets the '
  'caller\'s global random generators.',
  ['schedules', 'inputs'], 'all draw sequences (honest and adversarial) x inputs of about 250 public operations',
  TEST + 'they see one draw sequence.', NUM + M1 + UT + INT,
  [('coplanarity tests sample point triples at random and must fall back to all triples', 'numericalc.py, math1.py')], ['returned value', 'generator state'],
  technique=T + 'random module, numpy.random and os.urandom replaced by seeded adversarial draws with step budget; oracle: same call in a fresh process',
  level_note='Seeded sampling of inputs and adversarial-but-legal draw policies; comparison is bit for bit.')
p('C09', 'Concurrent callers get exactly the results they would get alone',
  'When several threads call public computations of the shipped packages at the same time, also the same one or with shared read-only inputs, every '
  'call returns exactly what it returns alone and finishes; no thread blocks for ever, no input is modified, and process-wide state '
  '(working directory, numpy error and print settings, warnings, signal handlers) is unchanged.',
  ['schedules', 'inputs'], 'interleavings of 2-3 callers at source lines or byte codes',
  TEST + 'nothing runs concurrently.', ALL, [('functions keep no mutable module-level state', 'all modules')], ['returned values', 'inputs', 'process-wide settings'],
  technique=T + 'seeded baton-passing thread scheduler with recorded switches; oracle: same call in a fresh process',
  level_note='Seeded sampling of interleavings; numpy/Qhull calls are atomic.')
p('C10', 'An interrupted call raises and leaves inputs and later results unaffected',
  'If an interrupt or an out-of-memory condition hits a public computation at any point, the call raises (or returns exactly the undisturbed result); '
  'it never swallows the condition and returns something else. Its inputs and the process-wide settings are unchanged, and the same and other calls '
  'afterwards give exactly the results they give in a fresh process.',
  ['fault_sequences', 'inputs'], 'every source line executed by each operation x exception kind',
  TEST + 'nothing is interrupted.', ALL, [('no bare except around computations; no partially updated shared state', 'utils.py, intsct.py')],
  ['outcome of the interrupted call', 'inputs', 'results of later calls'],
  technique=T + 'exception raised before the k-th executed source line, then retry and canary calls; oracle: fresh process',
  level_note='Seeded sampling of interrupt positions at line granularity.')
p('C11', 'Results depend only on the arguments, never on earlier calls',
  'In every sequence of public calls in one process, each call returns exactly what it returns as the first call of a fresh process for the same '
  'argument values, whatever was called before, however the argument arrays are laid out in memory, and even if the caller overwrites arrays it '
  'passed or received earlier. No call modifies its arguments, process-wide settings, or a result it returned earlier.',
  ['histories', 'inputs'], 'all call sequences over about 250 public operations of both packages',
  TEST + 'each calls one function once or twice.', ALL, [('pure functions, no caches, no mutable defaults', 'all modules')],
  ['returned values', 'argument arrays', 'process-wide settings'],
  technique=T + 'random call histories with buffer reuse, overwritten results, read-only and strided inputs; oracle: fresh process per call',
  level_note='Seeded sampling of histories of 3-8 calls; comparison is bit for bit.')
p('C13', 'Results and files do not depend on verbosity, locale, clock or console',
  'For equal arguments every public computation returns the same value and every export writes the same bytes at every verbosity level and in every '
  'environment: locale encoding, clock jumps, console present or not, umask, process id, environment variables, hash seed, optimisation mode, '
  'garbage-collector and numpy print/error settings.',
  ['configurations', 'inputs'], 'operations and exporters x environment variations, in simulated environments and separate interpreters',
  TEST + 'they run in one environment with default verbosity.', ALL, [('explicit utf-8 encoding of files; verbose only prints', 'occupation_domain.py, two_occupation_domains.py')],
  ['returned values', 'bytes on disk'],
  technique=T + 'simulated clock, locale, console, process identity plus separate interpreters with other hash seeds; oracle: default environment',
  level_note='Seeded sampling of environments; consoles that raise are covered by C02/C03.')
p('C14', 'A modelling session hit by faults converges to the fault-free result',
  'A session that imports a domain, shifts, transforms, intersects or simplifies it, stores checkpoints and exports the result, and that simply '
  'repeats a step that failed and restarts from its files after a crash, ends with exactly the domain and files of a fault-free session once faults '
  'stop, within a bounded number of attempts.',
  ['fault_sequences', 'crash_points', 'histories'], 'pipelines of both packages x sequences of storage faults, interrupts, crashes and draw sequences',
  TEST + 'no test combines operations with failures.', OD + TWO, WR + [('deterministic computations; failing steps leave nothing behind', 'occupation_domain.py, two_occupation_domains.py')],
  ['final domain', 'final files', 'number of attempts'],
  technique=T + 'whole-session simulation with storage faults, interrupts, crash/restart and adversarial draws; oracle: fault-free session',
  level_note='Seeded sampling of sessions of up to five steps and nine faults; progress bound on attempts.')
p('C15', 'Intersections and simplifications are right for any draws and threads',
  'For overlapping, touching, nested, equal or disjoint domains made of cells of the icosahedral and dodecagonal orbits, an intersection or asymmetric '
  'part has exactly the volume (area) of the true overlap, lies inside both operands and contains no degenerate cell, and is empty when the overlap is; '
  'a simplification keeps the region. This holds for every sequence of random draws and every interleaving of concurrent callers.',
  ['inputs', 'schedules'], 'cells of three orbits translated by lattice vectors and cells nested in them x draw sequences x interleavings',
  TEST + 'they compare two intersections with stored files.', TWO + INT + UT + OD, [('segment/face intersection, inside tests, tetrahedralisation, volume check', 'intsct.py, utils.py, numericalc.py')],
  ['volume, containment and shape of the result'],
  technique=T + 'adversarial draws and seeded thread schedules; oracle: independent clipping model of the exact overlap',
  level_note='Seeded sampling of domains built from orbit cells; volumes compared within 1e-6.')
NA = [
 ('C20', 'Field arithmetic is exact', 'Sums, products, quotients and powers of the exact numbers the packages compute with equal the mathematical result in lowest terms with positive denominator, for all operands that do not exceed 64-bit range.', M1, 'math1 add/sub/mul/div', 'math1.py',
  'A pure function of its operands: no schedule, time, I/O, randomness or fault can influence it, so simulation adds nothing to plain input testing (history, thread and interrupt independence of these calls is covered by C09-C11).'),
 ('C21', 'Symmetry operations form the full group and orbits are complete', 'The generated icosahedral and dodecagonal symmetry operations are closed under composition with the right order, and the symmetric orbit of a domain contains each image exactly as often as the group prescribes.', SY, 'icosasymop, dodesymop, generators', 'symmetry.py',
  'Pure functions with constant tables; nothing for a simulator to schedule or fail.'),
 ('C22', 'Projections to physical and internal space are linear and consistent', 'Exact and numerical projections of the same 6D vector agree, are linear, and the two projections together determine the vector.', M1 + NUM, 'projection, projection3, projection_perp', 'math1.py',
  'Pure linear maps of the input; no concurrency, time, I/O or multi-party behaviour.'),
 ('C23', 'Duplicate removal keeps exactly one representative per position', 'Removing doublings from a set of vectors keeps exactly one representative of every position in internal space and invents none.', UT, 'remove_doubling, remove_doubling_in_perp_space', 'utils.py',
  'Pure function of the input array; independence of history, threads, interrupts and draws is covered by C08-C11.'),
 ('C24', 'Subtraction of domains', 'The difference of two domains has the volume of the first minus that of the overlap and does not overlap the second.', TWO, 'subtraction', 'two_occupation_domains.py',
  'Pure geometry; moreover the subtraction entry points raise NameError/TypeError for practically every input on this tree, so there is no behaviour to simulate.'),
 ('C25', 'VESTA and POD contents describe the right polyhedra', 'Bonds, polyhedra, connection lists and symmetry headers in exported VESTA, atom and POD files describe exactly the exported domain for the consuming programs.', OD, 'write_vesta, obj2podatm, write_podatm', 'occupation_domain.py',
  'A pure formatting function of the object; its oracle is the external program. Completeness of these files under faults is covered by C01-C03.'),
 ('C26', 'Border edges, outlines and site symmetries are right', 'Border edges, outlines, site symmetry groups and coset representatives equal their mathematical definition for every domain and position.', OD + SY + UT, 'generate_border_edges, outline, site_symmetry, coset', 'occupation_domain.py, symmetry.py',
  'Pure functions; some entry points are broken for all inputs (missing names). Independence of draws, threads, interrupts and history is covered by C08-C11 for those that work.'),
 ('C27', 'Arithmetic overflow is detected', 'A computation whose exact result does not fit in 64-bit integers raises instead of returning wrapped values.', M1 + INT, 'int64 arrays', 'math1.py',
  'Depends on the operand values only, never on a schedule, clock or fault; also false on this tree by design (numpy wraps silently), and no small repair exists.'),
 ('C28', 'The legacy Cython packages agree with the shipped ones', 'The older compiled packages give the same results as the shipped Python packages on common inputs.', ['src_cython/'], 'legacy modules', 'src_cython',
  'Not part of the distribution and a pure differential question without schedule, time or I/O.'),
]
for id, title, st, files, mech, where, reason in NA:
    p(id, title, st, ['inputs'], 'all inputs', 'Tests sample a handful of inputs.', files, [(mech, where)], ['returned value'], na=reason)

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x['rec'], ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: all seams are Python-level (builtins.open, os, time, random, threading, sys.settrace) '
                 'and installed by the simulator at run time', 'source_commits': []},
       'checks': [{'property': x['rec']['id'], 'quick_cmd': 'bash check.sh %s quick' % x['rec']['id'],
                   'thorough_cmd': 'bash check.sh %s thorough' % x['rec']['id'], 'evidence_file': 'evidence/%s.json' % x['rec']['id'],
                   'technique': x['technique'], 'level': 'exploration', 'level_note': x['level_note']} for x in P if not x['na']],
       'not_applicable': [{'property': x['rec']['id'], 'reason': x['na']} for x in P if x['na']]}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
for x in P:
    assert len(x['rec']['title']) <= 80, x['rec']['title']
    assert x['rec']['statement'].count('. ') <= 2, x['rec']['id']
