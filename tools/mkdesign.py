#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text, the notes below, and tables taken from the repository's own files."""
import ast, glob, json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rd = lambda p: open(os.path.join(R, p)).read()
P = [json.loads(l) for l in rd('properties.jsonl').splitlines()]

INTRO = r'''# Model-based verification of k2 with TLA+

## 1. Language and toolchain

**TLA+ with TLC** (tla2tools 1.8.0, CommunityModules).  k2's public operations are data
transformations with rich results (automata, arc maps, ragged shapes, lattices).  The specification
has to *evaluate* denotations (languages, path sums, nested lists, gradients) on recorded data; TLC
does that directly on JSON traces (`Json`, `IOUtils`), and its simulator writes the behaviours that
are replayed.  Quint would add types, but its verifier (Apalache) does not cope with
sequence-heavy data of this size and its runner does not read traces.

## 2. Shape of the machinery

* `spec/K2*.tla` - the specification proper: what weighted automata, ragged tensors, dense score
  matrices, alignments, decoding sessions, symbol tables, hash tables, thread pools *are* and what the operations
  on them mean (denotations, transition relations, declarative definitions by paths).
* `spec/MC<id>*.tla` - design models: the library's algorithm, or protocol, as a transition system in
  its own steps (pair queues, layers, scans, stacks of intervals, memory accesses of several threads...),
  checked by TLC exhaustively for small constants against the same definitions.  `*_deep.cfg` are
  the constants of the thorough tier.  Several have a switch that plants a known slip
  (`Invalidate = FALSE` MC07, `WaitForValue = FALSE` MC24, `NotifyAll = FALSE` MC24P,
  `Sort = FALSE` MC26, `Shared = TRUE` MC27) under which TLC gives a counterexample; that is how F46, F47 and F55
  were explained or found.
* `spec/MC<id>S.tla` (C14, C15, C20, C23, C24, C27; MC07 itself for C07) - generators: TLC simulates programs
  (and thread schedules) which are replayed on the library.
* `spec/T<id>.tla` over `spec/TraceBase.tla` - trace specifications: for every recorded event the set
  of *named clauses* that fail; stateful ones (C07, C14, C15, C20, C23, C24, C27) carry the specification's
  state from event to event, so what an operation must show is what the specification's own
  transitions reach, not what the library reported before.
* `harness/drivers/c<id>.py` - draws inputs / replays behaviours, runs the real code (built from
  /repo's working tree), records what the public interface shows (`harness/cpp/*` where there is no Python
  binding: ragged shape operations, hash, thread pool, semaphores).
* `harness/run.py` - one check: build, models, generate, run in worker processes (crashes, hangs and
  unexpected exceptions become events), validate with TLC in parallel, corruption self-test, evidence.

**Binding.**  The oracle is always the TLA+ definition evaluated by TLC on the recorded inputs; the
drivers contain no expected values.  Every run also corrupts 40 recorded outputs (one integer leaf
each) and has TLC judge them; a check in which none is rejected stops with an error.  Accepted corruptions
are listed in the evidence (they are ties or values the property leaves open).

**Exactness.**  No tolerances on sums: tropical scores are small integers (above 2^24 in double
precision); log-semiring scores are logs of integers, so that path sums are exact integers after exp
and rounding; posteriors and gradients are compared as (gradient x total), or in fixed point with
unit 1/1000 where a quotient is unavoidable.  Infinite and NaN values have their own codes.

**Operands.**  Operands are projected again after each operation; a changed operand fails a clause.

**Replay.**  A violation writes the case and the failing clauses to `evidence/replay/<id>/<n>.json`;
`harness/run.py <id> --replay FILE` runs just that case.

**Cost.**  Quick checks take 10-60 s each on 8 cores; thorough ones run 4-10 times as many cases and the deep constants.
Every check first brings /opt/k2-build up to date with /repo (incremental; ~25-60 s after a C++ change).

## 3. Properties

In each: *spec* (modules that define it), *model* (what MC checks, with the quick constants),
*cases* (what the driver covers), *why* (what tests cannot reach).  All are checked at the level of observable
behaviour against the specification; none is proved for unbounded inputs: the models are
exhaustive within their constants, the conformance part samples.
'''
NOTES = {
'C01': ('K2Wfsa, K2Product', 'products depend on pairs of automata; only enumerating strings against both operands shows a merged or lost pair of states'),
'C02': ('K2Wfsa, K2Rational', 'language-level laws over all automata, e.g. elements without arcs inside a batch (F05-F08 were found there)'),
'C03': ('K2Wfsa, K2Path, K2Rewrite', 'equality of path multisets on every shape of graph; tests compare a few literal results'),
'C04': ('K2Wfsa, K2Rewrite', 'equality of best-score languages, and that each derived arc is the concatenation of the arcs it names'),
'C05': ('K2Props', 'flags are claims about all arcs; users skip work on their strength; malformed input must be refused for every kind of damage'),
'C06': ('K2Attr', 'chains of operations with every kind of attribute and filler, incl. source arc -1'),
'C07': ('K2Derive, MC07 behaviours', 'depends on the history of reads and writes of aliasing objects; histories come from TLC'),
'C08': ('K2Score, K2Path', 'definition by paths against a one-pass recursion over state batches, exact arithmetic'),
'C09': ('K2Grad, K2Score', 'derivatives through chains of operations, with arcs that are shared, dropped or merged; several backward passes'),
'C10': ('K2Path, K2Score', 'any best path is accepted; ties, unreachable states and empty elements'),
'C11': ('K2Prune, K2Score', 'positions in the cumulative distribution as exact rationals; thresholds next to the posteriors that occur'),
'C12': ('K2Dense', 'set of frame-synchronous paths within a beam; output arcs checked against definition by paths of every arc'),
'C13': ('K2Dense', 'the whole search is recomputed frame by frame, including the beam adaptation'),
'C14': ('K2Online, K2Dense', 'histories of sessions: which split, which slot, forked and repeated saved states'),
'C15': ('K2Rnnt', 'histories of sessions over changing subsets of streams; encodings checked in MC15'),
'C16': ('K2Ctc', 'all label sequences against all frame sequences up to a bound; the loss as exact alignment count'),
'C17': ('K2Lev', 'cheapest edit scripts by definition; mwer as expectation over the listed paths'),
'C18': ('K2Lattice', 'path sums in integers, garbage outside the rectangle, occupations as sums over paths through a step'),
'C19': ('K2Transducer, K2Lattice', 'classes weigh integers with a constant sum, so normalized losses are logs of rationals'),
'C20': ('K2Ragged, K2RagOps', 'programs over registers drawn by TLC; every view (row splits, row ids, totals) of every register checked'),
'C21': ('K2Ragged', 'empty rows, strides, initial values, gradients, three types; laws of the operations in MC21'),
'C22': ('K2Text', 'a grammar with its freedoms and its damages; round trips of all forms'),
'C23': ('K2Symbols', 'edit histories of several tables'),
'C24': ('K2Conc, MC24, MC24P', 'interleavings: real code under a deterministic scheduler with every access to the table, mutex or condition variable a scheduling point'),
'C25': ('K2Match', 'suffix-array code; definition by longest common context'),
'C26': ('K2Nbest, K2Wfsa', 'best path per entry by definition over lattice paths; rescoring per (label, output) pair'),
'C27': ('K2Batch', 'programs over batches drawn by TLC; elements identified by what was done to them'),
'C28': ('K2Equiv', 'weights of all strings by definition; the second automaton is made from the first by steps known to keep or change the weighted strings; verdict "any" where sampling may legitimately miss'),
'C29': ('K2Store, R01/R03/R05/R10/R15/R16', 'named objects as a store; each operation judged by the same relations as its Python counterpart, every other object by equality; driven through a C++ command-line harness'),
'C30': ('K2Decode, K2Nbest, R13', 'lattices small enough to list their paths; weights integers, or logs of integers where totals are compared'),
'C31': ('K2Search', 'scripted models whose encoder output holds the weights of all tokens in all contexts: hypotheses weigh integers; ties and near-ties leave the answer open'),
}
DET = r'''
C24 in detail: `harness/cpp/sched.cc` replaces the pthread functions by a deterministic scheduler (one
runnable thread at a time, the next chosen by a given schedule); `conc_cli` is compiled with clang,
its loads and stores in hash.h made scheduling points by `-fsanitize-coverage=trace-loads,trace-stores`, and
AtomicCAS overloaded.  Programs and schedules come from behaviours of MC24 and from random choices.  `seq_cli`
uses the header as it is.  Excluded: a pair of all-ones key and value (reserved by the header),
64-bit keys for `Hash`, `Resize` with an unchanged split.

## 4. What the specification leaves open (documented freedoms and ambiguities)

* intersect/compose results need not be connected; top_sort requires acyclic input and no arc entering
  the start state; determinize wants connected input (its documentation) and no gradients.
* Operations that have nothing to do return their operand, so an attribute may stay dense.
* shortest_path, entering arcs: any best choice; sort/unique: any valid permutation/occurrence.
* C20: `Unsqueeze` documentation is off by one against code and tests (spec follows the code); `Unstack` documentation says
  `pad_right` makes no difference on the last axis, code right-aligns; `pad` 'replicate' with `pad_left`
  fills with the first element; text of a ragged without lists on the second last axis does not
  show the number of axes; `==` between dtypes raises.
* C22: text keeps 6 significant digits, so scores are multiples of 1/8 below 1000; -inf is not readable from
  text; an automaton without arcs writes the empty text; malformed tensors of batches with out-of-range
  source states are not exercised.  MC22 runs without TLC coverage (memory), with a vacuity bound on states.
* C23: symbols with spaces or newlines and the empty symbol are excluded; adding an existing symbol returns its id and
  ignores the index given.
* C25: `counts_out` and the order are 0 when nothing matched (pinned by the test) although mean and variance are
  then those of all keys; the beginning of a sentence counts for the query's sentence only ("both
  sentences" in one comment, "a sentence" in the description of the output).
* C26: `whole_lattice_rescoring` changes its operand on purpose (it deletes `lm_scores`); `Nbest.intersect` of a list with
  aux_labels and a lattice with aux_labels raises (documented).
* C27: which algorithm removes epsilons depends on the properties of the whole batch; elements agree up to
  numbering of states and order of arcs.

## 5. False alarms met and corrected (machinery, not code)

* C15: format_output on streams that decoded nothing is outside its contract; asserted by the code.
* C26: recurrences over -inf weights in the specification itself lost the infinity; best scores are now taken over paths.
* C27: cyclic graphs given to operations that need acyclic ones; attribute types depend on the batch (see 4); joins of batches with
  different attribute sets.

## 6. Defects found

%s

F10 is the one known finding: repairing it means another construction, and an existing test pins
the present one.  The check recognizes it by its exact form (an arc entering the start state of
the operand, closure result equal to the pinned construction).

## 7. Planted changes

Each `seeded/<id>` has the patch, a demonstration and what it needs to manifest.  All were validated (build, stable tests
pass, demonstration fails with and passes without) by the same procedure.

%s
'''


def const(mod, cfg):
    try:
        s = rd('spec/%s' % cfg)
    except FileNotFoundError:
        return ''
    m = re.search(r'CONSTANTS?(.*?)(?=\b(INIT|SPECIFICATION)\b)', s, re.S)
    return ' '.join(m.group(1).split()) if m else ''


def head(mod):
    s = rd('spec/%s.tla' % mod)
    out = []
    for l in s.splitlines()[1:]:
        if l.startswith('(*'):
            out.append(l.strip('(*) ').strip())
        elif out:
            break
    return ' '.join(out)


def rule(i):
    t = ast.parse(rd('harness/drivers/%s.py' % i.lower()))
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULE':
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return ''
    return ''


out = [INTRO]
for p in P:
    i = p['id']
    mods, why = NOTES.get(i, ('', ''))
    ms = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(R, 'spec', 'MC%s*.tla' % i[1:])))
    out.append('### %s %s\n\n%s\n' % (i, p['title'], p['statement']))
    out.append('*spec*: %s; T%s' % (mods, i[1:]))
    for m in ms:
        out.append('*model* %s: %s Constants: %s%s' % (m, head(m), const(m, m + '.cfg'), ('; thorough: ' + const(m, m + '_deep.cfg')) if os.path.exists(os.path.join(R, 'spec', m + '_deep.cfg')) else ''))
    out.append('*cases*: %s' % rule(i))
    out.append('*why*: %s.\n' % why)
F = ['| id | property | what |', '|---|---|---|']
for l in rd('known_findings.jsonl').splitlines():
    d = json.loads(l)
    F.append('| %s | %s | %s |' % (d.get('id'), d['property'], ('**known** ' if d['status'] == 'known' else '') + re.sub(r'^fixed: property=\S+ ', '', d['what']).replace('|', '/')))
S = ['| change | property | needs | result |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    S.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/'), m.get('caught', 'caught by the quick check')))
out.append(DET % ('\n'.join(F), '\n'.join(S)))
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))
