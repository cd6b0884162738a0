import json,os,glob
head='''# Design

System under test: `tti` (trading-technical-indicators), pure Python: 57 indicators over
pandas data frames, one trading signal rule each, a lookup, two graphs and a trading
simulation. Technique: property-based testing and fuzzing only (Hypothesis, taken from the
offline tool venv through `vlib/bootstrap.py`, executed in the project's own interpreter so
that the project's pandas/numpy are what is tested).

## How a check works

`run.py <id>` loads the check, splits its *targets* (usually one per indicator) into chunks and
runs them on 8 worker processes. Each target is a Hypothesis strategy that draws a JSON-able
case and an oracle that judges it through the public API of the library imported from
`/repo`'s working tree (`VERIF_REPO` points elsewhere only for experiments). All randomness
derives from `VERIF_SEED`. A failure is shrunk, judged again without Hypothesis, written to
`replays/` and reported (`VIOLATION ...`, exit 1); `run.py <id> --replay FILE` repeats the
judgement (twenty times when threads are involved). An exception of the harness itself, or a
run cut off by its time budget, is exit 3, never a violation; an exception that leaves the
library where the property promises a result, or a malformed result, is a violation. Evidence
counts distinct non-trivial cases by digest, per target and per label.

* `vlib/gen.py` markets: drawn regimes (walk, up, down, oscillation, flat, gaps, volatile) over
  drawn bytes; binary-grid, cent and integer prices from a few ticks to 400,000 ticks, and for values and
  signals quotes in the millions; volume
  modes (steps, trends, wide, huge, neighbours around 2^31 and 5e9, zero days, fractions, trillions);
  zero-range days; markets where nothing happens until the last days; holes; daily, gapped and
  minute calendars; `long_frames` for histories up to ~1200 rows.
* `vlib/spec.py` what the documentation promises for each indicator (columns, defaults,
  parameter domain, minimum rows, first valid row).
* `vlib/ref.py` loop-level re-implementation of all 57 definitions (no pandas).
* `vlib/sig.py` the signal rule of every indicator; `vlib/ledger.py` a position-list model of
  the simulation.
* `vlib/alone.py` computes a baseline in a process forked before the library was first used, so
  that state kept in modules or classes cannot be in both sides of a comparison.

Hypothesis is used with two changes, both measured: `generate_mutations_from` is off (five of
six cases were near-copies of an earlier one, so that ten times fewer distinct cases were
judged), and wide integer ranges draw from their upper half half of the time (small values
are otherwise strongly preferred and large periods hardly occur).

Rounding is the only tolerance: half a unit of the published decimals plus what published
*intermediate* roundings imply (derived in `checks/c_values.py:expected`), plus ~1e-11 relative
float noise. Decisions taken on unpublished helper averages are accepted either way only
when they are tied within that noise. Indicators whose definition compares sums of prices use
binary-grid prices so that the comparison itself is exact.

Checks judge behaviour, not wording: everything goes through constructors and public methods.
Two things look inside and give up rather than alarm when the inside has changed: replacing the
published values of an instance (S*, `put_data`: the case is skipped unless the instance keeps
exactly its input, its values and plain parameters) and feeding scripted signals (T01, by
overriding `getTiSignal`). They were tried on a copy of the library with every private name
changed and each signal behind a helper, and on one whose rolling and exponential averages are
summed in another order (loops, backwards) than pandas does (only the signal on an average of
equal prices told the difference there, which pandas keeps exact).

Why this reaches what the tests cannot: the suite has one market file and mostly default
parameters. Here each indicator sees hundreds to thousands of markets, regimes and parameter
choices per run (tens of thousands in the thorough tier), with oracles that do not come from
the code's own recorded output.

## Properties

| id | generated | oracle |
|----|-----------|--------|
| V01-V05 | markets x parameters (1 in 5: up to ~450 rows, parameters up to 150), 800 per indicator; `years/`: 1000-2600 rows, parameters up to 1000 | reference model, every published cell |
| S01-S05 | `rule/`: histories, every day through a simulation + last signal; `edge/`: the last published values replaced by values on, next to and across thresholds; `days/`: the same on every day of a short history, from the first complete window on | documented rule applied to the published values |
| I01 | a frame and a re-presented copy (row/column order, letter case, numeric dtypes incl. unsigned, narrow and nullable, extra columns with any label, repeated included, time unit of the index, the whole market frame as simulation prices) | identical values, signal, latest, simulation |
| I02 | caller frames + random call sequences + later edits; simulation prices out of order, with holes, capitalised, views | both frames bit-identical; instance unaffected by edits |
| I03 | hole patterns x fill flag | forward-then-backward reference; filled beforehand = fill on; with fill off the row stays and its neighbours are as without the flag |
| I04 | one fault in otherwise valid data | documented exception naming the column |
| I05 | values in and outside each parameter's domain, boundaries | accepted / documented exception naming parameter and value |
| I06 | row counts around the requirement | accepted from exactly the requirement; message numbers |
| I07 | degenerate markets, minimal histories, every public call | no exception, well-formed results |
| A01 | markets, unordered rows, row counts near the warm-up, long periods | columns, index, first valid row, decimals |
| A02 | dates in several spellings (incl. `YYYYMMDD`, ISO, timestamps, date objects), partial dates, absent dates | the row of getTiData, or None |
| A03 | call histories with failing/interrupted simulations on a random day (fault injection into the signal call), and a twin with the same rows on other dates | values and signal computed in a fresh process, after every step |
| A04 | prefix (the shortest possible and a drawn one), original and different continuation | identical prefix rows |
| A05 | subsets of documented defaults (fill flag included), all indicators | identical to no arguments |
| A06 | figures, histories up to 1500 rows included | matplotlib lines and shaded areas against indicator, input and simulation data |
| A07 | `turns`: several indicators built and used in any interleaving; `inside`: work done inside another indicator's simulation; `threads`: one thread each, tiny switch interval; `kin`: per indicator, siblings that share dates, prices or parameters and differ in one of them | what each gives alone in a fresh process |
| T01 | price paths x signal scripts x limits x factors (limits and profits hit exactly) | position-list ledger, day by day + statistics |
| T02 | sampled days | fresh instance on truncated history |
| T03 | simulations of every indicator, own or other stock | accounting invariants + ledger |
| T04 | cut days | prefix of the whole simulation |
| T05 | bad arguments (NaN, subsets and supersets of the dates, wrong types) | documented exception naming it; no trace |
| T06 | unit changes, no/huge limit | same decisions, scaled money |
| M01 | markets x parameters | bounds and orderings (43 indicators) |
| M02 | markets x parameters | ten identities between indicators |
| M03 | unit factors 2^a (exact in binary) | scaling law (55) |
| M04 | shifts and reflections | shift / mirror law (46) |
| M05 | linear and flat markets, steps from 1/2048 to 8 units | closed forms (55) |
| M06 | replaced or removed old days | identical values (33) |
| M07 | the same rows on business days, weeks, years, minutes, zones, gaps, other centuries | identical rows, latest, signal, simulation |

Quick checks take 10-100 s each on the idle sandbox (about 20 minutes for all); the thorough
tier multiplies the cases by 10-30.

V against M: V trusts a re-implementation written from the same formulas; M needs no
reference at all, so a misreading shared by code and reference still has to satisfy it.

All properties are decided by this family; `not_applicable` is empty. Not listed as properties
because the library does not promise them: thread safety of one instance (A07 is about
different instances), performance, the meaning of 0/0 cells (some indicators publish NaN, some a
limit value), the pixels of a graph.

## Decisions

* Ignored signals in the simulation statistics include a first-day signal, which the engine
  never acts on: stated in T01/T03.
* DetrendedPriceOscillator looks ahead by its displaced average by design and FibonacciRetracement
  spans the whole period by definition; both are excluded from A04/T02/T04 (DPO: bounded in A04).
* IchimokuCloud: a close exactly on a cloud edge is accepted as inside or outside.
* NaN parameters, booleans as integers and LinearRegressionSlope(period=1) are unspecified (I05).
* Exact ties (a position whose price came back to exactly its opening price, an exposure exactly
  at the limit) are decided as documented: closed only with a profit, opened unless passed.

## Defects found and repaired

See `known_findings.txt` (17 `fix:` commits in /repo, each a minimal patch; the 1558 tests still
pass). No finding is left open.

## Planted changes

Each was written from a property's text, passes the 1558 tests and has a demonstration. All are
caught by the check of their property at seed 1.

'''
rows=['| change | property | needs |','|---|---|---|']
for m in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(m)); rows.append('| %s | %s | %s |'%(m.split('/')[1],d['property'],d['needs'].replace('|','/')))
tail='''

Missed at first, and what was changed: value_partial_date (A02: partial dates in many
spellings), imi_min_periods (A01: long periods, upper halves, more cases), imi_short_signal
(S03: `days/` targets), fill and shift boundary mutants (A05, I05), tsf_shared_lines (A07 and the
fresh-process baselines), graph_dropna and ichimoku_area (A06: holes, shaded areas),
sim_superset_dates (T05), ws_seed_from_end (A04: the shortest cut is always compared),
obv_float_index (V05: quotes in the millions), ws_dead_band (M05: steps far below a cent),
graph_thinning (A06: long histories), tsf_shared_lines in its later form (A07: `kin`),
sim_sorts_closes and sim_fills_closes (I02: untidy simulation prices), graph_fills_values (A03
draws graphs), adl_whole_volume (V: fractional volumes), bb_period_cap (V: `years/`, a decade of
prices, parameters up to 1000), index_to_millis (A01, M07: rows nanoseconds apart). Besides these, about 1700 mechanical mutants of the indicators were run
against V and S; the survivors were equivalent (checked by hand).
'''
open('DESIGN.md','w').write(head+'\n'.join(rows)+tail)
