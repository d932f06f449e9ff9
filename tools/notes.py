# per property: what decides it and against which oracle; bounds and what lies outside them
N = {}
def n(p, how, bounds): N[p] = (how, bounds)
n('R01', 'wr_unify_term and wr_match_term run on all pairs of terms of bounded shape; leaves are symbolic. Oracle: a textbook unifier in the harness (with occurs check); the resulting bindings are applied and have to make the terms equal, be idempotent and most general.',
  'Bounds: outer terms of up to 2-3 arguments, nesting 3, three variables per bank, leaves over variables, symbolic small and large integers, reals, strings, constants. Outside: longer terms, list-specific shapes.')
n('R02', 'wr_equal_term on the same pairs of terms as R01, also between small, large and record-held encodings of a value. Oracle: structural comparison of the values the terms were built from.', 'Bounds: as R01.')
n('R03', 'wr_subsume_cl with the metas, the literal sorting and the two variable banks the prover sets up, and all three meta prefilters, on pairs of clauses. Oracle: an independent backtracking matcher of literals to distinct literals. The prefilters must never reject a subsumer.',
  'Bounds: up to 3 general against 4 specific literals, up to 2 arguments, 3 variables, integers 0-3 symbolic, nesting 2, and chains of depth up to 256 for the meta counters. Outside: the unit-clause hashes of forward subsumption (R11), equality modulo variables for instance generation.')
n('R04', 'The whole prover runs on families of problems whose constants are symbolic; every clause it prints or keeps and the verdict are judged in a symbolic interpretation with a 2-element domain: no interpretation that satisfies the input may falsify a derived clause, and a proof may only be reported for an input with no model.',
  'Bounds: 12 families (equality, functions, Horn and non-Horn, arithmetic), 14 strategies, up to 4 symbolic constants each. Outside: larger problems, models of more than 2 elements, the multi-process run.')
n('R05', 'The whole prover on function-free, equality-free families, where satisfiability over the Herbrand universe is decided by Z3 from the symbolic constants: verdict has to be proof found exactly when it is unsatisfiable.', 'Bounds: eight families of 5-8 clauses with up to four symbolic constants; complete strategies only (no unit/double/triple restriction, no set of support).')
n('R06', 'wr_compute_* for +,-,*, quotient and remainder e/t/f, negation and the comparisons, on integers with all bits symbolic. Oracle: 128-bit arithmetic; a result that does not fit has to stay unevaluated.', 'Bounds: all 64-bit operands for +,-,negation; multiplication and division on all operand pairs of the listed widths (solver reach), extremes included.')
n('R07', 'Comparison built-ins on int/int, real/real, int/real pairs, all bits symbolic. Oracle: exact order of the mathematical values.', 'Bounds: all 64-bit integers and all finite doubles.')
n('R08', 'Real arithmetic and the conversions $to_int, $to_real, $floor, $ceiling, $truncate, $round. Oracle: IEEE operations and the mathematical definitions.', 'Bounds: all finite doubles for the conversions; operations on listed magnitudes where the solver cannot do full-width floating point. $round rounds half away from zero (as documented in the code).')
n('R09', '$strlen, $substr, $substrat, $first, $rest, $is_list, $is_atom, $is_distinct on symbolic text, positions and list elements. Oracle: definitions written out in the harness.', 'Bounds: texts of up to 4 bytes (all byte values), lists of up to 3 elements of ten kinds.')
n('R10', 'The term ordering and the literal selection that uses it, on all pairs and triples of bounded terms and on their instances: irreflexive, antisymmetric, transitive, total on ground terms, stable under substitution, and every clause keeps a literal to resolve upon.', 'Bounds: depth 2 and 2 arguments, leaves of seven kinds, symbolic integers, reals, and string/constant choices.')
n('R11', 'Unit, double, active-unit, atom, clause hashes and term lists of the reasoner: symbolic unit sets are stored, symbolic atoms looked up. Oracle: matching and equality in the harness: nothing that matches is missed, nothing else is returned.', 'Bounds: up to 2-3 stored units of up to 2 arguments; integers symbolic over 64 bits in one bucket, over small ranges through the hash functions.')
n('R12', 'The whole prover runs and its printed proof is captured and parsed again (plain, TPTP and JSON forms): every input step has to be implied by an input clause, every derived step by the steps it cites, in a symbolic 2-element interpretation; the last step is false or the answer.', 'Bounds: 30 families, 14 strategies in plain form, 2 in the other forms, 2 constants per placeholder. `inst` steps of propositional instantiation are opaque and outside.')
n('R13', 'Answers printed by the prover: each reported disjunction of answers is implied by the input in all symbolic interpretations; on function-free families every answer that Z3 derives from the input is reported when enough answers are asked for.', 'Bounds: 12 families with $ans literals (two of them contradictory in themselves), up to 12 answers, 14 strategies (completeness on the complete ones only).')
n('P01', 'Formulas of the listed patterns with every choice of connectives, negations and quantifiers are written as text (fof axiom, fof conjecture, plain formula) and read by the real parser and clausifier. Z3 decides over symbolic 2-element interpretations that the clauses imply the formula (or its negation) and that every model of the formula extends to the new symbols.', 'Bounds: 88 patterns with up to 8 connectives, 4 quantifiers, list terms; 2-element domains. Outside: conjectures with free variables.')
n('P02', 'Tokens with symbolic digits in the text and JSON syntaxes run through the real lexers, parsers and encoders. Oracle: the value of the digits as a 128-bit integer; for real tokens of the text syntax what strtod is given; JSON reals, which are printed and re-read, are a list of 23 difficult doubles with sign and surroundings chosen (concrete values: the solver cannot decide printf of a double).', 'Bounds: 1-6 free digits, and 19-digit numbers around the 64-bit limits with 3-4 free digits. Outside: denormal JSON reals; further clauses of a file are still imported after the error message about a number that does not fit.')
n('P03', 'Arbitrary bytes inserted in or replacing parts of text and JSON inputs, and tokens of 46 lengths up to 3000 in 32 places, are read by the real lexer, parser, JSON parser and clausifier under a memory model that checks every access; exit, abort and endless loops are violations.', 'Bounds: 1-4 arbitrary bytes per input, 9 text and 10 JSON surroundings. Outside: deeper nesting than the stack allows, include files that exist.')
n('P04', 'As P01 for JSON-LD-LOGIC formulas: bare, as @question/negated conjecture, and as the @logic value of a named object, infix, prefix, if-then, list-of-disjuncts and @list forms.', 'Bounds: as P01, JSON shapes of patterns 64-82.')
n('P05', 'Clauses read from text with arbitrary bytes in names, quoted names, strings and variables are printed by the real printer (plain and TPTP) and read again. Oracle: structural comparison of the two clauses, up to the order of two literals and renaming of variables.', 'Bounds: 14 clause shapes, 1 arbitrary byte (thorough: 2) after fixed prefixes such as a backslash, a quote or words with spaces. Outside: JSON output (control characters in names are not escaped there), reals (printed with %f), dates and times, names starting with $.')
n('D01', 'Every value type is encoded, typed, decoded and copied with symbolic content. Oracle: the original value.', 'Bounds: all 64-bit integers, all doubles, all chars; fixed-point over its range; strings, uris, xml literals and blobs of 13 lengths with 3 arbitrary bytes, blobs with zero bytes.')
n('D02', 'Pairs of strings with arbitrary bytes in one bucket of the string table (so all comparisons are symbolic), and listed bytes through the real hash. Oracle: byte-wise equality of text, type and extra text.', 'Bounds: lengths 1-41, 3 free bytes per text, all pairs of the six string types.')
n('D03', 'Symbolic sequences of allocations and frees over sizes that reach every bucket kind, the designated victim and area extension. Checked after each step: objects do not overlap, their symbolic contents survive, the free lists and the area add up.', 'Bounds: 6 (thorough 8) operations, three sizes per run, three areas.')
n('D04', 'wg_compare and WG_COMPARE on pairs of values of every type, symbolic contents, records up to the comparison depth. Oracle: order of the values; antisymmetry, and equality only of equal values.', 'Bounds: scalars over all bits, strings of up to 3 free bytes, records of 2 fields.')
n('D05', 'T-tree indexes built over patterns of keys, then symbolic insertions and deletions. Checked: every row of the table once, in order, chain and tree agree, balance and node bounds.', 'Bounds: up to 120 rows, 1-3 symbolic operations, keys of several types, template and late indexes.')
n('D06', 'Hash and JSON-key indexes: symbolic values in one chain, sequences of inserts and deletes, lookups. Oracle: a linear scan.', 'Bounds: up to 3 columns, 2-3 symbolic operations on up to 12 rows.')
n('D07', 'Queries with symbolic conditions and bounds over tables with and without indexes; match records, row limits, wg_find_record. Oracle: a scan that applies all conditions.', 'Bounds: tables of up to 40 rows, up to 2 conditions, integer and small-string columns.')
n('D08', 'Record creation, field setting (every value kind), deletion and scans as symbolic sequences. Oracle: a model of rows, including reference counts of shared strings and records.', 'Bounds: 4-40 rows, 1-2 symbolic operations after fixed ones.')
n('D09', 'wg_dump and wg_import_dump over a modelled file: same contents after loading, a truncated or altered file is refused or loads the same, a dump during a write of another process loads.', 'Bounds: up to 300 rows, one arbitrary byte altered, truncation anywhere, 2-5 preemptions. Outside: failing fseek/fclose, whose results the code ignores.')
n('D10', 'The futex queue lock under every interleaving of 2-4 processes up to a bound of preemptions; timeouts and interrupted waits are nondeterministic. Checked: no writer together with another holder, no deadlock or lost wake-up, queue empty at the end.', 'Bounds: 2-3 processes (thorough 4) with 1-2 critical sections, 1-3 preemptions, one timeout, one interruption; sequentially consistent memory.')
n('D11', 'The extendible integer map and the offset set: fixed keys in patterns, then symbolic keys. Oracle: an association list.', 'Bounds: up to 700 fixed and 1-3 symbolic 64-bit keys.')
n('D12', 'Calendar, clock and ISO text conversions with symbolic days, times and digits. Oracle: an independent day count.', 'Bounds: quick: sampled leap, century and boundary years; thorough: all years 1-9999; all invalid 32-bit inputs. Outside: functions of the current time.')
NA = {
 'R14': 'Arithmetic instantiation has no entry point of its own: it runs inside the search loop under time and count budgets, and the statement about its limits needs an oracle for those budgets. Its soundness is covered by R04 and R12 on the families with arithmetic.',
 'R15': 'A query over a shared kb needs two processes attached to one shared-memory segment with the whole prover on both sides; paths of the prover over a multi-gigabyte kb exceed the executor. D09 and D10 cover the parts (dump, locks) that can be encoded.',
 'R16': 'The propositional solver is called with clauses collected by a running search and allocates its tables for millions of literals; executing it symbolically to a verdict is beyond the path budget of the executor. Verdicts of strategies that use it are covered by R04.',
 'C01': 'Settings are read into the global structure by code that also reads the environment (cores, time, memory) of the machine; an oracle for "exactly" would restate the several hundred assignments of the strategy reader, so no independent encoding was built.',
 'C02': 'The verdict and exit status come out of a fork/wait tree of prover processes; the executor has threads but no processes. The printed result of a single run is covered by R05, R12 and R13.',
}
