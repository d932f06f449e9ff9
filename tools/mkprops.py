#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the list stays consistent with the schema)
import json, sys
P = []
def p(id, title, stmt, over, text, why, files, mech, obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=hook)))
p('R01', 'Unification computes a most general unifier exactly when one exists',
  'For any two terms or atoms, wr_unify_term succeeds if and only if they are unifiable (occurs check included); after success the recorded bindings make the two terms equal and are most general. wr_match_term binds only variables of its first argument, and succeeds exactly when the second argument is an instance of it. Clearing the varstack leaves every variable bank unassigned.',
  ['inputs'], 'all pairs of terms over the signature, with shared, repeated and chained variables', 'The tests unify a dozen fixed pairs; correctness is over all pairs of terms, and cyclic bindings need specific shapes.',
  ['Reasoner/unify.c', 'Reasoner/unify.h'], [('wr_unify_term / wr_unify_term_aux', 'Reasoner/unify.c'), ('wr_match_term', 'Reasoner/unify.c'), ('wr_occurs_in, VARVAL, SETVAR, wr_clear_varstack', 'Reasoner/unify.c')], ['return value, varbanks, varstack'])
p('R02', 'Term equality is structural identity over every data type',
  'wr_equal_term (and the tautology, duplicate-literal and unit tests built on it) returns true exactly when its two arguments denote the same term: same structure, same variables, same symbol, and for numbers and strings the same type and value, however the value is stored.',
  ['inputs'], 'all pairs of terms and primitive values, in every storage form', 'Tests compare a few constants; equality must hold for every value of every storage form.',
  ['Reasoner/unify.c'], [('wr_equal_term, wr_equal_term_macroaux', 'Reasoner/unify.c'), ('wr_equal_ptr_primitives', 'Reasoner/unify.c')], ['return value'])
p('R03', 'Clause subsumption is exact and its prefilters never reject a subsumer',
  'wr_subsume_cl(C,D) holds exactly when some substitution maps the literals of C to different literals of D, with no clause bindings left behind; the clause metablocks and literal metas computed by wr_calc_clause_meta never make wr_clmetablock_can_subsume or the literal filters reject a pair where C subsumes D.',
  ['inputs'], 'all pairs of clauses up to the bound', 'A wrong deletion makes the prover silently incomplete; tests only see problems that still have a proof.',
  ['Reasoner/subsume.c', 'Reasoner/clmeta.c'], [('wr_subsume_cl, wr_subsume_cl_aux', 'Reasoner/subsume.c'), ('wr_calc_clause_meta, wr_calc_lit_meta', 'Reasoner/clmeta.c'), ('wr_clmetablock_can_subsume', 'Reasoner/subsume.c')], ['return value'])
p('R04', 'Every derived clause and every proof is a logical consequence of the input',
  'Whatever the strategy, each clause the prover derives by resolution, factoring, paramodulation, equality reflexivity, unit cutting, simplification or rewriting is true in every interpretation in which the input clauses are true, and a proof is reported only for an unsatisfiable input.',
  ['inputs', 'configurations'], 'all interpretations, problems and strategy settings within the bounds', 'Tests check verdicts of a fixed set of problems; an unsound rule shows only on particular literal, variable and equality patterns.',
  ['Reasoner/resolve.c', 'Reasoner/derive.c', 'Reasoner/simp.c', 'Reasoner/rewrite.c', 'Reasoner/build.c', 'Reasoner/subsume.c', 'Reasoner/rgenloop.c'], [('binary resolution and factoring', 'Reasoner/resolve.c, Reasoner/derive.c'), ('paramodulation', 'Reasoner/resolve.c'), ('unit cut, double cut, simplification', 'Reasoner/subsume.c, Reasoner/simp.c')], ['printed derived clauses and verdict'])
p('R05', 'Unsatisfiable function-free problems are refuted, satisfiable ones never are',
  'For every function-free clause set without equality, run to completion under an unrestricted resolution strategy, the prover reports a proof exactly when the set is unsatisfiable: redundancy elimination, indexing, literal selection and clause queues never lose a needed clause.',
  ['inputs', 'configurations'], 'all clause sets of the bounded shapes and the complete strategies', 'Lost clauses are invisible to tests whose problems have other proofs.',
  ['Reasoner/rgenloop.c', 'Reasoner/clstore.c', 'Reasoner/hash.c', 'Reasoner/subsume.c', 'Reasoner/derive.c'], [('given-clause loop', 'Reasoner/rgenloop.c'), ('queues and indexes', 'Reasoner/clstore.c, Reasoner/hash.c'), ('forward and backward subsumption', 'Reasoner/subsume.c')], ['verdict'])
p('R06', 'Integer arithmetic is exact or left unevaluated',
  'For all 64-bit integer arguments, built-in $sum, $difference, $product, $uminus, $quotient_e/t/f and $remainder_e/t/f evaluate to the exact mathematical result required by TPTP (Euclidean, truncating and flooring variants) or are left unevaluated when the result does not fit or is undefined; they never give a wrong value.',
  ['inputs'], 'all pairs of 64-bit integers', 'Tests use small positive integers; overflow, signs and precision loss need particular values.',
  ['Reasoner/build.c'], [('wr_compute_fun_arith2, wr_compute_fun_arith1', 'Reasoner/build.c')], ['encoded result term'])
p('R07', 'Comparisons of numbers decide the true order',
  'For all pairs of numbers, integer or real, $less, $lesseq, $greater, $greatereq and numeric equality evaluate to their mathematical truth value, never to a wrong one, and each is consistent with the others.',
  ['inputs'], 'all pairs of 64-bit integers and finite doubles', 'Only a few small pairs are tested; precision and mixed-type cases need particular values.',
  ['Reasoner/build.c'], [('wr_compute_fun_arith2', 'Reasoner/build.c'), ('wr_equality_atom..., typed equality', 'Reasoner/build.c')], ['truth value'])
p('R08', 'Real arithmetic and numeric conversions follow their definitions',
  'For all finite real arguments, $sum/$difference/$product/$quotient on reals equal the IEEE result, and $to_int, $to_real, $floor, $ceiling, $truncate, $round (to a nearest integer), $is_int and $is_real (also on integers) give the defined value or are left unevaluated when it is not representable.',
  ['inputs'], 'all finite doubles and all 64-bit integers', 'Rounding and range edge cases are not sampled by tests.',
  ['Reasoner/build.c'], [('wr_compute_fun_arith1, wr_compute_fun_arith2', 'Reasoner/build.c')], ['encoded result term'])
p('R09', 'String and list built-ins compute their defined results',
  '$strlen, $substr, $substrat, $is_list, $is_map, $is_atom, $first and $rest evaluate, for all strings and lists, to the result their documentation defines, and are left unevaluated on arguments of any other kind.',
  ['inputs'], 'all strings and lists up to the bound', 'Tests use one or two strings each.',
  ['Reasoner/build.c'], [('wr_compute_fun_list, string functions', 'Reasoner/build.c')], ['encoded result term'])
p('R10', 'The term ordering is a consistent simplification ordering',
  'The ordering used to orient equations and select literals is irreflexive, antisymmetric and transitive, is preserved under substitution, and never calls a term smaller than one of its proper subterms; ordered resolution always leaves at least one literal of a clause to be resolved upon.',
  ['inputs'], 'all pairs and triples of terms up to the bound', 'An ordering defect loses proofs only on particular term pairs.',
  ['Reasoner/strat.c'], [('wr_order_eqterms, wr_order_atoms, Knuth-Bendix comparison', 'Reasoner/strat.c'), ('wr_calc_clause_knuthbendix_resolvability', 'Reasoner/strat.c')], ['return value'])
p('R11', 'Index lookups find every unit and only equal or matching ones',
  'Every unit clause, atom occurrence or term stored in the unit hashes, active-unit hashes, atom occurrence hash and term lists is found again by a lookup with an equal key however the clause was built, and lookups never return a different atom or one of the wrong polarity.',
  ['inputs', 'histories'], 'all sequences of insertions and lookups up to the bound', 'Hash defects are masked by other inference paths in end-to-end tests.',
  ['Reasoner/hash.c', 'Reasoner/clstore.c', 'Reasoner/derive.c', 'Reasoner/subsume.c'], [('wr_lit_hash, wr_term_basehash, wr_find_termhash, clterm hashlists', 'Reasoner/hash.c'), ('wr_add_cl_to_unithash, wr_add_cl_to_active_unithash', 'Reasoner/clstore.c'), ('wr_atom_cut_and_subsume, wr_active_subsumed_lit', 'Reasoner/subsume.c')], ['lookup result'])
p('R12', 'Every step of a printed proof follows from the steps it cites',
  'In any printed proof, whether in the plain, TPTP or JSON form, each step marked as input is equivalent to an input clause, each derived step cites only earlier steps and is a logical consequence of them, and the last step is the empty clause or, for a question, the reported answer; a proof is printed exactly when the run reports one. (Steps of the propositional solver, printed over variable numbers, count only through the steps they cite.)',
  ['inputs', 'configurations'], 'all proofs of the bounded problems, under all listed strategies', 'Tests look only at the verdict line, not at the steps.',
  ['Reasoner/history.c', 'Reasoner/printerrutils.c', 'Reasoner/build.c'], [('wr_build_resolve_history and friends', 'Reasoner/history.c'), ('proof printing', 'Reasoner/history.c')], ['printed proof'])
p('R13', 'Reported answers follow from the input and none is lost',
  'Every answer printed for a question is a clause of answer literals that the input entails (for a disjunctive answer, the disjunction), its proof is a correct proof ending in it, and for function-free knowledge bases without equality, run to completion under an unrestricted strategy, every entailed definite answer is an instance of a reported one unless max_answers answers were reported.',
  ['inputs', 'configurations'], 'all bounded knowledge bases and queries', 'Tests have a few fixed queries.',
  ['Reasoner/history.c', 'Reasoner/derive.c', 'Reasoner/resolve.c'], [('$ans literals, wr_register_answer', 'Reasoner/history.c')], ['printed answers'])
p('R14', 'Arithmetic instantiation is sound and respects its limits',
  'Every clause added by arithmetic instantiation is an instance of its parent over integers, a contradiction is reported through it only when the input is unsatisfiable over the integers, and the configured per-clause and global limits are never exceeded.',
  ['inputs', 'configurations'], 'all integer constants in the bounded problem shapes', 'The acceptance suite uses fixed constants.',
  ['Reasoner/arithinst.c'], [('wr_generate_arith_instances', 'Reasoner/arithinst.c')], ['verdict', 'counters'])
p('R15', 'A query over a shared kb gives the same verdict and never writes to the kb',
  'Proving a query against a preloaded knowledge base gives the same verdict as proving it from the concatenated text, and the shared knowledge base segment is bit-for-bit unchanged by it.',
  ['inputs', 'histories'], 'all bounded kb and query pairs', 'Tests run one or two shared-memory examples.',
  ['Reasoner/init.c', 'Reasoner/rmain.c', 'Reasoner/rgenloop.c', 'Db/dbmem.c'], [('wg_in_attached_kb guards', 'Reasoner/*.c'), ('init_shared_database', 'Reasoner/init.c')], ['verdict', 'kb segment bytes'])
p('R16', 'The propositional and instance-generation procedures agree with satisfiability',
  'The built-in propositional solver reports a contradiction only for an unsatisfiable set of ground clauses, and instance-generation based proofs are sound.',
  ['inputs'], 'all bounded ground clause sets', 'Tests never check the propositional part in isolation.',
  ['Reasoner/prop.c'], [('wr_prop_solve_current and clause creation', 'Reasoner/prop.c')], ['verdict'])
p('P01', 'Clausification preserves satisfiability and meaning',
  'The clauses produced from a first-order formula (fof syntax or the plain formula syntax, with any nesting of connectives and quantifiers, closed, as axiom or negated conjecture) mean the formula: every model of the clauses is a model of the formula, and every model of the formula becomes one of the clauses by choosing the meaning of the new (Skolem and definition) symbols.',
  ['inputs'], 'all formulas of the bounded shapes, all interpretations of bounded size', 'Tests see only whether fixed problems are proved.',
  ['Builtparser/dbclausify.c', 'Builtparser/dbparse.c'], [('wr_clausify_formula, skolemisation, miniscoping, renaming', 'Builtparser/dbclausify.c')], ['clause list'])
p('P02', 'Numeric tokens are read exactly or rejected',
  'Every unsigned decimal integer token in the text syntaxes and every integer in JSON input (with or without a minus sign) within 64-bit range denotes exactly that integer in the database; every real token of the text syntaxes gets the value C strtod gives for exactly that token, and every real number in JSON input within the range of normal doubles the nearest double. A number that cannot be represented is rejected with an error message, never silently changed.',
  ['inputs'], 'all digit strings up to the bound', 'Tests use short numbers.',
  ['Builtparser/dbotter.yy.c', 'Builtparser/dbparse.c', 'Builtparser/jsparse.c', 'Db/dbmpool.c'], [('number scanning and encoding', 'Builtparser/dbparse.c, Builtparser/jsparse.c'), ('wg_mkatom_int, wg_mkatom_double', 'Db/dbmpool.c')], ['encoded constant'])
p('P03', 'Reading arbitrary text never crashes, hangs or corrupts memory',
  'For every byte string given as a problem in the logic syntax or in JSON, import terminates and returns success or an error, with no invalid memory access, abort or process exit.',
  ['inputs'], 'all byte strings up to the bound, alone and embedded in valid surroundings', 'Tests use well-formed files.',
  ['Builtparser/dbotter.yy.c', 'Builtparser/dbotter.tab.c', 'Builtparser/dbparse.c', 'Builtparser/jsparse.c', 'cjson/cJSON.c'], [('flex/bison parser', 'Builtparser/'), ('JSON-LD-LOGIC parser', 'Builtparser/jsparse.c')], ['return code'])
p('P04', 'A formula in JSON-LD-LOGIC becomes clauses with exactly its meaning',
  'A formula written in JSON-LD-LOGIC, bare, as a conjecture or as the @logic value of a named object, with any nesting of connectives and quantifiers, is read into clauses with exactly the meaning the same formula has in the logic text syntax: the same models, up to the meaning of new (Skolem and definition) symbols.',
  ['inputs'], 'all bounded problems in both syntaxes', 'Tests compare verdicts of a few files.',
  ['Builtparser/jsparse.c', 'Builtparser/dbparse.c'], [('wr_parse_js...', 'Builtparser/jsparse.c')], ['clause list'])
p('P05', 'Printed clauses read back as the same clauses',
  'Every clause read from the text syntaxes, with any symbols (names starting with $ aside), quoted names, strings, integers, variables and nested terms, printed in the plain or in the TPTP syntax is accepted by the reader and reads back as the same clause, up to the order of its literals and the names of its variables; a quoted name that could be written without quotes is the same symbol as the unquoted one. Reals, dates and times are outside this property.',
  ['inputs'], 'all bounded clauses, symbol names with arbitrary bytes', 'Quoting and escaping bugs need particular characters.',
  ['Printer/dbotterprint.c', 'Builtparser/dbparse.c', 'Builtparser/dbotter.yy.c'], [('wr_strprint_clause, name quoting', 'Printer/dbotterprint.c'), ('wr_parse_primitive', 'Builtparser/dbparse.c')], ['printed text'])
p('D01', 'Every value survives encoding into and decoding out of the database',
  'For each data type (integer, double, string, XML literal, URI, blob, char, fixpoint, date, time, variable, anonymous constant, record) decoding an encoded value of the supported range of its type returns exactly the value, with the right type tag, in every storage form, and encoding or freeing other values never changes it.',
  ['inputs'], 'all values of each type up to the length bound', 'Tests encode a handful of values; storage form boundaries need particular ones.',
  ['Db/dbdata.c', 'Db/dbdata.h'], [('wg_encode_*, wg_decode_*', 'Db/dbdata.c')], ['decoded value'])
p('D02', 'Equal strings are stored once and different strings never share a value',
  'Encoding the same string, URI, XML literal or blob (same text and same extra part) twice gives the same encoded value (plain strings short enough to be stored inline may instead get an equal copy), different ones always give different values, in whatever order they were stored and however they collide in the string hash.',
  ['inputs', 'histories'], 'all pairs and triples of strings up to the bound, in every hash-chain position', 'Hash collisions need particular strings and sequences.',
  ['Db/dbdata.c', 'Db/dbhash.c'], [('find_create_longstr', 'Db/dbdata.c'), ('string hash', 'Db/dbhash.c'), ('string lookup in the hash chain', 'Db/dbhash.c')], ['encoded value, decoded text'])
p('D03', 'The allocator never hands out overlapping or lost memory',
  'For every sequence of allocations and frees, live objects never overlap, keep their contents, are big enough and lie inside their area, free-list and size bookkeeping stay consistent, and freed neighbours are merged and reusable.',
  ['histories'], 'all sequences of allocate/free operations and sizes up to the bound', 'Corruption needs particular size and order combinations.',
  ['Db/dballoc.c'], [('wg_alloc_gints, wg_free_object, free lists, designated victim', 'Db/dballoc.c')], ['returned offsets, area contents'])
p('D04', 'Comparing encoded values is a total order consistent with the values',
  'wg_compare is a total order on encoded values: antisymmetric, transitive, a fixed order between types, and within each type the natural order of the decoded values, equal exactly for equal ones: numbers by size, texts bytewise (prefix or type part first for URIs and XML literals, the language of a string ignored), records by length and then field by field.',
  ['inputs'], 'all pairs and triples of encoded values up to the bound', 'Index correctness rests on the order for all values, of which tests check a few.',
  ['Db/dbcompare.c'], [('wg_compare', 'Db/dbcompare.c')], ['return value'])
p('D05', 'T-tree indexes hold exactly the rows of the table, in order',
  'After any sequence of record inserts and deletes, whenever the index was created, a T-tree index contains each matching row exactly once in key order, and lookups and range scans return exactly the rows a full scan would.',
  ['histories'], 'all operation sequences and key values up to the bound', 'Rotations, node splits and boundary keys need particular histories.',
  ['Db/dbindex.c'], [('T-tree insert, delete, rotate, search', 'Db/dbindex.c')], ['index walk, search result'])
p('D06', 'Hash indexes and JSON-key indexes return exactly the matching rows',
  'After any sequence of inserts and deletes, a lookup through a (multi-column) hash index returns each row with those values exactly once and no other row.',
  ['histories'], 'all operation sequences and key values up to the bound', 'Chains, collisions and deletions need particular histories.',
  ['Db/dbindex.c', 'Db/dbhash.c'], [('wg_search_hash, hash index maintenance', 'Db/dbindex.c, Db/dbhash.c')], ['lookup result'])
p('D07', 'Queries return exactly the rows that satisfy all their conditions',
  'A wg_query with any combination of conditions and match record, with or without usable indexes, prefetched or not, returns each matching row exactly once and no other row.',
  ['inputs', 'histories'], 'all bounded tables and condition lists', 'Index choice and bound conversion depend on the data and conditions.',
  ['Db/dbquery.c'], [('wg_make_query, wg_fetch', 'Db/dbquery.c')], ['fetched rows'])
p('D08', 'Records keep their fields and are all scanned under any edit sequence',
  'After any sequence of record creation, initial field setting and deletion, every live record has exactly the length and field values it was given, and scanning (wg_get_first_record/wg_get_next_record, wg_get_first_raw_record/wg_get_next_raw_record) visits each live record exactly once and nothing else, also across memory areas.',
  ['histories'], 'all operation sequences up to the bound', 'Reused, merged and split records need particular sequences.',
  ['Db/dbdata.c'], [('wg_create_record, wg_set_new_field, wg_delete_record, wg_get_next_record', 'Db/dbdata.c')], ['field values, scan, delete result'])
p('D09', 'A dumped database loads back identical',
  'Importing a dump of any database yields a database with the same records and values, and a dump that was truncated or altered in any byte is refused or loads exactly the bytes it contains, without invalid memory access.',
  ['inputs', 'crash_points'], 'all bounded databases, every truncation point, every altered byte', 'Tests dump and load one database.',
  ['Db/dbdump.c'], [('wg_dump, wg_import_dump, wg_check_dump, checksum', 'Db/dbdump.c')], ['loaded segment'])
p('D10', 'Database locks give mutual exclusion and always make progress',
  'Under every interleaving of processes, a write lock is never held together with any other lock, every waiting process eventually gets the lock once the others release it, and a lock attempt that times out leaves the lock usable.',
  ['schedules'], 'all interleavings of the bounded threads within the context-switch bound', 'Tests never run lock operations concurrently.',
  ['Db/dblock.c'], [('queued locks (LOCK_PROTO 3)', 'Db/dblock.c')], ['lock state, critical section'])
p('D11', 'The extendible integer hash and the offset set return what was stored in them',
  'After any sequence of wg_ginthash_addkey calls with distinct keys, wg_ginthash_getkey returns for each stored key the value stored with it and reports every other key absent; likewise a wg_dhash set holds exactly the non-zero keys added to it, however its buckets were split or grown.',
  ['histories'], 'all operation sequences and keys up to the bound', 'Bucket splits need particular key sets.',
  ['Db/dbhash.c'], [('wg_ginthash_addkey, wg_ginthash_getkey', 'Db/dbhash.c'), ('wg_dhash_addkey, wg_dhash_haskey', 'Db/dbhash.c')], ['lookup result'])
p('D12', 'Dates and times convert without loss',
  'Every calendar date of the years 1 to 22788 and every time of day from 00:00:00.00 to 24:00:00.00 converts to its number and back without change, from year/month/day, hour/minute/second and ISO text form, order is preserved, and dates and times that do not exist are rejected.',
  ['inputs'], 'all dates in the supported range, all times of day, all text of the bounded length', 'Tests convert one date.',
  ['Db/dbdata.c'], [('ymd_to_scalar, scalar_to_ymd, wg_strp_iso_*', 'Db/dbdata.c')], ['decoded date'])
p('C01', 'Strategy settings are applied exactly and kept within safe limits',
  'Every strategy JSON object is either rejected with an error or sets each documented setting to the given value within its documented range; out-of-range, huge or mistyped values never corrupt memory, hang the prover or change its verdict to a wrong one.',
  ['configurations'], 'all values of each documented key', 'Tests use a few strategies.',
  ['Reasoner/guide.c', 'cjson/cJSON.c'], [('wr_parse_guide_section', 'Reasoner/guide.c')], ['glb settings'])
p('C02', 'Verdict, exit status and output format agree with the search',
  'For every problem, the command line tool prints a proof exactly when the search found one, reports no proof otherwise, and with -json always prints one well-formed JSON document.',
  ['inputs', 'configurations'], 'all bounded problems and output options', 'Tests grep a line of the output of fixed problems.',
  ['Main/gkc.c', 'Reasoner/history.c'], [('gkc_main, wr_show_result', 'Main/gkc.c, Reasoner/history.c')], ['stdout'])
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
open(sys.path[0] + '/../properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
