#!/usr/bin/env python3
# known_findings.json is edited here and committed; checks only read it
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); F = []
def fixed(p, commit, what): F.append(dict(property=p, status='fixed', harness='', key='', what=f'fixed: property={p} {commit} {what}'))
def known(p, harness, key, what): F.append(dict(property=p, status='known', harness=harness, key=key, what=what))
fixed('R09', 'd03d7e2', '$is_list, $is_atom and $is_distinct of a list evaluated like $first instead of as tests')
fixed('R07', 'e8b3881', '$lesseq / $greatereq of a numerically equal integer and real evaluated to false')
fixed('R06', '5e098fb', '$quotient_e/t/f and $remainder_e/t/f computed through doubles or with the wrong rounding direction gave wrong integers')
fixed('R08', '5e098fb', 'remainders and quotients of reals and mixed arguments followed the wrong rounding')
fixed('R09', '4749095', '$substrat compared past the end of one string, and accepted symbols that are no strings')
fixed('R01', '31f2ab1', 'matching or unifying a big integer constant with a compound term decoded the constant as a record (crash)')
fixed('D12', '8125dba', 'dates and times that do not exist (30 February, 25:00) and years outside the supported range were converted to other dates')
fixed('D03', '0bf57e1', 'wg_free_object compared the offset of the previous free object with the minimum size, so freeing after a free object failed')
fixed('D03', '014dd1e', 'allocating an exact fit from a varlen bucket left the next object marked as following a free one')
fixed('D03', 'fc08100', 'a designated victim moved to a free list when the area was extended was not marked free for its next object')
fixed('D03', 'c2a175f', 'an object freed between the designated victim and a free object was not merged with the latter')
fixed('D06', 'a3e4c04', 'hash index keys of integers and variables were cut to 32 bits, so lookups returned other rows')
fixed('D06', '4f1b6c6', 'creating a multi-column hash index read past the end of records too short for it')
fixed('D06', '7a979e7', 'wg_index_add_rec and wg_index_del_rec handled rows of an index with a template twice')
fixed('P02', '9dc1a3b', 'integers of the text syntaxes were cut to 32 bits when read')
fixed('P05', '96b04e4', 'integers were cut to 32 bits when printed')
fixed('D07', '73ece11', 'x>a & x<a on an indexed column with duplicates in several nodes returned rows outside the range')
fixed('D08', 'b997f3f', 'field references to long strings were not counted, so deleting one record freed strings other records used')
fixed('D08', '48a2d3a', 'a record with a record-valued field could not be deleted (Corrupt backlink chain)')
fixed('D10', '24d8b6b', 'a signal or a stray futex wake-up let a waiting process proceed without the lock')
fixed('D10', 'a6f981d', 'a waiter that timed out just after being granted the lock left the queue without waking the next')
fixed('D10', '7ac02d9', 'the part of a timeout below a second was taken as nanoseconds')
fixed('D09', '6572609', 'wg_dump read the size before taking the lock, so a dump made during a write did not load')
fixed('R03', '59fe203', 'the subsumption prefilter rejected a ground clause that subsumes a non-ground one')
fixed('R03', '6ffe414', 'a fact clause had an empty metablock, so the prefilters did not let it be subsumed by a unit with variables')
fixed('R03', 'a3c8742', 'a metadata count of exactly 255 was stored as 0')
fixed('R10', '1b14a1f', 'equal large integers and doubles stored at different offsets were ordered as different, so a term was smaller than itself')
fixed('R10', '47b7f7b', 'the order of uris and other constants in atoms was cyclic, so a clause could end up with no literal to resolve upon')
fixed('P03', '931f971', 'an empty formula (a & .) used an uninitialised parser value and crashed')
fixed('P03', 'ca3f402', 'quoted strings of over 1023 characters overran the lexer buffer')
fixed('P01', '613a0d0', 'an atom with a list term that clausification copies into several clauses lost elements of the list in all but one of them')
fixed('P03', 'b839aca', 'a formula name of 900 or more characters left the name of its skolemization step unterminated')
fixed('P03', '4a3e2aa', 'a lone high surrogate in a JSON string swallowed the next character or ended the process')
fixed('P03', 'd6b4186', 'empty strings, infix quantifiers and connectives without arguments in JSON input crashed')
fixed('P03', '7df993e', 'long parse error messages were written past their buffer')
fixed('R12', '3cddbec', 'file names of 80 or more characters and strategy texts were printed with whatever followed them in memory')
fixed('R12', '913fabd', 'unnamed input clauses in TPTP proofs lacked the closing parenthesis')
fixed('P05', 'cbcfb0d', 'the constants + * - / < and quoted names of one of these characters were printed as $sum and the like')
fixed('P05', '1c2ac5d', 'printing a name with over a hundred quote characters overran the buffer')
fixed('P05', '2fcf739', 'a name and the same name in single quotes were different symbols, also after printing')
fixed('P03', 'af87c60', 'an empty string as a function symbol crashed the parser')
fixed('P02', '6cccf5a', 'real numbers in JSON input were kept with six decimals')
fixed('R13', '961dd33', 'with more than one answer asked for, a proof without an answer among the others crashed')
fixed('P01', 'cdc6782', 'a formula with a quoted constant of the same name as a quantified variable was refused')
json.dump(F, open(V + '/known_findings.json', 'w'), indent=1)
