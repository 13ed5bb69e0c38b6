"""Properties, and which harness entries decide them within which bounds.
properties.jsonl and MANIFEST.json are generated from this file (gen.py)."""
KBO, KBO6, LPO, LPOC, LPO4, LPO4C = 2, 3, 4, 5, 6, 7


def E(harness, entry, reach=(), variant='fo', params=None, thorough=None, **kw):
    d = dict(harness=harness, entry=entry, variant=variant, reach=list(reach),
             params=params or {}, thorough=thorough or {})
    d.update(kw)
    return d


PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mech, entries, assumptions, note, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, entries=entries, assumptions=assumptions, note=note, **kw)


# ---------------------------------------------------------------- P01 orderings
_ord = []
for T in (KBO, KBO6, LPO, LPO4, LPOC, LPO4C):
    _ord.append(E('ord.c', 'ord_ref', ['greater', 'uncomparable'], params=dict(T=T, n=3, sig=3), thorough=dict(sig=4)))
    _ord.append(E('ord.c', 'ord_ref', ['greater', 'uncomparable'], params=dict(T=T, n=2, n2=4), thorough=dict(n2=5)))
    _ord.append(E('ord.c', 'ord_ref', ['greater', 'uncomparable'], params=dict(T=T, n=4, n2=4, sig=3, unit=1), thorough=dict(n=5, n2=5)))
    _ord.append(E('ord.c', 'ord_ref', ['greater', 'uncomparable'], params=dict(T=T, n=3, n2=5, sig=3, unit=1), thorough=dict(n2=6)))
    _ord.append(E('ord.c', 'ord_subst', ['stable'], params=dict(T=T, n=2, m=1), thorough=dict(n=3)))
    if T not in (LPOC, LPO4C):
        _ord.append(E('ord.c', 'ord_mono', ['mono', 'ground'], params=dict(T=T, n=2), thorough=dict(n=3)))
        _ord.append(E('ord.c', 'ord_trans', ['chain'], params=dict(T=T, n=1), thorough=dict(n=2)))
prop('P01', 'Term orderings are simplification orderings',
     'For every precedence and every admissible weight assignment, each KBO and LPO variant compares two first-order terms exactly as the '
     'ordering is defined: irreflexive, transitive, monotone, with the subterm property, total on ground terms, and consistent in both '
     'argument orders. Comparing under variable bindings gives the same answer as comparing the instantiated terms, and a comparison '
     'that holds is preserved by every substitution.',
     ['term', 'precedence', 'symbol weights', 'substitution'],
     'all pairs/triples of terms, all total precedences, all admissible weight functions, all substitutions and dereferencing modes',
     'The tests run whole problems under a few fixed precedence/weight generators; a wrong comparison on a rare term shape usually only costs completeness silently.',
     ['ORDERINGS/cto_kbo.c', 'ORDERINGS/cto_kbolin.c', 'ORDERINGS/cto_lpo.c', 'ORDERINGS/cto_orderings.c', 'ORDERINGS/cto_ocb.c'],
     ['TOCompare/TOGreater dispatch to KBO, linear KBO and four LPO implementations', 'ordering control block holds weights and precedence'],
     _ord,
     ['KBO weights 0..3 (variable weight 1..2) restricted to admissible weight functions; precedence total, given by distinct ranks 0..7',
      'terms over a/0 b/0 g/1 f/2 and two variables, at most n argument positions, depth <= 3; outside: larger terms, higher-order terms'],
     'symbolic weights and precedence, solver-chosen term shapes up to 3-4 argument positions, compared with an executable definition of KBO/LPO')

# ---------------------------------------------------------------- P02 maps
_t = dict(n=3, m=2)
_T = dict(n=4, m=2)
prop('P02', 'Search trees and maps are exact finite maps',
     'After any sequence of insertions, overwrites and removals, every search tree and map (integer, float, string, quadruple, pointer and '
     'object keys, and the integer map with its changing representations) finds exactly the keys currently stored, with the value '
     'last associated, and iterates over them exactly once in ascending key order, also when restricted to a range. '
     'Set operations on pointer sets (union, intersection, subset, equality, shared element, copy) compute the mathematical result.',
     ['key', 'value', 'operation history', 'range limits'],
     'all operation sequences and all key orderings within the bound',
     'Self-adjusting trees and representation switches depend on the exact history of keys; whole-prover tests never check lookups for absent or removed keys.',
     ['BASICS/clb_numtrees.c', 'BASICS/clb_numxtrees.c', 'BASICS/clb_floattrees.c', 'BASICS/clb_stringtrees.c', 'BASICS/clb_quadtrees.c',
      'BASICS/clb_ptrees.c', 'BASICS/clb_objtrees.c', 'BASICS/clb_objmaps.c', 'BASICS/clb_intmap.c', 'BASICS/clb_pdrangearrays.c'],
     ['splay trees with splay-to-root lookup, extraction by joining subtrees', 'integer map switching between single value, array and tree'],
     [E('maps.c', 'map_num', ['duplicate', 'deleted'], 'sys', dict(n=3, m=2, range=2), dict(n=4, m=2, range=3)),
      E('maps.c', 'map_numx', ['duplicate', 'deleted'], 'sys', dict(n=3, m=2, range=2), dict(n=4, m=2, range=3)),
      E('maps.c', 'map_num', ['duplicate', 'deleted'], 'sys', dict(n=2, m=1, wide=1), dict(n=3, m=1)),
      E('maps.c', 'map_float', ['duplicate', 'deleted'], 'sys', dict(n=3, m=2), dict(n=4)),
      E('maps.c', 'map_str', ['duplicate', 'deleted'], 'sys', dict(n=3, m=2), dict(n=4)),
      E('maps.c', 'map_quad', ['duplicate', 'deleted'], 'sys', dict(n=2, m=2), dict(n=3, m=2)),
      E('maps.c', 'map_ptr', ['duplicate', 'deleted'], 'sys', dict(n=3, m=2), dict(n=4, m=2)),
      E('maps.c', 'map_pset', ['shared', 'equal'], 'sys', dict(n=3, m=3), dict(n=4, m=3)),
      E('maps.c', 'map_obj', ['duplicate', 'deleted'], 'sys', dict(n=3, m=2), dict(n=4, m=2)),
      E('maps.c', 'map_objmap', ['duplicate', 'deleted'], 'sys', dict(n=3, m=2), dict(n=4, m=2)),
      E('maps.c', 'map_objmap', ['duplicate', 'deleted'], 'sys', dict(n=3, m=1, byref=1), dict(n=4, m=2)),
      E('maps.c', 'map_intt', ['deleted', 'array', 'tree'], 'sys', dict(n=3, m=2), dict(n=4, m=2))],
     ['n insertions followed by m insertions/removals, then lookups and full/limited traversal; symbolic keys',
      'integer map and float keys are solver-chosen from tables placed around the representation switch points; integer tree keys differ by less than 2^62; '
      'integer map ranges start at 0 or above (as the callers use it)'],
     'symbolic keys, histories of 5-6 operations, reference model an association list')

# ---------------------------------------------------------------- P03 containers
prop('P03', 'Stacks, queues, arrays, heaps and lists keep their contents',
     'Stacks, double-ended queues, growable arrays (in both index directions), numeric vectors, binary heaps and linked lists return exactly '
     'the elements put into them, in the order their discipline prescribes, across every growth and wrap-around boundary. '
     'Heaps always deliver a minimum and keep recorded element positions correct under removal and key changes; sorting, merging '
     'and binary search on stacks agree with their definitions.',
     ['element values', 'operation history', 'fill level', 'index'],
     'all element values and all operation choices at every growth boundary within the bound',
     'Errors at growth or wrap boundaries and in heap repair after removal need particular fill levels and key orders.',
     ['BASICS/clb_pstacks.c', 'BASICS/clb_pstacks.h', 'BASICS/clb_pqueue.c', 'BASICS/clb_pqueue.h', 'BASICS/clb_pdarrays.c', 'BASICS/clb_pdrangearrays.c',
      'BASICS/clb_min_heap.c', 'BASICS/clb_plist.c', 'BASICS/clb_ddarrays.c', 'BASICS/clb_fixdarrays.c', 'BASICS/clb_dstacks.c'],
     ['exponentially growing ring buffer and stack', 'heap with position callbacks'],
     [E('cont.c', 'cont_heap', ['removed', 'updated'], 'sys', dict(n=5, r=4), dict(n=6, r=5)),
      E('cont.c', 'cont_heap', ['removed', 'updated'], 'sys', dict(n=7, r=6, hp=1), dict(n=9, r=8)),
      E('cont.c', 'cont_heapint', ['end'], 'sys', dict(n=5), dict(n=6)),
      E('cont.c', 'cont_queue', ['grown'], 'sys'),
      E('cont.c', 'cont_stack', ['end'], 'sys'),
      E('cont.c', 'cont_sorted', ['found'], 'sys', dict(n=3, m=3), dict(n=4, m=3)),
      E('cont.c', 'cont_array', ['end'], 'sys'),
      E('cont.c', 'cont_rarray', ['end'], 'sys'),
      E('cont.c', 'cont_fixed', ['end'], 'sys'),
      E('cont.c', 'cont_list', ['deleted'], 'sys', dict(n=3), dict(n=4)),
      E('cont.c', 'cont_double', ['end'], 'sys'),
      E('cont.c', 'cont_gcd', ['end'], 'sys', dict(r=10), dict(r=16))],
     ['element values symbolic in small ranges; fill levels and rotations solver-chosen around the capacities 1, 3, 4, 8, 128, 256',
      'stack and queue underflow is outside (callers must not pop empty containers)'],
     'symbolic contents, fill levels around every capacity boundary')

# ---------------------------------------------------------------- P04 unification and matching
prop('P04', 'Unification and matching are sound, complete and reversible',
     'Unifying two first-order terms succeeds exactly when a unifier respecting the sorts exists, and then yields a most general one '
     'that makes the terms equal. Matching succeeds exactly when the target is an instance of the pattern and binds only pattern variables. '
     'A failed attempt or a backtrack restores every binding exactly as it was before.',
     ['term', 'sort', 'existing bindings', 'order of attempts'],
     'all pairs of well-sorted terms, all prior substitutions, all sequences of two unification steps within the bound',
     'A missed or over-general unifier only shows on particular variable-sharing patterns, and a leaked binding only in a later, unrelated inference.',
     ['TERMS/cte_match_mgu_1-1.c', 'TERMS/cte_match_mgu_1-1.h', 'TERMS/cte_subst.c', 'TERMS/cte_subst.h', 'TERMS/cte_termtypes.h'],
     ['Robinson unification with work queues and deferred bindings', 'trail stack of bound variables for backtracking'],
     [E('unif.c', 'unif_mgu', ['unified', 'failed'], params=dict(n=4), thorough=dict(n=5)),
      E('unif.c', 'unif_mgu', ['unified', 'failed'], params=dict(n=4, sorts=1), thorough=dict(n=5)),
      E('unif.c', 'unif_seq', ['unified', 'failed'], params=dict(n=2), thorough=dict(n=3)),
      E('unif.c', 'unif_seq', ['unified', 'failed'], params=dict(n=3, sorts=1), thorough=dict(n=4)),
      E('unif.c', 'unif_match', ['match', 'fail'], params=dict(n=2, m=3, prior=1), thorough=dict(n=3, m=4)),
      E('unif.c', 'unif_match', ['match', 'fail'], params=dict(n=3, m=4, prior=1, sorts=1), thorough=dict(n=4, m=4)),
      E('unif.c', 'unif_wide', ['wide'])],
     ['terms over two sorts with constants, unary and binary functions and 3 variables per side; at most n (m) argument positions; one term pair of arity 70',
      'higher-order unification is outside'],
     'solver-chosen term shapes up to 4-5 argument positions against a textbook reference algorithm')


# ---------------------------------------------------------------- P05-P07 saturation
def _sat(chk, extra=()):
    r = []
    for pool, D, DT in ((0, 2, 3), (1, 3, 4), (2, 2, 3), (3, 2, 3), (4, 2, 2)):
        r.append(E('sat.c', 'sat_main', ['saturation'] if chk == 4 else [], params=dict(chk=chk, pool=pool, D=D, nb=1, nc=1, nl=2, ncfg=24, steps=4 if pool == 4 else 6, every=3),
                   thorough=dict(nb=2, D=DT), maxinstr=400000000))
    r.append(E('sat.c', 'sat_main', ['proof', 'saturation'] if chk == 4 else ['refuted'], params=dict(chk=chk, pool=5, D=2, nb=3, nc=1, nl=1, ncfg=24, steps=8, every=4), thorough=dict(nc=2)))
    r.append(E('sat.c', 'sat_main', ['proof', 'saturation'] if chk == 4 else ['refuted'], params=dict(chk=chk, pool=6, D=3 if chk == 2 else 2, nb=2, nc=2, nl=1, ncfg=24, steps=7, every=4), thorough=dict(nb=3)))
    for pool in (1, 3):
        r.append(E('sat.c', 'sat_main', ['proof', 'saturation'] if chk == 4 else ['refuted'] + (['saturated'] if chk == 2 else []),
                   params=dict(chk=chk, pool=pool, D=2, nb=0, nc=3, nl=1, ncfg=24, steps=8, every=4), thorough=dict(D=3)))
    r.append(E('sat.c', 'sat_main', [], maxinstr=400000000, params=dict(chk=chk, pool=2, D=2, nb=1, nc=1, nl=2, ncfg=8, steps=6, every=3, ord=LPO4), thorough=dict(nb=2, ncfg=24)))
    return r


_satbounds = ['input clauses are assembled by the solver from pools of 8-12 literals (ground, equational, AC, symmetric, function growth, contextual cuts, conditional rewriting), 2-3 clauses with up to 3 literals; '
              '24 option configurations (literal selection, paramodulation variants with and without indexing, rewriting levels, local rewriting, contextual simplification, indexes, AC handling, clause splitting, periodic SAT checks); at most 6-8 given clauses',
              'interpretations of at most 2-4 elements, all function tables and predicates symbolic; clauses with more than 3 variables are not evaluated; '
              'outside: longer runs, larger models, watchlists, higher-order inferences']
_satfiles = ['CONTROL/cco_proofproc.c', 'CONTROL/cco_paramodulation.c', 'CONTROL/cco_simplification.c', 'CONTROL/cco_contexts_simplification.c', 'CONTROL/cco_eqnresolving.c',
             'CONTROL/cco_factoring.c', 'CLAUSES/ccl_paramod.c', 'CLAUSES/ccl_rewrite.c', 'CLAUSES/ccl_subsumption.c', 'CLAUSES/ccl_condensation.c', 'CLAUSES/ccl_factor.c', 'CLAUSES/ccl_eqnresolution.c']
_satfiles = [f for f in _satfiles if __import__('os').path.exists('/repo/' + f)]
prop('P05', 'Every derived clause follows from the input clauses',
     'In every run of the proof search, under every option configuration, each clause ever kept in the search state is a logical consequence of '
     'the input clauses: it is true in every interpretation in which they are true. In particular the prover reports a refutation only when the input clauses have no model.',
     ['input clauses', 'options', 'interpretation', 'number of search steps'],
     'all clause sets from the pools, all 24 configurations, all finite interpretations within the bound',
     'The tests only compare the status of a few problems; an unsound inference rarely changes the status of a problem that is provable anyway.',
     _satfiles, ['given-clause loop: paramodulation, equality resolution, factoring, rewriting, contextual literal cutting, subsumption'],
     _sat(1), _satbounds, 'solver-assembled clause sets run through the real given-clause loop; every clause evaluated in a symbolic finite interpretation')
prop('P06', 'Search never loses information; saturation means satisfiable',
     'Simplification, subsumption and redundancy elimination never weaken the clause set: at every point of the search the clauses kept still imply all '
     'input clauses. When the search stops because no clause is left to process and no refutation was found, the input clauses have a model.',
     ['input clauses', 'options', 'interpretation', 'number of search steps'],
     'all clause sets from the pools, all 24 configurations, all finite interpretations within the bound',
     'A clause deleted wrongly, or an inference that is skipped, shows up only as a search that runs longer or a wrong satisfiability claim on an unusual problem.',
     _satfiles, ['forward and backward simplification, subsumption and tautology deletion', 'retention of simplified parents'],
     _sat(2), _satbounds + ['the claim that a saturated set has a model is decided over models of at most D elements; the pools are chosen so that every satisfiable set has one'],
     'solver-assembled clause sets; the state must imply the axioms in a symbolic finite interpretation, and a saturated set must have a model')
prop('P07', 'Printed proofs are checkable step by step',
     'Every derivation the prover prints, for a refutation or for a saturated clause set, is complete and correct: step names are unique, every parent '
     'is listed before its conclusion, input steps name an existing input and agree with it, every other step is a logical consequence of exactly the parents it lists, and a refutation ends in the empty clause.',
     ['input clauses', 'options', 'interpretation', 'number of search steps'],
     'all clause sets from the pools, all 24 configurations, all finite interpretations within the bound',
     'No test reads the proof object; a parent recorded for the wrong clause still prints a plausible proof.',
     ['CLAUSES/ccl_derivation.c', 'CLAUSES/ccl_clauseinfo.c', 'CLAUSES/ccl_clauses.c', 'CONTROL/cco_paramodulation.c', 'CLAUSES/ccl_rewrite.c', 'CLAUSES/ccl_inferencedoc.c'],
     ['derivation stack on each clause', 'extraction, ordering and TSTP printing of the proof DAG'],
     _sat(4), _satbounds, 'the printed proof is parsed back and each step evaluated in a symbolic finite interpretation')

# ---------------------------------------------------------------- P08 clausification
def _F(reach, T=None, **p):
    return E('fcnf.c', 'fcnf_main', reach, params=p, thorough=T or {})


prop('P08', 'Clausification preserves meaning',
     'For every first-order formula, the clauses produced by normal form transformation imply the formula (or its negation, for a conjecture), and every model '
     'of it can be extended to the newly introduced Skolem and definition symbols so that all clauses hold; without new symbols the two are equivalent. '
     'This covers reading the formula (connectives, quantifier scoping and shadowing), simplification, definitions, miniscoping, Skolemization and distribution.',
     ['formula', 'role', 'definition limit', 'miniscope limit', 'interpretation'],
     'all formulas with the bounded number of connectives and quantifiers, all interpretations over at most D elements',
     'A wrong polarity for a definition or a wrong quantifier scope only matters for particular nestings; tests check the status of a handful of problems.',
     ['CLAUSES/ccl_tcnf.c', 'CLAUSES/ccl_tformulae.c', 'CLAUSES/ccl_formulafunc.c', 'CLAUSES/ccl_formula_wrapper.c', 'CLAUSES/ccl_formulasets.c'],
     ['formulas are shared terms; definitions are introduced by polarity over shared subformulas', 'quantified variables renamed apart, Skolem terms over enclosing universals'],
     [_F(['end', 'skolem'], dict(n=3, ndef=2), n=2, ndef=5, nstyle=2),
      _F(['end'], dict(n=3, ops=0x3e), n=2, konst=1, ndef=1),
      _F(['end', 'skolem'], dict(n=3), mode=1, ops=3134, n=2, prefix=1, ndef=2),
      _F(['end', 'skolem'], dict(n=3, ops=3134), mode=2, ops=3104, n=3, ndef=1, nmini=3),
      _F(['end', 'skolem'], dict(n=3), mode=1, ops=3112, n=2, prefix=2, ndef=1, nrole=1),
      _F(['end', 'skolem'], dict(n=2, ops=60), n=1, share=1, ndef=5),
      _F(['end', 'skolem'], dict(ops=3134), n=2, share=1, ndef=2, ops=44, nrole=1),
      _F(['end', 'skolem'], dict(ndef=5), mode=1, ops=44, n=1, prefix=1, ndef=2, nrole=1, share=1),
      _F(['end', 'skolem'], dict(n=2), mode=1, ops=2092, n=1, prefix=3, ndef=1, nmini=2),
      E('fool.c', 'fool_main', ['end', 'skolem'], params=dict(n=3, ops=12608), thorough=dict(n=4, nrole=1)),
      E('fool.c', 'fool_main', ['end', 'skolem'], params=dict(n=2, ops=3158272)),
      E('fool.c', 'fool_main', ['end', 'skolem'], params=dict(n=3, ops=3158272, nrole=1)),
      E('fool.c', 'fool_main', ['end', 'skolem'], params=dict(n=2, ops=4375552), thorough=dict(n=3, nrole=1)),
      E('fool.c', 'fool_main', ['end', 'skolem'], params=dict(n=2, ops=356352), thorough=dict(n=3, nrole=1)),
      E('fool.c', 'fool_main', ['end'], params=dict(n=3, ops=12640, nrole=1)),
      E('fool.c', 'fool_main', ['end'], params=dict(n=2, ops=2240), thorough=dict(n=3)),
      E('fool.c', 'fool_main', ['end', 'skolem'], params=dict(n=3, ops=293056, nrole=1))],
     ['formulas with up to 3 connectives/quantifiers below up to 3 prefix quantifiers over p/1, q/1, r/2, equality and constants, or two formulas sharing a subformula; '
      'definition limits 24, 1, 2, 0, 3; miniscope limits 2^20, 0, 2',
      'interpretations with 1..D elements (D=2); new symbols of arity at most 3',
      'formulas with up to 3 connectives in which formulas are arguments of functions and predicates, Boolean variables are quantified, and conditionals ($ite) occur as terms and as formulas; outside: $let, $distinct, sorts other than $i and $o, lambda terms'],
     'solver-assembled formulas printed as text, parsed and clausified by the real code; for-all/exists claim decided by counterexample-guided solver queries')

# ---------------------------------------------------------------- P09 term bank
def _T(entry, reach, T=None, v='sys', **p):
    return E('tbank.c', entry, reach, variant=v, params=p, thorough=T or {})


prop('P09', 'Shared terms: one copy each, right data, exact replacement, safe GC',
     'Structurally identical terms are stored exactly once, whatever route inserts them, and the data cached with a term (size, weight, variables, groundness, type) is that of the term. '
     'Instantiation, replacement at a position or of a subterm, and copying build exactly the intended term and leave the original unchanged. '
     'Garbage collection reclaims exactly the terms that nothing live refers to, and live terms and the clauses of every registered set stay intact and findable.',
     ['terms', 'bindings', 'insertion route', 'position', 'set of live roots', 'history of insertions and collections'],
     'all terms, bindings, positions and root sets within the bounds',
     'A stale cached weight or a term stored twice rarely changes a test result; a term freed too early only fails once its memory is reused.',
     ['TERMS/cte_termbanks.c', 'TERMS/cte_termcellstore.c', 'TERMS/cte_termfunc.c', 'TERMS/cte_replace.c', 'TERMS/cte_termpos.c', 'TERMS/cte_termcpos.c', 'TERMS/cte_termtrees.c', 'CLAUSES/ccl_garbage_coll.c'],
     ['term bank hash of splay trees', 'mark and sweep collection', 'term positions'],
     [_T('tb_share', ['equal', 'different'], dict(n=4, m=3), n=3, m=2),
      _T('tb_inst', ['end', 'chain'], dict(small=0), nv=3, small=1, n=3),
      _T('tb_repl', ['replaced'], dict(n=5, m=2, k=2), n=4),
      _T('tb_gc', ['reclaimed'], dict(n=2), n=1, k=3),
      _T('tb_gc', ['reclaimed'], dict(n=3), n=3, k=2, rounds=1),
      _T('tb_big', ['large'], dict(n=2), n=1),
      _T('tb_gcrw', ['link'], dict(n=2), n=2),
      _T('tb_state', ['end'])],
     ['terms with up to 3-4 argument slots over two constants, a unary and a binary symbol and up to 3 variables; up to 3 roots and 2 collections; '
      'the clause sets of the proof state with 4 clause shapes', 'memory is modelled with the real allocator calls, freed cells are poisoned; the bank hash has 64 buckets under the guard define'],
     'solver-chosen terms and histories run through the real term bank, compared with plain trees; freed memory is tracked by the engine')

# ---------------------------------------------------------------- P10 subsumption
def _S(entry, reach, T=None, **p):
    return E('csub.c', entry, reach, params=p, thorough=T or {})


prop('P10', 'Subsumption is exact, with and without index',
     'A clause is reported as subsumed by another (or by a unit) only if an instance of the other clause is contained in it literal by literal, counting duplicates; a unit equation may also act below a common context. '
     'Conversely every clause subsumed by a stored non-unit clause, and every clause with a literal directly covered by a stored unit, is found. '
     'Searching a clause set forward or backward, for every kind of feature vector index and after insertions and removals, gives the same answers as comparing clause by clause, and cutting literals against units removes only refuted literals.',
     ['clauses', 'stored clauses', 'index type', 'direction', 'history of insertions and removals'],
     'all clauses from the literal pools within the bounds, all feature vector types',
     'A missed or wrong subsumption needs a particular pair of clauses; tests only see the final status of whole problems.',
     ['CLAUSES/ccl_subsumption.c', 'CLAUSES/ccl_freqvectors.c', 'CLAUSES/ccl_fcvindexing.c', 'CLAUSES/ccl_unit_simplify.c', 'CLAUSES/ccl_pdtrees.c', 'CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_clausesets.c'],
     ['feature vector trie over integer maps', 'literal list matching with backtracking', 'perfect discrimination tree for units'],
     [_S('cs_nonunit', ['subsumed', 'not'], dict(n=3, nd=1), pool=0, k=2, n=2),
      _S('cs_nonunit', ['subsumed', 'not'], dict(k=3), pool=1, cfg=0, k=2, n=3, swap=1),
      _S('cs_nonunit', ['subsumed', 'not', 'variant'], dict(swap=1), pool=2, cfg=0, k=3, n=3),
      _S('cs_nonunit', ['subsumed', 'not'], dict(n=3, cfg=6), pool=3, cfg=0, k=2, n=2, nperm=3, fold=12, nd=1),
      _S('cs_nonunit', ['subsumed', 'not'], dict(k=3), pool=3, k=2, n=3, fold=100),
      _S('cs_nonunit', ['subsumed', 'not'], dict(n=3, nd=1), pool=3, k=1, n=2, fold=100),
      _S('cs_unit', ['hit', 'reflect'], dict(units=2, n=3), pool=1, cfg=0, units=2, n=2),
      _S('cs_unit', ['hit', 'reflect'], dict(n=2), pool=4, cfg=0, units=2, n=1, swap=1),
      _S('cs_unit', ['hit', 'reflect'], dict(n=2), pool=2, cfg=5, units=2, n=1, swap=1)],
     ['subsuming clauses of 1-3 literals, candidates of up to 3 literals, one further stored clause; literals from 5 pools of 9 literals over predicates, equations, nested terms and up to 3 variables; '
      'all 8 feature vector types, permutation vectors, symbol limits 12, 17 and 100', 'outside: higher-order matching, clauses with more than 3 literals'],
     'solver-chosen clauses run through the real subsumption code and indexes, compared with an exhaustive reference matcher')

# ---------------------------------------------------------------- P11 indexes
def _I(entry, reach, T=None, **p):
    return E('idx.c', entry, reach, params=p, thorough=T or {})


prop('P11', 'Term indexes never miss a partner',
     'Every kind of term index returns all stored terms that unify with, or are instances of, a query term; the rewrite-rule index returns every stored rule matching a term (that is newer than the date asked for), each with the matching substitution, and leaves no bindings behind. '
     'Once a clause is indexed, each of its eligible positions and sides is found for paramodulation and its terms for backward rewriting, with the right clause and position; after removal of a clause none of its entries remain and other clauses are unaffected.',
     ['stored terms', 'query term', 'index type', 'clauses', 'dates', 'history of insertions and removals'],
     'all terms and clauses within the bounds, all 16 index functions',
     'A missed index entry silently makes the search incomplete; tests only notice when a proof is no longer found in time.',
     ['TERMS/cte_fp_index.c', 'TERMS/cte_idx_fp.c', 'CLAUSES/ccl_pdtrees.c', 'CLAUSES/ccl_overlap_index.c', 'CLAUSES/ccl_subterm_index.c', 'CLAUSES/ccl_subterm_tree.c', 'CLAUSES/ccl_clausepos_tree.c', 'CLAUSES/ccl_global_indices.c', 'CLAUSES/ccl_clausecpos.c'],
     ['fingerprint tries and non-perfect discrimination trees', 'perfect discrimination tree with size and age constraints', 'subterm occurrence trees with packed positions'],
     [_I('ix_fp', ['unifiable', 'instance'], dict(m=6), k=1, n=4, m=4),
      _I('ix_fp', ['unifiable', 'instance'], dict(m=5), k=1, n=6, m=4, mask=5, nv=2),
      _I('ix_fp', ['unifiable', 'instance'], dict(m=6), k=1, n=6, m=3, mask=9, nv=2),
      _I('ix_fp', ['unifiable', 'instance'], dict(n=3), k=2, n=2, m=2),
      _I('ix_pdt', ['match'], dict(n=3, m=3), k=2, n=2, m=3),
      _I('ix_pdt', ['match'], dict(nv=2), k=3, n=2, m=2, nv=1, vlhs=1),
      _I('ix_pdt', ['match'], dict(m=6), k=1, n=4, m=4, nv=2, mask=5, vlhs=1),
      _I('ix_occ', ['into', 'from', 'end'], dict(n=3), n=2),
      _I('ix_bwdeep', [], {}, n=1, ni=1)],
     ['terms with up to 6 argument slots over symbols of arity 0-3 and up to 2 variables; up to 3 stored terms or rules; clauses of up to 2 literals from a pool of 9, optionally with selected literals',
      'outside: higher-order terms, extensionality indexes'],
     'solver-chosen terms, rules and clauses run through the real indexes, compared with reference unification and matching')

# ---------------------------------------------------------------- P12 literal ordering and selection
def _L(entry, reach, T=None, **p):
    return E('lits.c', entry, reach, params=p, thorough=T or {})


prop('P12', 'Literal orientation, maximality and selection are faithful',
     'Orienting a literal keeps it and its sign, puts the greater side first, and marks it oriented exactly if that side is greater; literals are compared as multisets of their sides, and a literal is marked (strictly) maximal exactly if no other literal of the clause is greater (or equal). '
     'Every named literal selection function leaves the clause as it is and selects either nothing or at least one negative literal; it selects nothing outside the configured limits or in clauses without negative literals, and after a selection only selected literals are eligible. '
     'The selection functions with a documented choice make that choice.',
     ['literals', 'clauses', 'term ordering', 'selection function', 'selection limits', 'previous marks'],
     'all literals and clauses from the pools within the bounds, all 140 selection functions',
     'A wrong mark or selection makes the prover skip necessary inferences for particular clauses only; the tests see just whole problems under a few strategies.',
     ['CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_eqnlist.c', 'CLAUSES/ccl_clauses.c', 'HEURISTICS/che_litselection.c', 'HEURISTICS/che_proofcontrol.c'],
     ['cached orientation and maximality flags', '140 selection functions with their weight functions', 'selected literals dominate unselected ones'],
     [_L('lt_cmp', ['greater', 'uncomparable', 'equal'], {}, pool=0, swap=1),
      _L('lt_cmp', ['greater', 'uncomparable', 'equal'], {}, pool=1, swap=1),
      _L('lt_cmp', ['greater', 'uncomparable', 'equal'], {}, pool=2, sel=1, swap=1),
      _L('lt_cmp', ['greater', 'uncomparable', 'equal'], {}, pool=3, swap=1),
      _L('lt_cmp', ['uncomparable'], {}, pool=2, sel=1, lc=1),
      _L('lt_order', ['chain'], {}, pool=2),
      _L('lt_order', ['chain'], {}, pool=0, sel=1),
      _L('lt_order', ['chain'], {}, pool=1),
      _L('lt_max', ['notstrict', 'dominated'], dict(n=4), pool=0, n=3, sel=1, dirty=1),
      _L('lt_max', ['notstrict', 'dominated'], dict(n=4), pool=1, n=3, swap=1),
      _L('lt_max', ['notstrict', 'dominated'], dict(n=4), pool=3, n=3, perm=1),
      _L('lt_select', ['selected', 'none', 'positive'], dict(n=4), pool=0, n=3, sel=0),
      _L('lt_select', ['selected', 'none', 'positive'], dict(n=3), pool=1, n=3),
      _L('lt_select', ['selected', 'none', 'positive'], dict(n=3), pool=0, n=2, sel=1),
      _L('lt_select', ['selected', 'none', 'positive'], dict(n=3), pool=0, n=3, cnt=10, limits=1),
      _L('lt_pair', ['selected'], dict(n=4), pool=0, n=3)],
     ['clauses of up to 3 literals (4 in the thorough tier) from 4 pools of 9 literals; KBO6 and LPO4; the normal and the no-comparison literal modes exactly, selection functions as listed by the code',
      'outside: which literal the undocumented selection functions prefer; higher-order literals'],
     'solver-chosen literals and clauses run through the real comparison, marking and selection code, compared with the multiset definition')

# ---------------------------------------------------------------- P13 clause selection
def _Q(entry, reach, T=None, **p):
    return E('queue.c', entry, reach, params=p, thorough=T or {})


prop('P13', 'The given-clause queues are fair and pick the best clause',
     'Each queue always yields the waiting clause with the least priority, then least weight, then greatest age, over every history of insertions, selections and removals, and no waiting clause is lost or returned twice. '
     'The queues of a heuristic are used exactly in the configured proportion, a FIFO queue yields the oldest clause (so every clause is selected eventually), the empty clause always comes first, and a clause is dropped only if a parent has been discarded. '
     'The documented priority functions and symbol-counting weights have their documented values, and trimming the queue keeps exactly the requested number of clauses.',
     ['clauses', 'evaluations', 'heuristic definition', 'history of insertions, selections and removals'],
     'all histories and evaluations within the bounds',
     'A queue that loses or starves one clause for a particular history makes the prover incomplete without any visible error.',
     ['HEURISTICS/che_hcb.c', 'HEURISTICS/che_hcbadmin.c', 'HEURISTICS/che_prio_funs.c', 'HEURISTICS/che_clauseweight.c', 'HEURISTICS/che_refinedweight.c', 'HEURISTICS/che_fifo.c', 'HEURISTICS/che_wfcb.c', 'CLAUSES/ccl_neweval.c', 'CLAUSES/ccl_clausesets.c', 'CLAUSES/ccl_clausefunc.c'],
     ['splay trees threaded through evaluation cells, one per queue', 'cumulative selection counters', 'floating point weights'],
     [_Q('q_tree', ['pick', 'later', 'gone'], dict(ops=6, prios=1), ops=5, queues=1, weights=3, prios=2),
      _Q('q_tree', ['pick', 'later', 'gone'], dict(ops=8), ops=6, queues=1, weights=2, prios=1),
      _Q('q_tree', ['pick', 'later', 'gone'], dict(ops=5), ops=4, queues=2, weights=2, prios=1),
      _Q('q_sched', ['fifo', 'weight', 'lifo'], dict(free=3), n=8, free=2, smax=4),
      _Q('q_sched', ['fifo', 'weight', 'lifo'], {}, n=3, free=3),
      _Q('q_weight', ['empty', 'clause'], dict(n=3)),
      _Q('q_prio', ['differ'], dict(n=3)),
      _Q('q_trim', ['gone'], dict(n=4), n=3),
      _Q('q_orphan', ['orphan'])],
     ['up to 6 queue operations (8 in the thorough tier) with symbolic priorities and 2-3 weights; two- and three-queue heuristics with 1-4 steps; 29 priority functions and 6 weight functions by value',
      'outside: the values of the learning, similarity and TF-IDF weight functions'],
     'symbolic evaluations and solver-chosen histories run through the real queues and heuristic parser')


# ---------------------------------------------------------------- P14 scanner
def _S(entry, reach, T=None, **p):
    return E('scan.c', entry, reach, params=p, thorough=T or {})


prop('P14', 'The scanner splits every input into the right tokens or rejects it',
     'Every byte sequence is split into the tokens its syntax prescribes - the longest match, with the exact text, numeric value, line, column and information whether blanks or comments precede it - independent of how much was looked ahead, and malformed input (stray characters, unterminated or unprintable quoted text, unterminated comments) ends with an error and never in a hang or memory error. '
     'Integer readers accept exactly the numbers within their limits and return their value, and token tests accept exactly the described tokens. '
     'Dynamic strings hold exactly the text appended to them.',
     ['input bytes', 'look-ahead', 'number', 'limits'],
     'all byte sequences within the length bound',
     'Tests contain well-formed problems only; a mis-scanned escape or boundary value changes the problem that is proved.',
     ['INOUT/cio_scanner.c', 'INOUT/cio_streams.c', 'INOUT/cio_basicparser.c', 'BASICS/clb_dstrings.c'],
     ['character classes with look-ahead, token ring buffer', 'strtoumax conversions against limits', 'geometrically growing string buffers'],
     [_S('sc_bytes', ['token', 'second', 'error'], n=2), _S('sc_bytes', ['token', 'second', 'error'], n=3),
      _S('sc_bytes', ['token', 'error'], dict(n=7), n=5, quotes=1), _S('sc_bytes', ['token', 'error'], dict(n=7), n=5, cmt=1),
      _S('sc_bytes', ['token'], dict(n=6), n=5, alpha=1),
      _S('sc_bytes', ['token', 'error'], dict(n=4), n=3, pre=1), _S('sc_bytes', ['token', 'error'], dict(n=4), n=3, pre=2),
      _S('sc_bytes', ['error'], dict(n=5), n=4, pre=3),
      _S('sc_num', ['accept', 'reject'], digits=2), _S('sc_num', ['accept', 'reject'], digits=19, big=1), _S('sc_num', ['reject'], digits=20, big=1),
      _S('sc_frac', ['number', 'gap', 'zero']),
      _S('sc_dstr', ['long'], dict(ops=4), ops=3)],
     ['arbitrary bytes 1..127 up to length 3, length 4-5 over restricted alphabets or after a fixed start (thorough: up to 7); bytes above 127 are outside (in-memory input treats them as end of text)',
      'integers of 2, 19 and 20 digits with symbolic digits and limits'],
     'symbolic input bytes through the real scanner, compared with an independent tokeniser')


# ---------------------------------------------------------------- P15 print/parse round trip
def _RT(entry, reach, T=None, **p):
    return E('rtrip.c', entry, reach, params=p, thorough=T or {})


prop('P15', 'Reading and printing preserve formulas, clauses and symbols',
     'A formula that is read means what its text says in every interpretation, and printing a formula or clause in any supported output format and reading that text again gives a formula of the same meaning, or the same clause up to renaming of variables, with the same role and sorts. '
     'Two symbol names denote the same symbol exactly if they are the same name: escaped characters count, quotes around a plain word do not, and a quoted name is different from the number, distinct object or defined symbol of the same spelling.',
     ['formula', 'clause', 'symbol name', 'output format', 'interpretation'],
     'all formulas and clauses within the bounds, all printable symbol names within the length bound, all finite interpretations within the domain bound',
     'Tests only look at the final status; a misread precedence or a lost negation on re-reading changes the problem silently.',
     ['CLAUSES/ccl_tformulae.c', 'CLAUSES/ccl_formula_wrapper.c', 'CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_clauses.c', 'TERMS/cte_termbanks.c', 'TERMS/cte_signature.c', 'TERMS/cte_varbanks.c'],
     ['recursive descent readers per format', 'printers per format with operator-dependent parentheses', 'scoped variable names mapped to shared variables'],
     [_RT('rt_formula', ['formula'], dict(n=3), n=2, nfmt=2, nrole=5),
      _RT('rt_formula', ['formula'], dict(n=2), n=1, nfmt=2, konst=1),
      _RT('rt_formula', ['formula'], dict(n=4), mode=2, n=3, ops=3084, nfmt=2),
      _RT('rt_formula', ['formula'], dict(n=3), mode=1, n=2, prefix=1, ops=3078),
      _RT('rt_clause', ['empty', 'clause'], {}, max=2), _RT('rt_clause', ['clause'], dict(max=4), max=3, pool=6),
      _RT('rt_typed', ['typed'], dict(n=2), n=1), _RT('rt_typed', ['typed'], dict(n=3), n=2, slim=1),
      _RT('rt_scope', ['scoped'], dict(n=5), n=4), _RT('rt_scope', ['scoped'], dict(bal=1), n=2, two=2),
      _RT('rt_names', ['same', 'different'], dict(len=2), len=1), _RT('rt_special', ['number', 'object', 'defined'])],
     ['formulas with 1-3 connectives/quantifiers, interpretations over 1 or 2 elements; clauses of up to 3 literals from a pool of 21; names of 1-2 printable characters (symbolic bytes)',
      'outside: higher-order syntax, include directives, $let/$ite'],
     'formula meaning evaluated in a symbolic interpretation before and after; symbolic bytes for names')


# ---------------------------------------------------------------- P16 preprocessing
def _PP(entry, reach, T=None, **p):
    return E('prep.c', entry, reach, params=p, thorough=T or {})


prop('P16', 'Preprocessing, splitting and the propositional check preserve satisfiability',
     'Clausal preprocessing with any combination of tautology removal, definition unfolding, blocked clause and predicate elimination (with and without gates), goal definitions and injectivity replacement yields clauses that have a model exactly if the given clauses have one. '
     'Splitting clauses yields clauses that imply the original ones and that every model of the original ones can be extended to; condensing a clause gives an equivalent, shorter clause. '
     'A clause set that the propositional check reports unsatisfiable has no model, and every unsatisfiable set of ground clauses without equality is reported.',
     ['clause set', 'options', 'interpretation'],
     'all clause sets from the pools within the size bound, all option combinations listed, all finite interpretations within the domain bound',
     'The tests run few problems with few options; an elimination that drops one clause too many makes the prover answer "satisfiable" for a theorem.',
     ['CONTROL/cco_preprocessing.c', 'CLAUSES/ccl_bce.c', 'CLAUSES/ccl_pred_elim.c', 'CLAUSES/ccl_unfold_defs.c', 'CLAUSES/ccl_gd_transformation.c', 'CLAUSES/ccl_splitting.c', 'CLAUSES/ccl_def_handling.c', 'CLAUSES/ccl_satinterface.c', 'CLAUSES/ccl_condensation.c'],
     ['work queues of blocked/eliminable candidates with resumption', 'gates recognised by a propositional solver', 'definition predicates shared between clauses'],
     [_PP('pp_main', ['fewer', 'same'], dict(n=n + 1), n=n, pool=k, D=2) for k, n in ((0, 6), (1, 5), (2, 6), (3, 5), (4, 5), (5, 6), (6, 6), (7, 7), (8, 7))] +
     [_PP('pp_split', ['split', 'unsplit'], dict(nl=5), nl=4), _PP('pp_split', ['split'], dict(nl=3), nl=2, nc=2),
      _PP('pp_satcheck', ['unsat', 'open'], dict(n=6), n=4, pool=0), _PP('pp_satcheck', ['open'], dict(n=5), n=4, pool=1),
      _PP('pp_satcheck', ['unsat', 'open'], dict(n=5), n=4, pool=4), _PP('pp_satcheck', ['unsat', 'open'], dict(n=8), n=7, pool=8),
      _PP('pp_condense', ['condensed', 'unchanged'], dict(nl=4), nl=3)],
     ['clause sets of 5-7 clauses from nine pools of 10-14 clauses, nine option combinations, interpretations over up to 2 elements (3 for the propositional check); the embedded propositional solver runs as part of the encoding',
      'outside: axiom selection, higher-order preprocessing'],
     'solver-chosen clause sets through the real preprocessing; models before and after compared over symbolic interpretations')


# ---------------------------------------------------------------- P17 redundancy and local simplification
def _RD(entry, reach, T=None, **p):
    return E('redund.c', entry, reach, params=p, thorough=T or {})


prop('P17', 'Redundancy tests drop only what follows; local rules keep the meaning',
     'A clause reported as a tautology is true in every interpretation, and every ground clause that is true in every interpretation is reported. '
     'Removing duplicate and trivially false literals, destructive equality resolution and cutting literals with other clauses give clauses that are equivalent, given those other clauses, to the original; contextual cuts find the clauses they apply to. '
     'A function is treated as commutative or associative only if a clause says so, terms are identified modulo these laws exactly if the laws make them equal, and clauses are dropped or literals removed modulo them only if that is justified; the laws themselves are kept.',
     ['clause', 'other clauses', 'term', 'interpretation'],
     'all clauses and terms from the pools within the size bound, all finite interpretations within the domain bound',
     'Redundancy elimination runs on every clause of every proof search, but whether a discarded clause was really redundant never shows in a test.',
     ['CLAUSES/ccl_tautologies.c', 'TERMS/cte_acterms.c', 'HEURISTICS/che_axiomscan.c', 'CLAUSES/ccl_clauses.c', 'CLAUSES/ccl_clausefunc.c', 'CLAUSES/ccl_context_sr.c', 'CLAUSES/ccl_eqnlist.c', 'CONTROL/cco_eqnresolving.c'],
     ['ground completion of negative equations', 'AC normal forms as sorted argument multisets', 'literal flipping for contextual cuts'],
     [_RD('rd_taut', ['trivial', 'taut', 'open'], dict(nl=4), nl=3, D=3, ground=1),
      _RD('rd_taut', ['trivial', 'taut', 'open'], dict(nl=5), nl=4, pool=0),
      _RD('rd_taut', ['trivial', 'taut', 'open'], dict(nl=4), nl=3, pool=1),
      _RD('rd_taut', ['trivial', 'open'], dict(nl=4), nl=3, pool=2),
      _RD('rd_local', ['changed', 'same'], dict(nl=4), nl=3, pool=1),
      _RD('rd_local', ['changed', 'same'], dict(nl=4), nl=3, pool=2),
      _RD('rd_context', ['same', 'none', 'changed', 'found'], dict(nl=3), nl=2, ns=2, pool=1),
      _RD('rd_context', ['same', 'none', 'changed', 'found'], dict(nl=3), nl=2, ns=2, pool=2),
      _RD('rd_ac', ['equal', 'different'], {}), _RD('rd_ac', ['equal', 'different'], {}, n=4, leaf=2),
      _RD('rd_ac', ['equal', 'different'], dict(leaf=3), n=3, leaf=2, ops=2, g=1),
      _RD('rd_acclause', ['redundant', 'resolved', 'kept'], dict(leaf=3), n=3, leaf=2),
      _RD('rd_acclause', ['law', 'redundant', 'resolved', 'kept'], {}, n=3, leaf=3, vars=3), _RD('rd_acclause', ['law', 'redundant', 'resolved', 'kept'], {}, n=2, leaf=3, vars=3),
      _RD('rd_acscan', ['comm', 'other'], {}, vars=3, n=2, ops=2), _RD('rd_acscan', ['assoc', 'other'], {}, vars=3, n=3, D=3, ops=1),
      _RD('rd_acscan', ['other'], {}, vars=3, n=3, ops=2, D=2)],
     ['clauses of up to 4 literals from three pools (thorough: 5), pairs of clauses for contextual cuts; AC terms with up to 5 leaves over one or two operators; interpretations over 2 or 3 elements',
      'outside: higher-order versions of these rules; larger clauses'],
     'solver-chosen clauses and terms through the real tests and rules; meaning compared in a symbolic interpretation')


# ---------------------------------------------------------------- P18 the answer
def _AN(reach, T=None, **p):
    return E('answer.c', 'an_main', reach, params=p, thorough=T or {}, maxinstr=400000000)


prop('P18', 'The reported status is right for every problem and option setting',
     'Whenever the prover reports a problem as theorem, unsatisfiable or contradictory, as satisfiable or counter-satisfiable, this is true of the problem as it was written, with conjectures negated and roles respected, and the status word fits the presence of a conjecture. '
     'Options that leave out axioms, clauses or inferences (axiom selection, relevance pruning, clause limits, disabled inferences) never make it claim a model for a problem that has none, and without such options it gives up only on reaching a limit.',
     ['problem', 'roles', 'command line options', 'interpretation'],
     'all problems from the pools within the size bound, all option settings listed, all finite interpretations within the domain bound',
     'Each combination of problem and option goes through a different path of the main program; tests fix the options and use problems that are all provable or all satisfiable.',
     ['PROVER/eprover.c', 'CONTROL/cco_proofproc.c', 'CONTROL/cco_proofcontrol.c', 'CONTROL/cco_sine.c', 'CLAUSES/ccl_relevance.c', 'CONTROL/cco_preprocessing.c', 'HEURISTICS/che_hcb.c'],
     ['option processing in the main program', 'completeness flags set by many independent modules', 'conjecture negation and status selection'],
     [_AN(['sat', 'theorem'], dict(nc=3), nopt=1, nc=2, nf=1, conj=2, D=3, pool=p) for p in (0, 1, 2)] +
     [_AN(['theorem'], dict(nc=2), nopt=1, nc=1, nf=1, conj=2, D=3, pool=1, roles=1)] +
     [_AN([], dict(nc=3), nopt=27, nc=2, nf=0, conj=0, D=3, pool=p) for p in (0, 1)] +
     [_AN([], dict(nopt=27, opt=0, nc=4), opt=7, nopt=20, nc=3, nf=0, conj=0, D=3, pool=p) for p in (2, 3)] +
     [_AN([], dict(nc=1), nopt=27, nc=0, nf=1, conj=1, D=3, pool=p) for p in (0, 1, 2)],
     ['problems of up to three formulas from four pools of clauses, formulas and conjectures that have models of at most 3 elements if satisfiable; 27 option settings; no time limits',
      'outside: automatic mode and schedules (they fork processes), resource limits, included files'],
     'the whole main program executed symbolically over solver-chosen problems and options; its answer compared with an independent reading of the problem in symbolic interpretations')


# ---------------------------------------------------------------- P19 higher-order terms
def _LM(entry, reach, T=None, **p):
    return E('lam.c', entry, reach, variant='hosys', params=p, thorough=T or {})


prop('P19', 'Higher-order terms: normal forms, instances, matching, unifiers are exact',
     'For every typed lambda term, beta and eta normalisation, shifting of bound variables, the translation from named variables and the application of substitutions give the term that the lambda calculus defines, with the right type, and equal terms become the same shared term. '
     'A reported unifier or match makes the two terms equal and, in the supported fragment, is found whenever one exists and is most general; enumerated unifiers are all unifiers. '
     'Failure and the end of an enumeration leave no variable bound, and no operation touches memory it does not own.',
     ['lambda term', 'substitution', 'unification settings'],
     'all well-typed terms over the listed symbols within the size bound and all substitutions of closed or open terms within the size bound',
     'Errors in index shifting or in eta expansion only show for particular nestings of binders and applied variables, which problem-level tests rarely contain.',
     ['TERMS/cte_lambda.c', 'TERMS/cte_dbvars.c', 'TERMS/cte_pattern_match_mgu.c', 'TERMS/cte_match_mgu_1-1.c', 'TERMS/cte_ho_csu.c',
      'TERMS/cte_ho_bindings.c', 'TERMS/cte_fixpoint_unif.c', 'TERMS/cte_termbanks.c', 'TERMS/cte_termtypes.c'],
     ['de Bruijn shifting', 'lazy head normalisation during unification', 'backtracking over bindings', 'applied variables as a separate term form'],
     [_LM('lm_norm', ['normal', 'reduced', 'eta'], dict(n=5, mask=63), n=4),
      _LM('lm_norm', ['normal', 'reduced'], {}, n=4, redex=2, ty=0, mask=31),
      _LM('lm_shift', ['applied'], {}),
      _LM('lm_named', ['lambda', 'shadowed'], {}, n=4, mask=31),
      _LM('lm_inst', ['bound'], {}, n=3, rounds=1, m=2, smask=7),
      _LM('lm_inst', ['bound'], {}, n=2, rounds=2, m=2, smask=3),
      _LM('lm_unif', ['renaming', 'unified', 'failed'], {}, m=1),
      _LM('lm_unif', ['unified', 'failed'], {}, m=2, n=1, n2=3),
      _LM('lm_unif', ['unified', 'failed'], {}, ty=1, n=3, n2=3, m=1, mask=99),
      _LM('lm_unif', ['unified', 'failed', 'fragment'], {}, m=1, ty=2, n=4, n2=4, mask=102, smask=7),
      _LM('lm_mgu', ['renaming', 'unified'], {}),
      _LM('lm_mgu', ['unified'], {}, ty=1, n=3, n2=3),
      _LM('lm_mgu', ['unified'], {}, ty=2, n=4, n2=4, mask=102),
      _LM('lm_match', ['unified', 'failed'], {}, tmask=15, n=3, ty=1, n2=3, m=1),
      _LM('lm_match', ['unified', 'failed'], {}, ty=2, n=4, n2=4, mask=102, tmask=7, m=1),
      _LM('lm_matchc', ['unified'], {}, tmask=15, ty=1, n=3, n2=3),
      _LM('lm_csu', ['none', 'one', 'several'], {}),
      _LM('lm_csu', ['none', 'one', 'several'], dict(n2=3), n=3, n2=2, ty=1),
      _LM('lm_csu', ['none', 'one', 'several'], {}, ty=0, n=3, n2=3, mask=51, limit=3),
      _LM('lm_csu', ['none', 'one', 'several'], {}, ty=1, n=3, n2=3, mask=99, limit=3),
      _LM('lm_csu', ['none', 'one', 'several'], {}, ty=2, n=3, n2=2, limit=2),
      _LM('lm_mgu', ['unified', 'failed'], {}, ty=0, n=4, n2=4, mask=23, smask=7, m=1),
      _LM('lm_matchc', ['unified', 'failed'], {}, ty=0, n=4, n2=4, mask=23, tmask=7, smask=7, m=1),
      _LM('lm_matchc', ['unified', 'fragment'], {}, ty=0, n=4, n2=4, mask=37, tmask=7, smask=7, m=1)],
     ['terms with up to 4 applications and binders over seven symbols and variables of types i, i>i, i>i>i and (i>i)>i; substitutions of terms with up to 2 applications; at most 5 unifiers per enumeration',
      'outside: polymorphism, choice and Boolean extensionality, completeness of unifier enumeration beyond patterns'],
     'solver-chosen lambda terms through the real term bank and unification code; an independent lambda calculus decides every result')


# ---------------------------------------------------------------- P20 messages
_NETW = ('read', 'write', 'close', 'getaddrinfo', 'freeaddrinfo', 'socket', 'connect', 'gai_strerror', 'exit')


def _NT(entry, reach, T=None, **p):
    return E('net.c', entry, reach, variant='sys', params=p, thorough=T or {}, wraps=_NETW)


prop('P20', 'Messages between server and clients arrive whole, unchanged and in order',
     'For every sequence of texts and every way in which the connection splits, delays, interrupts, fails or closes the transfers, the strings sent over a TCP channel arrive exactly once, unchanged and in order. '
     'A failed or closed connection is reported as such and never as a message; no received message header, however malformed, causes a memory error. '
     'Queued messages of a channel go out in the order in which they were queued. '
     'Connecting uses the first address that accepts, closes every other socket it opened, and reports an unresolvable name as an error.',
     ['message texts', 'transfer sizes and failures', 'received bytes', 'address list'],
     'all messages within the length bound and all schedules of partial transfers, failures and closures',
     'Short reads and writes, an empty text or a broken header depend on the peer and the kernel; on the loopback interface of a test every small transfer succeeds at once.',
     ['INOUT/cio_network.c', 'INOUT/cio_multiplexer.c', 'INOUT/cio_simplestuff.c'],
     ['length header in network byte order', 'incremental transfer with a saved position', 'in and out queues of a channel', 'fallback over the resolved addresses'],
     [_NT('net_send', ['sent'], dict(len=4), n=1, len=3, zeros=1),
      _NT('net_send', ['sent', 'failed'], {}, n=2, len=1, zeros=0, fails=1),
      _NT('net_send', ['sent'], {}, n=2, len=2, zeros=0),
      _NT('net_recv', ['received'], dict(len=4), n=1, len=3),
      _NT('net_recv', ['received'], {}, n=2, len=2),
      _NT('net_recv', ['cut'], {}, n=2, len=2, chunk=3, cut=1),
      _NT('net_recv', ['received', 'failed'], {}, n=2, len=1, fails=1),
      _NT('net_bad', ['accepted', 'rejected'], dict(k=7), k=6),
      _NT('net_chan', ['drained', 'bounded'], dict(steps=12), n=2, len=1, chunk=3, steps=10),
      _NT('net_block', ['end'], {}, n=1, len=2, chunk=4),
      _NT('net_conn', ['connected', 'refused'], {}, n=3),
      _NT('net_long', ['long'], {})],
     ['up to 2 messages of up to 3 bytes, transfers of 0 to 7 bytes chosen by the solver, one failure per run; one message longer than the transfer buffer with a fixed schedule; up to 3 addresses',
      'outside: real sockets and the select loop (the system calls are stand-ins with solver-chosen results), what the server does with a message'],
     'the real transfer code over stand-ins for read, write, connect and getaddrinfo whose results the solver chooses')


# ---------------------------------------------------------------- P21 PCL protocols
def _PC(entry, reach, T=None, **p):
    return E('pcl.c', entry, reach, variant='sys', params=p, thorough=T or {})


prop('P21', 'Proofs extracted from PCL protocols are complete and exact',
     'For every well-formed PCL protocol, extraction prints exactly the steps that are marked for extraction or used, directly or indirectly, by the justification of a printed step, once each and in the order of their identifiers. '
     'Every printed step has the identifier, role, clause or formula, justification and extra information it was read with, in PCL and in TSTP format; the fast mode gives the same result for protocols whose marked steps come last. '
     'The presence of an empty clause is reported correctly. Removing formula steps turns exactly the clauses derived from them into initial clauses and keeps the others.',
     ['protocol', 'step identifiers', 'output format'],
     'all protocols within the step bound, built from the listed justifications, contents and marks, with all step identifiers within the digit bound',
     'A missing premise only shows when a step is reachable through one particular argument of a nested justification or has a multi-part identifier; tests compare a few fixed protocols at most.',
     ['PCL2/pcl_protocol.c', 'PCL2/pcl_steps.c', 'PCL2/pcl_expressions.c', 'PCL2/pcl_idents.c', 'PCL2/pcl_miniprotocol.c', 'PCL2/pcl_ministeps.c', 'PCL2/pcl_miniclauses.c', 'TERMS/cte_signature.c'],
     ['identifiers as sequences of numbers', 'transitive closure over nested justifications', 'compact clause encoding of the fast mode', 'signature shared by all steps'],
     [_PC('pcl_extract', ['none', 'part', 'all'], {}, n=2, exts=5, conts=3),
      _PC('pcl_extract', ['none', 'part', 'all'], {}, n=2, exts=5, conts=3, tstp=1, types=1),
      _PC('pcl_extract', ['none', 'part', 'all'], dict(free=3, roots=3), n=3, exts=2, conts=2, kinds=13, roots=2, free=2),
      _PC('pcl_extract', ['none', 'part', 'all'], {}, n=3, exts=5, kinds=9, roots=1, conts=4, free=1, types=1, ids=1, rev=1),
      _PC('pcl_extract', ['none', 'part', 'all'], {}, n=3, exts=2, conts=1, roots=1, kinds=125),
      _PC('pcl_extract', ['none', 'part', 'all'], dict(n=4, minor=5), n=3, ids=2, exts=2, kinds=9, roots=1, conts=1, rev=1),
      _PC('pcl_extract', ['all'], {}, n=3, exts=5, kinds=9, roots=1, conts=2, free=1, all=1),
      _PC('pcl_mini', ['none', 'part', 'all'], {}, n=2, conts=2),
      _PC('pcl_mini', ['none', 'part', 'all'], {}, n=2, fast=0, conts=2),
      _PC('pcl_mini', ['none', 'part', 'all'], {}, n=3, roots=2, kinds=13, conts=2, free=1, exts=3),
      _PC('pcl_strip', ['end', 'initial'], {}, n=3, exts=1, kinds=13),
      _PC('pcl_strip', ['end', 'initial'], {}, n=3, exts=1, kinds=69),
      _PC('pcl_strip', ['end', 'initial'], {}, n=2, exts=5, kinds=13, types=1)],
     ['protocols of up to 3 steps (4 in the thorough run), seven justification forms with up to three premises, four kinds of content, identifiers of one or two numbers',
      'outside: circular protocols, the proof checking and example selection built on PCL protocols'],
     'solver-chosen protocols as text through the real parser, marking and printing code; the printed text is compared with the closure computed on the chosen protocol')
