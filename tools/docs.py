"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the compiled IR (order-type domain, trace partitioning) against a reference semantics"
TESTS = "The tests check a few hand-picked %s; the claim is about every one."


def P(id, title, statement, over, text, why, files, mech, technique=AI, note=""):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=["src/" + f for f in files], mechanism=[dict(name=n, where="src/" + w) for n, w in mech]), _t=technique, _n=note)


PROPS = [
    P("C01", "Comparison, equality, boolean and null predicates mean what they say",
      "A subscription made of one comparison (<, <=, >, >=), equality (=, <>), boolean, literal or null/empty test, written either way round and possibly negated, is reported for an event exactly when that predicate holds of the event's value. "
      "This holds for integers, floats, strings, integer enums, booleans and lists, at every literal, including the extremes of the types and literals or values wider than 32 bits. "
      "A predicate on an undefined attribute, other than a null test, is false (<>, not in and none of included), and its negation by not is therefore true.",
      ["inputs"], "every operator, operand order, attribute type, literal and event value",
      TESTS % "values per operator, rarely at the equality point or the extremes, and never on both sides of a negation",
      ["ast.c", "var.c", "event_parser.y", "parser.y"], [("match_node / match_compare_expr / match_equality_expr", "ast.c"), ("compare_value_matches, equality_value_matches", "ast.c"), ("get_*_var", "var.c")]),
    P("C02", "Set and list predicates mean what they say for lists of every shape",
      "'in' and 'not in' (value in list attribute, attribute in literal list), 'one of', 'none of' and 'all of' are decided by set membership, whatever the length, order and repetitions of the list in the expression or the event, the type (integers, strings) and the position of the member looked for. "
      "An empty list attribute contains nothing, and strings never seen in any expression are members of nothing.",
      ["inputs"], "every pair of lists (order types, lengths up to the bounds in DESIGN.md, all relative positions) and every operator",
      "The tests use lists of up to three ordered members; search in sorted lists fails at specific sizes, ends and repetitions.",
      ["ast.c", "value.c", "tree.c"], [("match_set_expr, match_list_expr, match_not_all_of_*, match_all_of_*", "ast.c"), ("d64binary_search, sbinary_search", "ast.c"), ("sort_lists / sort_event_lists", "ast.c, tree.c")]),
    P("C03", "Frequency caps, segments, string and geo predicates mean what they say",
      "A frequency-cap predicate holds unless the (first) cap of the event with the same type, the id bound to the subscription and the same namespace has reached the limit and its window (timestamp + length, when the length is not zero; elapsed if it has no timestamp) has not elapsed; without 'now' or caps it is false. "
      "segment_within/segment_before hold exactly when the event has that segment and its timestamp plus the number of seconds is at or after / before 'now'; contains, starts_with and ends_with are the usual tests on whole strings. "
      "geo_within_radius holds well inside the radius and fails well outside it (the exact distance formula is not claimed).",
      ["inputs"], "every cap type, id, namespace, value, timestamp, window, segment id, string and pattern, other entries in the event's lists",
      TESTS % "instances with small numbers and one entry per list",
      ["special.c", "ast.c", "var.c"], [("within_frequency_caps, segment_within, segment_before, contains, starts_with, ends_with, geo_within_radius", "special.c"), ("match_special_expr", "ast.c")]),
    P("C04", "Connectives, undefined attributes and the short-circuit agree with evaluation",
      "and, or, not and their nestings have their usual meaning over predicates, where a predicate other than a null test is false when an attribute it uses is undefined, so that its negation by not is true. "
      "Deciding an expression early because some of its attributes are undefined never gives another answer than evaluating it in full.",
      ["inputs", "programs"], "every formula shape with up to three leaves of every predicate kind (and sampled larger ones), every pattern of defined/undefined attributes",
      "The tests check a handful of formulas; the wrong ones need a specific combination of negation, connective and undefined attribute.",
      ["tree.c", "ast.c"], [("fill_short_circuit / short_circuit_for_node", "tree.c"), ("try_short_circuit, match_sub", "tree.c"), ("match_bool_expr", "ast.c")]),
    P("C05", "Sharing results between identical predicates is invisible",
      "When many subscriptions share sub-expressions, or have sub-expressions that differ in a single operator, operand, attribute, list member, namespace, bound constant or connective, each subscription is still reported exactly as if it were alone in the tree.",
      ["inputs", "programs"], "every pair of sub-expressions over a dictionary of near-identical predicates, in one tree, in several orders",
      "The tests check which predicates get equal ids for a few pairs; a result leaks between two subscriptions only for a specific pair in one tree.",
      ["hashmap.c", "ast.c", "memoize.c", "tree.c"], [("assign_pred_id / assign_pred", "ast.c, hashmap.c"), ("eq_expr, fast_eq_expr, expr_cmp", "ast.c, ast_compare.c"), ("memoize bit sets in match_node", "ast.c")]),
    P("C06", "The index never changes which subscriptions match",
      "For every set of subscriptions, every configuration of node capacity and minimum partition size, and every bounded domain, a search reports exactly the subscriptions that match when each is evaluated on its own: none is lost and none is added by partitioning on attributes or by clustering domains into halves. "
      "This includes values at and beyond the edges of the declared domain and at the split points, and a node is only split past its configured capacity.",
      ["inputs", "configurations"], "every value position of a domain (below, edges, split points, above, undefined), node capacities 1-3 and default, every attribute type, domains at any place, from one value to the full type",
      "The tests rarely reach a second split and use one or two events; a subscription lost at a split point needs the exact value.",
      ["tree.c", "ast.c"], [("match_be_tree, search_cdir, is_event_enclosed", "tree.c"), ("insert_be_tree, insert_cdir, space_partitioning, space_clustering, split_value_bound", "tree.c"), ("get_variable_bound", "ast.c")]),
    P("C07", "Every accepted subscription stays reachable, once, whatever the history",
      "After any sequence of insertions, in any order, with equal or different ids and with searches in between, each accepted subscription is reported exactly once by every event it matches and never by others; the count reported agrees with the ids listed. "
      "Restructuring the index by later insertions never loses, duplicates or swaps a subscription.",
      ["histories"], "every permutation and interleaving in the explored families, several node capacities",
      "The tests insert a few subscriptions in one order; restructuring happens at capacities they seldom reach.",
      ["tree.c", "betree.c"], [("insert_be_tree, space_partitioning, space_clustering, move, remove_sub, update_partition_score", "tree.c"), ("add_sub", "tree.c")]),
    P("C08", "Computed value intervals contain every value that can satisfy an expression",
      "In a tree that splits as deep as it can, an expression of any shape - nested connectives, negations, list tests, several mentions of an attribute or none - is found for every value of every attribute that satisfies it, including values outside the declared domain and undefined ones.",
      ["inputs", "programs"], "every formula of up to three leaves over one attribute of every type, another attribute and none, in a domain at an abstract location, capacity 1; every value position",
      "The tests compare computed bounds for a few dozen expressions, none of them for whether the search then finds them.",
      ["ast.c", "tree.c"], [("get_variable_bound", "ast.c"), ("sub_is_enclosed, insert_cdir", "tree.c")]),
    P("C09", "A search leaves no trace in the tree",
      "Searching - by text or with a built event, successful, refused, or with values and strings never seen before - does not modify the tree, so any search can be repeated, reordered or left out without changing the result of any other. "
      "The report lists exactly what this search found.",
      ["histories", "inputs"], "every function reachable from the four search entry points; every event form against a tree whose memory is frozen",
      "Tests search a tree once or twice with known strings; a write in the tree shows only in a later, different search.",
      ["tree.c", "config.c", "betree.c", "ast.c"], [("betree_search_with_event_filled and callees", "betree.c"), ("try_get_id_for_string, try_get_id_for_ienum", "config.c")],
      "interprocedural effect analysis (what searches may write), plus abstract interpretation with the tree frozen"),
    P("C10", "exists agrees with search and reports are well formed",
      "For every tree and event, betree_exists and betree_exists_with_event return true exactly when the corresponding search reports at least one subscription, and refuse the same events. "
      "A report's count is the number of its ids and grows correctly for any number of matches.",
      ["inputs"], "every event of the families against trees of every shape, 0 to several hundred matches",
      "There is one test of exists on a small tree.",
      ["betree.c", "tree.c"], [("betree_exists*, betree_exists_with_preds", "betree.c, tree.c"), ("add_sub, make_report", "tree.c, betree.c")]),
    P("C11", "Only well-typed expressions over declared attributes are accepted",
      "An expression is accepted exactly when every attribute it uses is declared with a type its operator can handle (also the implicit ones: caps, segments, latitude, longitude, now), its set literals have the attribute's element type, and the constants it needs are given; in an insertion its strings and enum values must also fit the declared capacity, and betree_make_sub wants null tests only where they can fail. "
      "Anything else is refused, by every entry point that takes an expression, without a crash and without changing the tree.",
      ["inputs", "programs"], "every operator x every declared type (and undeclared) for each operand, nested in formulas, through insert, insert with constants, make_sub and change_boundaries",
      TESTS % "wrong expressions, at top level only",
      ["ast.c", "betree.c"], [("all_variables_in_config, all_exprs_valid, all_bounded_strings_valid, is_valid", "ast.c, betree.c"), ("assign_constants", "ast.c")]),
    P("C12", "An event is accepted exactly when it fits the declarations",
      "A search is refused, returning false with nothing reported, exactly when a value has another type than its attribute or an attribute that must be defined is missing; integers are accepted for floats and empty lists for every kind of list. "
      "The order of attributes, the letter case of their names, explicit nulls and repeated or unordered list members never change the meaning.",
      ["inputs"], "every declared type x every value form x required or optional x present, null or missing, several attributes at once",
      TESTS % "missing or mistyped attributes",
      ["tree.c", "betree.c", "event_parser.y"], [("fill_event, validate_variables, convert_to_domain_type", "tree.c"), ("sort_event_lists", "tree.c")]),
    P("C13", "Strings and enum values are told apart exactly, up to the declared capacity",
      "Two string (or integer enum) literals or values are equal for the tree exactly when they are equal, however many there are, whatever their characters and however they hash, and per attribute. "
      "With a declared capacity of n, insertions are accepted exactly as long as the attribute has seen at most n different values, repeats costing nothing.",
      ["inputs", "histories"], "every sequence of first and repeated values around the capacity, colliding and near-identical strings, several attributes",
      "The tests use capacities of one to three and dissimilar strings.",
      ["config.c", "ast.c", "map.c"], [("get_id_for_string, get_id_for_ienum, try_get_id_*", "config.c"), ("bounded_strings_valid, add_new_string", "ast.c"), ("map_*", "map.c")]),
    P("C14", "Memory is released exactly once and never used after release",
      "Every object made by a call is released by the call that owns it: after the tree, reports, events, constants and subscriptions are freed nothing remains, nothing is freed twice, and no memory is read after release, out of bounds or before being written. "
      "This also holds on the refusal paths (ill-typed or unusable expressions, mismatched events, missing constants); the tree keeps no pointer to the caller's memory.",
      ["histories", "inputs"], "every call sequence of the families, accepted and refused, whatever the predicate kinds; syntax errors excluded",
      "The tests run under valgrind only by hand, and exercise few refusals.",
      ["ast.c", "betree.c", "tree.c", "value.c", "clone.c", "config.c"], [("free_ast_node, free_value, free_sub, free_event, betree_free, betree_deinit", "ast.c, value.c, tree.c, betree.c"), ("early returns of betree_insert_with_constants, betree_make_sub, betree_search", "betree.c")],
      "abstract interpretation with an ownership/typestate domain over allocation sites"),
    P("C15", "Results do not depend on sizes",
      "Results are the same function of the subscriptions and the event whatever the number of attributes (declared before, between or after the insertions), distinct predicates, subscriptions, matches, list members, attributes per event and nesting depth; in particular around multiples of 8, 32 and 64 and beyond 255.",
      ["inputs", "configurations"], "sizes on both sides of each power of two up to the bounds in DESIGN.md for each dimension",
      "Bit sets and growing arrays fail only at specific sizes; the tests have at most a few attributes and predicates (and some bulk data that ignores results).",
      ["memoize.c", "tree.c", "betree.c", "hashmap.c", "jsw_rbtree.c", "map.c"], [("set_bit/clear_bit/test_bit, make_memoize", "memoize.c, tree.c"), ("short circuit counts in match_sub, make_environment", "tree.c, betree.c"), ("jsw_* ordered set", "jsw_rbtree.c")]),
    P("C16", "Learning boundaries from expressions never changes what matches",
      "Declaring attributes without bounds (or with any) and then calling betree_change_boundaries with expressions before inserting changes only the shape of the index: every subscription accepted afterwards is reported exactly as by direct evaluation, also for values outside the learnt range, and a declared capacity never shrinks. "
      "betree_change_boundaries refuses what insertion would refuse for undeclared attributes or types, and leaves the tree usable.",
      ["histories", "inputs"], "every attribute type, any sequence of learning expressions, then insertions and searches",
      "The tests check the learnt numbers for single expressions, never a search afterwards.",
      ["betree.c", "ast.c", "tree.c"], [("betree_change_boundaries, change_boundaries, get_simple_variable_bound", "betree.c")]),
    P("C17", "Expressions and events are read as their grammar says",
      "An expression text is accepted exactly when it follows the grammar, with not binding tighter than and, and tighter than or, both associating to the left; all spellings of an operator, quoting styles, and spacing are equivalent, names and keywords that are prefixes of each other are not confused, and literals have the value written. "
      "The same holds for events: keys, quoted strings with escapes, signed numbers, booleans, null, lists, segments and caps.",
      ["inputs", "programs"], "every text (lexer automata), every token sequence of any length (parser automata), every production and state for what is built from them",
      TESTS % "well-formed texts",
      ["lexer.l", "parser.y", "event_lexer.l", "event_parser.y", "lexer.c", "parser.c", "event_lexer.c", "event_parser.c"], [("xxlex, xxparse", "lexer.c, parser.c"), ("zzlex, zzparse", "event_lexer.c, event_parser.c")],
      "equivalence of the lexer tables with the token automaton, isomorphism of the parser tables with the LALR(1) automaton of a reference grammar, plus abstract interpretation of the code around them"),
    P("C18", "Copies and equality of expressions cover everything that matters",
      "A copy of an expression shares no memory with the original and is the same expression: it evaluates alike for every event, also after the original is released. "
      "Two expressions compare equal (by either comparison) exactly when no operator, attribute, literal, list member, constant, unit or connective differs; comparison is reflexive and symmetric.",
      ["programs"], "every node kind and every single component that can differ, and every pair from the dictionary of near-identical predicates",
      "The tests check a few pairs.",
      ["clone.c", "ast.c", "ast_compare.c"], [("clone_node", "clone.c"), ("eq_expr, fast_eq_expr", "ast.c"), ("expr_cmp", "ast_compare.c")],
      "abstract interpretation of copy and comparison over all node kinds (points-to disjointness of the object graphs, component-wise distinguishability)"),
    P("C19", "Each subscription keeps the constants it was inserted with",
      "A frequency-cap predicate looks for caps with the id bound at insertion by the constant of its own type (advertiser, campaign, campaign group, flight, product), whatever the order and number of the other constants, the number of cap predicates in the expression, and the constants of other subscriptions with the same text. "
      "When the needed constant is missing the insertion is refused and nothing changes.",
      ["inputs", "configurations"], "every cap type x every set and order of constants x ids up to 32 bits, several caps per expression, several subscriptions",
      TESTS % "constant lists",
      ["ast.c", "betree.c"], [("assign_constants, get_constant_name_for_type", "ast.c"), ("is_valid / betree_insert_with_constants", "betree.c")]),
    P("C20", "Concurrent searches of one tree do not interfere",
      "Any number of threads may search one tree at once, each with its own event and report: a search writes nothing that another search reads or writes, so every interleaving gives each thread the result it would get alone.",
      ["schedules"], "every interleaving of searches, because they share no mutable location",
      "No test runs two threads, and a data race seldom shows.",
      ["tree.c", "betree.c", "config.c", "event_parser.c", "event_lexer.c", "map.c"], [("betree_search*, betree_exists*", "betree.c"), ("event parser and lexer state", "event_parser.y, event_lexer.l")],
      "interprocedural effect and escape analysis over globals and shared objects"),
    P("C21", "Making a subscription and linking it later equals inserting it",
      "betree_make_sub followed by betree_insert_sub, in any order and interleaved with other insertions, gives the same searches as betree_insert_with_constants of the same expression; a subscription made but not linked is never reported. "
      "betree_make_sub refuses, returning nothing, what insertion refuses for syntax, undeclared attributes, types or missing constants.",
      ["histories"], "every expression of the dictionary, linking orders first-in, last-in, mixed",
      "There are two tests with one expression each.",
      ["betree.c", "tree.c"], [("betree_make_sub, betree_insert_sub", "betree.c")]),
    P("C22", "An event means the same built by calls or written as text",
      "An event built with the variable constructors and set at the indexes of the attribute definitions is searched exactly as the equivalent text; the definition at an index has the name and type declared for it. "
      "Building, setting an index twice, leaving some unset, and reusing an event for several searches behave accordingly.",
      ["inputs", "histories"], "every type of value, every subset of attributes set, any order of setting, definitions in any order of declaration",
      "The tests build two events.",
      ["betree.c", "tree.c"], [("betree_make_event, betree_set_variable, betree_make_*_variable, betree_get_variable_definition", "betree.c"), ("fill_event", "tree.c")]),
    P("C23", "A search leaves out what index, short-circuits and memory already decide",
      "When many subscriptions each want another value of an attribute bounded to fewer than a thousand values (any type the index splits, boundaries declared or learnt, alone or in conjunctions), a search evaluates only a few of them besides those that match, however many there are and in whatever order they came. "
      "A subscription decided by an undefined optional attribute (a predicate on it, its negation, a conjunction with what that makes false, a disjunction with what it makes true, or a combination of such alone; caps, segments and geo predicates by each attribute they use) is counted as shorted, and none is when all its attributes are defined; an expression shared by several subscriptions, whatever the order of the members of its lists, is evaluated once in a search and each further time counted as memoized. "
      "In 'and' and 'or' a simple operand (comparison, equality) is asked before a costly one (set, list, string or segment test), whichever side it is written on, so that one that decides spares the other.",
      ["inputs", "configurations"], "every splittable type, number and order of subscriptions, capacity, predicate kind and position of the undefined attribute in the families of DESIGN.md, counted by the report (evaluated, shorted, memoized)",
      "Results stay right when the index, the short-circuit or memoization stop working for some type, position or operator, so tests that look at matches cannot notice; a few look at counters of tiny trees.",
      ["tree.c", "ast.c", "hashmap.c", "betree.c"], [("search_cdir, is_event_enclosed, space_partitioning, space_clustering, splitable_attr_domain", "tree.c"), ("fill_short_circuit, try_short_circuit, match_sub", "tree.c"), ("match_node_inner, score_node, ast_bool_expr_binary_create", "ast.c"), ("assign_pred", "hashmap.c"), ("change_boundaries", "betree.c")],
      note="'A few' is at most 3 x (node capacity + 2) per attribute beyond those that match, several times what the unchanged code evaluates."),
    P("C24", "Declarations by text are those of the calls; an emptied tree is as new",
      "A well-formed line given to add_variable_from_string (name, type, whether it may be undefined, and the bounds of its type, if any, with or without a newline) declares exactly what the call with those values declares: the same name, type, obligation and bounds, whatever their sign and size, and thus the same acceptance, matches and counters. "
      "A tree emptied with empty_tree, once or repeatedly and at whatever size, reports nothing, and what is inserted into it afterwards is accepted and matched as in a new tree with the same declarations (only the strings its bounded attributes know stay counted); events made before stay usable. "
      "Neither leaves memory behind when the tree is freed.",
      ["inputs", "histories"], "every type with and without bounds of every sign and size, newline or not, alone and among others; trees filled, searched, emptied and filled again with every kind of predicate at several capacities",
      "The tests only load files of a few well-known lines, and empty a tree of a few subscriptions.",
      ["helper.c", "config.c", "tree.c", "hashmap.c"], [("add_variable_from_string, empty_tree", "helper.c"), ("add_attr_domain_*", "config.c"), ("make_cnode, free_cnode", "tree.c"), ("make_pred_map, free_pred_map", "hashmap.c")],
      note="Malformed lines (fields missing, unknown types) abort by design and are not claimed; nor are subscriptions made but not inserted before the tree was emptied."),
    P("C25", "The trees of a process do not interfere",
      "Whatever is done with one tree (declaring, learning, inserting, refused insertions, searching, emptying, freeing), before, between or, by another thread, during the operations on another, each tree accepts, matches and counts what it would alone, however alike or unlike their declarations are. "
      "No operation on one tree changes or releases memory of another, and the library keeps nothing from one call to the next outside the trees, events and other objects that its callers hold.",
      ["histories", "schedules"], "lives of two and three trees one after the other, nested, in turns and shuffled, with every kind of declaration and predicate; every scheduling point of the operations of one while another thread lives through the life of the other",
      "Each test uses one tree in one thread; what a process remembers by accident only shows between two.",
      ["betree.c", "config.c", "tree.c", "hashmap.c", "map.c", "parser.c", "event_parser.c", "lexer.c", "event_lexer.c"], [("the whole interface", "betree.h"), ("id maps", "config.c"), ("predicate map", "hashmap.c"), ("parser and lexer state", "parser.y, lexer.l, event_parser.y, event_lexer.l")],
      "interprocedural effect analysis of globals and hidden libc state; abstract interpretation of interleaved histories with the other trees' memory read-only"),
]
NA = [
    P("C90", "Distances are those of the haversine formula",
      "geo_within_radius uses the great-circle distance exactly: for every two points and radius the answer is that of the haversine formula in exact arithmetic, up to the last unit.",
      ["inputs"], "all pairs of coordinates and radii", "Tests check a few far and near points.", ["special.c"], [("geo_within_radius, haversine", "special.c")], "",
      "a numeric claim about trigonometric floating-point code: no static domain in reach bounds the rounding of sin/cos/asin to the point of deciding comparisons at the rim; C03 claims only points well inside or outside"),
    P("C91", "The time of a search is sublinear in the number of subscriptions",
      "Whatever the subscriptions, the time of a search grows less than their number when the event is selective.",
      ["inputs"], "all trees and events", "Benchmarks give times for one data set.", ["tree.c"], [("match_be_tree", "tree.c")], "",
      "quantifies over run-time distribution of data and events; there is no static bound (a degenerate tree legally evaluates all); C23 claims the counters for the families where the index must work"),
    P("C92", "Memory exhaustion is handled",
      "When an allocation fails, the call in progress fails without corrupting the tree.",
      ["fault_sequences"], "every allocation failing", "Tests never fail an allocation.", ["alloc.c", "alloc.h"], [("bmalloc, bcalloc, brealloc", "alloc.c")], "",
      "the library does not offer it: allocation results are never checked by design (a static rule would report every call site); not a guarantee of this system"),
    P("C93", "Printed expressions parse back to the same expression",
      "The text that the debug printer gives for an expression is accepted and means the same.",
      ["programs"], "all expressions", "No test parses back.", ["printer.c", "debug.c"], [("ast_to_string", "printer.c")], "",
      "the printer is a debugging aid whose syntax (brackets, numbers instead of strings) is deliberately not the input grammar, so there is no such guarantee to decide"),
]


def main():
    have = {p["id"] for p in PROPS if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    note = ("Decided on the LLVM IR of the current sources, nothing is executed: every obligation of the partition in DESIGN.md is decided for a whole class of inputs; inputs outside the partition are not covered. "
            "Trusts clang's translation, the libc models and the reference semantics of the analyser. ")
    man = dict(version=1, setup_cmd="python3 tools/setup.py",
               checks=[dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
                            technique=p["_t"], level="other", level_note=(note + p["_n"]).strip()) for p in PROPS if p["id"] in have],
               not_applicable=[dict(property=p["id"], reason=p["_n"]) for p in NA] + [dict(property=p["id"], reason="check not built yet") for p in PROPS if p["id"] not in have])
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
