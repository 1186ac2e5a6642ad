#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
R = "richard/"
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [R + f for f in files],
                          "mechanism": [{"name": n, "where": R + w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})

SOLVER = "core/Solver.py"; CORE = "module/CoreModule.py"; INF = "module/InferenceModule.py"
IRP = "module/helper/SimpleInferenceRuleParser.py"; GRP = "processor/parser/helper/SimpleGrammarRulesParser.py"
EP = "processor/parser/earley/EarleyParser.py"; TE = "processor/parser/earley/tree_extract.py"
COMP = "processor/semantic_composer/SemanticComposer.py"; OPT = "processor/semantic_composer/optimizer/"
GEN = "core/BasicGenerator.py"; DS = "data_source/"

# ---------------------------------------------------------------- solver
p("S01", "An unknown predicate is an error, never an empty answer",
  "Solving or storing an atom whose predicate no module in the model offers raises an error that names the predicate. It is never treated as a query without solutions or as a write that silently does nothing.",
  ["inputs", "configurations"], "every atom and every set of modules",
  "The unit tests query one unknown name at most; the guarantee is about every atom on both the query and the store path.",
  [SOLVER, "core/Model.py"], [("find_relation_values", SOLVER), ("write_atom", SOLVER), ("find_relations", "core/Model.py")])
p("S02", "Every module that offers a predicate is consulted, and written to",
  "A query on a predicate asks every module that offers it and the answer contains the rows of all of them, in module order and without duplicates. Storing an atom writes it to every module that offers the predicate with a write function; a lazy counted result is never combined with rows of another module.",
  ["inputs", "configurations"], "every number and order of modules that share a predicate",
  "Tests hold one or two modules in a fixed order; losing the second provider only shows in configurations they do not build.",
  [SOLVER, "core/Model.py"], [("loop over relations", SOLVER), ("find_relations", "core/Model.py")])
p("S03", "A solution extends the incoming binding and agrees with the query atom",
  "Every solution of an atom contains the incoming binding unchanged: a variable that was already bound keeps its value. A fresh variable gets the value of its own argument position, one that occurs twice must get equal values, and a constant argument must equal the returned value unless the predicate left that position open (None).",
  ["inputs"], "every atom, every binding, every row returned by any predicate",
  "Tests check a few joins; violations need repeated variables, constants next to rows with other values, or falsy values.",
  [SOLVER], [("create_solve_single_results", SOLVER)])
p("S04", "Conjunctions join left to right; a disjunction takes its first success",
  "Solving a list of atoms gives exactly the solutions of the rest of the list under each solution of the first atom, in that order and without duplicates; the empty list has the incoming binding as its one solution. A disjunction gives all solutions of the first alternative that has any, and none if no alternative has.",
  ["inputs", "programs"], "every list of atoms and every binding",
  "Order, duplicate removal and short-circuiting are claims about all conjunctions; tests fix a handful.",
  [SOLVER], [("solve", SOLVER), ("solve_disjunction", SOLVER)])
p("S05", "Malformed predicate results are reported, not used",
  "When a predicate returns something other than a list of lists, or a row whose width differs from the number of arguments of the atom, solving the atom raises an error naming the predicate. Such a result never leads to an index error later on or to a partial solution.",
  ["inputs", "configurations"], "every user-written predicate function and every row it returns",
  "Tests only use well-formed predicates.",
  [SOLVER], [("solve_single", SOLVER)])
p("S06", "A predicate receives each argument's value in its own position",
  "The values handed to a predicate are, position by position, the constant argument, the value the variable is bound to (also when that value is 0, False or an empty string), or None exactly when the variable is unbound. The predicate also receives the original arguments and the current binding.",
  ["inputs"], "every atom and every binding",
  "Tests use truthy entity ids and names; falsy values and unusual argument orders are never sampled.",
  [SOLVER], [("model_values_2_db_values", SOLVER), ("ExecutionContext", SOLVER)])

# ---------------------------------------------------------------- builtins
p("B01", "Negation and scoping follow the existence of solutions of their body",
  "The predicates not and none succeed exactly when their body has no solutions under the current binding, and scoped succeeds exactly when it has at least one. When they succeed they give one row that binds nothing; when they fail they give no row.",
  ["inputs"], "every body and binding, any number of solutions",
  "Tests evaluate each with one body; the polarity must hold for zero, one and many solutions.",
  [CORE], [("not_function / determiner_none / scoped", CORE)])
p("B02", "Comparisons compare the right operands in the right direction",
  "equals, greater_than and less_than succeed exactly when the first argument equals, is strictly greater than, is strictly less than the second, and return the operands unchanged. equals with one unbound argument binds it to the other argument's value, and let binds its first argument to the second.",
  ["inputs"], "every pair of values, including equal and falsy ones",
  "Tests take one pair per operator, never the boundary case of equal operands on every operator.",
  [CORE], [("equals / greater_than / less_than / let", CORE)])
p("B03", "Arithmetic on unbound arguments is a descriptive error",
  "equals with two unbound arguments, and greater_than, less_than and multiply with an unbound operand, raise an error that says which argument is unbound, before any operation is attempted on the missing value. They never return rows in that case.",
  ["inputs"], "every combination of bound and unbound arguments",
  "No test calls these predicates with unbound arguments.",
  [CORE], [("None checks", CORE)])
p("B04", "Counted determiners compare the number of solutions with the number",
  "det_equals, det_greater_than and det_less_than succeed exactly when the number of solutions of the body under the current binding is equal to, strictly greater than, strictly less than the given number. When they succeed they give one row that binds nothing.",
  ["inputs"], "every body, every count and every number, including boundary counts",
  "Tests sample one count per determiner; off-by-one and direction errors need the boundary.",
  [CORE], [("determiner_equals / _greater_than / _less_than", CORE)])
p("B05", "'all' holds exactly when every entity in the range satisfies the body",
  "The all predicate solves its range under the current binding, and then the body once for each distinct entity of the range with the quantified variable bound to that entity on top of the current binding. It succeeds exactly when the body has a solution for each of them, and then returns each of the entities once, in range order.",
  ["inputs"], "every range, body and binding",
  "Tests use two small ranges; a body that fails for only the last or a repeated entity is not sampled.",
  [CORE], [("determiner_all", CORE)])
p("B06", "Aggregates use every solution and define the empty case",
  "count gives the number of solutions of its body, sum the total of the element values over all solutions (0 for none), avg that total divided by the number of solutions, and percentage 100 times the number of nominator solutions over the number of denominator solutions. avg and percentage have no result when there is nothing to divide by.",
  ["inputs"], "every body and any number of solutions, including none",
  "Tests use one body each; dropping the first or last solution, or the empty case, is not sampled.",
  [CORE], [("count / sum / avg / percentage", CORE)])
p("B07", "arg_min and arg_max return the extreme value with its own entity",
  "arg_min (arg_max) returns one row with the smallest (largest) element value over all solutions of the body together with the entity from the same solution. The earliest solution wins a tie, and there is no row when the body has no solutions.",
  ["inputs"], "every body and any number and order of solutions, including negative, zero and equal values",
  "Tests have one ordering of distinct positive values.",
  [CORE], [("arg_min / arg_max", CORE)])
p("B08", "find_all collects every distinct value; find_one the first",
  "find_all returns one row holding the list of the distinct values (or, for a list of variable names, combinations of values) of the named variables over all solutions of the body, in order of first appearance, whatever those values are. find_one returns the first element of that list, and no row when the list is empty.",
  ["inputs"], "every body, one or more variable names, including falsy values",
  "Tests use one body; order, duplicates and falsy values are not sampled together.",
  [CORE], [("find_all / find_one", CORE)])
p("B09", "store writes every given atom once, in order, with variables filled in",
  "store replaces the bound variables in its atoms by their values and writes each atom exactly once in the given order, and then succeeds once, binding nothing. An argument that is not a list raises an error and nothing is written.",
  ["inputs"], "every list of atoms and every binding",
  "Tests store one or two atoms.",
  [CORE, "core/atoms.py"], [("store", CORE), ("bind_variables", "core/atoms.py")])
p("B10", "Every built-in returns rows as wide as its atom",
  "Each row returned by a built-in predicate has exactly one value for each argument of the atom it answers, on every path. This holds for all built-in predicates a model offers.",
  ["inputs"], "every built-in predicate and every path through it",
  "Tests do not reach every return path of the built-ins; a wrong width only fails when that path is taken.",
  [CORE, "module/GrammarModule.py", "module/BasicDialogContext.py", INF], [("return rows", CORE)])
p("B11", "Bodies are solved under the binding of the calling atom",
  "Each built-in predicate that takes a list of atoms as body solves precisely that body under the current binding of the atom (extended only with the quantified variable where there is one). Variables already bound outside are never lost inside, and no other atoms are solved.",
  ["inputs"], "every built-in with a body argument, every binding",
  "Most test bodies do not share variables with the outer query, so losing the outer binding is invisible to them.",
  [CORE, "module/BasicDialogContext.py"], [("context.solver.solve(body, context.binding)", CORE)])
p("B12", "multiply and destructure compute their result from their own arguments",
  "multiply binds its third argument to the product of the first two and leaves those open. destructure compares the atom's terms with the given terms position by position, and gives the atom's term for a variable; a different length or a differing constant never binds variables to atom terms.",
  ["inputs"], "every argument list",
  "One example each in the tests.",
  [CORE], [("multiply / destructure", CORE)])

# ---------------------------------------------------------------- inference
p("I01", "All rules of a predicate are tried, in the order they were added",
  "A query on a predicate defined by rules returns the solutions of every rule with that predicate as its head, in the order in which the rules were added. Importing or learning a rule only adds: no rule added earlier is lost or changed, and the relation stays available.",
  ["histories", "inputs"], "every sequence of imports and learned rules",
  "Tests load fixed files; losing a rule needs a particular history of learned rules.",
  [INF], [("insert_rule / handle_rule", INF)])
p("I02", "Variables of a rule are not captured by the calling query",
  "While a rule is solved, a variable of the rule has no value except the one given to it by the atom's arguments, also when the calling query has a bound variable of the same name. The answer row takes each value from the rule variable that stands in that argument's position, and never changes the query's binding.",
  ["inputs", "programs"], "every rule and query, with every overlap of variable names",
  "Tests rarely reuse a variable name between a rule and a query, and never in every position.",
  [INF, "type/InferenceRule.py", "core/atoms.py"], [("solve_rule", INF), ("get_all_variables", "type/InferenceRule.py")])
p("I03", "A rule applies only when its head matches the atom",
  "A constant in the head of a rule must equal the constant or bound value in the atom's position, and a head variable that occurs twice must get equal values; otherwise the rule contributes no rows. A rule without a body holds as soon as its head matches, otherwise its whole body is solved under the matched values.",
  ["inputs", "programs"], "every head, every atom and every binding",
  "Tests have a few heads; repeated variables and constants are not combined.",
  [INF], [("solve_rule", INF)])
p("I04", "Rule text is accepted completely or rejected",
  "Parsing a rule file either turns all of its text into rules or reports failure: no character outside comments and white space is skipped, no rule is dropped, and none is made whose head or body could not be read. Every kind of term, including the number zero and an empty string, is accepted, and a comment never becomes part of a rule.",
  ["inputs"], "every rule text",
  "Tests parse a few texts that are correct; unexpected characters, end of file positions and zero terms are not sampled.",
  [IRP, INF], [("parse", IRP), ("import_rules", INF)])
p("I05", "A learned rule is stored with the known values filled in",
  "Learning a rule stores the head and the complete body, in both of which the variables that are bound in the current query are replaced by their values and all others stay variables; it succeeds once, binding nothing. A head that is not a single atom is an error and stores nothing.",
  ["inputs", "histories"], "every head, body and binding",
  "One example in the tests.",
  [INF, "core/atoms.py"], [("learn_rule", INF), ("bind_variables", "core/atoms.py")])

# ---------------------------------------------------------------- parsing
p("G01", "A parse gives trees or a typed error, never both or neither",
  "The parser's result has no error exactly when it has at least one tree. Without trees the error is the unknown-word error with the unread text as its argument, the no-sentence error for empty text, or the not-understood error; the parser processor passes on the trees, the error type and its arguments unchanged.",
  ["inputs", "programs"], "every grammar and every text",
  "Tests parse a few sentences that succeed and two that fail.",
  [EP, "processor/parser/BasicParser.py"], [("parse", EP), ("process", "processor/parser/BasicParser.py")])
p("G02", "Parsing a sentence leaves the grammar unchanged",
  "Neither parsing nor generating changes the grammar it is given: the rules available for the second sentence are those available for the first, however many sentences were processed. Only adding a rule explicitly changes a grammar.",
  ["histories", "inputs"], "every sequence of sentences",
  "Tests compare answers, not the grammar, and never parse long sequences with one grammar.",
  [EP, "entity/GrammarRules.py", GEN], [("buildChart", EP), ("GrammarRules", "entity/GrammarRules.py")])
p("G03", "Parse ranking is a stable permutation: boost, then regexps, then depth",
  "Ranking returns exactly the trees it was given. Trees are ordered by largest total boost, among those by fewest regular-expression nodes, among those by greatest depth, and trees equal in all three keep their order.",
  ["inputs"], "every list of parse trees",
  "Tests have two or three trees that differ in one respect.",
  ["processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py", "processor/parser/tree_sort_heuristics/SortByBoost.py",
   "processor/parser/tree_sort_heuristics/SortByRegExpCount.py", "processor/parser/tree_sort_heuristics/SortByTreeDepth.py"],
  [("sort_trees", "processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py")])
p("G04", "Tokens and phrases cover exactly the text they were matched on",
  "A token recognised at a position covers exactly its own characters from that position: a literal matches the text there ignoring the case of the text, a regular expression only text it fully matches. A phrase starts where its first constituent starts, each constituent starts where the previous one ends, and a sentence spans the whole text. The text that is parsed is the sentence itself, changed at most in its white space.",
  ["inputs", "programs"], "every grammar, text and chart position",
  "Off-by-one errors in spans show only on particular grammars and positions.",
  [EP, TE, "processor/parser/earley/entity/Chart.py", "processor/parser/earley/entity/ChartState.py"],
  [("predict / scan / complete", EP), ("find_state_sequences", TE)])
p("G05", "Grammar text is accepted completely or rejected",
  "Reading a grammar rule either uses every character of its syntax string or raises an error that shows it; unknown characters are never skipped. A rule without a syntax string, antecedent or arrow raises an error, and no rule of a grammar is dropped.",
  ["inputs"], "every grammar text",
  "Tests read correct grammars only.",
  [GRP], [("parse_syntax / parse_simple_rule / parse_grammar", GRP)])
p("G06", "A learned grammar rule is added to the grammar in use",
  "Learning a grammar rule reads it the way rules of a read grammar are read and adds it to the very grammar the parser uses, so that the next sentence can use it; it succeeds once, binding nothing. Rules that were there before stay.",
  ["histories", "inputs"], "every rule and every point in a dialog",
  "No test learns a grammar rule through the module.",
  ["module/GrammarModule.py", "entity/GrammarRules.py", GRP], [("learn_grammar_rule", "module/GrammarModule.py")])
p("G07", "A rule with optional parts yields every variant, in order, and no other",
  "Adding a rule makes available the rule with and without each optional part, with the remaining parts in their original order and the separator that belongs to an omitted part omitted with it. Meaning, execution, post-processing, dialog and boost are those of the rule, the rule itself is not changed, and rules can be found by their antecedent and its number of arguments.",
  ["inputs"], "every rule and combination of optional parts",
  "Tests have one optional part per rule.",
  ["entity/GrammarRules.py"], [("create_rule_variants", "entity/GrammarRules.py")])
p("G08", "A parse tree holds its rule's constituents in order, in every combination",
  "For every phrase, a parse tree node carries its own rule and the trees of that rule's constituents in the rule's order, and each combination of alternative subtrees gives a tree. A word node carries the text it matched.",
  ["inputs", "programs"], "every grammar and text",
  "Ambiguity is tested with a single example.",
  [TE], [("create_trees_for_state / create_trees_for_states", TE)])
p("G09", "Distinct chart entries are kept apart, equal ones are merged",
  "Two entries of a parse are treated as the same exactly when rule, progress, start and end are the same, so that no analysis is lost or processed twice; the hash of an entry agrees with its equality. An entry that was found is processed, whatever the order in which it was found.",
  ["inputs", "programs"], "every grammar and text",
  "Lost analyses need grammars with rules that differ in one respect.",
  ["processor/parser/earley/entity/ChartState.py", "processor/parser/earley/entity/Chart.py", "entity/GrammarRule.py", "entity/RuleConstituent.py", "type/OrderedSet.py"],
  [("__eq__ / __hash__", "processor/parser/earley/entity/ChartState.py"), ("enqueue", "processor/parser/earley/entity/Chart.py")])

# ---------------------------------------------------------------- composition
p("C01", "A parse with a rule that lacks a meaning is rejected before composing",
  "Composing a parse tree in which any node's rule, at any depth, has no semantics raises an error naming that rule, before any semantic function is called. Words are exempt.",
  ["inputs", "programs"], "every parse tree",
  "Tests lack grammars with missing semantics below the root.",
  [COMP], [("check_for_sem", COMP)])
p("C02", "Composition renames variables apart, one variable per role",
  "In the composed meaning, a rule's antecedent variables are the variables given to it by its parent, position by position, and each other variable of the rule gets a fresh variable for that occurrence of the rule, the same at all its places. Variables of different rule occurrences are never the same unless the parent shares them.",
  ["inputs", "programs"], "every parse tree and grammar",
  "Capture only shows in trees that reuse variable names in several places.",
  [COMP, "processor/semantic_composer/helper/VariableGenerator.py"], [("create_map / unify_variables", COMP), ("next", "processor/semantic_composer/helper/VariableGenerator.py")])
p("C03", "Optimizing a query keeps each of its atoms",
  "Every optimization step returns the atoms it was given, each as often as it occurs, and may only change their order, move name resolution to the front, or wrap independent atoms in a scope. The order among name resolutions, and among atoms of the same cost, is kept.",
  ["inputs"], "every list of atoms and every model",
  "Tests optimize a few compositions.",
  [OPT + "BasicQueryOptimizer.py", OPT + "FrontResolveName.py", OPT + "SortByCost.py", OPT + "IsolateIndependentParts.py"],
  [("sort", OPT + "SortByCost.py"), ("sort", OPT + "FrontResolveName.py"), ("isolate", OPT + "IsolateIndependentParts.py")])
p("C04", "Atoms that determine the answer, or share variables, are not isolated",
  "The optimizer never puts an atom that uses a root variable of the sentence which the first atom does not bind (directly, or through atoms it shares variables with) inside a scope, and atoms that share a variable not fixed by the first atom end up in the same scope. All optimization steps are given the sentence's root variables and model.",
  ["inputs"], "every list of atoms and root variables",
  "Tests isolate two compositions.",
  [OPT + "IsolateIndependentParts.py", OPT + "BasicQueryOptimizer.py", COMP], [("isolate / collect_batches", OPT + "IsolateIndependentParts.py")])
p("C05", "Each rule's meaning is built from the meanings of all its children, in order",
  "The semantic function of a rule, and its executable and dialog functions, are called with the meanings of its children in their order. Inferences of all children are kept along with the rule's own; the executable atoms are those of the rule's own exec function, or else those of its children; and the product carries the meaning, the inferences, the executable atoms and the root variables each in its own place. The meaning of a word that a regular expression matched is the text it matched.",
  ["inputs", "programs"], "every parse tree",
  "Tests use small grammars with inferences at one level.",
  [COMP], [("compose", COMP), ("process", COMP)])
p("C06", "The cheapest atom goes first, given what is bound by then",
  "Sorting by cost repeatedly places the atom whose cost is least given the variables bound by the atoms placed before it; a relation without known size is the most expensive and an unknown predicate the cheapest, and with several relations the largest cost counts. A relation size list that does not fit the atom raises an error.",
  ["inputs", "configurations"], "every list of atoms and relation sizes",
  "Two orders are tested.",
  [OPT + "SortByCost.py"], [("sort_rest / calculate_cost", OPT + "SortByCost.py")])

# ---------------------------------------------------------------- pipeline
p("P01", "Each block tries its alternatives by its own contract",
  "A block that finds one result tries the alternatives in order until the rest of the pipeline succeeds and then stops; a block that finds all tries every alternative; a block that tries the first tries only that. Each alternative is made current before the rest of the pipeline sees it, a processor error is returned at once with its arguments, and a find block that has no success returns the first error it met.",
  ["inputs", "programs", "fault_sequences"], "every number of alternatives and every pattern of success and failure downstream",
  "Tests cover one or two patterns of failure.",
  ["block/FindOne.py", "block/FindAll.py", "block/TryFirst.py", "block/Succeed.py"], [("process", "block/FindOne.py"), ("process", "block/FindAll.py"), ("process", "block/TryFirst.py")])
p("P02", "Inferences are stored, then commands executed, then the query solved",
  "Executing a sentence stores all its inferences, then solves its executable atoms, then solves its final optimized meaning, each exactly once and in that order, with one solver on the configured model. The solutions of the meaning are the product.",
  ["inputs"], "every composed sentence",
  "Tests check results of sentences where the order does not matter.",
  ["processor/semantic_executor/AtomExecutor.py", "processor/semantic_composer/SemanticComposerProduct.py"], [("process", "processor/semantic_executor/AtomExecutor.py")])
p("P03", "Every failed sentence leaves its error in the output, with a relation for it",
  "When the pipeline fails, the error type and the error's arguments are stored as output, and nothing else is; when it succeeds, the product of the last processor is returned. For every error type that the library's own processors produce, the library's output buffer has the output relations with the right number of arguments, and its write grammar a text that uses them.",
  ["inputs", "fault_sequences", "configurations"], "every error a processor of the library can produce",
  "Only the unknown-word error is exercised.",
  ["core/System.py", "module/BasicOutputBuffer.py", "grammar/en_us_write.py", EP], [("enter", "core/System.py"), ("relations", "module/BasicOutputBuffer.py")])
p("P04", "The active locale's processor handles the sentence",
  "The language selector offers each configured locale once, in order. A multilingual processor hands the request to the processor of the current locale and returns its result unchanged; a locale without a processor raises an error naming it.",
  ["inputs", "configurations"], "every set of locales and processors",
  "Tests have two locales that both exist.",
  ["processor/language_selector/Multilingual.py", "processor/language_selector/LanguageSelector.py"], [("process", "processor/language_selector/Multilingual.py")])
p("P05", "Blocks form one chain in pipeline order that ends in success",
  "A system connects each block of its pipeline to the next one and the last to a terminal block that always succeeds, and a sentence enters at the first block. Products are kept per processor and request: what one processor stores is what is read back for that processor, and never for another one or another request.",
  ["programs", "inputs"], "every pipeline",
  "Tests have pipelines of one to four blocks and one request at a time.",
  ["core/System.py", "entity/SentenceRequest.py", "block/Succeed.py"], [("__init__", "core/System.py"), ("products", "entity/SentenceRequest.py")])

# ---------------------------------------------------------------- output
p("W01", "The output buffer is emptied by every attempt to generate output",
  "After generating output the output buffer is empty, also when generation fails with an error; the returned text is what was generated from the buffer before it was emptied. Output of one sentence can therefore never appear in the answer to another.",
  ["histories", "fault_sequences"], "every exit of output generation, including every exception",
  "No test lets generation fail and then continues the dialog.",
  [GEN, "module/BasicOutputBuffer.py"], [("generate_output", GEN)])
p("W02", "A write rule is used with its own match, unused rules first",
  "The rule chosen for a category has a condition that holds for the given values (or no condition), and it is generated with the values of its own match. The first such rule that has not been used yet is preferred; only when all have been used is one of them used again.",
  ["inputs", "programs"], "every write grammar and every output",
  "Tests have few rules per category; a mix-up needs a used rule followed by a rule that does not match.",
  [GEN], [("find_rule", GEN)])
p("W03", "Generated text renders every part of the rule, in order",
  "The text of a rule is made of the results of all of its parts, in rule order: literal text as it is, a value as it is, text as a string, formatted parts through the rule's format function, and other parts recursively with their own values. A required part for which there is no rule raises an error naming it; post-processing is applied to the result.",
  ["inputs", "programs"], "every write grammar and every output",
  "Tests generate a few sentences.",
  [GEN], [("generate_node / generate_single_consequent", GEN)])

# ---------------------------------------------------------------- data
p("D01", "Values never become part of a query's text",
  "In every data source adapter, values are passed to the database as parameters or are escaped such that they cannot end the literal they are placed in. No value coming from a sentence can change the structure of a query. (Only a column that a module declares as holding constants is placed in a Sparql query as it is.)",
  ["inputs"], "every value, including quotes, backslashes, line breaks and angle brackets",
  "Tests use plain names; injection needs hostile values.",
  [DS + f for f in ("Sqlite3DataSource.py", "MySqlDataSource.py", "PsycoPg2DataSource.py", "PsycoPg3DataSource.py", "SparqlDataSource.py")],
  [("select", DS + "Sqlite3DataSource.py"), ("prepare_term", DS + "SparqlDataSource.py")])
p("D02", "Only None leaves a column open in a data source query",
  "In every data source adapter each column with a value other than None restricts the result to rows with that value in that column, also when the value is 0, False or an empty string, and a column with None never restricts it (an open text column of a Sparql source is limited to the language of the source). All restrictions apply together.",
  ["inputs"], "every adapter, every list of columns and values",
  "Tests query with truthy values; falsy values are never sampled, and three adapters are not exercised at all here.",
  [DS + f for f in ("Sqlite3DataSource.py", "MySqlDataSource.py", "PsycoPg2DataSource.py", "PsycoPg3DataSource.py", "SimpleDataSource.py", "SparqlDataSource.py")],
  [("where construction", DS + "Sqlite3DataSource.py"), ("select", DS + "SimpleDataSource.py")])
p("D03", "Rows come back as lists, complete, in the order of the requested columns",
  "Every data source adapter returns all matching rows, each as a list holding the values of the requested columns in the requested order. No row is dropped, merged, or returned in another shape.",
  ["inputs"], "every adapter and result set",
  "Three adapters need a server and are not exercised here; tests see small results.",
  [DS + f for f in ("Sqlite3DataSource.py", "MySqlDataSource.py", "PsycoPg2DataSource.py", "PsycoPg3DataSource.py", "SimpleDataSource.py", "SparqlDataSource.py")],
  [("return of select", DS + "Sqlite3DataSource.py")])
p("D04", "The result cache never turns a failure into an answer",
  "A cached answer is returned only for the same request, and only a complete result of a successful request is ever cached: an error response raises and leaves no cache entry, and an interrupted write leaves no entry that a later request would read. The presence or absence of a cache does not change the result.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "every request, response and interruption",
  "Tests run only with a filled cache.",
  [DS + "SparqlDataSource.py"], [("select", DS + "SparqlDataSource.py"), ("status checks", DS + "SparqlDataSource.py")])
p("D05", "CSV import stores every data row once, under its headers",
  "Importing a file inserts every non-empty row after the header row exactly once and in file order, with each element under the header of its own column, into the given table. The header row itself is never stored, nor are empty rows.",
  ["inputs"], "every file",
  "One file is imported in the tests.",
  [DS + "CsvImporter.py"], [("import_table_from_file", DS + "CsvImporter.py")])
p("D06", "What is stored is what is found and removed: columns keep their values",
  "Inserting and deleting pair each value with its own column, in all adapters that support them, and the memory modules pass the table, columns and values of the relation unchanged to their data source. What was inserted is found by a query on the same columns, in the order of insertion, and deleting removes only rows that match all given columns.",
  ["inputs", "histories"], "every relation, column list and value list",
  "Tests write tables of one or two columns.",
  [DS + "Sqlite3DataSource.py", DS + "SimpleDataSource.py", "module/SimpleMemoryModule.py", "module/BasicDialogContext.py"],
  [("insert / delete", DS + "Sqlite3DataSource.py"), ("query / write", "module/SimpleMemoryModule.py")])
p("D07", "The dialog context starts and stops exactly the named context",
  "Starting a context makes its name present and ending it makes it absent. A context that holds during a body is started before the body is solved and ended after it on every exit, also when solving the body fails. Each of these predicates succeeds exactly once.",
  ["histories", "fault_sequences"], "every sequence of contexts and every failure inside a body",
  "No test fails inside a context body.",
  ["module/BasicDialogContext.py"], [("with_context / start_context / end_context", "module/BasicDialogContext.py")])

# ---------------------------------------------------------------- cross-cutting
p("X01", "The same input and history give the same answer, in the same order",
  "Results do not depend on the iteration order of unordered sets, on hash values, object identity, time or randomness. Running the same dialog again, in another process, gives the same answers in the same order.",
  ["histories", "inputs", "configurations"], "every run, hash seed and process",
  "The tests run with one fixed hash seed.",
  ["core/atoms.py", OPT + "IsolateIndependentParts.py", OPT + "SortByCost.py", "type/OrderedSet.py", CORE], [("ordered collections", "type/OrderedSet.py")])
p("X02", "Instances share no mutable state",
  "Two systems, modules, requests, data sources or rules in one process never influence each other through shared mutable state: no default argument, class attribute or module-level object is changed while sentences are processed. What a caller does with a result it received does not change later results.",
  ["histories", "schedules"], "every number of instances and every order of calls",
  "Each test builds one system and looks at one result.",
  ["core/Solver.py", "interface/SomeSolver.py", "core/Logger.py", "core/System.py", "entity/GrammarRule.py", "entity/Relation.py", OPT + "SortByCost.py"], [("default arguments", "core/Solver.py")])
p("X03", "Logging and statistics do not change the outcome",
  "Whether logging or statistics are on, off or limited to some processors makes no difference to results, stored data, errors or the order of processing. Logging only reads what it logs.",
  ["configurations", "inputs"], "every logging configuration",
  "Tests run with one logging configuration.",
  ["core/Logger.py", "entity/SentenceRequest.py", "core/Solver.py", "core/DialogTester.py"], [("add_process_result", "core/Logger.py")])
p("X04", "Errors from predicates, data sources and processors are not swallowed",
  "An error raised by a predicate function, a semantic function, a data source or a processor reaches the caller; the library never catches it and goes on as if there were no results. The only errors handled inside the library are failures to read or write the optional result cache.",
  ["fault_sequences", "inputs"], "every failure of code called by the library",
  "Tests hardly let a predicate or data source fail.",
  ["core/Solver.py", "core/System.py", DS + "SparqlDataSource.py", "core/DialogTester.py"], [("no handlers", "core/Solver.py")])
p("X05", "Queries, bindings, rules and parse trees are never modified by their use",
  "Solving, composing, optimizing, ranking, generating and learning do not modify the atoms, bindings, argument lists, rules, trees or rows passed to them. The same query, tree or rule can be used again with the same effect.",
  ["histories", "inputs"], "every call of these functions",
  "Tests use most inputs once, so damage to them is not seen.",
  [SOLVER, CORE, INF, COMP, OPT + "SortByCost.py", OPT + "FrontResolveName.py", OPT + "IsolateIndependentParts.py", "core/atoms.py", "processor/parser/helper/grammar_functions.py"],
  [("copies", SOLVER)])
p("X06", "Template application replaces exactly the placeholder",
  "Applying a semantic template puts the atoms of each value in the place of that template's placeholder wherever it occurs, at any depth, and keeps all other atoms in place and in order. Binding variables in a structure keeps its shape (lists stay lists, tuples stay tuples) and replaces exactly the bound variables.",
  ["inputs"], "every template, value list and structure",
  "Tests apply a few templates without deep nesting.",
  ["processor/parser/helper/grammar_functions.py", "core/atoms.py"], [("apply / replace", "processor/parser/helper/grammar_functions.py"), ("bind_variables", "core/atoms.py")])

p("X07", "No answer is taken over from an earlier sentence",
  "Facts, rules, the grammar, the dialog context and the output buffer are the only things that carry over from one sentence or query to the next. Nothing else that was computed for one sentence, query or object is remembered and used for another: after a fact, rule, module relation or grammar rule is added or removed, every later query, parse, composition and generation takes it into account, and the same call in the same state gives the same answer whatever was asked before.",
  ["histories", "inputs"], "every sequence of sentences, queries and changes",
  "Tests ask a short fixed series of questions, so a stale remembered result shows only when a fact changes between two equal questions.",
  ["core/Model.py", SOLVER, "core/BasicGenerator.py", "processor/parser/BasicParser.py", EP, COMP, INF, "processor/semantic_executor/AtomExecutor.py", DS + "SimpleDataSource.py"],
  [("find_relations", "core/Model.py"), ("process", "processor/parser/BasicParser.py")])

# ---------------------------------------------------------------- not claimed
p("N01", "The parser finds every analysis that the grammar allows",
  "For every grammar and text, the parser returns all trees that the grammar derives for the text, and no others.",
  ["inputs", "programs"], "every grammar and text", "Tests parse a few sentences.",
  [EP, TE], [("buildChart", EP)])
p("N02", "Parsing terminates for every grammar",
  "For every grammar, including recursive and empty rules, parsing and tree extraction end for every text.",
  ["inputs", "programs"], "every grammar and text", "Tests have grammars without cycles.",
  [EP, TE], [("create_trees_for_state", TE)])
p("N03", "Optimizing a query does not change its answers",
  "For every model the optimized query has the same set of answers for the root variables as the original query.",
  ["inputs", "configurations"], "every query and model", "Tests optimize a few compositions.",
  [OPT + "BasicQueryOptimizer.py"], [("optimize", OPT + "BasicQueryOptimizer.py")])
p("N04", "Optimized queries are not slower than the originals",
  "Sorting by cost and isolating independent parts never make solving a query slower than solving it as it was composed.",
  ["inputs", "configurations"], "every query and model", "Tests do not measure time.",
  [OPT + "SortByCost.py"], [("sort", OPT + "SortByCost.py")])
p("N05", "Stored facts survive a crash of the process",
  "Facts stored in a database file are there after the process was stopped at any point after the store succeeded.",
  ["crash_points"], "every crash point", "Tests use databases in memory.",
  [DS + "Sqlite3DataSource.py"], [("insert", DS + "Sqlite3DataSource.py")])
p("N06", "Aggregates are numerically accurate",
  "sum, avg and percentage differ from the exact result by no more than floating point rounding of the result.",
  ["inputs"], "every list of numbers", "Tests add small integers.",
  [CORE], [("sum / avg / percentage", CORE)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
