"""bolder rewrites of the parts whose checks decide most"""
E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
CM = "module/CoreModule.py"; SO = "core/Solver.py"; BG = "core/BasicGenerator.py"; TE = "processor/parser/earley/tree_extract.py"; OB = "module/BasicOutputBuffer.py"
SB = "processor/parser/tree_sort_heuristics/SortByBoost.py"; SR = "processor/parser/tree_sort_heuristics/SortByRegExpCount.py"; SD = "processor/parser/tree_sort_heuristics/SortByTreeDepth.py"; BH = "processor/parser/tree_sort_heuristics/BasicParseTreeSortHeuristics.py"
EP = "processor/parser/earley/EarleyParser.py"; SG = "processor/parser/helper/SimpleGrammarRulesParser.py"; SI = "module/helper/SimpleInferenceRuleParser.py"; IM = "module/InferenceModule.py"
IS = "processor/semantic_composer/optimizer/IsolateIndependentParts.py"; SC = "processor/semantic_composer/SemanticComposer.py"; SY = "core/System.py"; GF = "processor/parser/helper/grammar_functions.py"; AT = "core/atoms.py"
# --- core
R("e-count-solutions", CM, ('''        results = context.solver.solve(body, context.binding)
        count = len(results)

        return [
            [count, None]
        ]
''', '''        return [
            [self.count_solutions(body, context), None]
        ]


    def count_solutions(self, body: list[tuple], context: ExecutionContext) -> int:
        return len(context.solver.solve(body, context.binding))
'''), ('''        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count == number:
            return [
                [None, None]
            ]
        else:
            return []
''', '''        if self.count_solutions(body, context) == number:
            return [[None, None]]
        return []
'''), ('''        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count > number:
            return [
                [None, None]
            ]
        else:
            return []
''', '''        enough = self.count_solutions(body, context) > number
        return [[None, None]] if enough else []
'''), ('''        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count < number:
            return [
                [None, None]
            ]
        else:
            return []
''', '''        if not self.count_solutions(body, context) < number:
            return []
        return [[None, None]]
'''))
R("e-element-values", CM, ('''        results = context.solver.solve(body, context.binding)
        s = 0
        for result in results:
            s += result[element_var.name]

        return [
            [s, None, None]
        ]
''', '''        elements = self.element_values(element_var, body, context)

        return [
            [sum(elements), None, None]
        ]


    def element_values(self, variable: Variable, body: list[tuple], context: ExecutionContext) -> list:
        return [solution[variable.name] for solution in context.solver.solve(body, context.binding)]
'''), ('''        results = context.solver.solve(body, context.binding)

        if len(results) == 0:
            return []

        s = 0
        n = 0
        for result in results:
            s += result[element_var.name]
            n += 1

        average = s / n

        return [
            [average, None, None]
        ]
''', '''        elements = self.element_values(element_var, body, context)

        if not elements:
            return []

        return [
            [sum(elements) / len(elements), None, None]
        ]
'''))
R("e-extreme-helper", CM, ('''        results = context.solver.solve(body, context.binding)

        if len(results) == 0:
            return []

        min = None
        entity = None
        for result in results:
            if min is None or result[element_var.name] < min:
                min = result[element_var.name]
                entity = result[min_var.name]

        return [
            [entity, min, None]
        ]
''', '''        solutions = context.solver.solve(body, context.binding)
        if len(solutions) == 0:
            return []

        best = min(solutions, key=lambda solution: solution[element_var.name])
        return [
            [best[min_var.name], best[element_var.name], None]
        ]
'''), ('''        results = context.solver.solve(body, context.binding)

        if len(results) == 0:
            return []

        max = None
        entity = None
        for result in results:
            if max is None or result[element_var.name] > max:
                max = result[element_var.name]
                entity = result[max_var.name]

        return [
            [entity, max, None]
        ]
''', '''        solutions = context.solver.solve(body, context.binding)
        if len(solutions) == 0:
            return []

        best = solutions[0]
        for solution in solutions[1:]:
            if solution[element_var.name] > best[element_var.name]:
                best = solution

        return [
            [best[max_var.name], best[element_var.name], None]
        ]
'''))
R("e-all-comp", CM, ('''        range_count = len(entities)
        results = OrderedSet()
        for entity in entities:
            b = context.binding | {
                quant_var.name: entity
            }
            bindings = context.solver.solve(body, b)
            if len(bindings) > 0:
                results.add(entity)

        result_count = len(results)

        success = result_count == range_count

        if success:
            return [[result, None, None] for result in results]
        else:
            return []
''', '''        satisfied = [entity for entity in entities if context.solver.solve(body, {**context.binding, quant_var.name: entity})]

        if len(satisfied) < len(entities):
            return []

        return [[entity, None, None] for entity in satisfied]
'''))
R("e-all-first-fail", CM, ('''        range_count = len(entities)
        results = OrderedSet()
        for entity in entities:
            b = context.binding | {
                quant_var.name: entity
            }
            bindings = context.solver.solve(body, b)
            if len(bindings) > 0:
                results.add(entity)

        result_count = len(results)

        success = result_count == range_count

        if success:
            return [[result, None, None] for result in results]
        else:
            return []
''', '''        rows = []
        for entity in entities:
            extended = dict(context.binding)
            extended[quant_var.name] = entity
            if len(context.solver.solve(body, extended)) == 0:
                # one counter example is enough
                return []
            rows.append([entity, None, None])

        return rows
'''))
R("e-find-all-rows", CM, ('''        result = []

        for binding in context.solver.solve(body, context.binding):
            if is_list:
                item = []
                for v in variable:
                    if v in binding:
                        item.append(binding[v])
                    else:
                        item.append(None)
                # skip duplicates
                if not item in result:
                    result.append(item)
            else:
                # skip duplicates
                if variable in binding:
                    item = binding[variable]
                    if not item in result:
                        result.append(item)
''', '''        result = []

        for binding in context.solver.solve(body, context.binding):
            if is_list:
                item = [binding.get(name) for name in variable]
            elif variable in binding:
                item = binding[variable]
            else:
                continue

            # skip duplicates
            if item not in result:
                result.append(item)
'''))
R("e-destructure-else", CM, ('''            if atom_term == structure_term:
                new_term = structure_term
            else:
                if isinstance(structure_term, Variable):
                    new_term = atom_term
                else:
                    return [ fail_structure ]

            result.append(new_term)

        return [
            result
        ]
''', '''            if atom_term == structure_term:
                result.append(structure_term)
                continue
            if not isinstance(structure_term, Variable):
                return [ fail_structure ]
            result.append(atom_term)

        return [result]
'''))
R("e-require-bound", CM, ('''        if e1 is None:
            raise Exception("> first argument is unbound")
        if e2 is None:
            raise Exception("> second argument is unbound")

        if e1 > e2:
            return [values]
        return []
''', '''        self.require_bound(">", e1, e2)

        return [values] if e1 > e2 else []


    def require_bound(self, operator: str, first: any, second: any):
        for argument, position in [(first, "first"), (second, "second")]:
            if argument is None:
                raise Exception(f"{operator} {position} argument is unbound")
'''), ('''        if e1 is None:
            raise Exception("< first argument is unbound")
        if e2 is None:
            raise Exception("< second argument is unbound")

        if e1 < e2:
            return [values]
        return []
''', '''        self.require_bound("<", e1, e2)

        return [values] if e1 < e2 else []
'''))
R("e-percentage-ratio", CM, ('''        if len(denominator_results) == 0:
            return []

        percentage = (len(nominator_results) / len(denominator_results)) * 100.0
''', '''        total = len(denominator_results)
        if total == 0:
            return []

        ratio = len(nominator_results) / total
        percentage = ratio * 100.0
'''))
R("e-store-all", CM, ('''        if not isinstance(unbound_atoms, list):
            raise Exception(f"'store' expects a list of atoms; given: {unbound_atoms}")

        atoms = bind_variables(unbound_atoms, context.binding)

        for atom in atoms:
            context.solver.write_atom(atom)

        return [
            [None]
        ]
''', '''        if isinstance(unbound_atoms, list):
            for atom in bind_variables(unbound_atoms, context.binding):
                context.solver.write_atom(atom)
            return [[None]]

        raise Exception(f"'store' expects a list of atoms; given: {unbound_atoms}")
'''))
# --- solver
R("e-solve-rest", SO, ('''            result = []
            bindings = self.solve_single(atoms[0], binding)
            for b in bindings:
                for r in self.solve(atoms[1:], b):
                    if not r in result:
                        result.append(r)
            return result
''', '''            first, rest = atoms[0], atoms[1:]
            solutions = []
            for extended in self.solve_single(first, binding):
                solutions.extend(s for s in self.solve(rest, extended))
            return self.without_duplicates(solutions)


    def without_duplicates(self, solutions: list[dict]) -> list[dict]:
        unique = []
        for solution in solutions:
            if solution not in unique:
                unique.append(solution)
        return unique
'''))
R("e-disj-next", SO, ('''        for disjunct in disjuncts:
            results = self.solve(disjunct, binding)
            if len(results) > 0:
                return results
        return []
''', '''        results = []
        for disjunct in disjuncts:
            results = self.solve(disjunct, binding)
            if len(results) != 0:
                break
        return results
'''))
R("e-match-row", SO, ('''        for v in values:
            # extend the incoming binding
            result = binding.copy()
            # check needed for a variable that occurs twice
            conflict = False

            # go through all arguments
            for i, arg in enumerate(arguments):
                # variable?
                if isinstance(arg, Variable):
                    # if the variable was bound already, no need to assign it
                    # also no need to check for conflict, because the type may be different and that's ok
                    if arg.name not in binding:
                        # check for conflict with previous same variable
                        if arg.name in result and result[arg.name] != v[i]:
                            conflict = True
                        # extend the binding
                        result[arg.name] = v[i]
                else:
                    if v[i] is not None and arg != v[i]:
                        conflict = True

            if conflict:
                continue

            results.append(result)

        return results
''', '''        for row in values:
            extended = self.match_row(row, binding, arguments)
            if extended is not None:
                results.append(extended)

        return results


    def match_row(self, row: list, binding: dict, arguments: list):
        extended = dict(binding)
        for arg, value in zip(arguments, row):
            if isinstance(arg, Variable):
                if arg.name in binding:
                    continue
                if arg.name in extended and extended[arg.name] != value:
                    return None
                extended[arg.name] = value
            elif value is not None and arg != value:
                return None
        return extended
'''))
R("e-check-rows", SO, ('''        for row in values:
            if not isinstance(row, list):
                raise Exception("The results of '" + predicate + "' should be lists")
            if len(row) != len(arguments):
                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(row)) + " and should be " + str(len(arguments)))

        results = self.create_solve_single_results(values, binding, arguments)
        return results
''', '''        self.check_rows(predicate, values, len(arguments))

        return self.create_solve_single_results(values, binding, arguments)


    @staticmethod
    def check_rows(predicate: str, rows: list, width: int):
        for row in rows:
            if not isinstance(row, list):
                raise Exception(f"The results of '{predicate}' should be lists")
            if len(row) != width:
                raise Exception(f"The number of arguments in the results of '{predicate}' is {len(row)} and should be {width}")
'''))
R("e-prep-ternary", SO, ('''        prepared = []
        for arg in model_values:
            # variable
            if isinstance(arg, Variable):
                # bound?
                if arg.name in binding:
                    # add variable value
                    prepared.append(binding[arg.name])
                else:
                    # add None
                    prepared.append(None)
            else:
                # just add value
                prepared.append(arg)

        return prepared
''', '''        return [binding.get(arg.name, None) if isinstance(arg, Variable) else arg for arg in model_values]
'''))
R("e-seen-set", SO, ('''        rows = []
        stringed_values = {}
''', '''        rows = []
        seen = set()
'''), ('''                stringed_value = str(out_value)
                if stringed_value not in stringed_values:
                    stringed_values[stringed_value] = out_value
                    rows.append(out_value)
''', '''                key = str(out_value)
                if key in seen:
                    continue
                seen.add(key)
                rows.append(out_value)
'''))
R("e-require-relations", SO, ('''        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")

        db_values''', '''        relations = self.require_relations(predicate)

        db_values'''), ('''        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")

        for relation in relations:
            if relation.write_function is not None:
                context = ExecutionContext(relation, arguments, {}, self)
                relation.write_function(arguments, context)
''', '''        for relation in self.require_relations(predicate):
            if relation.write_function is None:
                continue
            relation.write_function(arguments, ExecutionContext(relation, arguments, {}, self))


    def require_relations(self, predicate: str) -> list:
        relations = self.model.find_relations(predicate)
        if not relations:
            raise Exception(f"No relation called '{predicate}' available in the model")
        return relations
'''))
# --- generator
R("e-gen-node-early", BG, ('''        words = []
        rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)

        if found:

            used_rules.append(rule)

            for i, consequent in enumerate(rule.consequents):
                consequent_vals = self.get_consequent_values(rule, i, binding)
                consequent_result = self.generate_single_consequent(rule, used_rules, consequent.predicate, consequent_vals, rule.consequents[i].position_type, consequent.optional)
                words.append(consequent_result)

                # todo?
                # if consequentValue.IsId() && !consequentValue.Equals(antecedentValue) {
                #     generator.state.MarkGenerated(consequentValue)

        else:
            if not optional:
                raise Exception(f"No rule found for {antecedent_cat}: {antecedent_values}")
''', '''        rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)

        if not found and not optional:
            raise Exception(f"No rule found for {antecedent_cat}: {antecedent_values}")

        words = self.generate_parts(rule, binding, used_rules) if found else []
'''), ('''    def get_consequent_values(self''', '''    def generate_parts(self, rule: GrammarRule, binding: dict, used_rules: list[GrammarRule]) -> list:
        used_rules.append(rule)
        return [
            self.generate_single_consequent(rule, used_rules, part.predicate, self.get_consequent_values(rule, i, binding), part.position_type, part.optional)
            for i, part in enumerate(rule.consequents)
        ]


    def get_consequent_values(self'''))
R("e-gen-join", BG, ('''        all_text = list(filter(lambda word: isinstance(word, str), words))
        if len(all_text) == len(words):
''', '''        if all(isinstance(word, str) for word in words):
'''))
R("e-gen-values", BG, ('''        for a in range(len(consequent.arguments)):
            if consequent.position_type == POS_TYPE_WORD_FORM:
                consequent_value = ""
            else:
                consequent_variable = consequent.arguments[a]
                if consequent_variable in binding:
                    consequent_value = binding[consequent_variable]
                else:
                    consequent_value = ""

            consequent_values.append(consequent_value)
''', '''        for argument in consequent.arguments:
            is_literal = consequent.position_type == POS_TYPE_WORD_FORM
            consequent_values.append("" if is_literal else binding.get(argument, ""))
'''))
R("e-gen-match", BG, ('''            if not rule.sem:
                # no condition
                match = binding

            else:

                # match the condition
                # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
                match_bindings = self.solver.solve(rule.sem, binding)

                match = match_bindings[0] if len(match_bindings) > 0 else None


            if match is not None:
                result_rule = rule
                result_binding = match
                found = True

                # make sure the same rule is not executed again and again
                if rule not in used_rules:
                    break

        return result_rule, result_binding, found
''', '''            match = self.match_condition(rule, binding)
            if match is None:
                continue

            result_rule, result_binding, found = rule, match, True

            # make sure the same rule is not executed again and again
            if rule not in used_rules:
                break

        return result_rule, result_binding, found


    def match_condition(self, rule: GrammarRule, binding: dict):
        if not rule.sem:
            return binding
        for solution in self.solver.solve(rule.sem, binding):
            return solution
        return None
'''))
R("e-gen-dispatch", BG, ('''        if position_type == POS_TYPE_WORD_FORM:
            result = category
        elif category == CATEGORY_VALUE:
            result = values[0]
        elif category == CATEGORY_TEXT:
            result = str(values[0])
        elif category == CATEGORY_FORMAT:
            result = rule.exec(*values)
        else:
            result = self.generate_node(used_rules, category, values, optional)

        return result
''', '''        if position_type == POS_TYPE_WORD_FORM:
            return category
        if category in (CATEGORY_VALUE, CATEGORY_TEXT):
            value = values[0]
            return str(value) if category == CATEGORY_TEXT else value
        if category == CATEGORY_FORMAT:
            return rule.exec(*values)
        return self.generate_node(used_rules, category, values, optional)
'''))
# --- trees
R("e-tree-node", TE, ('''    trees = []

    if state.is_terminal():
        trees.append(ParseTreeNode(
            state.rule.antecedent.predicate,
            [],
            state.rule.consequents[0].predicate,
            state.rule
        ))
    else:
        # the state has one or more child states. in fact, there can be multiple child state sequences
        for child_state_sequence in find_child_state_sequences(chart, state):
            # each child state can have multiple parse trees, built from its children; go through all permutations of these child state parse trees
            for permutation_trees in create_trees_for_states(chart, child_state_sequence):
                trees.append(ParseTreeNode(
                    state.rule.antecedent.predicate,
                    permutation_trees,
                    "",
                    state.rule
                ))

    return trees
''', '''    rule = state.rule
    category = rule.antecedent.predicate

    if state.is_terminal():
        return [ParseTreeNode(category, [], rule.consequents[0].predicate, rule)]

    return [
        ParseTreeNode(category, children, "", rule)
        for sequence in find_child_state_sequences(chart, state)
        for children in create_trees_for_states(chart, sequence)
    ]
'''))
R("e-tree-seq-guard", TE, ('''        if state.rule.antecedent.equals(parent_state.rule.consequents[consequent_index]):
            if consequent_index == 0:
                if state.start_char_index == parent_state.start_char_index:
                    sequences.append([state])
            else:
                # find one or more preceding sequences of this state
                for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                    sequences.append(previous_sequence + [state])
''', '''        if not state.rule.antecedent.equals(parent_state.rule.consequents[consequent_index]):
            continue

        if consequent_index > 0:
            # find one or more preceding sequences of this state
            preceding = find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1)
            sequences.extend([*previous, state] for previous in preceding)
        elif state.start_char_index == parent_state.start_char_index:
            sequences.append([state])
'''))
R("e-sort-boost", SB, ('''        results = []
        for tree in trees:
            score = -self.get_boost(tree)
            results.append({'tree': tree, 'score': score})

        results.sort(key=lambda result: result['score'])

        return [result['tree'] for result in results]
''', '''        return sorted(trees, key=lambda tree: -self.get_boost(tree))
'''), ('''        boost = node.rule.boost

        for child in node.children:
            boost += self.get_boost(child)

        return boost
''', '''        return node.rule.boost + sum(self.get_boost(child) for child in node.children)
'''))
R("e-sort-reg", SR, ('''        count = 0
        if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
            count = 1

        for child in node.children:
            count += self.count_tokens(child)

        return count
''', '''        own = 1 if node.rule.antecedent.position_type == POS_TYPE_REG_EXP else 0
        return own + sum(map(self.count_tokens, node.children))
'''), ('''        results = []
        for tree in trees:
            score = self.count_tokens(tree)
            results.append({'tree': tree, 'score': score})

        results.sort(key=lambda result: result['score'])

        return [result['tree'] for result in results]
''', '''        return sorted(trees, key=self.count_tokens)
'''))
R("e-sort-depth", SD, ('''        depth = base_depth - 1

        for child in node.children:
            depth = min(depth, self.get_depth(child, base_depth - 1))

        return depth
''', '''        below = base_depth - 1
        return min([below] + [self.get_depth(child, below) for child in node.children])
'''))
R("e-heur-loop", BH, ('''        trees = SortByTreeDepth().sort(trees)
        trees = SortByRegExpCount().sort(trees)
        trees = SortByBoost().sort(trees)
        return trees
''', '''        for heuristic in [SortByTreeDepth(), SortByRegExpCount(), SortByBoost()]:
            trees = heuristic.sort(trees)
        return trees
'''))
# --- parser
R("e-earley-scan-parts", EP, ('''                for i in range(1, len(word)+1):
                    sub_word = word[0:i]
                    # a part of the match only counts if it is a match by itself
                    if sub_word != word and not re.fullmatch(next_consequent.predicate, sub_word):
                        continue
                    sem = self.create_semantic_function_for_scanned_state(sub_word)
                    self.add_scanned_state(chart, state, sub_word, sem)
''', '''                for end in range(1, len(word)+1):
                    prefix = word[:end]
                    # a part of the match only counts if it is a match by itself
                    if prefix == word or re.fullmatch(next_consequent.predicate, prefix):
                        self.add_scanned_state(chart, state, prefix, self.create_semantic_function_for_scanned_state(prefix))
'''))
R("e-earley-scan-range", EP, ('''                for i in range(1, len(word)+1):
                    sub_word = word[0:i]
''', '''                for i in range(len(word)):
                    sub_word = word[:i+1]
'''))
R("e-earley-sem-def", EP, ('''        return lambda: word
''', '''        def meaning():
            return word
        return meaning
'''))
R("e-earley-delta", EP, ('''            variables = ["P" + str(j) for j in range(1, c+1)]
''', '''            variables = [f"P{j + 1}" for j in range(c)]
'''))
R("e-earley-sem-default", EP, ('''                    sem = self.create_semantic_function_for_scanned_state(sub_word)
''', '''                    sem = lambda text=sub_word: text
'''))
# --- rules text
R("e-gparse-separator", SG, ('''                if pos < len(tokens):
                    atom = RuleConstituent(' ', [], POS_TYPE_WORD_FORM, separator=True)
                    consequents.append(atom)
''', '''                at_end = pos >= len(tokens)
                if not at_end:
                    consequents.append(RuleConstituent(' ', [], POS_TYPE_WORD_FORM, separator=True))
'''))
R("e-iparse-disjunction", SI, ('''        disjunction = (DISJUNCTION, disjuncts)

        return disjunction, pos
''', '''        return (DISJUNCTION, disjuncts), pos
'''))
# --- optimizer, composer
R("e-is-stable-len", IS, ('''            if len(new_batches) == len(collection):
                break

            collection = new_batches
''', '''            merged = len(new_batches) < len(collection)
            collection = new_batches
            if not merged:
                break
'''))
R("e-is-roots-set", IS, ('''        for batch in batches:
            # the batch contains root variables?
            if len(batch.variables & set(root_variables)) > 0:
                # make all atoms top level
                new_atoms.extend(batch.atoms)
            else:
                # do the same for the atoms in this batch
                recursed = self.isolate(batch.atoms, [])
                # isolate the batch
                new_atoms.append(('scoped', recursed))
''', '''        roots = set(root_variables)
        for batch in batches:
            if batch.variables.isdisjoint(roots):
                # isolate the batch, and do the same for the atoms in it
                new_atoms.append(('scoped', self.isolate(batch.atoms, [])))
            else:
                # the batch contains root variables: make all atoms top level
                new_atoms += batch.atoms
'''))
R("e-is-next", IS, ('''                found = None
                for i, new_batch in enumerate(new_batches):
                    if len(batch.variables & new_batch.variables) > 0:
                        found = i
                        break
                if found == None:
''', '''                found = next((i for i, new_batch in enumerate(new_batches) if batch.variables & new_batch.variables), None)
                if found is None:
'''))
R("e-sc-roots", SC, ('''        root_variables = [self.variable_generator.next() for _ in parse_tree.rule.antecedent.arguments]
''', '''        root_variables = []
        for _ in range(len(parse_tree.rule.antecedent.arguments)):
            root_variables.append(self.variable_generator.next())
'''))
R("e-sy-pairs", SY, ('''        for i, block in enumerate(self.reader_pipeline):
            block.next_block = self.reader_pipeline[i+1] if i < len(self.reader_pipeline)-1 else terminal
''', '''        for block, next_block in zip(self.reader_pipeline, self.reader_pipeline[1:] + [terminal]):
            block.next_block = next_block
'''))
R("e-sy-link-reverse", SY, ('''        for i, block in enumerate(self.reader_pipeline):
            block.next_block = self.reader_pipeline[i+1] if i < len(self.reader_pipeline)-1 else terminal
''', '''        next_block = terminal
        for block in reversed(self.reader_pipeline):
            block.next_block = next_block
            next_block = block
'''))
R("e-ob-loop", OB, ('''        self.add_relation(Relation("output_type", arguments=["type"]))
        self.add_relation(Relation("output_value", arguments=["value"]))
        self.add_relation(Relation("output_value_with_unit", arguments=["value", "unit"]))
''', '''        for predicate, arguments in [("output_type", ["type"]), ("output_value", ["value"]), ("output_value_with_unit", ["value", "unit"])]:
            self.add_relation(Relation(predicate, arguments=arguments))
'''))
