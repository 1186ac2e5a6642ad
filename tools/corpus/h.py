"""rewrites that keep the behaviour: values carried in another shape, results gathered elsewhere, tests moved"""
E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
SO = "core/Solver.py"; IM = "module/InferenceModule.py"; SQ = "data_source/SparqlDataSource.py"; SI = "data_source/SimpleDataSource.py"
GS = "entity/GrammarRules.py"; GR = "entity/GrammarRule.py"; TE = "processor/parser/earley/tree_extract.py"; RI = "entity/ResultIterator.py"
CO = "processor/semantic_composer/optimizer/SortByCost.py"; SG = "processor/parser/helper/SimpleGrammarRulesParser.py"
BD = "module/BasicDialogContext.py"; SM = "module/SimpleMemoryModule.py"; IP = "module/helper/SimpleInferenceRuleParser.py"
HB = "processor/parser/tree_sort_heuristics/SortByBoost.py"; HR = "processor/parser/tree_sort_heuristics/SortByRegExpCount.py"; HD = "processor/parser/tree_sort_heuristics/SortByTreeDepth.py"
GF = "processor/parser/helper/grammar_functions.py"; PN = "entity/ParseTreeNode.py"; RE = "entity/Relation.py"
R("h-so-stats", SO, ('''        if self.log_stats:
            if not predicate in self.stats:
                self.stats[predicate] = 0
            self.stats[predicate] += 1

        if''', '''        self.count_call(predicate)

        if'''), ('''    def solve_disjunction(''', '''    def count_call(self, predicate: str):
        if self.log_stats:
            self.stats[predicate] = self.stats.get(predicate, 0) + 1


    def solve_disjunction('''))
R("h-so-extend", SO, ('''        results = []
        for v in values:
            # extend the incoming binding
            result = binding.copy()
            # check needed for a variable that occurs twice
            conflict = False

            # go through all arguments
            for i, arg in enumerate(arguments):
                # variable?
                if isinstance(arg, Variable):
                    # if the variable was bound already, no need to assign it
                    # also no need to check for conflict, because the type may be different and that's ok
                    if arg.name not in binding:
                        # check for conflict with previous same variable
                        if arg.name in result and result[arg.name] != v[i]:
                            conflict = True
                        # extend the binding
                        result[arg.name] = v[i]
                else:
                    if v[i] is not None and arg != v[i]:
                        conflict = True

            if conflict:
                continue

            results.append(result)

        return results
''', '''        results = []
        for row in values:
            result = self.extend_binding(row, binding, arguments)
            if result is not None:
                results.append(result)

        return results


    def extend_binding(self, row: list, binding: dict, arguments: list) -> dict|None:
        new_values = {}

        for arg, value in zip(arguments, row):
            if isinstance(arg, Variable):
                # if the variable was bound already, no need to assign it
                # also no need to check for conflict, because the type may be different and that's ok
                if arg.name in binding:
                    continue
                # check for conflict with previous same variable
                if arg.name in new_values and new_values[arg.name] != value:
                    return None
                new_values[arg.name] = value
            elif value is not None and arg != value:
                return None

        return binding | new_values
'''))
R("h-so-dedup", SO, ('''            result = []
            bindings = self.solve_single(atoms[0], binding)
            for b in bindings:
                for r in self.solve(atoms[1:], b):
                    if not r in result:
                        result.append(r)
            return result
''', '''            result = []
            for b in self.solve_single(atoms[0], binding):
                result += [r for r in self.solve(atoms[1:], b) if r not in result]
            return result
'''))
R("h-so-cands", SO, ('''            result = []
            bindings = self.solve_single(atoms[0], binding)
            for b in bindings:
                for r in self.solve(atoms[1:], b):
                    if not r in result:
                        result.append(r)
            return result
''', '''            candidates = [r for b in self.solve_single(atoms[0], binding) for r in self.solve(atoms[1:], b)]
            result = []
            for candidate in candidates:
                if candidate in result:
                    continue
                result.append(candidate)
            return result
'''))
R("h-so-rel", SO, ('''        rows = []
        stringed_values = {}

        for relation''', '''        rows = {}

        for relation'''), ('''            for out_value in out_values:
                stringed_value = str(out_value)
                if stringed_value not in stringed_values:
                    stringed_values[stringed_value] = out_value
                    rows.append(out_value)

        return rows
''', '''            for out_value in out_values:
                rows.setdefault(str(out_value), out_value)

        return list(rows.values())
'''))
R("h-so-find", SO, ('''        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")

        db_values''', '''        relations = self.find_relations(predicate)
        db_values'''), ('''        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")

        for relation in relations:
            if relation.write_function is not None:
                context = ExecutionContext(relation, arguments, {}, self)
                relation.write_function(arguments, context)
''', '''        for relation in self.find_relations(predicate):
            if relation.write_function is None:
                continue
            relation.write_function(arguments, ExecutionContext(relation, arguments, {}, self))


    def find_relations(self, predicate: str) -> list:
        relations = self.model.find_relations(predicate)
        if relations:
            return relations
        raise Exception("No relation called '" + predicate + "' available in the model")
'''))
R("h-so-check", SO, ('''        for row in values:
            if not isinstance(row, list):
                raise Exception("The results of '" + predicate + "' should be lists")
            if len(row) != len(arguments):
                raise Exception("The number''', '''        argument_count = len(arguments)
        for i in range(len(values)):
            row = values[i]
            if not isinstance(row, list):
                raise Exception("The results of '" + predicate + "' should be lists")
            if argument_count != len(row):
                raise Exception("The number'''))
R("h-so-disj", SO, ('''            results = self.solve(disjunct, binding)
            if len(results) > 0:
                return results
        return []
''', '''            results = self.solve(disjunct, binding)
            if not results:
                continue
            return results
        return []
'''))
# --- inference
R("h-im-match", IM, ('''            if isinstance(rule_argument, Variable):
                # bind variable
                if isinstance(bound_value, Variable):
                    # A = E1
                    pass
                else:
                    # A = 'john'
                    # check for conflicts
                    if rule_argument.name in rule_binding:
                        if rule_binding[rule_argument.name] != bound_value:
                            return []
                    rule_binding[rule_argument.name] = bound_value
            else:
                if isinstance(bound_value, Variable):
                    # 'john' = E1
                    pass
                else:
                    # 'john' = 'susan'
                    # check for conflicts
                    if bound_value != rule_argument:
                        return []
''', '''            # an unbound variable matches anything
            if isinstance(bound_value, Variable):
                continue

            if not isinstance(rule_argument, Variable):
                # 'john' = 'susan'
                if bound_value != rule_argument:
                    return []
                continue

            # A = 'john'
            if rule_binding.setdefault(rule_argument.name, bound_value) != bound_value:
                return []
'''))
R("h-im-helper", IM, ('''        # initialize with binding variables that do not affect this rule (but may be used later on)
        rule_binding = {key: value for (key, value) in binding.items() if key not in rule.get_all_variables()}
''', '''        rule_binding = self.init_binding(rule, binding)
'''), ('''    # ('learn_rule', head, [body-atoms])''', '''    def init_binding(self, rule: InferenceRule, binding: dict) -> dict:
        # initialize with binding variables that do not affect this rule (but may be used later on)
        rule_variables = rule.get_all_variables()
        rule_binding = {}
        for name in binding:
            if name in rule_variables:
                continue
            rule_binding[name] = binding[name]
        return rule_binding


    # ('learn_rule', head, [body-atoms])'''))
R("h-im-rows", IM, ('''            result = []

            for rule_argument, value in zip(rule_arguments, arguments):
                if isinstance(value, Variable):
                    if isinstance(rule_argument, Variable):
                        # check if the results are not bound (completely)
                        # this happens when r(X). is matches against r(Y).
                        if not rule_argument.name in solution:
                            break
                        result.append(solution[rule_argument.name])
                    else:
                        result.append(rule_argument)
                else:
                    result.append(value)
            else:
                results.append(result)

        return results
''', '''            # check if the results are not bound (completely)
            # this happens when r(X). is matches against r(Y).
            complete = True
            result = []

            for rule_argument, value in zip(rule_arguments, arguments):
                if not isinstance(value, Variable):
                    result.append(value)
                elif not isinstance(rule_argument, Variable):
                    result.append(rule_argument)
                elif rule_argument.name in solution:
                    result.append(solution[rule_argument.name])
                else:
                    complete = False
                    break

            if complete:
                results.append(result)

        return results
'''))
R("h-im-body", IM, ('''        if len(rule.body) == 0:
            bindings = [ rule_binding ]
        else:
            bindings = solver.solve(rule.body, rule_binding)
''', '''        bindings = solver.solve(rule.body, rule_binding) if rule.body else [rule_binding]
'''))
R("h-im-learn", IM, ('''        bound_head = bind_variables(head, context.binding)
        bound_body = bind_variables(body, context.binding)

        self.insert_rule(InferenceRule(bound_head, bound_body))
''', '''        bound_head, bound_body = [bind_variables(part, context.binding) for part in (head, body)]
        rule = InferenceRule(bound_head, bound_body)
        self.insert_rule(rule)
'''))
R("h-im-insert", IM, ('''        self.add_relation(Relation(predicate, query_function=self.handle_rule))
        if not predicate in self.rules:
            self.rules[predicate] = []
        self.rules[predicate].append(rule)
''', '''        if predicate in self.rules:
            self.rules[predicate].append(rule)
        else:
            self.rules[predicate] = [rule]
        self.add_relation(Relation(predicate, query_function=self.handle_rule))
'''))
# --- data sources
R("h-sq-select", SQ, ('''        # try to read from results cache
        if self.result_cache_path:
            input_string = table + str(columns) + str(values)
            cache_key = hashlib.sha1(input_string.encode()).hexdigest()
            file_name = self.result_cache_path + "/" + cache_key + ".pickle"
            try:''', '''        # try to read from results cache
        if self.result_cache_path:
            file_name = self.get_cache_file_name(table, columns, values)
            try:'''), ('''    def do_select(self''', '''    def get_cache_file_name(self, table: str, columns: list[str], values: list) -> str:
        input_string = f"{table}{columns}{values}"
        cache_key = hashlib.sha1(input_string.encode()).hexdigest()
        return f"{self.result_cache_path}/{cache_key}.pickle"


    def do_select(self'''))
R("h-sq-locale", SQ, ('''        locale_filter = ""

        for text_variable in text_variables:
            locale_filter += """
                FILTER(LANG({}) = "{}") .
            """.format(text_variable, self.lang)
''', '''        filters = []
        for text_variable in text_variables:
            filters.append(f"""
                FILTER(LANG({text_variable}) = "{self.lang}") .
            """)
        locale_filter = "".join(filters)
'''))
R("h-sq-vars", SQ, ('''        variables = []
        for i in range(2):
            if values[i] == None:
                variables.append(terms[i])
        if len(variables) == 0:
            variables = ["*"]
        return variables
''', '''        variables = [term for value, term in zip(values, terms) if value is None]
        return variables or ["*"]
'''))
R("h-sq-results", SQ, ('''            result = []
            for i in range(2):
                if values[i] == None:
                    # drop the preceding '?'
                    var = terms[i][1:]
                    value = item[var]['value']
                    result.append(value)
                else:
                    result.append(values[i])

            results.append(result)
''', '''            results.append([self.get_result_value(item, values[i], terms[i]) for i in range(2)])
'''), ('''    def prepare_results(self''', '''    def get_result_value(self, item: dict, value: any, term: str) -> any:
        if value is not None:
            return value
        # drop the preceding '?'
        return item[term[1:]]['value']


    def prepare_results(self'''))
R("h-sq-status", SQ, ('''        if response.status_code == 403:
            raise Exception("Not allowed: " + str(response.text))
        if response.status_code == 429:
            raise Exception("Too many requests: " + str(response.text))
        if response.status_code == 400:
            raise Exception("Bad request: " + str(response.text))
        if response.status_code != 200:
            raise Exception("Unexpected response (" + str(response.status_code) + "): " + str(response.text))
''', '''        if response.status_code != 200:
            self.raise_response_error(response.status_code, str(response.text))
'''), ('''    def create_query(self''', '''    def raise_response_error(self, status: int, text: str):
        if status == 403:
            raise Exception("Not allowed: " + text)
        elif status == 429:
            raise Exception("Too many requests: " + text)
        elif status == 400:
            raise Exception("Bad request: " + text)
        raise Exception("Unexpected response (" + str(status) + "): " + text)


    def create_query(self'''))
R("h-si-match", SI, ('''        for record in self.store[table]:
            ok = True
            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
            if ok:
                result = [record.get(column) for column in columns]
                results.append(result)

        return results
''', '''        for record in self.store[table]:
            mismatches = [key for key in values if record.get(key) != values[key]]
            if len(mismatches) == 0:
                results.append(list(map(record.get, columns)))

        return results
'''))
R("h-si-items", SI, ('''            ok = True
            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
            if ok:
                result = [record.get(column) for column in columns]
                results.append(result)
''', '''            if all(record.get(key) == value for key, value in values.items()):
                results.append([record.get(column) for column in columns])
'''))
R("h-si-get", SI, ('''        if not table in self.store:
            return []

        results = []

        for record in self.store[table]:''', '''        results = []

        for record in self.store.get(table, []):'''))
# --- grammar
R("h-gs-add", GS, ('''        if not antecedent in self.index:
            self.index[antecedent] = {}
        if not argument_count in self.index[antecedent]:
            self.index[antecedent][argument_count] = []

        # create a variant of the rule for all permutations of optional constituents
        for variant in self.create_rule_variants(rule):
            self.index[antecedent][argument_count].append(variant)
''', '''        by_count = self.index.setdefault(antecedent, {})
        rules = by_count.setdefault(argument_count, [])

        # create a variant of the rule for all permutations of optional constituents
        rules.extend(self.create_rule_variants(rule))
'''))
R("h-gs-find", GS, ('''        if antecedent in self.index and argument_count in self.index[antecedent]:
            return self.index[antecedent][argument_count]
        else:
            return []

    def find_argument_counts''', '''        if antecedent not in self.index:
            return []
        by_count = self.index[antecedent]
        if argument_count not in by_count:
            return []
        return by_count[argument_count]

    def find_argument_counts'''))
R("h-gs-rest", GS, ('''        skip = 1

        # ... _'the'? ...
        if consequent.separator and look_ahead_consequent and not look_ahead_consequent.separator:
            # the separator belongs to the part that follows it; at the start of a variant there is nothing to separate
            part = look_ahead_consequent
            new_variants = [v + [consequent, part] if v else [part] for v in variants]
            # ... ~ ...
            if consequent.optional:
                new_variants.extend([v + [part] for v in variants if v])
            skip = 2
        else:
            part = consequent
            new_variants = [v + [part] for v in variants]
''', '''        separates = consequent.separator and look_ahead_consequent and not look_ahead_consequent.separator

        if not separates:
            skip = 1
            part = consequent
            new_variants = [v + [part] for v in variants]
        else:
            # ... _'the'? ...
            # the separator belongs to the part that follows it; at the start of a variant there is nothing to separate
            skip = 2
            part = look_ahead_consequent
            new_variants = []
            for v in variants:
                if v:
                    new_variants.append(v + [consequent, part])
                else:
                    new_variants.append([part])
            # ... ~ ...
            if consequent.optional:
                new_variants += [v + [part] for v in variants if v]
'''))
R("h-gr-eq", GR, ('''        for i, consequent in enumerate(self.consequents):
            if not consequent.equals(other_rule.consequents[i]):
                return False

        return True
''', '''        different = [c1 for c1, c2 in zip(self.consequents, other_rule.consequents) if not c1.equals(c2)]
        return len(different) == 0
'''))
R("h-gr-hash", GR, ('''        h = [c.hash for c in self.consequents] + [self.antecedent.hash]
        self.hash = hash(tuple(h))
''', '''        self.hash = hash((*[c.hash for c in self.consequents], self.antecedent.hash))
'''))
R("h-te-state", TE, ('''    trees = []

    if state.is_terminal():
        trees.append(ParseTreeNode(
            state.rule.antecedent.predicate,
            [],
            state.rule.consequents[0].predicate,
            state.rule
        ))
    else:
        # the state has one or more child states. in fact, there can be multiple child state sequences
        for child_state_sequence in find_child_state_sequences(chart, state):
            # each child state can have multiple parse trees, built from its children; go through all permutations of these child state parse trees
            for permutation_trees in create_trees_for_states(chart, child_state_sequence):
                trees.append(ParseTreeNode(
                    state.rule.antecedent.predicate,
                    permutation_trees,
                    "",
                    state.rule
                ))

    return trees
''', '''    category = state.rule.antecedent.predicate

    if state.is_terminal():
        return [ParseTreeNode(category, [], state.rule.consequents[0].predicate, state.rule)]

    # the state has one or more child states. in fact, there can be multiple child state sequences
    return [
        ParseTreeNode(category, permutation_trees, "", state.rule)
        for child_state_sequence in find_child_state_sequences(chart, state)
        # each child state can have multiple parse trees, built from its children; go through all permutations of these child state parse trees
        for permutation_trees in create_trees_for_states(chart, child_state_sequence)
    ]
'''))
R("h-te-seq", TE, ('''    sequences = []
    for state in chart.completed_states[end_char_index]:
        if state.rule.antecedent.equals(parent_state.rule.consequents[consequent_index]):
            if consequent_index == 0:
                if state.start_char_index == parent_state.start_char_index:
                    sequences.append([state])
            else:
                # find one or more preceding sequences of this state
                for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                    sequences.append(previous_sequence + [state])
    return sequences
''', '''    consequent = parent_state.rule.consequents[consequent_index]
    candidates = [state for state in chart.completed_states[end_char_index] if state.rule.antecedent.equals(consequent)]

    if consequent_index == 0:
        return [[state] for state in candidates if state.start_char_index == parent_state.start_char_index]

    sequences = []
    for state in candidates:
        # find one or more preceding sequences of this state
        for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
            sequences.append([*previous_sequence, state])
    return sequences
'''))
R("h-hb", HB, ('''        results = []
        for tree in trees:
            score = -self.get_boost(tree)
            results.append({'tree': tree, 'score': score})

        results.sort(key=lambda result: result['score'])

        return [result['tree'] for result in results]
''', '''        scored = [(-self.get_boost(tree), tree) for tree in trees]
        scored.sort(key=lambda pair: pair[0])
        return [tree for _, tree in scored]
'''))
R("h-hb-sum", HB, ('''        boost = node.rule.boost

        for child in node.children:
            boost += self.get_boost(child)

        return boost
''', '''        return sum([self.get_boost(child) for child in node.children], node.rule.boost)
'''))
R("h-hr", HR, ('''        count = 0
        if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
            count = 1

        for child in node.children:
            count += self.count_tokens(child)

        return count
''', '''        child_count = sum(self.count_tokens(child) for child in node.children)
        is_regexp = node.rule.antecedent.position_type == POS_TYPE_REG_EXP
        return child_count + 1 if is_regexp else child_count
'''))
R("h-hd", HD, ('''        depth = base_depth - 1

        for child in node.children:
            depth = min(depth, self.get_depth(child, base_depth - 1))

        return depth
''', '''        own_depth = base_depth - 1
        depths = [self.get_depth(child, own_depth) for child in node.children]
        return min(depths) if depths else own_depth
'''))
# --- sort by cost
R("h-co-first", CO, ('''        results = []
        for atom in todo:
            cost = self.calculate_cost(atom, bound_variables, model)
            results.append({'atom': atom, 'cost': cost})

        results.sort(key=lambda result: result['cost'])
        sorted = [result['atom'] for result in results]

        sorted_first_atom = self.sort_arguments(sorted[0], model, bound_variables)
        bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))

        return self.sort_rest(done + [sorted_first_atom], sorted[1:], model, bound_variables)
''', '''        first, *rest = self.sort_atoms(todo, model, bound_variables)
        sorted_first_atom = self.sort_arguments(first, model, bound_variables)
        new_bound_variables = bound_variables.union(get_atom_variables(sorted_first_atom))

        return self.sort_rest(done + [sorted_first_atom], rest, model, new_bound_variables)


    def sort_atoms(self, atoms: list[tuple], model: Model, bound_variables: set[str]) -> list[tuple]:
        return sorted(atoms, key=lambda atom: self.calculate_cost(atom, bound_variables, model))
'''))
R("h-co-iter", CO, ('''        if len(todo) == 0:
            return done

        results = []
        for atom in todo:
            cost = self.calculate_cost(atom, bound_variables, model)
            results.append({'atom': atom, 'cost': cost})

        results.sort(key=lambda result: result['cost'])
        sorted = [result['atom'] for result in results]

        sorted_first_atom = self.sort_arguments(sorted[0], model, bound_variables)
        bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))

        return self.sort_rest(done + [sorted_first_atom], sorted[1:], model, bound_variables)
''', '''        while len(todo) > 0:
            results = [(self.calculate_cost(atom, bound_variables, model), atom) for atom in todo]
            results.sort(key=lambda result: result[0])
            ordered = [atom for _, atom in results]

            first_atom = self.sort_arguments(ordered[0], model, bound_variables)
            bound_variables = bound_variables | set(get_atom_variables(first_atom))
            done = done + [first_atom]
            todo = ordered[1:]

        return done
'''))
R("h-co-args", CO, ('''        atom_as_list = list(atom)
        replaced = False
        for i, arg in enumerate(atom):
            if isinstance(arg, list):
                if len(arg) > 0 and isinstance(arg[0], tuple):
                    atom_as_list[i] = self.sort(arg, model, bound_variables)
                    replaced = True
        if replaced:
            return tuple(atom_as_list)
        else:
            return atom
''', '''        sorted_arguments = []
        for arg in atom:
            if self.is_body(arg):
                sorted_arguments.append(self.sort(arg, model, bound_variables))
            else:
                sorted_arguments.append(arg)
        return tuple(sorted_arguments)


    def is_body(self, arg: any) -> bool:
        return isinstance(arg, list) and len(arg) > 0 and isinstance(arg[0], tuple)
'''))
R("h-co-cost", CO, ('''        costs = []
        for relation in relations:
            unbound_argument_size_product = 1
            arguments = atom[1:]

            if relation.relation_size == IGNORED:
                cost = INFINITE
            else:

                if len(arguments) != len(relation.argument_sizes):
                    raise Exception("Number of argument sizes doesn't match that of relation: " + predicate)

                for argument, argument_size in zip(arguments, relation.argument_sizes):

                    if argument_size == IGNORED:
                        pass
                    elif isinstance(argument, Variable):
                        if argument.name in bound_variables:
                            unbound_argument_size_product *= argument_size
                    elif isinstance(argument, list):
                        pass
                    elif isinstance(argument, tuple):
                        pass
                    else:
                        unbound_argument_size_product *= argument_size

                cost = relation.relation_size / unbound_argument_size_product

            costs.append(cost)

        # if the predicate occurs in multiple relations, take the maximal cost
        # (not the sum of the costs, because we don't want to double the cost with 2 simular relations)
        return max(costs)
''', '''        # if the predicate occurs in multiple relations, take the maximal cost
        # (not the sum of the costs, because we don't want to double the cost with 2 simular relations)
        return max([self.calculate_relation_cost(relation, predicate, atom[1:], bound_variables) for relation in relations])


    def calculate_relation_cost(self, relation, predicate: str, arguments: tuple, bound_variables: set):
        if relation.relation_size == IGNORED:
            return INFINITE

        if len(arguments) != len(relation.argument_sizes):
            raise Exception("Number of argument sizes doesn't match that of relation: " + predicate)

        product = 1
        for argument, argument_size in zip(arguments, relation.argument_sizes):
            if argument_size == IGNORED or isinstance(argument, (list, tuple)):
                continue
            if isinstance(argument, Variable) and argument.name not in bound_variables:
                continue
            product *= argument_size

        return relation.relation_size / product
'''))
# --- grammar parser
R("h-sg-optional", SG, ('''                if write_rules:
                    found, new_pos = self.parse_optional_marker(tokens, pos)
                    if found:
                        pos = new_pos
                        atom.optional = True
''', '''                if write_rules:
                    atom.optional, pos = self.read_optional_marker(tokens, pos)
'''), ('''                    pos = new_pos
                    optional = False
                    found, new_pos = self.parse_optional_marker(tokens, pos)
                    if found:
                        pos = new_pos
                        optional = True

''', '''                    optional, pos = self.read_optional_marker(tokens, new_pos)
'''), ('''    def parse_optional_marker(''', '''    def read_optional_marker(self, tokens: list[str], pos: int):
        found, new_pos = self.parse_optional_marker(tokens, pos)
        if found:
            return True, new_pos
        return False, pos


    def parse_optional_marker('''))
R("h-sg-keys", SG, ('''        sem = None
        if write_rules:
            if 'if' in simple_rule:
                sem = simple_rule['if']
        else:
            if 'sem' in simple_rule:
                sem = simple_rule['sem']

        exec = None
        if write_rules:
            if 'format' in simple_rule:
                exec = simple_rule['format']
        else:
            if 'exec' in simple_rule:
                exec = simple_rule['exec']

        post = None
        if write_rules:
            if 'post' in simple_rule:
                post = simple_rule['post']

        dialog = []
        if 'dialog' in simple_rule:
            dialog = simple_rule['dialog']

        boost = 0
        if 'boost' in simple_rule:
            boost = simple_rule['boost']

        return GrammarRule(antecedent, consequents, sem=sem, exec=exec, post=post, dialog=dialog, boost=boost)
''', '''        dialog = simple_rule.get('dialog', [])
        boost = simple_rule.get('boost', 0)

        if write_rules:
            return GrammarRule(
                antecedent,
                consequents,
                sem=simple_rule.get('if'),
                exec=simple_rule.get('format'),
                post=simple_rule.get('post'),
                dialog=dialog,
                boost=boost)

        return GrammarRule(antecedent, consequents, sem=simple_rule.get('sem'), exec=simple_rule.get('exec'), dialog=dialog, boost=boost)
'''))
R("h-sg-sep", SG, ('''            elif token == '~':
                atom = RuleConstituent(' ', [], POS_TYPE_WORD_FORM, optional=True, separator=True)
                consequents.append(atom)
                pos = new_pos
            else:
                if pos < len(tokens):
                    atom = RuleConstituent(' ', [], POS_TYPE_WORD_FORM, separator=True)
                    consequents.append(atom)
''', '''            elif token == '~':
                pos = new_pos
                consequents.append(self.create_separator(True))
            elif pos < len(tokens):
                consequents.append(self.create_separator(False))
'''), ('''    def parse_variable(''', '''    def create_separator(self, optional: bool) -> RuleConstituent:
        return RuleConstituent(' ', [], POS_TYPE_WORD_FORM, optional=optional, separator=True)


    def parse_variable('''))
R("h-sg-token", SG, ('''        if pos >= len(tokens):
            return None, 0

        return tokens[pos], pos + 1
''', '''        has_token = pos < len(tokens)
        return (tokens[pos], pos + 1) if has_token else (None, 0)
'''))
R("h-ip-alt", IP, ('''        atoms, new_pos = self.parse_grouped_atoms(tokens, pos)
        if atoms:
            pos = new_pos
            return atoms, pos

        atoms, new_pos = self.parse_ungrouped_atoms(tokens, pos)
        if atoms:
            pos = new_pos
            return atoms, pos

        return None, pos
''', '''        for parse in (self.parse_grouped_atoms, self.parse_ungrouped_atoms):
            atoms, new_pos = parse(tokens, pos)
            if atoms:
                return atoms, new_pos

        return None, pos
'''))
R("h-ip-lit", IP, ('''        if token[0] == "'":
            pos = new_pos
            return token[1:-1].replace("\\\\'", "'"), pos

        if token[0] == '"':
            pos = new_pos
            return token[1:-1].replace('\\\\"', '"'), pos

        if re.match(self.re_float, token):
            pos = new_pos
            return float(token), pos

        if re.match(self.re_int, token):
            pos = new_pos
            return int(token), pos

        if re.match(self.re_variable, token):
            pos = new_pos
            return Variable(token), pos

        atoms, new_pos''', '''        found, value = self.parse_literal(token)
        if found:
            return value, new_pos

        atoms, new_pos'''), ('''    def parse_token(''', '''    def parse_literal(self, token: str) -> tuple[bool, any]:
        quote = token[0]
        if quote in ("'", '"'):
            return True, token[1:-1].replace("\\\\" + quote, quote)

        if re.match(self.re_float, token):
            return True, float(token)
        if re.match(self.re_int, token):
            return True, int(token)
        if re.match(self.re_variable, token):
            return True, Variable(token)

        return False, None


    def parse_token('''))
R("h-ip-rule", IP, ('''        consequents = []
        implies, new_pos = self.parse_token(tokens, pos)
        if implies == ':-':
            pos = new_pos
            consequents, new_pos = self.parse_atoms(tokens, pos)
            if not consequents:
                return None, new_pos
            pos = new_pos

        dot, new_pos = self.parse_token(tokens, pos)

        if not dot == ".":
            return None, new_pos
        pos = new_pos

        return InferenceRule(antecedent, consequents), pos
''', '''        token, new_pos = self.parse_token(tokens, pos)
        consequents = []
        if token == ':-':
            consequents, pos = self.parse_atoms(tokens, new_pos)
            if not consequents:
                return None, pos
            token, new_pos = self.parse_token(tokens, pos)

        if token != ".":
            return None, new_pos

        return InferenceRule(antecedent, consequents), new_pos
'''))
# --- other
R("h-bd", BD, ('''        name = values[0]
        body = values[1]
        self.data_source.insert('context', ['name'], [name])
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.data_source.delete('context', ['name'], [name])
''', '''        name, body = values
        self.add_context(name)
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.remove_context(name)
'''), ('''    def clear(self):''', '''    def add_context(self, name: str):
        self.data_source.insert('context', ['name'], [name])


    def remove_context(self, name: str):
        self.data_source.delete('context', ['name'], [name])


    def clear(self):'''))
R("h-gf", GF, ('''    replaced = []
    for atom in atoms:
        if isinstance(atom, str) and atom in replacements:
            replaced.extend(replacements[atom])
        elif isinstance(atom, tuple):
            replaced.append(replace(atom, replacements, False))
        elif isinstance(atom, list):
            replaced.append(replace(atom, replacements, True))
        else:
            replaced.append(atom)
''', '''    replaced = []
    for atom in atoms:
        if isinstance(atom, (tuple, list)):
            replaced.append(replace(atom, replacements, isinstance(atom, list)))
            continue
        is_placeholder = isinstance(atom, str) and atom in replacements
        replaced += replacements[atom] if is_placeholder else [atom]
'''))
R("h-gf-dict", GF, ('''    replacements = {}
    for i, value in enumerate(values):
        token = template.args[i][0]
        replacements[token] = value

''', '''    replacements = {template.args[i][0]: value for i, value in enumerate(values)}

'''))
R("h-ri", RI, ('''        self.index += 1
        if self.index > self.number:
            raise StopIteration
        return f''', '''        next_index = self.index + 1
        self.index = next_index
        if next_index > self.number:
            raise StopIteration()
        return f'''))
R("h-pn", PN, ('''            newIndent = indent
            if i < len(self.children)-1:
                newIndent += "|  "
            else:
                newIndent += "   "
            body += child.__str__(newIndent)
''', '''            is_last = i == len(self.children) - 1
            body += child.__str__(indent + ("   " if is_last else "|  "))
'''))
R("h-sm", SM, ('''        self.relations[relation.predicate] = relation
        if not relation.query_function:
            relation.query_function = self.query
        if not relation.write_function:
            relation.write_function = self.write
''', '''        if relation.query_function is None:
            relation.query_function = self.query
        if relation.write_function is None:
            relation.write_function = self.write
        super().add_relation(relation)
'''))
