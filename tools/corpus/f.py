"""rewrites that change the shape of a function: helpers pulled out, loops turned round, conditions regrouped"""
E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
SO = "core/Solver.py"; IM = "module/InferenceModule.py"; SQ = "data_source/SparqlDataSource.py"; SI = "data_source/SimpleDataSource.py"
GS = "entity/GrammarRules.py"; GR = "entity/GrammarRule.py"; CS = "processor/parser/earley/entity/ChartState.py"; TE = "processor/parser/earley/tree_extract.py"
CO = "processor/semantic_composer/optimizer/SortByCost.py"; FR = "processor/semantic_composer/optimizer/FrontResolveName.py"
SG = "processor/parser/helper/SimpleGrammarRulesParser.py"; BD = "module/BasicDialogContext.py"; SM = "module/SimpleMemoryModule.py"
ML = "processor/language_selector/Multilingual.py"; IP = "module/helper/SimpleInferenceRuleParser.py"
# --- solver
R("f-solve-while", SO, ('''        if len(atoms) == 1:
            return self.solve_single(atoms[0], binding)
        if len(atoms) == 0:
            return [binding.copy()]
        else:
            result = []
            bindings = self.solve_single(atoms[0], binding)
            for b in bindings:
                for r in self.solve(atoms[1:], b):
                    if not r in result:
                        result.append(r)
            return result
''', '''        if not atoms:
            return [dict(binding)]

        first, *rest = atoms
        bindings = self.solve_single(first, binding)
        if not rest:
            return bindings

        solutions = []
        for extended in bindings:
            self.add_new_solutions(solutions, self.solve(rest, extended))
        return solutions


    def add_new_solutions(self, solutions: list[dict], candidates: list[dict]):
        for candidate in candidates:
            if candidate not in solutions:
                solutions.append(candidate)
'''))
R("f-solve-guard", SO, ('''        if isinstance(values, ResultIterator):
            return values

        for row in values:
            if not isinstance(row, list):
                raise Exception("The results of '" + predicate + "' should be lists")
            if len(row) != len(arguments):
                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(row)) + " and should be " + str(len(arguments)))

        results = self.create_solve_single_results(values, binding, arguments)
        return results
''', '''        if isinstance(values, ResultIterator):
            return values

        for row in values:
            self.check_row(predicate, row, len(arguments))

        return self.create_solve_single_results(values, binding, arguments)


    def check_row(self, predicate: str, row: list, width: int):
        if not isinstance(row, list):
            raise Exception("The results of '" + predicate + "' should be lists")
        if len(row) == width:
            return
        raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(row)) + " and should be " + str(width))
'''))
R("f-create-extend", SO, ('''        results = []
        for v in values:
            # extend the incoming binding
            result = binding.copy()
            # check needed for a variable that occurs twice
            conflict = False

            # go through all arguments
            for i, arg in enumerate(arguments):
                # variable?
                if isinstance(arg, Variable):
                    # if the variable was bound already, no need to assign it
                    # also no need to check for conflict, because the type may be different and that's ok
                    if arg.name not in binding:
                        # check for conflict with previous same variable
                        if arg.name in result and result[arg.name] != v[i]:
                            conflict = True
                        # extend the binding
                        result[arg.name] = v[i]
                else:
                    if v[i] is not None and arg != v[i]:
                        conflict = True

            if conflict:
                continue

            results.append(result)

        return results
''', '''        results = []
        for row in values:
            result = self.extend_binding(row, binding, arguments)
            if result is not None:
                results.append(result)

        return results


    def extend_binding(self, row: list, binding: dict, arguments: list):
        extended = dict(binding)

        for value, arg in zip(row, arguments):
            if not isinstance(arg, Variable):
                if value is not None and arg != value:
                    return None
                continue

            # a bound variable keeps its value
            if arg.name in binding:
                continue

            # the same variable, earlier in this row
            if arg.name in extended and extended[arg.name] != value:
                return None

            extended[arg.name] = value

        return extended
'''))
R("f-disj-walrus", SO, ('''            results = self.solve(disjunct, binding)
            if len(results) > 0:
                return results
        return []
''', '''            if results := self.solve(disjunct, binding):
                return results
        return []
'''))
R("f-rel-helper", SO, ('''        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")

        db_values''', '''        relations = self.get_relations(predicate)
        db_values'''), ('''        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")

        for relation''', '''        relations = self.get_relations(predicate)

        for relation'''), ('''    def model_values_2_db_values''', '''    def get_relations(self, predicate: str) -> list:
        relations = self.model.find_relations(predicate)
        if relations:
            return relations
        raise Exception("No relation called '" + predicate + "' available in the model")


    def model_values_2_db_values'''))
R("f-dedup-set", SO, ('''        stringed_values = {}
''', '''        seen = set()
'''), ('''                if stringed_value not in stringed_values:
                    stringed_values[stringed_value] = out_value
                    rows.append(out_value)
''', '''                if stringed_value in seen:
                    continue
                seen.add(stringed_value)
                rows.append(out_value)
'''))
R("f-dbvalues-helper", SO, ('''        prepared = []
        for arg in model_values:
            # variable
            if isinstance(arg, Variable):
                # bound?
                if arg.name in binding:
                    # add variable value
                    prepared.append(binding[arg.name])
                else:
                    # add None
                    prepared.append(None)
            else:
                # just add value
                prepared.append(arg)

        return prepared
''', '''        return list(map(lambda arg: binding.get(arg.name) if isinstance(arg, Variable) else arg, model_values))
'''))
R("f-write-filter", SO, ('''        for relation in relations:
            if relation.write_function is not None:
                context = ExecutionContext(relation, arguments, {}, self)
                relation.write_function(arguments, context)
''', '''        writable = [relation for relation in relations if relation.write_function is not None]
        for relation in writable:
            relation.write_function(arguments, ExecutionContext(relation, arguments, {}, self))
'''))
# --- inference module
R("f-ir-resolve", IM, ('''            if isinstance(value, Variable) and value.name in binding:
                bound_value = binding[value.name]
            else:
                bound_value = value

            if isinstance(rule_argument, Variable):
                # bind variable
                if isinstance(bound_value, Variable):
                    # A = E1
                    pass
                else:
                    # A = 'john'
                    # check for conflicts
                    if rule_argument.name in rule_binding:
                        if rule_binding[rule_argument.name] != bound_value:
                            return []
                    rule_binding[rule_argument.name] = bound_value
            else:
                if isinstance(bound_value, Variable):
                    # 'john' = E1
                    pass
                else:
                    # 'john' = 'susan'
                    # check for conflicts
                    if bound_value != rule_argument:
                        return []
''', '''            bound_value = self.resolve(value, binding)

            # an open argument tells nothing
            if isinstance(bound_value, Variable):
                continue

            if isinstance(rule_argument, Variable):
                if rule_binding.setdefault(rule_argument.name, bound_value) != bound_value:
                    return []
            elif bound_value != rule_argument:
                return []
'''), ('''    # ('learn_rule', head, [body-atoms])
''', '''    def resolve(self, value: any, binding: dict):
        if isinstance(value, Variable):
            return binding.get(value.name, value)
        return value


    # ('learn_rule', head, [body-atoms])
'''))
R("f-ir-rows", IM, ('''        for solution in bindings:

            result = []

            for rule_argument, value in zip(rule_arguments, arguments):
                if isinstance(value, Variable):
                    if isinstance(rule_argument, Variable):
                        # check if the results are not bound (completely)
                        # this happens when r(X). is matches against r(Y).
                        if not rule_argument.name in solution:
                            break
                        result.append(solution[rule_argument.name])
                    else:
                        result.append(rule_argument)
                else:
                    result.append(value)
            else:
                results.append(result)

        return results
''', '''        for solution in bindings:
            # this happens when r(X). is matches against r(Y).
            if self.is_complete(rule_arguments, arguments, solution):
                results.append([self.row_value(a, v, solution) for a, v in zip(rule_arguments, arguments)])

        return results


    def is_complete(self, rule_arguments: tuple, arguments: tuple, solution: dict) -> bool:
        for rule_argument, value in zip(rule_arguments, arguments):
            if isinstance(value, Variable) and isinstance(rule_argument, Variable):
                if rule_argument.name not in solution:
                    return False
        return True


    def row_value(self, rule_argument: any, value: any, solution: dict):
        if not isinstance(value, Variable):
            return value
        if isinstance(rule_argument, Variable):
            return solution[rule_argument.name]
        return rule_argument
'''))
R("f-ir-insert", IM, ('''        if not predicate in self.rules:
            self.rules[predicate] = []
        self.rules[predicate].append(rule)
''', '''        known = self.rules.get(predicate, [])
        known.append(rule)
        self.rules[predicate] = known
'''))
R("f-ir-handle", IM, ('''        results = []
        for rule in self.rules[context.relation.predicate]:
            results.extend(self.solve_rule(rule, context.arguments, context.solver, context.binding))

        return results
''', '''        return [
            row
            for rule in self.rules[context.relation.predicate]
            for row in self.solve_rule(rule, context.arguments, context.solver, context.binding)
        ]
'''))
R("f-ir-import", IM, ('''        parser = SimpleInferenceRuleParser()
        with open(path) as rule_file:
            content = rule_file.read()
            rules, pos = parser.parse(content)
            if pos is not None:
                raise Exception("Unable to parse inference on token " + str(pos) + " in file " + path)
            for rule in rules:
                self.insert_rule(rule)
''', '''        with open(path) as rule_file:
            content = rule_file.read()

        rules, pos = SimpleInferenceRuleParser().parse(content)
        if pos is None:
            for rule in rules:
                self.insert_rule(rule)
        else:
            raise Exception("Unable to parse inference on token " + str(pos) + " in file " + path)
'''))
R("f-ir-learn", IM, ('''        bound_head = bind_variables(head, context.binding)
        bound_body = bind_variables(body, context.binding)

        self.insert_rule(InferenceRule(bound_head, bound_body))
''', '''        rule = InferenceRule(*[bind_variables(part, context.binding) for part in (head, body)])
        self.insert_rule(rule)
'''))
# --- sparql
R("f-sp-terms", SQ, ('''        terms = [
            self.prepare_term(values[0], 0, columns),
            self.prepare_term(values[1], 1, columns)
        ]
''', '''        terms = [self.prepare_term(value, index, columns) for index, value in enumerate(values[:2])]
'''))
R("f-sp-status", SQ, ('''        if response.status_code == 403:
            raise Exception("Not allowed: " + str(response.text))
        if response.status_code == 429:
            raise Exception("Too many requests: " + str(response.text))
        if response.status_code == 400:
            raise Exception("Bad request: " + str(response.text))
        if response.status_code != 200:
            raise Exception("Unexpected response (" + str(response.status_code) + "): " + str(response.text))

        # Parse the JSON response
        data = response.json()

        # create results from response data
        results = self.prepare_results(data, values, terms)

        return results
''', '''        self.check_response(response)

        return self.prepare_results(response.json(), values, terms)


    def check_response(self, response):
        status = response.status_code
        if status == 200:
            return
        errors = {
            403: "Not allowed",
            429: "Too many requests",
            400: "Bad request",
        }
        raise Exception(errors.get(status, "Unexpected response (" + str(status) + ")") + ": " + str(response.text))
'''))
R("f-sp-rows", SQ, ('''        results = []
        for item in data['results']['bindings']:

            result = []
            for i in range(2):
                if values[i] == None:
                    # drop the preceding '?'
                    var = terms[i][1:]
                    value = item[var]['value']
                    result.append(value)
                else:
                    result.append(values[i])

            results.append(result)
        return results
''', '''        return [
            [self.result_value(item, value, term) for value, term in zip(values, terms)]
            for item in data['results']['bindings']
        ]


    def result_value(self, item: dict, value: any, term: str):
        if value is not None:
            return value
        # drop the preceding '?'
        return item[term[1:]]['value']
'''))
R("f-sp-cache", SQ, ('''        if self.result_cache_path:
            input_string = table + str(columns) + str(values)
            cache_key = hashlib.sha1(input_string.encode()).hexdigest()
            file_name = self.result_cache_path + "/" + cache_key + ".pickle"
            try:''', '''        if self.result_cache_path:
            file_name = self.cache_file(table, columns, values)
            try:'''), ('''    def do_select(''', '''    def cache_file(self, table: str, columns: list[str], values: list) -> str:
        request = table + str(columns) + str(values)
        digest = hashlib.sha1(request.encode()).hexdigest()
        return f"{self.result_cache_path}/{digest}.pickle"


    def do_select('''))
R("f-sp-vars", SQ, ('''        variables = []
        for i in range(2):
            if values[i] == None:
                variables.append(terms[i])
        if len(variables) == 0:
            variables = ["*"]
        return variables
''', '''        variables = [term for value, term in zip(values, terms) if value is None]
        return variables or ["*"]
'''), ('''        variables = []
        for i in range(2):
            if values[i] == None and columns[i] == TEXT:
                variables.append(terms[i])
        return variables
''', '''        return [
            terms[i]
            for i in (0, 1)
            if columns[i] == TEXT and values[i] is None
        ]
'''))
R("f-sp-query", SQ, ('''        locale_filter = ""

        for text_variable in text_variables:
            locale_filter += """
                FILTER(LANG({}) = "{}") .
            """.format(text_variable, self.lang)
''', '''        locale_filter = "".join(f"""
                FILTER(LANG({text_variable}) = "{self.lang}") .
            """ for text_variable in text_variables)
'''))
R("f-sp-term", SQ, ('''        if term == None:
            prepared = "?term" + str(index)
        elif isinstance(term, str):
            if columns[index] == ID:
                prepared = "<{}>".format(self.escape_iri(term))
            elif columns[index] == CONSTANT:
                prepared = term
            else:
                # todo: locale
                prepared = "'{}'@{}".format(self.escape_literal(term), self.lang)
        else:
            prepared = str(term)
        return prepared
''', '''        if term is None:
            return f"?term{index}"

        if not isinstance(term, str):
            return str(term)

        column = columns[index]
        if column == ID:
            return "<" + self.escape_iri(term) + ">"
        if column == CONSTANT:
            return term

        # todo: locale
        return f"'{self.escape_literal(term)}'@{self.lang}"
'''))
R("f-sp-escape", SQ, ('''        for char, escaped in [("\\\\", "\\\\\\\\"), ("'", "\\\\'"), ("\\n", "\\\\n"), ("\\r", "\\\\r")]:
            text = text.replace(char, escaped)
        return text
''', '''        replacements = {"\\\\": "\\\\\\\\", "'": "\\\\'", "\\n": "\\\\n", "\\r": "\\\\r"}
        return "".join(replacements.get(char, char) for char in text)
'''))
# --- simple data source
R("f-sd-match", SI, ('''        if not table in self.store:
            return []

        results = []

        for record in self.store[table]:
            ok = True
            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
            if ok:
                result = [record.get(column) for column in columns]
                results.append(result)

        return results
''', '''        return [
            [record.get(column) for column in columns]
            for record in self.store.get(table, [])
            if self.matches(record, values)
        ]


    def matches(self, record: dict, values: dict) -> bool:
        for key in values:
            if record.get(key) != values[key]:
                return False
        return True
'''))
R("f-sd-insert", SI, ('''        values = dict(zip(columns, values))

        if not table in self.store:
            self.store[table] = []

        self.store[table].append(values)
''', '''        record = {column: value for column, value in zip(columns, values)}
        self.store.setdefault(table, []).append(record)
'''))
# --- grammar rules
R("f-gs-add", GS, ('''        if not antecedent in self.index:
            self.index[antecedent] = {}
        if not argument_count in self.index[antecedent]:
            self.index[antecedent][argument_count] = []

        # create a variant of the rule for all permutations of optional constituents
        for variant in self.create_rule_variants(rule):
            self.index[antecedent][argument_count].append(variant)
''', '''        by_count = self.index.setdefault(antecedent, {})
        rules = by_count.setdefault(argument_count, [])

        # create a variant of the rule for all permutations of optional constituents
        rules.extend(self.create_rule_variants(rule))
'''))
R("f-gs-find", GS, ('''        if antecedent in self.index and argument_count in self.index[antecedent]:
            return self.index[antecedent][argument_count]
        else:
            return []

    def find_argument_counts(self, antecedent: str) -> list[GrammarRule]:
        if antecedent in self.index:
            return self.index[antecedent]
        else:
            return []
''', '''        return self.index.get(antecedent, {}).get(argument_count, [])

    def find_argument_counts(self, antecedent: str) -> list[GrammarRule]:
        return self.index.get(antecedent, [])
'''))
R("f-gs-variant", GS, ('''        variants = []
        for consequent_variant in consequent_variants:
            new_rule = copy.copy(rule)
            new_rule.consequents = consequent_variant
            new_rule.update_hash()
            variants.append(new_rule)

        return variants
''', '''        return [self.create_variant(rule, consequents) for consequents in consequent_variants]


    def create_variant(self, rule: GrammarRule, consequents: list) -> GrammarRule:
        variant = copy.copy(rule)
        variant.consequents = consequents
        variant.update_hash()
        return variant
'''))
R("f-gs-loop", GS, ('''        if index == len(rule.consequents):
            return variants

        consequent = rule.consequents[index]
        look_ahead_consequent = rule.consequents[index+1] if index+1 < len(rule.consequents) else None

        skip = 1

        # ... _'the'? ...
        if consequent.separator and look_ahead_consequent and not look_ahead_consequent.separator:
            # the separator belongs to the part that follows it; at the start of a variant there is nothing to separate
            part = look_ahead_consequent
            new_variants = [v + [consequent, part] if v else [part] for v in variants]
            # ... ~ ...
            if consequent.optional:
                new_variants.extend([v + [part] for v in variants if v])
            skip = 2
        else:
            part = consequent
            new_variants = [v + [part] for v in variants]

        if part.optional:
            new_variants.extend(variants)

        return self.create_rule_variants_rest(rule, index+skip, new_variants)
''', '''        count = len(rule.consequents)

        while index < count:
            consequent = rule.consequents[index]
            index += 1
            separator = None

            # ... _'the'? ...
            if consequent.separator and index < count and not rule.consequents[index].separator:
                separator = consequent
                consequent = rule.consequents[index]
                index += 1

            if separator is None:
                extended = [v + [consequent] for v in variants]
            else:
                # the separator belongs to the part that follows it; at the start of a variant there is nothing to separate
                extended = [v + [separator, consequent] if v else [consequent] for v in variants]
                # ... ~ ...
                if separator.optional:
                    extended += [v + [consequent] for v in variants if v]

            variants = extended + variants if consequent.optional else extended

        return variants
'''))
R("f-gr-equals", GR, ('''        if not self.antecedent.equals(other_rule.antecedent):
            return False

        if len(self.consequents) != len(other_rule.consequents):
            return False

        for i, consequent in enumerate(self.consequents):
            if not consequent.equals(other_rule.consequents[i]):
                return False

        return True
''', '''        return (
            len(self.consequents) == len(other_rule.consequents)
            and self.antecedent.equals(other_rule.antecedent)
            and all(mine.equals(theirs) for mine, theirs in zip(self.consequents, other_rule.consequents))
        )
'''))
R("f-gr-meaning", GR, ('''        if self.antecedent.arguments != other_rule.antecedent.arguments:
            return False

        if [c.arguments for c in self.consequents] != [c.arguments for c in other_rule.consequents]:
            return False

        return self.sem is other_rule.sem and self.exec is other_rule.exec and \\
            self.dialog is other_rule.dialog and self.boost == other_rule.boost
''', '''        if self.boost != other_rule.boost:
            return False

        for mine, theirs in [(self.sem, other_rule.sem), (self.exec, other_rule.exec), (self.dialog, other_rule.dialog)]:
            if mine is not theirs:
                return False

        return self.all_arguments() == other_rule.all_arguments()


    def all_arguments(self) -> list[list]:
        return [part.arguments for part in [self.antecedent] + self.consequents]
'''))
# --- chart
R("f-cs-eq", CS, ('''        return self.rule.equals(other_state.rule) and \\
               (self.is_terminal() or self.rule.has_same_meaning(other_state.rule)) and \\
               self.dot_position == other_state.dot_position and \\
               self.start_char_index == other_state.start_char_index and \\
               self.end_char_index == other_state.end_char_index
''', '''        if self.position() != other_state.position():
            return False
        if not self.rule.equals(other_state.rule):
            return False
        return self.is_terminal() or self.rule.has_same_meaning(other_state.rule)


    def position(self) -> tuple:
        return (self.dot_position, self.start_char_index, self.end_char_index)
'''))
R("f-te-trees", TE, ('''    trees = []

    if state.is_terminal():
        trees.append(ParseTreeNode(
            state.rule.antecedent.predicate,
            [],
            state.rule.consequents[0].predicate,
            state.rule
        ))
    else:
''', '''    category = state.rule.antecedent.predicate

    if state.is_terminal():
        return [ParseTreeNode(category, [], state.rule.consequents[0].predicate, state.rule)]

    trees = []
    if True:
'''), ('''                trees.append(ParseTreeNode(
                    state.rule.antecedent.predicate,
                    permutation_trees,
                    "",
                    state.rule
                ))
''', '''                node = ParseTreeNode(category, permutation_trees, "", state.rule)
                trees.append(node)
'''))
R("f-te-seq", TE, ('''    sequences = []
    for state in chart.completed_states[end_char_index]:
        if state.rule.antecedent.equals(parent_state.rule.consequents[consequent_index]):
            if consequent_index == 0:
                if state.start_char_index == parent_state.start_char_index:
                    sequences.append([state])
            else:
                # find one or more preceding sequences of this state
                for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                    sequences.append(previous_sequence + [state])
    return sequences
''', '''    consequent = parent_state.rule.consequents[consequent_index]
    candidates = [state for state in chart.completed_states[end_char_index] if state.rule.antecedent.equals(consequent)]

    if consequent_index == 0:
        return [[state] for state in candidates if state.start_char_index == parent_state.start_char_index]

    sequences = []
    for state in candidates:
        # find one or more preceding sequences of this state
        earlier = find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1)
        sequences.extend([*previous, state] for previous in earlier)
    return sequences
'''))
R("f-te-perm", TE, ('''    return list(itertools.product(*things))''', '''    permutations = [()]
    for options in things:
        permutations = [done + (option,) for done in permutations for option in options]
    return permutations'''))
R("f-te-roots", TE, ('''    gamma_nodes = create_trees_for_state(chart, gamma_state)

    # strip the gamma and delta nodes
    return [gamma_node.children[0].children[0] for gamma_node in gamma_nodes]
''', '''    # strip the gamma and delta nodes
    roots = []
    for gamma_node in create_trees_for_state(chart, gamma_state):
        delta_node = gamma_node.children[0]
        roots.append(delta_node.children[0])
    return roots
'''))
# --- optimizer
R("f-co-loop", CO, ('''        if len(todo) == 0:
            return done

        results = []
        for atom in todo:
            cost = self.calculate_cost(atom, bound_variables, model)
            results.append({'atom': atom, 'cost': cost})

        results.sort(key=lambda result: result['cost'])
        sorted = [result['atom'] for result in results]

        sorted_first_atom = self.sort_arguments(sorted[0], model, bound_variables)
        bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))

        return self.sort_rest(done + [sorted_first_atom], sorted[1:], model, bound_variables)
''', '''        if not todo:
            return done

        by_cost = sorted(todo, key=lambda atom: self.calculate_cost(atom, bound_variables, model))
        first = self.sort_arguments(by_cost[0], model, bound_variables)

        return self.sort_rest(
            done + [first],
            by_cost[1:],
            model,
            bound_variables.union(get_atom_variables(first))
        )
'''))
R("f-co-args", CO, ('''        atom_as_list = list(atom)
        replaced = False
        for i, arg in enumerate(atom):
            if isinstance(arg, list):
                if len(arg) > 0 and isinstance(arg[0], tuple):
                    atom_as_list[i] = self.sort(arg, model, bound_variables)
                    replaced = True
        if replaced:
            return tuple(atom_as_list)
        else:
            return atom
''', '''        return tuple([self.sort(arg, model, bound_variables) if self.is_atoms(arg) else arg for arg in atom])


    def is_atoms(self, arg: any) -> bool:
        return isinstance(arg, list) and len(arg) > 0 and isinstance(arg[0], tuple)
'''))
R("f-co-cost", CO, ('''        costs = []
        for relation in relations:
            unbound_argument_size_product = 1
            arguments = atom[1:]

            if relation.relation_size == IGNORED:
                cost = INFINITE
            else:

                if len(arguments) != len(relation.argument_sizes):
                    raise Exception("Number of argument sizes doesn't match that of relation: " + predicate)

                for argument, argument_size in zip(arguments, relation.argument_sizes):

                    if argument_size == IGNORED:
                        pass
                    elif isinstance(argument, Variable):
                        if argument.name in bound_variables:
                            unbound_argument_size_product *= argument_size
                    elif isinstance(argument, list):
                        pass
                    elif isinstance(argument, tuple):
                        pass
                    else:
                        unbound_argument_size_product *= argument_size

                cost = relation.relation_size / unbound_argument_size_product

            costs.append(cost)

        # if the predicate occurs in multiple relations, take the maximal cost
        # (not the sum of the costs, because we don't want to double the cost with 2 simular relations)
        return max(costs)
''', '''        # if the predicate occurs in multiple relations, take the maximal cost
        # (not the sum of the costs, because we don't want to double the cost with 2 simular relations)
        return max(self.relation_cost(relation, predicate, atom[1:], bound_variables) for relation in relations)


    def relation_cost(self, relation, predicate: str, arguments: tuple, bound_variables: set):
        if relation.relation_size == IGNORED:
            return INFINITE

        if len(arguments) != len(relation.argument_sizes):
            raise Exception("Number of argument sizes doesn't match that of relation: " + predicate)

        product = 1
        for argument, size in zip(arguments, relation.argument_sizes):
            if size != IGNORED and self.is_bound(argument, bound_variables):
                product *= size

        return relation.relation_size / product


    def is_bound(self, argument: any, bound_variables: set) -> bool:
        if isinstance(argument, Variable):
            return argument.name in bound_variables
        return not isinstance(argument, (list, tuple))
'''))
R("f-fr-tuple", FR, ('''        name_resolvers = []
        rest_composition = []

        for term in terms:
            if isinstance(term, list):
                child_name_resolvers, child = self.extract_list(term)
                name_resolvers.extend(child_name_resolvers)
                rest_composition.append(child)
            else:
                rest_composition.append(term)

        return name_resolvers, tuple(rest_composition)
''', '''        name_resolvers = []
        rest = list(terms)

        for i, term in enumerate(terms):
            if isinstance(term, list):
                found, rest[i] = self.extract_list(term)
                name_resolvers += found

        return name_resolvers, tuple(rest)
'''))
R("f-fr-list", FR, ('''            if isinstance(atom, list):
                child_name_resolvers, child = self.extract_list(atom)
                name_resolvers.extend(child_name_resolvers)
                rest_composition.append(child)
            elif isinstance(atom, tuple):
                if atom[0] == RESOLVE_NAME:
                    name_resolvers.append(atom)
                else:
                    child_name_resolvers, child = self.extract_tuple(atom)
                    name_resolvers.extend(child_name_resolvers)
                    rest_composition.append(child)
            else:
                rest_composition.append(atom)
''', '''            if isinstance(atom, tuple) and atom[0] == RESOLVE_NAME:
                name_resolvers.append(atom)
                continue

            if isinstance(atom, list):
                found, atom = self.extract_list(atom)
            elif isinstance(atom, tuple):
                found, atom = self.extract_tuple(atom)
            else:
                found = []

            name_resolvers.extend(found)
            rest_composition.append(atom)
'''))
# --- grammar parser
R("f-sg-fields", SG, ('''        sem = None
        if write_rules:
            if 'if' in simple_rule:
                sem = simple_rule['if']
        else:
            if 'sem' in simple_rule:
                sem = simple_rule['sem']

        exec = None
        if write_rules:
            if 'format' in simple_rule:
                exec = simple_rule['format']
        else:
            if 'exec' in simple_rule:
                exec = simple_rule['exec']

        post = None
        if write_rules:
            if 'post' in simple_rule:
                post = simple_rule['post']

        dialog = []
        if 'dialog' in simple_rule:
            dialog = simple_rule['dialog']

        boost = 0
        if 'boost' in simple_rule:
            boost = simple_rule['boost']
''', '''        if write_rules:
            sem = simple_rule.get('if')
            exec = simple_rule.get('format')
            post = simple_rule.get('post')
        else:
            sem = simple_rule.get('sem')
            exec = simple_rule.get('exec')
            post = None

        dialog = simple_rule.get('dialog', [])
        boost = simple_rule.get('boost', 0)
'''))
R("f-sg-consequent", SG, ('''            else:

                regexp, new_pos = self.parse_regexp(tokens, pos)
                if regexp:
                    pos = new_pos
                    atom = RuleConstituent(regexp, [], POS_TYPE_REG_EXP)
                    consequents.append(atom)
                else:

                    string, new_pos = self.parse_string(tokens, pos)
                    if not string:
                        break

                    pos = new_pos
                    optional = False
                    found, new_pos = self.parse_optional_marker(tokens, pos)
                    if found:
                        pos = new_pos
                        optional = True

                    atom = RuleConstituent(string, [], POS_TYPE_WORD_FORM, optional=optional)
                    consequents.append(atom)
''', '''            else:
                atom, new_pos = self.parse_literal(tokens, pos)
                if not atom:
                    break
                pos = new_pos
                consequents.append(atom)
'''), ('''    def parse_variable(''', '''    def parse_literal(self, tokens: list[str], pos: int):
        regexp, new_pos = self.parse_regexp(tokens, pos)
        if regexp:
            return RuleConstituent(regexp, [], POS_TYPE_REG_EXP), new_pos

        string, new_pos = self.parse_string(tokens, pos)
        if not string:
            return None, 0
        pos = new_pos

        optional, new_pos = self.parse_optional_marker(tokens, pos)
        if optional:
            pos = new_pos

        return RuleConstituent(string, [], POS_TYPE_WORD_FORM, optional=optional), pos


    def parse_variable('''))
R("f-sg-quoted", SG, ('''        if token[0] == "'":
            pos = new_pos
            return token[1:-1].replace("\\\\'", "'"), pos

        if token[0] == '"':
            pos = new_pos
            return token[1:-1].replace('\\\\"', '"'), pos

        return None, 0
''', '''        quote = token[0]
        if quote not in ("'", '"'):
            return None, 0

        return token[1:-1].replace("\\\\" + quote, quote), new_pos
'''))
R("f-sg-terms", SG, ('''        while True:

            term, new_pos = self.parse_variable(tokens, pos)
            if not term:
                break
            pos = new_pos
            terms.append(term)

            comma, new_pos = self.parse_token(tokens, pos)
            if comma != ",":
                break
            pos = new_pos
''', '''        term, new_pos = self.parse_variable(tokens, pos)
        while term:
            pos = new_pos
            terms.append(term)

            comma, new_pos = self.parse_token(tokens, pos)
            if comma != ",":
                break
            pos = new_pos
            term, new_pos = self.parse_variable(tokens, pos)
'''))
R("f-sg-expect", SG, ('''        open, new_pos = self.parse_token(tokens, pos)
        if open != "(":
            return None, 0
        pos = new_pos
''', '''        found, pos = self.expect(tokens, pos, "(")
        if not found:
            return None, 0
'''), ('''        open, new_pos = self.parse_token(tokens, pos)
        if open != ")":
            return None, 0
        pos = new_pos
''', '''        found, pos = self.expect(tokens, pos, ")")
        if not found:
            return None, 0
'''), ('''    def parse_identifier(''', '''    def expect(self, tokens: list[str], pos: int, expected: str):
        token, new_pos = self.parse_token(tokens, pos)
        if token == expected:
            return True, new_pos
        return False, pos


    def parse_identifier('''))
# --- inference parser
R("f-ip-parse", IP, ('''        rules = []
        tokens = re.findall(self.re_tokens, text)
        pos = 0

        while True:
            rule, new_pos = self.parse_rule(tokens, pos)
            if rule:
                rules.append(rule)
                pos = new_pos
            else:
                break
''', '''        rules = []
        tokens = self.re_tokens.findall(text)
        pos = 0

        rule, new_pos = self.parse_rule(tokens, pos)
        while rule:
            rules.append(rule)
            pos = new_pos
            rule, new_pos = self.parse_rule(tokens, pos)
'''))
R("f-ip-token", IP, ('''        if pos >= len(tokens):
            return None, pos

        # skip comment
        token = tokens[pos]
        if token[0] == '#':
            return self.parse_token(tokens, pos+1)

        return tokens[pos], pos + 1
''', '''        # skip comment
        while pos < len(tokens) and tokens[pos][0] == '#':
            pos += 1

        if pos < len(tokens):
            return tokens[pos], pos + 1

        return None, pos
'''))
R("f-ip-term", IP, ('''        if token[0] == "'":
            pos = new_pos
            return token[1:-1].replace("\\\\'", "'"), pos

        if token[0] == '"':
            pos = new_pos
            return token[1:-1].replace('\\\\"', '"'), pos

        if re.match(self.re_float, token):
            pos = new_pos
            return float(token), pos

        if re.match(self.re_int, token):
            pos = new_pos
            return int(token), pos

        if re.match(self.re_variable, token):
            pos = new_pos
            return Variable(token), pos
''', '''        quote = token[0]
        if quote == "'" or quote == '"':
            return self.unquote(token), new_pos

        for pattern, create in [(self.re_float, float), (self.re_int, int), (self.re_variable, Variable)]:
            if pattern.match(token):
                return create(token), new_pos
'''), ('''    def parse_token(''', '''    def unquote(self, token: str) -> str:
        quote = token[0]
        return token[1:-1].replace("\\\\" + quote, quote)


    def parse_token('''))
R("f-ip-alts", IP, ('''        atoms, new_pos = self.parse_grouped_atoms(tokens, pos)
        if atoms:
            pos = new_pos
            return atoms, pos

        atoms, new_pos = self.parse_ungrouped_atoms(tokens, pos)
        if atoms:
            pos = new_pos
            return atoms, pos

        return None, pos
''', '''        for parse in (self.parse_grouped_atoms, self.parse_ungrouped_atoms):
            atoms, new_pos = parse(tokens, pos)
            if atoms:
                return atoms, new_pos

        return None, pos
'''))
# --- dialog context and pipeline
R("f-bd-names", BD, ('''        name = values[0]
        body = values[1]
        self.data_source.insert('context', ['name'], [name])
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.data_source.delete('context', ['name'], [name])
        return [
            [None, None]
        ]
''', '''        name, body = values
        self.enter(name)
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.leave(name)
        return [
            [None, None]
        ]


    def enter(self, name: str):
        self.data_source.insert('context', ['name'], [name])


    def leave(self, name: str):
        self.data_source.delete('context', ['name'], [name])

'''), ('''        name = values[0]
        self.data_source.insert('context', ['name'], [name])
        return [
            [None]
        ]
''', '''        self.enter(values[0])
        return [[None]]
'''), ('''        name = values[0]
        self.data_source.delete('context', ['name'], [name])
        return [
            [None]
        ]
''', '''        self.leave(values[0])
        return [[None]]
'''))
R("f-bd-with", BD, ('''        self.data_source.insert('context', ['name'], [name])
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.data_source.delete('context', ['name'], [name])
        return [
            [None, None]
        ]
''', '''        self.start_context([name], context)
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.end_context([name], context)
        return [
            [None, None]
        ]
'''))
R("f-ml-get", ML, ('''        incoming: LanguageSelectorProduct = request.get_current_product(self.language_selector)

        if incoming.locale not in self.processors:
            raise Exception("No processor available for locale " + incoming.locale)

        return self.processors[incoming.locale].process(request)
''', '''        locale = request.get_current_product(self.language_selector).locale
        processor = self.processors.get(locale)

        if processor is None:
            raise Exception("No processor available for locale " + locale)

        return processor.process(request)
'''))
R("f-sm-add", SM, ('''        self.relations[relation.predicate] = relation
        if not relation.query_function:
            relation.query_function = self.query
        if not relation.write_function:
            relation.write_function = self.write
''', '''        relation.query_function = relation.query_function or self.query
        relation.write_function = relation.write_function or self.write
        self.relations[relation.predicate] = relation
'''))
