"""more rewrites that keep the behaviour, in the modules that corpus f leaves alone"""
E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
BG = "core/BasicGenerator.py"; SC = "processor/semantic_composer/SemanticComposer.py"; MO = "core/Model.py"; SY = "core/System.py"
EP = "processor/parser/earley/EarleyParser.py"; CH = "processor/parser/earley/entity/Chart.py"; BP = "processor/parser/BasicParser.py"
AT = "core/atoms.py"; II = "processor/semantic_composer/optimizer/IsolateIndependentParts.py"; CM = "module/CoreModule.py"
FA = "block/FindAll.py"; FO = "block/FindOne.py"; TF = "block/TryFirst.py"; S3 = "data_source/Sqlite3DataSource.py"; P2 = "data_source/PsycoPg2DataSource.py"
OS = "type/OrderedSet.py"; LO = "core/Logger.py"; DT = "core/DialogTester.py"; SR = "entity/SentenceRequest.py"; UW = "processor/parser/earley/unknown_word.py"
CI = "data_source/CsvImporter.py"; AE = "processor/semantic_executor/AtomExecutor.py"; ML = "processor/language_selector/Multilingual.py"
# --- generator
R("g-gen-vals-helper", BG, ('''        consequent_values = []

        consequent = rule.consequents[i]
        for a in range(len(consequent.arguments)):
            if consequent.position_type == POS_TYPE_WORD_FORM:
                consequent_value = ""
            else:
                consequent_variable = consequent.arguments[a]
                if consequent_variable in binding:
                    consequent_value = binding[consequent_variable]
                else:
                    consequent_value = ""

            consequent_values.append(consequent_value)

        return consequent_values
''', '''        consequent = rule.consequents[i]
        if consequent.position_type == POS_TYPE_WORD_FORM:
            return ["" for _ in consequent.arguments]
        return [self.get_bound_value(variable, binding) for variable in consequent.arguments]


    def get_bound_value(self, variable: str, binding: dict) -> any:
        if variable not in binding:
            return ""
        return binding[variable]
'''))
R("g-gen-vals-get", BG, ('''                consequent_variable = consequent.arguments[a]
                if consequent_variable in binding:
                    consequent_value = binding[consequent_variable]
                else:
                    consequent_value = ""
''', '''                consequent_value = binding.get(consequent.arguments[a], "")
'''))
R("g-gen-node-early", BG, ('''        words = []
        rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)

        if found:

            used_rules.append(rule)

            for i, consequent in enumerate(rule.consequents):
                consequent_vals = self.get_consequent_values(rule, i, binding)
                consequent_result = self.generate_single_consequent(rule, used_rules, consequent.predicate, consequent_vals, rule.consequents[i].position_type, consequent.optional)
                words.append(consequent_result)

                # todo?
                # if consequentValue.IsId() && !consequentValue.Equals(antecedentValue) {
                #     generator.state.MarkGenerated(consequentValue)

        else:
            if not optional:
                raise Exception(f"No rule found for {antecedent_cat}: {antecedent_values}")

        # combine the child results
        all_text = list(filter(lambda word: isinstance(word, str), words))
        if len(all_text) == len(words):
              # all strings: concatencate
              result = "".join(words)
        elif len(words) == 1:
            # single value: pick it
            result = words[0]
        else:
            # return a list of values (rare)
            result = words

        # postprocess (strip, capitalize first letter)
        if rule and rule.post:
            return rule.post(result)
        else:
            return result
''', '''        rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)

        if not found:
            if optional:
                return ""
            raise Exception(f"No rule found for {antecedent_cat}: {antecedent_values}")

        used_rules.append(rule)

        words = []
        for i, consequent in enumerate(rule.consequents):
            values = self.get_consequent_values(rule, i, binding)
            words.append(self.generate_single_consequent(rule, used_rules, consequent.predicate, values, consequent.position_type, consequent.optional))

        result = self.combine_words(words)

        # postprocess (strip, capitalize first letter)
        return rule.post(result) if rule.post else result


    def combine_words(self, words: list[any]) -> any:
        if all(isinstance(word, str) for word in words):
            # all strings: concatencate
            return "".join(words)
        if len(words) == 1:
            # single value: pick it
            return words[0]
        # return a list of values (rare)
        return words
'''))
R("g-gen-all-text", BG, ('''        all_text = list(filter(lambda word: isinstance(word, str), words))
        if len(all_text) == len(words):
''', '''        texts = [word for word in words if isinstance(word, str)]
        if len(texts) == len(words):
'''))
R("g-gen-any-nontext", BG, ('''        all_text = list(filter(lambda word: isinstance(word, str), words))
        if len(all_text) == len(words):
              # all strings: concatencate
              result = "".join(words)
        elif len(words) == 1:
            # single value: pick it
            result = words[0]
        else:
            # return a list of values (rare)
            result = words
''', '''        if any(not isinstance(word, str) for word in words):
            # a single value is picked, several make a list (rare)
            result = words[0] if len(words) == 1 else words
        else:
            # all strings: concatencate
            result = "".join(words)
'''))
R("g-gen-find-helper", BG, ('''            binding = {}
            for rule_antecedent_variable, antecedent_value in zip(rule.antecedent.arguments, antecedent_values):
                binding[rule_antecedent_variable] = antecedent_value
''', '''            binding = dict(zip(rule.antecedent.arguments, antecedent_values))
'''), ('''            if not rule.sem:
                # no condition
                match = binding

            else:

                # match the condition
                # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
                match_bindings = self.solver.solve(rule.sem, binding)

                match = match_bindings[0] if len(match_bindings) > 0 else None


            if match is not None:
                result_rule = rule
                result_binding = match
                found = True

                # make sure the same rule is not executed again and again
                if rule not in used_rules:
                    break
''', '''            match = self.match_condition(rule, binding)
            if match is None:
                continue

            found, result_rule, result_binding = True, rule, match

            # make sure the same rule is not executed again and again
            if rule not in used_rules:
                break
'''), ('''    def generate_single_consequent(''', '''    def match_condition(self, rule: GrammarRule, binding: dict) -> dict|None:
        # no condition
        if not rule.sem:
            return binding

        # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
        for match in self.solver.solve(rule.sem, binding):
            return match
        return None


    def generate_single_consequent('''))
R("g-gen-find-return", BG, ('''        found = False
        result_rule = None
        result_binding = {}

        rules =''', '''        result = (None, {}, False)

        rules ='''), ('''                result_rule = rule
                result_binding = match
                found = True
''', '''                result = (rule, match, True)
'''), ('''        return result_rule, result_binding, found
''', '''        return result
'''))
R("g-gen-single-returns", BG, ('''        if position_type == POS_TYPE_WORD_FORM:
            result = category
        elif category == CATEGORY_VALUE:
            result = values[0]
        elif category == CATEGORY_TEXT:
            result = str(values[0])
        elif category == CATEGORY_FORMAT:
            result = rule.exec(*values)
        else:
            result = self.generate_node(used_rules, category, values, optional)

        return result''', '''        if position_type == POS_TYPE_WORD_FORM:
            return category
        if category == CATEGORY_FORMAT:
            return rule.exec(*values)
        if category in (CATEGORY_VALUE, CATEGORY_TEXT):
            value = values[0]
            return value if category == CATEGORY_VALUE else str(value)
        return self.generate_node(used_rules, category, values, optional)'''))
R("g-gen-output-with", BG, ('''        try:
            return self.generate_node([], "s", [], False)
        finally:''', '''        used_rules = []
        try:
            output = self.generate_node(used_rules, "s", [], optional=False)
            return output
        finally:'''))
# --- composer
R("g-com-map", SC, ('''        map = {}
        for i, arg in enumerate(node.rule.antecedent.arguments):
            map[arg] = incoming_variables[i]

        # complete map with other variables from the consequents
        for cons in node.rule.consequents:
            for i, arg in enumerate(cons.arguments):
                    if arg not in map:
                        map[arg] = self.variable_generator.next()

        return map
''', '''        map = {arg: incoming_variables[i] for i, arg in enumerate(node.rule.antecedent.arguments)}

        # complete map with other variables from the consequents
        for arg in [arg for cons in node.rule.consequents for arg in cons.arguments]:
            if arg in map:
                continue
            map[arg] = self.variable_generator.next()

        return map
'''))
R("g-com-children", SC, ('''        # collect the semantics of the child nodes
        child_semantics = []
        inferences = []
        executable = []


        for child, consequent in zip(node.children, node.rule.consequents):
            if not child.is_leaf_node():
                incoming_child_variables = [map[arg] for arg in consequent.arguments]
                semantics, child_inference, child_executable = self.compose(child, incoming_child_variables)
                inferences.extend(child_inference)
                executable.extend(child_executable)
                child_semantics.append(semantics)
            elif child.rule.sem:
                child_semantics.append(child.rule.sem())
''', '''        # collect the semantics of the child nodes
        child_semantics, inferences, executable = self.compose_children(node, map)
'''), ('''    def create_map(self''', '''    def compose_children(self, node: ParseTreeNode, map: dict[str, str]) -> tuple[list, list, list]:
        child_semantics = []
        inferences = []
        executable = []

        for child, consequent in zip(node.children, node.rule.consequents):
            if child.is_leaf_node():
                if child.rule.sem:
                    child_semantics.append(child.rule.sem())
                continue

            semantics, child_inferences, child_executable = self.compose(child, [map[arg] for arg in consequent.arguments])
            child_semantics.append(semantics)
            inferences += child_inferences
            executable += child_executable

        return child_semantics, inferences, executable


    def create_map(self'''))
R("g-com-dialog", SC, ('''        if callable(node.rule.dialog):
            inferences.extend(node.rule.dialog(*child_semantics))
        else:
            inferences.extend(node.rule.dialog)
''', '''        dialog = node.rule.dialog
        inferences.extend(dialog(*child_semantics) if callable(dialog) else dialog)
'''))
R("g-com-unify", SC, ('''        # replace the formal parameters in the semantics with the unified variables
        unified_semantics = self.unify_variables(semantics, map)

        # replace the formal parameters in the inferences with the unified variables
        unified_inferences = self.unify_variables(inferences, map)

        # replace the formal parameters in the executable with the unified variables
        unified_executable = self.unify_variables(executable, map)

        return unified_semantics, unified_inferences, unified_executable
''', '''        # replace the formal parameters with the unified variables
        return tuple(self.unify_variables(part, map) for part in (semantics, inferences, executable))
'''))
R("g-com-unify-cases", SC, ('''        elif isinstance(semantics, Variable) and semantics.name in map:
            return Variable(map[semantics.name])
        elif isinstance(semantics, ReifiedVariable) and semantics.name in map:
            return map[semantics.name]
        else:
            return semantics
''', '''
        if isinstance(semantics, (Variable, ReifiedVariable)):
            unified = map.get(semantics.name)
            if unified is not None:
                return Variable(unified) if isinstance(semantics, Variable) else unified

        return semantics
'''))
R("g-com-unify-tuple", SC, ('''            return tuple([self.unify_variables(term, map) for term in semantics])
''', '''            unified_terms = []
            for term in semantics:
                unified_terms.append(self.unify_variables(term, map))
            return tuple(unified_terms)
'''))
R("g-com-extend", SC, ('''        if isinstance(semantics, list) or isinstance(semantics, tuple):
            for term in semantics:
                self.extend_map_with_semantics(map, term)
        elif isinstance(semantics, SemanticTemplate):
            self.extend_map_with_semantics(map, semantics.body)
        elif isinstance(semantics, Variable):
            # since we're late in the game, don't replace variables that have already been replaced
            if semantics.name not in map and not self.variable_generator.isinstance(semantics):
                map[semantics.name] = self.variable_generator.next()
''', '''        if isinstance(semantics, Variable):
            # since we're late in the game, don't replace variables that have already been replaced
            if semantics.name in map or self.variable_generator.isinstance(semantics):
                return
            map[semantics.name] = self.variable_generator.next()
            return

        if isinstance(semantics, SemanticTemplate):
            semantics = semantics.body

        if isinstance(semantics, (list, tuple)):
            for term in semantics:
                self.extend_map_with_semantics(map, term)
'''))
R("g-com-optimize", SC, ('''        if self.query_optimizer:
            if not isinstance(semantics, list):
                raise Exception("Sentence semantics is not a list of atoms: " + str(semantics))

            semantics_iterations = self.query_optimizer.optimize(semantics, root_variables)
        else:
            semantics_iterations = {"Semantics": semantics}

        product = SemanticComposerProduct(semantics_iterations, inferences, executable, root_variables)
        return ProcessResult([product], "")
''', '''        iterations = self.optimize(semantics, root_variables)
        return ProcessResult([SemanticComposerProduct(iterations, inferences, executable, root_variables)], "")


    def optimize(self, semantics: any, root_variables: list[str]) -> dict[str, list]:
        if not self.query_optimizer:
            return {"Semantics": semantics}

        if isinstance(semantics, list):
            return self.query_optimizer.optimize(semantics, root_variables)

        raise Exception("Sentence semantics is not a list of atoms: " + str(semantics))
'''))
0 and R("g-com-check", SC, ('''        if node.form == "" and node.rule.sem is None:
            raise Exception("Rule '" + str(node.rule) + "' is missing key 'sem'")

        for child in node.children:
            self.check_for_sem(child)
''', '''        nodes = [node]
        while nodes:
            current = nodes.pop(0)
            if current.form == "" and current.rule.sem is None:
                raise Exception("Rule '" + str(current.rule) + "' is missing key 'sem'")
            nodes = current.children + nodes
'''))
# --- model and system
R("g-mo-find", MO, ('''        result = []
        for module in self.modules:
            relations = module.get_relations()
            if relation in relations:
                result.append(relations[relation])
        return result''', '''        all_relations = [module.get_relations() for module in self.modules]
        return [relations[relation] for relations in all_relations if relation in relations]'''))
R("g-mo-init", MO, ('''        self.modules = [
            CoreModule(),
        ]
        self.modules.extend(modules)
''', '''        self.modules = [CoreModule(), *modules]
'''))
R("g-mo-get", MO, ('''            relations = module.get_relations()
            if relation in relations:
                result.append(relations[relation])
''', '''            found = module.get_relations().get(relation)
            if found is not None:
                result.append(found)
'''))
R("g-sy-link", SY, ('''        for i, block in enumerate(self.reader_pipeline):
            block.next_block = self.reader_pipeline[i+1] if i < len(self.reader_pipeline)-1 else terminal
''', '''        for i, block in enumerate(self.reader_pipeline):
            is_last = i == len(self.reader_pipeline) - 1
            if is_last:
                block.next_block = terminal
            else:
                block.next_block = self.reader_pipeline[i+1]
'''))
R("g-sy-link-zip", SY, ('''        for i, block in enumerate(self.reader_pipeline):
            block.next_block = self.reader_pipeline[i+1] if i < len(self.reader_pipeline)-1 else terminal
''', '''        for block, next_block in zip(self.reader_pipeline, self.reader_pipeline[1:] + [terminal]):
            block.next_block = next_block
'''))
R("g-sy-enter", SY, ('''        result = self.reader_pipeline[0].process(request)
        if result.error_type != "":
            Solver(self.model).solve([('store', [
                ('output_type', result.error_type),
                ('output_' + result.error_type, *result.error_args)])])
        else:
            # go to the last processor
            processor = self.reader_pipeline[-1].processor
            # get the product
            product = request.get_current_product(processor)
            # return its output value
            return product.get_output()
''', '''        result = self.reader_pipeline[0].process(request)
        if result.error_type == "":
            # return the output value of the product of the last processor
            last_block = self.reader_pipeline[-1]
            return request.get_current_product(last_block.processor).get_output()

        self.store_error(result.error_type, result.error_args)


    def store_error(self, error_type: str, error_args: list):
        atoms = [('output_type', error_type), ('output_' + error_type, *error_args)]
        Solver(self.model).solve([('store', atoms)])
'''))
# --- earley
R("g-ep-parse", EP, ('''        error = ""
        args = []

        if len(rootNodes) == 0:

            nextWord = find_unknown_word(chart)

            if nextWord != "":
                error = UNKNOWN_WORD
                args = [nextWord]
            elif len(text) == 0:
                error = NO_SENTENCE
            else:
                error = NOT_UNDERSTOOD

        return ProcessResult(
            products=rootNodes,
            error_type=error,
            error_args=args
        )
''', '''        if rootNodes:
            return ProcessResult(products=rootNodes, error_type="", error_args=[])

        error, args = self.find_error(chart, text)
        return ProcessResult(products=[], error_type=error, error_args=args)


    def find_error(self, chart: Chart, text: str) -> tuple[str, list]:
        nextWord = find_unknown_word(chart)
        if nextWord:
            return UNKNOWN_WORD, [nextWord]
        if text == "":
            return NO_SENTENCE, []
        return NOT_UNDERSTOOD, []
'''))
R("g-ep-build-delta", EP, ('''        for c in grammar_rules.find_argument_counts(ROOT_CATEGORY):
            variables = ["P" + str(j) for j in range(1, c+1)]
            delta_rule = GrammarRule(
                RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
                [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
                sem=lambda s: s
            )
            chart.enqueue(ChartState(delta_rule, 1, 0, 0), 0)
''', '''        for argument_count in grammar_rules.find_argument_counts(ROOT_CATEGORY):
            chart.enqueue(ChartState(self.create_delta_rule(argument_count), 1, 0, 0), 0)
'''), ('''    def predict(self''', '''    def create_delta_rule(self, argument_count: int) -> GrammarRule:
        variables = [f"P{j + 1}" for j in range(argument_count)]
        return GrammarRule(
            RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION),
            [RuleConstituent(ROOT_CATEGORY, variables, POS_TYPE_RELATION)],
            sem=lambda s: s
        )


    def predict(self'''))
R("g-ep-build-loop", EP, ('''            j = 0
            while j < len(chart.states[i]):

                # a state is a is_complete entry in the chart (rule, dot_position, start_char_index, end_char_index)
                state = chart.states[i][j]

                # check if the entry is parsed completely
                if not state.is_complete():

                    # add all entries that have this abstract consequent as their antecedent
                    self.predict(grammar_rules, chart, state)

                    # if the current token in the sentence has this part-of-speech, then
                    # we add a completed entry to the chart (part-of-speech => word)
                    if i < charCount:
                        self.scan(chart, state)
                else:

                    # proceed all other entries in the chart that have this entry's antecedent as their next consequent
                    self.complete(chart, state)

                j += 1
''', '''            states = chart.states[i]
            j = 0
            while j < len(states):
                self.process_state(grammar_rules, chart, states[j], i < charCount)
                j += 1
'''), ('''    def predict(self''', '''    def process_state(self, grammar_rules: GrammarRules, chart: Chart, state: ChartState, has_text: bool):
        # proceed all other entries in the chart that have this entry's antecedent as their next consequent
        if state.is_complete():
            self.complete(chart, state)
            return

        # add all entries that have this abstract consequent as their antecedent
        self.predict(grammar_rules, chart, state)

        # if the current token in the sentence has this part-of-speech, then
        # we add a completed entry to the chart (part-of-speech => word)
        if has_text:
            self.scan(chart, state)


    def predict(self'''))
R("g-ep-complete", EP, ('''            dot_position = charted_state.dot_position
            rule = charted_state.rule

            if (dot_position > len(rule.consequents)) or (rule.consequents[dot_position-1].predicate != completed_antecedent):
                continue

            # check if the types match
            if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
                continue

            # create a new state that is a dot-advancement of an older state
            advanced_state = ChartState(rule, dot_position+1, charted_state.start_char_index, completed_state.end_char_index)

            # enqueue the new state
            chart.enqueue(advanced_state, completed_state.end_char_index)
''', '''            if self.expects(charted_state, completed_state.rule.antecedent):
                # create a new state that is a dot-advancement of an older state
                advanced_state = ChartState(
                    charted_state.rule,
                    charted_state.dot_position + 1,
                    charted_state.start_char_index,
                    completed_state.end_char_index)

                # enqueue the new state
                chart.enqueue(advanced_state, completed_state.end_char_index)


    def expects(self, state: ChartState, antecedent: RuleConstituent) -> bool:
        if state.is_complete():
            return False

        consequent = state.rule.consequents[state.dot_position - 1]
        return consequent.predicate == antecedent.predicate and consequent.position_type == antecedent.position_type
'''), ('''        completed_antecedent = completed_state.rule.antecedent.predicate

''', ''))
R("g-ep-scan-early", EP, ('''            word = self.perform_regexp(chart.text, end_char_index, next_consequent.predicate)
            if word is not None:
                for i in range(1, len(word)+1):
                    sub_word = word[0:i]
                    # a part of the match only counts if it is a match by itself
                    if sub_word != word and not re.fullmatch(next_consequent.predicate, sub_word):
                        continue
                    sem = self.create_semantic_function_for_scanned_state(sub_word)
                    self.add_scanned_state(chart, state, sub_word, sem)
''', '''            word = self.perform_regexp(chart.text, end_char_index, next_consequent.predicate) or ""
            for i in range(len(word)):
                sub_word = word[:i+1]
                # a part of the match only counts if it is a match by itself
                if sub_word == word or re.fullmatch(next_consequent.predicate, sub_word):
                    self.add_scanned_state(chart, state, sub_word, self.create_semantic_function_for_scanned_state(sub_word))
'''))
R("g-ep-scan-elif", EP, ('''            found = self.read_word(chart.text, end_char_index, next_consequent.predicate)
            if found:
                word = next_consequent.predicate
                self.add_scanned_state(chart, state, word, None)
''', '''            expected = next_consequent.predicate
            if self.read_word(chart.text, end_char_index, expected):
                self.add_scanned_state(chart, state, expected, None)
'''), ('''        # match a string constant over multiple tokens
        if next''', '''        # match a string constant over multiple tokens
        elif next'''))
R("g-ep-regexp", EP, ('''        part = text[start_index:]
        result = re.match(regexp, part)
        word = None
        if result:
            word = result.group(0)

        return word
''', '''        result = re.match(regexp, text[start_index:])
        return result.group() if result is not None else None
'''))
R("g-ep-readword", EP, ('''        part = text[start_index:start_index+len(word)]
        return part.lower() == word
''', '''        end_index = start_index + len(word)
        return text[start_index:end_index].lower() == word
'''))
R("g-ep-predict", EP, ('''        consequentIndex = state.dot_position - 1
        nextConsequent = state.rule.consequents[consequentIndex]
        next_consequent_variables = state.rule.consequents[consequentIndex].arguments
        end_char_index = state.end_char_index

        for rule in grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables)) :

            predicted_state = ChartState(rule, 1, end_char_index, end_char_index)
            chart.enqueue(predicted_state, end_char_index)
''', '''        next_consequent = state.rule.consequents[state.dot_position - 1]
        position = state.end_char_index
        predicted_rules = grammar_rules.find_rules(next_consequent.predicate, len(next_consequent.arguments))
        for predicted in [ChartState(rule, 1, position, position) for rule in predicted_rules]:
            chart.enqueue(predicted, position)
'''))
R("g-ch-gamma", CH, ('''    def build_incomplete_gamma_state(self):
        return ChartState(
            GrammarRule(
                RuleConstituent(GAMMA, ["G"], POS_TYPE_RELATION),
                [RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION)],
            ),
            1, 0, 0)


    def build_complete_gamma_state(self):
        return ChartState(
            GrammarRule(
                RuleConstituent(GAMMA, ["G"], POS_TYPE_RELATION),
                [RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION)],
            ),
            2, 0, len(self.text))
''', '''    def build_gamma_state(self, dot_position: int, end_char_index: int):
        rule = GrammarRule(
            RuleConstituent(GAMMA, ["G"], POS_TYPE_RELATION),
            [RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION)],
        )
        return ChartState(rule, dot_position, 0, end_char_index)


    def build_incomplete_gamma_state(self):
        return self.build_gamma_state(1, 0)


    def build_complete_gamma_state(self):
        return self.build_gamma_state(2, len(self.text))
'''))
R("g-ch-index", CH, ('''        if not completed_state.end_char_index in self.completed_states:
            self.completed_states[completed_state.end_char_index] = []
        self.completed_states[completed_state.end_char_index].append(completed_state)
''', '''        self.completed_states.setdefault(completed_state.end_char_index, []).append(completed_state)
'''))
R("g-ch-enqueue", CH, ('''        found = state in self.states[position]
        if not found:
            self.states[position].add(state)

        return found
''', '''        queue = self.states[position]
        if state in queue:
            return True

        queue.add(state)
        return False
'''))
R("g-uw", UW, ('''    nextWord = ""
    last_understood_index = -1

    # for i = len(chart.states) - 1; i >= 0; i -= 1:
    for i in range(len(chart.states) - 1, -1, -1):
        states = chart.states[i]
        for state in states :
            if state.is_complete():
                if state.end_char_index > last_understood_index:
                    last_understood_index = state.end_char_index - 1

    if last_understood_index+1 < len(chart.text):
        nextWord = chart.text[last_understood_index+1:last_understood_index+10] + " ..."
    else:
        nextWord = ""

    return nextWord''', '''    last_understood_index = -1

    for states in reversed(chart.states):
        for state in states:
            if state.is_complete() and state.end_char_index > last_understood_index:
                last_understood_index = state.end_char_index - 1

    next_index = last_understood_index + 1
    if next_index >= len(chart.text):
        return ""

    return chart.text[next_index:last_understood_index+10] + " ..."'''))
R("g-bp", BP, ('''        sorted_trees = self.tree_sorter.sort_trees(result.products)
        products = [BasicParserProduct(tree) for tree in sorted_trees]
        return ProcessResult(
            products,
            result.error_type,
            result.error_args
        )
''', '''        products = []
        for tree in self.tree_sorter.sort_trees(result.products):
            products.append(BasicParserProduct(tree))
        return ProcessResult(products=products, error_type=result.error_type, error_args=result.error_args)
'''))
# --- atoms
R("g-at-vars", AT, ('''    variables = set()
    if isinstance(construct, Variable):
        variables.add(construct.name)
    elif isinstance(construct, tuple) or isinstance(construct, list):
        for arg in construct:
            for v in get_atom_variables(arg):
                variables.add(v)

    return list(variables)
''', '''    if isinstance(construct, Variable):
        return [construct.name]
    if not isinstance(construct, (tuple, list)):
        return []

    variables = set()
    for arg in construct:
        variables.update(get_atom_variables(arg))
    return list(variables)
'''))
R("g-at-atoms", AT, ('''    variables = set()
    for atom in atoms:
        for v in get_atom_variables(atom):
            variables.add(v)

    return list(variables)


def bind''', '''    return list({variable for atom in atoms for variable in get_atom_variables(atom)})


def bind'''))
R("g-at-bind", AT, ('''        if construct.name in binding:
            # add variable value
            return binding[construct.name]
        else:
            # non-bound variable
            return construct
''', '''        return binding.get(construct.name, construct)
'''))
R("g-at-bind-map", AT, ('''    if isinstance(construct, list):
        return [bind_variables(arg, binding) for arg in construct]
    # tuple
    elif isinstance(construct, tuple):
        return tuple([bind_variables(arg, binding) for arg in construct])
    # variable
    elif isinstance(construct, Variable):''', '''    if isinstance(construct, (list, tuple)):
        bound = []
        for arg in construct:
            bound.append(bind_variables(arg, binding))
        return bound if isinstance(construct, list) else tuple(bound)
    # variable
    elif isinstance(construct, Variable):'''))
# --- isolate
R("g-ii-main", II, ('''        head = atoms[0]
        head_variables = set(get_atom_variables(head))
        new_atoms = [head]

        batches = self.collect_batches(atoms[1:], head_variables)

        for batch in batches:
            # the batch contains root variables?
            if len(batch.variables & set(root_variables)) > 0:
                # make all atoms top level
                new_atoms.extend(batch.atoms)
            else:
                # do the same for the atoms in this batch
                recursed = self.isolate(batch.atoms, [])
                # isolate the batch
                new_atoms.append(('scoped', recursed))

        return new_atoms
''', '''        head, *rest = atoms
        new_atoms = [head]

        for batch in self.collect_batches(rest, set(get_atom_variables(head))):
            new_atoms += self.isolate_batch(batch, set(root_variables))

        return new_atoms


    def isolate_batch(self, batch: AtomBatch, root_variables: set[str]) -> list[tuple]:
        # the batch contains root variables: make all atoms top level
        if not batch.variables.isdisjoint(root_variables):
            return batch.atoms

        # isolate the batch, and do the same for the atoms in this batch
        return [('scoped', self.isolate(batch.atoms, []))]
'''))
R("g-ii-merge", II, ('''            for batch in collection:
                found = None
                for i, new_batch in enumerate(new_batches):
                    if len(batch.variables & new_batch.variables) > 0:
                        found = i
                        break
                if found == None:
                    new_batches.append(batch)
                else:
                    found_batch = new_batches[found]
                    new_batches[found] = AtomBatch(found_batch.atoms + batch.atoms, found_batch.variables | batch.variables)
''', '''            for batch in collection:
                found = self.find_connected(new_batches, batch)
                if found is None:
                    new_batches.append(batch)
                    continue
                found_batch = new_batches[found]
                new_batches[found] = AtomBatch(found_batch.atoms + batch.atoms, found_batch.variables | batch.variables)
'''), ('''    def restore_atom_order(self''', '''    def find_connected(self, batches: list[AtomBatch], batch: AtomBatch) -> int|None:
        for i, candidate in enumerate(batches):
            if batch.variables & candidate.variables:
                return i
        return None


    def restore_atom_order(self'''))
R("g-ii-collect", II, ('''        collection: list[AtomBatch] = []
        for atom in atoms:
            # note that the top level variables are excluded, they may occur in any batch
            variables = set(get_atom_variables(atom)) - excluded_variables
            collection.append(AtomBatch([atom], variables))
''', '''        # note that the top level variables are excluded, they may occur in any batch
        collection = [AtomBatch([atom], set(get_atom_variables(atom)) - excluded_variables) for atom in atoms]
'''))
R("g-ii-order", II, ('''        for atom in atoms:
            for batch_atom in remaining_atoms:
                if batch_atom == atom:
                    ordered_atoms.append(batch_atom)
                    # an atom that occurs more than once must not be added again
                    remaining_atoms.remove(batch_atom)
                    break

        ordered_batch = AtomBatch(ordered_atoms, batch.variables)
        return ordered_batch''', '''        for atom in atoms:
            if atom in remaining_atoms:
                ordered_atoms.append(atom)
                # an atom that occurs more than once must not be added again
                remaining_atoms.remove(atom)

        return AtomBatch(ordered_atoms, batch.variables)'''))
# --- core module
R("g-cm-compare", CM, ('''        e1 = values[0]
        e2 = values[1]

        if e1 is None:
            raise Exception("> first argument is unbound")
        if e2 is None:
            raise Exception("> second argument is unbound")

        if e1 > e2:
            return [values]
        return []
''', '''        e1, e2 = self.get_operands(">", values)
        return [values] if e1 > e2 else []


    def get_operands(self, operator: str, values: list) -> tuple:
        e1, e2 = values[:2]
        if e1 is None:
            raise Exception(operator + " first argument is unbound")
        if e2 is None:
            raise Exception(operator + " second argument is unbound")
        return e1, e2
'''))
R("g-cm-det-helper", CM, ('''        body, number = values

        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count == number:
            return [
                [None, None]
            ]
        else:
            return []
''', '''        body, number = values
        return self.succeed_if(self.count_results(body, context) == number)


    def count_results(self, body: list, context: ExecutionContext) -> int:
        return len(context.solver.solve(body, context.binding))


    def succeed_if(self, condition: bool) -> list[list]:
        return [[None, None]] if condition else []
'''))
R("g-cm-avg", CM, ('''        s = 0
        n = 0
        for result in results:
            s += result[element_var.name]
            n += 1

        average = s / n

        return [
            [average, None, None]
        ]
''', '''        total = sum_values(results, element_var.name)
        return [
            [total / len(results), None, None]
        ]
'''), ('''class CoreModule(''', '''def sum_values(results: list[dict], name: str):
    total = 0
    for result in results:
        total = total + result[name]
    return total


class CoreModule('''))
R("g-cm-argmin", CM, ('''        min = None
        entity = None
        for result in results:
            if min is None or result[element_var.name] < min:
                min = result[element_var.name]
                entity = result[min_var.name]
''', '''        min, entity = results[0][element_var.name], results[0][min_var.name]
        for result in results[1:]:
            value = result[element_var.name]
            if value < min:
                min, entity = value, result[min_var.name]
'''))
R("g-cm-argmax", CM, ('''        if len(results) == 0:
            return []

        max = None
        entity = None
        for result in results:
            if max is None or result[element_var.name] > max:
                max = result[element_var.name]
                entity = result[max_var.name]

        return [
            [entity, max, None]
        ]
''', '''        best = None
        for result in results:
            if best is None or result[element_var.name] > best[element_var.name]:
                best = result

        if best is None:
            return []

        return [
            [best[max_var.name], best[element_var.name], None]
        ]
'''))
R("g-cm-perc", CM, ('''        nominator_results = context.solver.solve(nominator, context.binding)
        denominator_results = context.solver.solve(denominator, context.binding)

        if len(denominator_results) == 0:
            return []

        percentage = (len(nominator_results) / len(denominator_results)) * 100.0

        return [
            [percentage, None, None]
        ]
''', '''        nominator_count = len(context.solver.solve(nominator, context.binding))
        denominator_count = len(context.solver.solve(denominator, context.binding))

        if not denominator_count:
            return []

        return [[100.0 * (nominator_count / denominator_count), None, None]]
'''))
R("g-cm-not", CM, ('''        results = context.solver.solve(body, context.binding)
        # print(values, context.binding, results)
        count = len(results)

        if count > 0:
            return []
        else:
            return [
                [None]
            ]
''', '''        if context.solver.solve(body, context.binding):
            return []
        return [[None]]
'''))
R("g-cm-all", CM, ('''        range_count = len(entities)
        results = OrderedSet()
        for entity in entities:
            b = context.binding | {
                quant_var.name: entity
            }
            bindings = context.solver.solve(body, b)
            if len(bindings) > 0:
                results.add(entity)

        result_count = len(results)

        success = result_count == range_count

        if success:
            return [[result, None, None] for result in results]
        else:
            return []
''', '''        for entity in entities:
            binding = context.binding | {quant_var.name: entity}
            if not context.solver.solve(body, binding):
                return []

        return [[entity, None, None] for entity in entities]
'''))
R("g-cm-store", CM, ('''        atoms = bind_variables(unbound_atoms, context.binding)

        for atom in atoms:
            context.solver.write_atom(atom)
''', '''        for unbound_atom in unbound_atoms:
            context.solver.write_atom(bind_variables(unbound_atom, context.binding))
'''))
R("g-cm-destructure", CM, ('''        fail_structure = [None] + [None] * len(structure)

        if len(atom) != len(structure):
            return [ fail_structure ]

        result = [None]
        for atom_term, structure_term in zip(atom, structure):
            if atom_term == structure_term:
                new_term = structure_term
            else:
                if isinstance(structure_term, Variable):
                    new_term = atom_term
                else:
                    return [ fail_structure ]

            result.append(new_term)
''', '''        no_values = [[None] * (len(structure) + 1)]

        if len(structure) != len(atom):
            return no_values

        result = [None]
        for i, structure_term in enumerate(structure):
            if atom[i] != structure_term and not isinstance(structure_term, Variable):
                return no_values
            result.append(atom[i])
'''))
R("g-cm-findall", CM, ('''        result = []

        for binding in context.solver.solve(body, context.binding):
            if is_list:
                item = []
                for v in variable:
                    if v in binding:
                        item.append(binding[v])
                    else:
                        item.append(None)
                # skip duplicates
                if not item in result:
                    result.append(item)
            else:
                # skip duplicates
                if variable in binding:
                    item = binding[variable]
                    if not item in result:
                        result.append(item)
''', '''        result = []

        for binding in context.solver.solve(body, context.binding):
            if is_list:
                item = [binding.get(v) for v in variable]
            elif variable in binding:
                item = binding[variable]
            else:
                continue

            # skip duplicates
            if item not in result:
                result.append(item)
'''))
R("g-cm-findone", CM, ('''        results = self.find_all(values, context)
        if len(results[0][2]) == 0:
            return []
        else:
            return [
                [None, None, results[0][2][0]]
            ]''', '''        found = self.find_all(values, context)[0][2]
        return [[None, None, found[0]]] if found else []'''))
R("g-cm-scoped", CM, ('''        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count == 0:
            result = []
        else:
            result = [
                [None]
            ]

        return result
''', '''        succeeded = len(context.solver.solve(body, context.binding)) != 0
        return [[None]] if succeeded else []
'''))
# --- blocks
R("g-fa", FA, ('''        success = False
        for product in result.products:

            request.set_current_product(self.processor, product)

            next_block_result = self.next_block.process(request)
            success = success or next_block_result.error_type == ""
            if next_block_result.error_type != "" and error_type == "":
                error_type = next_block_result.error_type
                error_args = next_block_result.error_args

        if success:
            return BlockResult("")
        else:
            return BlockResult(error_type, error_args)
''', '''        success = False
        for product in result.products:
            next_block_result = self.process_product(request, product)
            if next_block_result.error_type == "":
                success = True
            elif error_type == "":
                error_type, error_args = next_block_result.error_type, next_block_result.error_args

        return BlockResult("") if success else BlockResult(error_type, error_args)


    def process_product(self, request: SentenceRequest, product: any) -> BlockResult:
        request.set_current_product(self.processor, product)
        return self.next_block.process(request)
'''))
R("g-fa-results", FA, ('''        success = False
        for product in result.products:

            request.set_current_product(self.processor, product)

            next_block_result = self.next_block.process(request)
            success = success or next_block_result.error_type == ""
            if next_block_result.error_type != "" and error_type == "":
                error_type = next_block_result.error_type
                error_args = next_block_result.error_args

        if success:
            return BlockResult("")
        else:
            return BlockResult(error_type, error_args)
''', '''        block_results = []
        for product in result.products:
            request.set_current_product(self.processor, product)
            block_results.append(self.next_block.process(request))

        errors = [block_result for block_result in block_results if block_result.error_type != ""]
        if len(errors) == len(block_results) and len(errors) > 0:
            return BlockResult(errors[0].error_type, errors[0].error_args)

        return BlockResult("")
'''))
R("g-fo", FO, ('''        error_type = ""
        error_args = []

        for product in result.products:

            request.set_current_product(self.processor, product)

            next_block_result = self.next_block.process(request)
            if next_block_result.error_type == "":
               # first successful product found: quit
               return BlockResult('')
            elif error_type == "":
                error_type = next_block_result.error_type
                error_args = next_block_result.error_args

        return BlockResult(error_type, error_args)
''', '''        first_error = None

        for product in result.products:

            request.set_current_product(self.processor, product)

            next_block_result = self.next_block.process(request)
            if next_block_result.error_type == "":
                # first successful product found: quit
                return BlockResult('')
            if first_error is None:
                first_error = next_block_result

        if first_error is None:
            return BlockResult('', [])

        return BlockResult(first_error.error_type, first_error.error_args)
'''))
R("g-tf", TF, ('''        error_type = ""
        error_args = []

        for product in result.products:

            request.set_current_product(self.processor, product)

            next_block_result = self.next_block.process(request)
            error_type = next_block_result.error_type
            error_args = next_block_result.error_args

            # first product tried: quit
            break

        return BlockResult(error_type, error_args)
''', '''        if not result.products:
            return BlockResult("", [])

        # only the first product is tried
        request.set_current_product(self.processor, result.products[0])
        next_block_result = self.next_block.process(request)
        return BlockResult(next_block_result.error_type, next_block_result.error_args)
'''))
# --- data
R("g-s3-select", S3, ('''        where = "TRUE"
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                where += f" AND {column}=?"
                variables.append(value)

        cursor = self.connection.cursor()
        select = ','.join(columns)
''', '''        bound = [(column, value) for column, value in zip(columns, values) if value is not None]
        where = " AND ".join(["TRUE"] + [f"{column}=?" for column, _ in bound])
        variables = [value for _, value in bound]

        cursor = self.connection.cursor()
        select = ','.join(columns)
'''))
R("g-s3-where", S3, ('''        where = "TRUE"
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                where += f" AND {column}=?"
                variables.append(value)

        cursor = self.connection.cursor()
        select = ','.join(columns)
''', '''        where, variables = self.create_where(columns, values)
        select = ','.join(columns)
        cursor = self.connection.cursor()
'''), ('''    def insert(''', '''    def create_where(self, columns: list[str], values: list) -> tuple[str, list]:
        conditions = ["TRUE"]
        variables = []
        for i, column in enumerate(columns):
            if values[i] is None:
                continue
            conditions.append(f"{column}=?")
            variables.append(values[i])
        return " AND ".join(conditions), variables


    def insert('''))
R("g-s3-rows", S3, ('''        return [list(row) for row in (cursor.fetchall())]
''', '''        rows = []
        for row in cursor.fetchall():
            rows.append(list(row))
        return rows
'''))
R("g-p2-map", P2, ('''        return [list(row) for row in (cursor.fetchall())]
''', '''        return list(map(list, cursor.fetchall()))
'''))
R("g-ci", CI, ('''            line = 0
            headers = []
            for row in reader:
                if len(row) == 0:
                    continue
                line += 1
                if line == 1:
                    headers = row
                    # print(headers)
                else:
                    values = []
                    for header, element in zip(headers, row):
                        # # a | implements an array of values
                        # if "|" in element:
                        #     element = element.split("|")
                        # # integer
                        # elif element.lstrip("-+").isdigit():
                        #     element = int(element)
                        values.append(element)

                    # print(values)
                    data_source.insert(table_name, headers, values)''', '''            headers = None
            for row in reader:
                if not row:
                    continue
                if headers is None:
                    headers = row
                    continue
                values = [element for _, element in zip(headers, row)]
                data_source.insert(table_name, headers, values)'''))
# --- rest
R("g-os-get", OS, ('''        try:
            return next(itertools.islice(self._d, index, index + 1))
        except StopIteration:
            raise IndexError(f"index {index} out of range")
''', '''        for item in itertools.islice(self._d, index, index + 1):
            return item
        raise IndexError(f"index {index} out of range")
'''))
R("g-lo-active", LO, ('''        return (self.which_tests == ALL) or (self.which_tests == LAST and self.is_last_test)
''', '''        if self.which_tests == LAST:
            return self.is_last_test
        return self.which_tests == ALL
'''))
R("g-lo-process", LO, ('''        if self.is_active() and self.show_products == ALL:
            if not self.show_products_processors or processor in self.show_products_processors:
                self.add_header(processor.get_name())
                if result.error_type != "":
                    self.add_error(result.error_type)

                for product in result.products:
                    product.log(self)
''', '''        if not self.should_log_products(processor):
            return

        self.add_header(processor.get_name())
        if result.error_type:
            self.add_error(result.error_type)
        for product in result.products:
            product.log(self)


    def should_log_products(self, processor: SomeProcessor):
        if not self.is_active() or self.show_products != ALL:
            return False
        return len(self.show_products_processors) == 0 or processor in self.show_products_processors
'''))
R("g-lo-str", LO, ('''        s = ""
        for entry in self.entries:
            s += str(entry) + "\\n"
        return s
''', '''        return "".join([f"{entry}\\n" for entry in self.entries])
'''))
R("g-lo-colored", LO, ('''        self.entries.append(HEADER_COLOR + header + NO_COLOR + "\\n")
''', '''        self.add_colored(HEADER_COLOR, header)
'''), ('''        self.entries.append(ERROR_COLOR + error + NO_COLOR + "\\n")
''', '''        self.add_colored(ERROR_COLOR, error)


    def add_colored(self, color: str, text: str):
        self.add(color + text + NO_COLOR)
'''))
R("g-dt", DT, ('''        last = self.tests[-1] if len(self.tests) > 0 else None
        for i, test in enumerate(self.tests):

            question, expected = test

            log_this = self.logger.which_tests == ALL or (self.logger.which_tests == LAST and test == last)
            self.logger.is_last_test = log_this
''', '''        for i, test in enumerate(self.tests):

            question, expected = test

            log_this = self.should_log(test)
            self.logger.is_last_test = log_this
'''), ('''    def do_run(self):''', '''    def should_log(self, test) -> bool:
        if self.logger.which_tests == ALL:
            return True
        return self.logger.which_tests == LAST and test == self.tests[-1]


    def do_run(self):'''))
R("g-dt-start", DT, ('''                output = ''
                if self.system.output_generator:
                    output = self.system.read_output()

                error = output != expected

                if log_this or error:
                    self.logger.add_key_value''', '''                output = self.system.read_output() if self.system.output_generator else ''

                if log_this or output != expected:
                    self.logger.add_key_value'''))
R("g-sr-get", SR, ('''        if processor in self.current_products:
            return self.current_products[processor]
        else:
            return None
''', '''        return self.current_products.get(processor)
'''), ('''        if processor in self.alternative_products:
            return self.alternative_products[processor]
        else:
            return []
''', '''        return self.alternative_products.get(processor, [])
'''))
R("g-ae", AE, ('''        # store the inferences in the sentence context
        for inference in incoming.inferences:
            solver.write_atom(inference)

        # perform executable atoms
        solver.solve(incoming.executable)

        bindings = solver.solve(incoming.get_semantics_last_iteration())

        product = AtomExecutorProduct(bindings, solver.stats)

        return ProcessResult([product], "")
''', '''        self.store_inferences(solver, incoming.inferences)

        # perform executable atoms
        solver.solve(incoming.executable)

        semantics = incoming.get_semantics_last_iteration()
        return ProcessResult([AtomExecutorProduct(solver.solve(semantics), solver.stats)], "")


    def store_inferences(self, solver: Solver, inferences: list[tuple]):
        for inference in inferences:
            solver.write_atom(inference)
'''))
R("g-ml", ML, ('''        if incoming.locale not in self.processors:
            raise Exception("No processor available for locale " + incoming.locale)

        return self.processors[incoming.locale].process(request)
''', '''        processor = self.processors.get(incoming.locale)
        if processor is None:
            raise Exception("No processor available for locale " + incoming.locale)

        return processor.process(request)
'''))
