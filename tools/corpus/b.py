E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
GE = "core/BasicGenerator.py"; GR = "entity/GrammarRules.py"; RU = "entity/GrammarRule.py"; EA = "processor/parser/earley/EarleyParser.py"
CH = "processor/parser/earley/entity/Chart.py"; CS = "processor/parser/earley/entity/ChartState.py"; TX = "processor/parser/earley/tree_extract.py"
UW = "processor/parser/earley/unknown_word.py"; GP = "processor/parser/helper/SimpleGrammarRulesParser.py"; IP = "module/helper/SimpleInferenceRuleParser.py"
SY = "core/System.py"; SR = "entity/SentenceRequest.py"; RC = "entity/RuleConstituent.py"; BP = "processor/parser/BasicParser.py"
H = "processor/parser/tree_sort_heuristics/"
# ---- generator
R("gen-early", GE, ('''        words = []
        rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)

        if found:

            used_rules.append(rule)

            for i, consequent in enumerate(rule.consequents):
                consequent_vals = self.get_consequent_values(rule, i, binding)
                consequent_result = self.generate_single_consequent(rule, used_rules, consequent.predicate, consequent_vals, rule.consequents[i].position_type, consequent.optional)
                words.append(consequent_result)

                # todo?
                # if consequentValue.IsId() && !consequentValue.Equals(antecedentValue) {
                #     generator.state.MarkGenerated(consequentValue)

        else:
            if not optional:
                raise Exception(f"No rule found for {antecedent_cat}: {antecedent_values}")
''', '''        words = []
        rule, binding, found = self.find_rule(used_rules, antecedent_cat, antecedent_values)

        if not found and not optional:
            raise Exception(f"No rule found for {antecedent_cat}: {antecedent_values}")

        if found:
            used_rules.append(rule)
            for i, consequent in enumerate(rule.consequents):
                values = self.get_consequent_values(rule, i, binding)
                words.append(self.generate_single_consequent(rule, used_rules, consequent.predicate, values, consequent.position_type, consequent.optional))
'''))
R("gen-combine", GE, ('''        all_text = list(filter(lambda word: isinstance(word, str), words))
        if len(all_text) == len(words):
              # all strings: concatencate
              result = "".join(words)
        elif len(words) == 1:
            # single value: pick it
            result = words[0]
        else:
            # return a list of values (rare)
            result = words

        # postprocess (strip, capitalize first letter)
        if rule and rule.post:
            return rule.post(result)
        else:
            return result
''', '''        result = self.combine(words)

        # postprocess (strip, capitalize first letter)
        if rule and rule.post:
            result = rule.post(result)
        return result


    def combine(self, words: list):
        if all(isinstance(word, str) for word in words):
            return "".join(words)
        if len(words) == 1:
            return words[0]
        return words
'''))
R("gen-values-comp", GE, ('''        consequent_values = []

        consequent = rule.consequents[i]
        for a in range(len(consequent.arguments)):
            if consequent.position_type == POS_TYPE_WORD_FORM:
                consequent_value = ""
            else:
                consequent_variable = consequent.arguments[a]
                if consequent_variable in binding:
                    consequent_value = binding[consequent_variable]
                else:
                    consequent_value = ""

            consequent_values.append(consequent_value)

        return consequent_values
''', '''        consequent = rule.consequents[i]
        if consequent.position_type == POS_TYPE_WORD_FORM:
            return ["" for _ in consequent.arguments]

        return [binding.get(variable, "") for variable in consequent.arguments]
'''))
R("gen-values-iter", GE, ('''        for a in range(len(consequent.arguments)):
            if consequent.position_type == POS_TYPE_WORD_FORM:
                consequent_value = ""
            else:
                consequent_variable = consequent.arguments[a]
                if consequent_variable in binding:
''', '''        for consequent_variable in consequent.arguments:
            if consequent.position_type == POS_TYPE_WORD_FORM:
                consequent_value = ""
            else:
                if consequent_variable in binding:
'''))
R("find-rule-zip", GE, ('''            binding = {}
            for rule_antecedent_variable, antecedent_value in zip(rule.antecedent.arguments, antecedent_values):
                binding[rule_antecedent_variable] = antecedent_value
''', '''            binding = dict(zip(rule.antecedent.arguments, antecedent_values))
'''))
R("find-rule-helper", GE, ('''            if not rule.sem:
                # no condition
                match = binding

            else:

                # match the condition
                # will bind the E2 in the example ([('output_type', 'declarative'), ('output_subject', E1, E2)])
                match_bindings = self.solver.solve(rule.sem, binding)

                match = match_bindings[0] if len(match_bindings) > 0 else None


            if match is not None:
''', '''            match = self.match_condition(rule, binding)

            if match is not None:
'''), ('''    def generate_single_consequent(''', '''    def match_condition(self, rule: GrammarRule, binding: dict):
        if not rule.sem:
            # no condition
            return binding

        solutions = self.solver.solve(rule.sem, binding)
        if len(solutions) == 0:
            return None
        return solutions[0]


    def generate_single_consequent('''))
R("find-rule-continue", GE, ('''            if match is not None:
                result_rule = rule
                result_binding = match
                found = True

                # make sure the same rule is not executed again and again
                if rule not in used_rules:
                    break
''', '''            if match is None:
                continue

            result_rule, result_binding, found = rule, match, True

            # make sure the same rule is not executed again and again
            if rule not in used_rules:
                break
'''))
R("find-rule-return", GE, ('''                result_rule = rule
                result_binding = match
                found = True

                # make sure the same rule is not executed again and again
                if rule not in used_rules:
                    break
''', '''                if rule not in used_rules:
                    return rule, match, True

                result_rule = rule
                result_binding = match
                found = True
'''))
R("find-rule-nofound", GE, ('''        found = False
        result_rule = None
''', '''        result_rule = None
'''), ('''                found = True

''', ''), ('''        return result_rule, result_binding, found
''', '''        return result_rule, result_binding, result_rule is not None
'''))
R("single-cons-returns", GE, ('''        if position_type == POS_TYPE_WORD_FORM:
            result = category
        elif category == CATEGORY_VALUE:
            result = values[0]
        elif category == CATEGORY_TEXT:
            result = str(values[0])
        elif category == CATEGORY_FORMAT:
            result = rule.exec(*values)
        else:
            result = self.generate_node(used_rules, category, values, optional)

        return result''', '''        if position_type == POS_TYPE_WORD_FORM:
            return category
        if category == CATEGORY_FORMAT:
            return rule.exec(*values)
        if category == CATEGORY_TEXT:
            return str(values[0])
        if category == CATEGORY_VALUE:
            return values[0]
        return self.generate_node(used_rules, category, values, optional)'''))
R("gen-output-temp", GE, ('''        try:
            return self.generate_node([], "s", [], False)
        finally:
''', '''        used_rules = []
        try:
            output = self.generate_node(used_rules, "s", [], False)
            return output
        finally:
'''))
# ---- grammar rules
R("add-setdefault", GR, ('''        if not antecedent in self.index:
            self.index[antecedent] = {}
        if not argument_count in self.index[antecedent]:
            self.index[antecedent][argument_count] = []

        # create a variant of the rule for all permutations of optional constituents
        for variant in self.create_rule_variants(rule):
            self.index[antecedent][argument_count].append(variant)
''', '''        rules = self.index.setdefault(antecedent, {}).setdefault(argument_count, [])

        # create a variant of the rule for all permutations of optional constituents
        rules.extend(self.create_rule_variants(rule))
'''))
R("add-local", GR, ('''        if not argument_count in self.index[antecedent]:
            self.index[antecedent][argument_count] = []

        # create a variant of the rule for all permutations of optional constituents
        for variant in self.create_rule_variants(rule):
            self.index[antecedent][argument_count].append(variant)
''', '''        by_count = self.index[antecedent]
        if argument_count not in by_count:
            by_count[argument_count] = []

        for variant in self.create_rule_variants(rule):
            by_count[argument_count].append(variant)
'''))
R("find-get", GR, ('''        if antecedent in self.index and argument_count in self.index[antecedent]:
            return self.index[antecedent][argument_count]
        else:
            return []

''', '''        return self.index.get(antecedent, {}).get(argument_count, [])

'''))
R("find-nested", GR, ('''        if antecedent in self.index and argument_count in self.index[antecedent]:
            return self.index[antecedent][argument_count]
        else:
            return []

''', '''        if antecedent not in self.index:
            return []

        by_count = self.index[antecedent]
        if argument_count not in by_count:
            return []
        return by_count[argument_count]

'''))
R("counts-get", GR, ('''        if antecedent in self.index:
            return self.index[antecedent]
        else:
            return []


    def create''', '''        return list(self.index.get(antecedent, {}).keys())


    def create'''))
R("variants-helper", GR, ('''        variants = []
        for consequent_variant in consequent_variants:
            new_rule = copy.copy(rule)
            new_rule.consequents = consequent_variant
            new_rule.update_hash()
            variants.append(new_rule)

        return variants
''', '''        return [self.copy_rule(rule, consequent_variant) for consequent_variant in consequent_variants]


    def copy_rule(self, rule: GrammarRule, consequents: list) -> GrammarRule:
        new_rule = copy.copy(rule)
        new_rule.consequents = consequents
        new_rule.update_hash()
        return new_rule
'''))
R("variants-rest-loop", GR, ('''            new_variants = [v + [consequent, part] if v else [part] for v in variants]
''', '''            new_variants = []
            for v in variants:
                if v:
                    new_variants.append(v + [consequent, part])
                else:
                    new_variants.append([part])
'''))
R("variants-rest-names", GR, ('''        consequent = rule.consequents[index]
        look_ahead_consequent = rule.consequents[index+1] if index+1 < len(rule.consequents) else None
''', '''        consequents = rule.consequents
        consequent = consequents[index]
        look_ahead_consequent = None
        if index + 1 < len(consequents):
            look_ahead_consequent = consequents[index + 1]
'''))
R("rule-equals-all", RU, ('''        if not self.antecedent.equals(other_rule.antecedent):
            return False

        if len(self.consequents) != len(other_rule.consequents):
            return False

        for i, consequent in enumerate(self.consequents):
            if not consequent.equals(other_rule.consequents[i]):
                return False

        return True
''', '''        return self.antecedent.equals(other_rule.antecedent) \\
            and len(self.consequents) == len(other_rule.consequents) \\
            and all(mine.equals(theirs) for mine, theirs in zip(self.consequents, other_rule.consequents))
'''))
R("rule-equals-zip", RU, ('''        for i, consequent in enumerate(self.consequents):
            if not consequent.equals(other_rule.consequents[i]):
                return False

        return True
''', '''        for mine, other in zip(self.consequents, other_rule.consequents):
            if mine.equals(other):
                continue
            return False

        return True
'''))
R("rule-hash-tuple", RU, ('''        h = [c.hash for c in self.consequents] + [self.antecedent.hash]
        self.hash = hash(tuple(h))
''', '''        parts = []
        for consequent in self.consequents:
            parts.append(consequent.hash)
        parts.append(self.antecedent.hash)
        self.hash = hash(tuple(parts))
'''))
R("rule-meaning-and", RU, ('''        if self.antecedent.arguments != other_rule.antecedent.arguments:
            return False

        if [c.arguments for c in self.consequents] != [c.arguments for c in other_rule.consequents]:
            return False

        return self.sem is other_rule.sem and self.exec is other_rule.exec and \\
            self.dialog is other_rule.dialog and self.boost == other_rule.boost
''', '''        if self.boost != other_rule.boost:
            return False
        if self.sem is not other_rule.sem or self.exec is not other_rule.exec or self.dialog is not other_rule.dialog:
            return False
        if self.antecedent.arguments != other_rule.antecedent.arguments:
            return False
        mine = [c.arguments for c in self.consequents]
        theirs = [c.arguments for c in other_rule.consequents]
        return mine == theirs
'''))
R("cons-equals", RC, ('''        if self.predicate != other.predicate:
            return False

        if len(self.arguments) != len(other.arguments):
            return False

        if self.position_type != other.position_type:
            return False

        return True
''', '''        return (
            self.predicate == other.predicate
            and self.position_type == other.position_type
            and len(self.arguments) == len(other.arguments)
        )
'''))
R("cons-hash", RC, ('''        h = [c for c in arguments] + [self.predicate, self.position_type]
        self.hash = hash(tuple(h))
''', '''        self.hash = hash((*arguments, predicate, position_type))
'''))
# ---- Earley
R("earley-parse-helper", EA, ('''        error = ""
        args = []

        if len(rootNodes) == 0:

            nextWord = find_unknown_word(chart)

            if nextWord != "":
                error = UNKNOWN_WORD
                args = [nextWord]
            elif len(text) == 0:
                error = NO_SENTENCE
            else:
                error = NOT_UNDERSTOOD

        return''', '''        error, args = self.diagnose(chart, text, rootNodes)

        return'''), ('''    def buildChart(self, grammar_rules''', '''    def diagnose(self, chart, text, root_nodes):
        if len(root_nodes) > 0:
            return "", []

        next_word = find_unknown_word(chart)
        if next_word != "":
            return UNKNOWN_WORD, [next_word]
        if len(text) == 0:
            return NO_SENTENCE, []
        return NOT_UNDERSTOOD, []


    def buildChart(self, grammar_rules'''))
R("earley-for", EA, ('''            j = 0
            while j < len(chart.states[i]):

                # a state is a is_complete entry in the chart (rule, dot_position, start_char_index, end_char_index)
                state = chart.states[i][j]
''', '''            states = chart.states[i]
            j = 0
            while j < len(states):

                # a state is a is_complete entry in the chart (rule, dot_position, start_char_index, end_char_index)
                state = states[j]
'''))
R("earley-invert", EA, ('''                if not state.is_complete():

                    # add all entries that have this abstract consequent as their antecedent
                    self.predict(grammar_rules, chart, state)

                    # if the current token in the sentence has this part-of-speech, then
                    # we add a completed entry to the chart (part-of-speech => word)
                    if i < charCount:
                        self.scan(chart, state)
                else:

                    # proceed all other entries in the chart that have this entry's antecedent as their next consequent
                    self.complete(chart, state)
''', '''                if state.is_complete():
                    self.complete(chart, state)
                else:
                    self.predict(grammar_rules, chart, state)
                    if i < charCount:
                        self.scan(chart, state)
'''))
R("earley-process-helper", EA, ('''                if not state.is_complete():

                    # add all entries that have this abstract consequent as their antecedent
                    self.predict(grammar_rules, chart, state)

                    # if the current token in the sentence has this part-of-speech, then
                    # we add a completed entry to the chart (part-of-speech => word)
                    if i < charCount:
                        self.scan(chart, state)
                else:

                    # proceed all other entries in the chart that have this entry's antecedent as their next consequent
                    self.complete(chart, state)

                j += 1

        return chart
''', '''                self.process_state(grammar_rules, chart, state, i < charCount)

                j += 1

        return chart


    def process_state(self, grammar_rules, chart, state, has_more_text):
        if state.is_complete():
            self.complete(chart, state)
            return

        self.predict(grammar_rules, chart, state)
        if has_more_text:
            self.scan(chart, state)
'''))
R("earley-predict", EA, ('''        consequentIndex = state.dot_position - 1
        nextConsequent = state.rule.consequents[consequentIndex]
        next_consequent_variables = state.rule.consequents[consequentIndex].arguments
        end_char_index = state.end_char_index

        for rule in grammar_rules.find_rules(nextConsequent.predicate, len(next_consequent_variables)) :

            predicted_state = ChartState(rule, 1, end_char_index, end_char_index)
            chart.enqueue(predicted_state, end_char_index)
''', '''        next_consequent = state.rule.consequents[state.dot_position - 1]
        position = state.end_char_index

        rules = grammar_rules.find_rules(next_consequent.predicate, len(next_consequent.arguments))
        for rule in rules:
            chart.enqueue(ChartState(rule, 1, position, position), position)
'''))
R("earley-next-helper", EA, ('''        consequentIndex = state.dot_position - 1
        nextConsequent = state.rule.consequents[consequentIndex]
        next_consequent_variables = state.rule.consequents[consequentIndex].arguments
''', '''        nextConsequent = self.next_consequent(state)
        next_consequent_variables = nextConsequent.arguments
'''), ('''        next_consequent = state.rule.consequents[state.dot_position - 1]
        end_char_index = state.end_char_index

        # match a regular''', '''        next_consequent = self.next_consequent(state)
        end_char_index = state.end_char_index

        # match a regular'''), ('''    def scan(self, chart''', '''    def next_consequent(self, state):
        return state.rule.consequents[state.dot_position - 1]


    def scan(self, chart'''))
R("earley-scan-helper", EA, ('''                for i in range(1, len(word)+1):
                    sub_word = word[0:i]
                    # a part of the match only counts if it is a match by itself
                    if sub_word != word and not re.fullmatch(next_consequent.predicate, sub_word):
                        continue
                    sem = self.create_semantic_function_for_scanned_state(sub_word)
                    self.add_scanned_state(chart, state, sub_word, sem)
''', '''                for length in range(1, len(word)+1):
                    sub_word = word[:length]
                    if sub_word == word or re.fullmatch(next_consequent.predicate, sub_word):
                        self.add_scanned_state(chart, state, sub_word, self.create_semantic_function_for_scanned_state(sub_word))
'''))
R("earley-scan-elif", EA, ('''        # match a string constant over multiple tokens
        if next_consequent.position_type == POS_TYPE_WORD_FORM:
            found = self.read_word(chart.text, end_char_index, next_consequent.predicate)
            if found:
                word = next_consequent.predicate
                self.add_scanned_state(chart, state, word, None)
''', '''        # match a string constant over multiple tokens
        elif next_consequent.position_type == POS_TYPE_WORD_FORM:
            word = next_consequent.predicate
            if self.read_word(chart.text, end_char_index, word):
                self.add_scanned_state(chart, state, word, None)
'''))
R("earley-scan-split", EA, ('''        # match a regular expression over multiple tokens
        if next_consequent.position_type == POS_TYPE_REG_EXP:
            word = self''', '''        if next_consequent.position_type == POS_TYPE_WORD_FORM:
            if self.read_word(chart.text, end_char_index, next_consequent.predicate):
                self.add_scanned_state(chart, state, next_consequent.predicate, None)
            return

        # match a regular expression over multiple tokens
        if next_consequent.position_type == POS_TYPE_REG_EXP:
            word = self'''), ('''        # match a string constant over multiple tokens
        if next_consequent.position_type == POS_TYPE_WORD_FORM:
            found = self.read_word(chart.text, end_char_index, next_consequent.predicate)
            if found:
                word = next_consequent.predicate
                self.add_scanned_state(chart, state, word, None)
''', ''))
R("earley-scanned-temps", EA, ('''        next_variables = state.rule.consequents[state.dot_position - 1].arguments
        end_char_index = state.end_char_index
        length = len(word)
''', '''        next_variables = next_consequent.arguments
        start = state.end_char_index
        end = start + len(word)
'''), ('''        scanned_state = ChartState(rule, 2, end_char_index, end_char_index+length)
        chart.enqueue(scanned_state, end_char_index+length)
''', '''        chart.enqueue(ChartState(rule, 2, start, end), end)
'''))
R("earley-complete-merge", EA, ('''            if (dot_position > len(rule.consequents)) or (rule.consequents[dot_position-1].predicate != completed_antecedent):
                continue

            # check if the types match
            if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
                continue
''', '''            if charted_state.is_complete():
                continue

            waiting_for = rule.consequents[dot_position-1]
            if waiting_for.predicate != completed_antecedent or waiting_for.position_type != completed_state.rule.antecedent.position_type:
                continue
'''))
R("earley-complete-positive", EA, ('''            if (dot_position > len(rule.consequents)) or (rule.consequents[dot_position-1].predicate != completed_antecedent):
                continue

            # check if the types match
            if charted_state.rule.consequents[dot_position-1].position_type != completed_state.rule.antecedent.position_type:
                continue

            # create a new state that is a dot-advancement of an older state
            advanced_state = ChartState(rule, dot_position+1, charted_state.start_char_index, completed_state.end_char_index)

            # enqueue the new state
            chart.enqueue(advanced_state, completed_state.end_char_index)
''', '''            if self.waits_for(charted_state, completed_state.rule.antecedent):
                advanced_state = ChartState(rule, dot_position+1, charted_state.start_char_index, completed_state.end_char_index)
                chart.enqueue(advanced_state, completed_state.end_char_index)
'''), ('''    def perform_regexp(''', '''    def waits_for(self, state, antecedent):
        if state.dot_position > len(state.rule.consequents):
            return False
        consequent = state.rule.consequents[state.dot_position - 1]
        return consequent.predicate == antecedent.predicate and consequent.position_type == antecedent.position_type


    def perform_regexp('''))
R("earley-regexp", EA, ('''        part = text[start_index:]
        result = re.match(regexp, part)
        word = None
        if result:
            word = result.group(0)

        return word
''', '''        result = re.match(regexp, text[start_index:])
        return result.group(0) if result else None
'''))
R("earley-readword", EA, ('''        part = text[start_index:start_index+len(word)]
        return part.lower() == word
''', '''        end_index = start_index + len(word)
        return text[start_index:end_index].lower() == word
'''))
R("chart-enqueue", CH, ('''        found = state in self.states[position]
        if not found:
            self.states[position].add(state)

        return found
''', '''        states = self.states[position]
        if state in states:
            return True

        states.add(state)
        return False
'''))
R("chart-index", CH, ('''        if not completed_state.end_char_index in self.completed_states:
            self.completed_states[completed_state.end_char_index] = []
        self.completed_states[completed_state.end_char_index].append(completed_state)
''', '''        end = completed_state.end_char_index
        self.completed_states.setdefault(end, []).append(completed_state)
'''))
R("chart-gamma", CH, ('''        return ChartState(
            GrammarRule(
                RuleConstituent(GAMMA, ["G"], POS_TYPE_RELATION),
                [RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION)],
            ),
            1, 0, 0)
''', '''        return ChartState(self.build_gamma_rule(), 1, 0, 0)


    def build_gamma_rule(self):
        return GrammarRule(
            RuleConstituent(GAMMA, ["G"], POS_TYPE_RELATION),
            [RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION)],
        )
'''), ('''        return ChartState(
            GrammarRule(
                RuleConstituent(GAMMA, ["G"], POS_TYPE_RELATION),
                [RuleConstituent(DELTA, ["D"], POS_TYPE_RELATION)],
            ),
            2, 0, len(self.text))
''', '''        return ChartState(self.build_gamma_rule(), 2, 0, len(self.text))
'''))
R("cstate-eq", CS, ('''        return self.rule.equals(other_state.rule) and \\
               (self.is_terminal() or self.rule.has_same_meaning(other_state.rule)) and \\
               self.dot_position == other_state.dot_position and \\
               self.start_char_index == other_state.start_char_index and \\
               self.end_char_index == other_state.end_char_index
''', '''        if self.dot_position != other_state.dot_position:
            return False
        if self.start_char_index != other_state.start_char_index or self.end_char_index != other_state.end_char_index:
            return False
        if not self.rule.equals(other_state.rule):
            return False
        return self.is_terminal() or self.rule.has_same_meaning(other_state.rule)
'''))
R("cstate-tuple", CS, ('''               self.dot_position == other_state.dot_position and \\
               self.start_char_index == other_state.start_char_index and \\
               self.end_char_index == other_state.end_char_index
''', '''               (self.dot_position, self.start_char_index, self.end_char_index) == \\
               (other_state.dot_position, other_state.start_char_index, other_state.end_char_index)
'''))
R("cstate-complete", CS, ('''        return self.dot_position >= len(self.rule.consequents) + 1
''', '''        return self.dot_position > len(self.rule.consequents)
'''))
R("cstate-terminal", CS, ('''        if len(self.rule.consequents[0].arguments) == 0:
            return False
        return self.rule.consequents[0].arguments[0] == TERMINAL
''', '''        arguments = self.rule.consequents[0].arguments
        return len(arguments) > 0 and arguments[0] == TERMINAL
'''))
R("tree-roots-loop", TX, ('''    return [gamma_node.children[0].children[0] for gamma_node in gamma_nodes]
''', '''    roots = []
    for gamma_node in gamma_nodes:
        delta_node = gamma_node.children[0]
        roots.append(delta_node.children[0])
    return roots
'''))
R("tree-state-early", TX, ('''    trees = []

    if state.is_terminal():
        trees.append(ParseTreeNode(
            state.rule.antecedent.predicate,
            [],
            state.rule.consequents[0].predicate,
            state.rule
        ))
    else:
        # the state has one or more child states. in fact, there can be multiple child state sequences
        for child_state_sequence in find_child_state_sequences(chart, state):
            # each child state can have multiple parse trees, built from its children; go through all permutations of these child state parse trees
            for permutation_trees in create_trees_for_states(chart, child_state_sequence):
                trees.append(ParseTreeNode(
                    state.rule.antecedent.predicate,
                    permutation_trees,
                    "",
                    state.rule
                ))

    return trees
''', '''    rule = state.rule
    category = rule.antecedent.predicate

    if state.is_terminal():
        return [ParseTreeNode(category, [], rule.consequents[0].predicate, rule)]

    return [
        ParseTreeNode(category, children, "", rule)
        for sequence in find_child_state_sequences(chart, state)
        for children in create_trees_for_states(chart, sequence)
    ]
'''))
R("tree-seq-inline", TX, ('''        for child_state_sequence in find_child_state_sequences(chart, state):
''', '''        for child_state_sequence in find_state_sequences(chart, state, state.end_char_index, len(state.rule.consequents) - 1):
'''))
R("tree-seq-comp", TX, ('''                for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                    sequences.append(previous_sequence + [state])
''', '''                previous_sequences = find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1)
                sequences.extend([previous_sequence + [state] for previous_sequence in previous_sequences])
'''))
R("tree-seq-continue", TX, ('''        if state.rule.antecedent.equals(parent_state.rule.consequents[consequent_index]):
            if consequent_index == 0:
                if state.start_char_index == parent_state.start_char_index:
                    sequences.append([state])
            else:
                # find one or more preceding sequences of this state
                for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                    sequences.append(previous_sequence + [state])
''', '''        if not state.rule.antecedent.equals(parent_state.rule.consequents[consequent_index]):
            continue

        if consequent_index > 0:
            for previous_sequence in find_state_sequences(chart, parent_state, state.start_char_index, consequent_index-1):
                sequences.append([*previous_sequence, state])
        elif state.start_char_index == parent_state.start_char_index:
            sequences.append([state])
'''))
R("tree-product-inline", TX, ('''    trees_per_state = [create_trees_for_state(chart, state) for state in states]
    # create all of their permutations
    return create_permutations(trees_per_state)
''', '''    trees_per_state = []
    for state in states:
        trees_per_state.append(create_trees_for_state(chart, state))
    return list(itertools.product(*trees_per_state))
'''))
R("unknown-max", UW, ('''            if state.is_complete():
                if state.end_char_index > last_understood_index:
                    last_understood_index = state.end_char_index - 1
''', '''            if not state.is_complete():
                continue
            if state.end_char_index > last_understood_index:
                last_understood_index = state.end_char_index - 1
'''))
R("unknown-cond", UW, ('''    if last_understood_index+1 < len(chart.text):
        nextWord = chart.text[last_understood_index+1:last_understood_index+10] + " ..."
    else:
        nextWord = ""

    return nextWord
''', '''    start = last_understood_index + 1
    if start >= len(chart.text):
        return ""

    return chart.text[start:start + 9] + " ..."
'''), ('''    nextWord = ""
    last''', '''    last'''))
# ---- parsers
R("gparse-comp", GP, ('''        rules = []

        for simple_rule in simple_grammar:
            rule = self.parse_simple_rule(simple_rule, write_rules)
            rules.append(rule)

        return GrammarRules(rules)
''', '''        return GrammarRules([self.parse_simple_rule(simple_rule, write_rules) for simple_rule in simple_grammar])
'''))
R("gparse-get", GP, ('''        sem = None
        if write_rules:
            if 'if' in simple_rule:
                sem = simple_rule['if']
        else:
            if 'sem' in simple_rule:
                sem = simple_rule['sem']

        exec = None
        if write_rules:
            if 'format' in simple_rule:
                exec = simple_rule['format']
        else:
            if 'exec' in simple_rule:
                exec = simple_rule['exec']

        post = None
        if write_rules:
            if 'post' in simple_rule:
                post = simple_rule['post']

        dialog = []
        if 'dialog' in simple_rule:
            dialog = simple_rule['dialog']

        boost = 0
        if 'boost' in simple_rule:
            boost = simple_rule['boost']
''', '''        if write_rules:
            sem = simple_rule.get('if')
            exec = simple_rule.get('format')
            post = simple_rule.get('post')
        else:
            sem = simple_rule.get('sem')
            exec = simple_rule.get('exec')
            post = None

        dialog = simple_rule.get('dialog', [])
        boost = simple_rule.get('boost', 0)
'''))
R("gparse-keys", GP, ('''        sem = None
        if write_rules:
            if 'if' in simple_rule:
                sem = simple_rule['if']
        else:
            if 'sem' in simple_rule:
                sem = simple_rule['sem']

        exec = None
        if write_rules:
            if 'format' in simple_rule:
                exec = simple_rule['format']
        else:
            if 'exec' in simple_rule:
                exec = simple_rule['exec']
''', '''        sem_key, exec_key = ('if', 'format') if write_rules else ('sem', 'exec')
        sem = simple_rule[sem_key] if sem_key in simple_rule else None
        exec = simple_rule[exec_key] if exec_key in simple_rule else None
'''))
R("gparse-sep-helper", GP, ('''                atom = RuleConstituent(' ', [], POS_TYPE_WORD_FORM, optional=True, separator=True)
                consequents.append(atom)
                pos = new_pos
            else:
                if pos < len(tokens):
                    atom = RuleConstituent(' ', [], POS_TYPE_WORD_FORM, separator=True)
                    consequents.append(atom)
''', '''                consequents.append(self.create_separator(True))
                pos = new_pos
            elif pos < len(tokens):
                consequents.append(self.create_separator(False))
'''), ('''    def parse_variable(self, tokens''', '''    def create_separator(self, optional: bool):
        return RuleConstituent(' ', [], POS_TYPE_WORD_FORM, optional=optional, separator=True)


    def parse_variable(self, tokens'''))
R("gparse-found", GP, ('''                    optional = False
                    found, new_pos = self.parse_optional_marker(tokens, pos)
                    if found:
                        pos = new_pos
                        optional = True

                    atom = RuleConstituent(string, [], POS_TYPE_WORD_FORM, optional=optional)
''', '''                    found, new_pos = self.parse_optional_marker(tokens, pos)
                    if found:
                        pos = new_pos

                    atom = RuleConstituent(string, [], POS_TYPE_WORD_FORM, optional=found)
'''))
R("gparse-return", GP, ('''        if re.match(self.re_variable, token):
            pos = new_pos
            return token, pos

        return None, 0
''', '''        if not re.match(self.re_variable, token):
            return None, 0

        return token, new_pos
'''))
R("iparse-rule", IP, ('''        while True:
            rule, new_pos = self.parse_rule(tokens, pos)
            if rule:
                rules.append(rule)
                pos = new_pos
            else:
                break
''', '''        rule, new_pos = self.parse_rule(tokens, pos)
        while rule:
            rules.append(rule)
            pos = new_pos
            rule, new_pos = self.parse_rule(tokens, pos)
'''))
R("iparse-break", IP, ('''            if rule:
                rules.append(rule)
                pos = new_pos
            else:
                break
''', '''            if not rule:
                break
            rules.append(rule)
            pos = new_pos
'''))
R("iparse-grouped", IP, ('''        atoms, new_pos = self.parse_grouped_atoms(tokens, pos)
        if atoms:
            pos = new_pos
            return atoms, pos

        atoms, new_pos = self.parse_ungrouped_atoms(tokens, pos)
        if atoms:
            pos = new_pos
            return atoms, pos

        return None, pos
''', '''        for parse in (self.parse_grouped_atoms, self.parse_ungrouped_atoms):
            atoms, new_pos = parse(tokens, pos)
            if atoms:
                return atoms, new_pos

        return None, pos
'''))
R("iparse-expect", IP, ('''        open, new_pos = self.parse_token(tokens, pos)
        if open != "(":
            return None, new_pos
        pos = new_pos

        atoms, new_pos = self.parse_atoms(tokens, pos)
        if not atoms:
            return None, new_pos
        pos = new_pos

        open, new_pos = self.parse_token(tokens, pos)
        if open != ")":
            return None, new_pos
        pos = new_pos

        return atoms, pos
''', '''        token, pos = self.parse_token(tokens, pos)
        if token != "(":
            return None, pos

        atoms, pos = self.parse_atoms(tokens, pos)
        if not atoms:
            return None, pos

        token, pos = self.parse_token(tokens, pos)
        if token != ")":
            return None, pos

        return atoms, pos
'''))
R("iparse-token-loop", IP, ('''        if pos >= len(tokens):
            return None, pos

        # skip comment
        token = tokens[pos]
        if token[0] == '#':
            return self.parse_token(tokens, pos+1)

        return tokens[pos], pos + 1
''', '''        # skip comments
        while pos < len(tokens) and tokens[pos][0] == '#':
            pos += 1

        if pos >= len(tokens):
            return None, pos

        return tokens[pos], pos + 1
'''))
R("iparse-term-order", IP, ('''        if token[0] == "'":
            pos = new_pos
            return token[1:-1].replace("\\\\'", "'"), pos

        if token[0] == '"':
            pos = new_pos
            return token[1:-1].replace('\\\\"', '"'), pos
''', '''        quote = token[0]
        if quote in ("'", '"'):
            return token[1:-1].replace("\\\\" + quote, quote), new_pos
'''))
R("iparse-tuple", IP, ('''        return tuple([predicate] + terms), pos
''', '''        return (predicate, *terms), pos
'''))
# ---- pipeline
R("system-link", SY, ('''        for i, block in enumerate(self.reader_pipeline):
            block.next_block = self.reader_pipeline[i+1] if i < len(self.reader_pipeline)-1 else terminal
''', '''        next_blocks = list(self.reader_pipeline[1:]) + [terminal]
        for block, next_block in zip(self.reader_pipeline, next_blocks):
            block.next_block = next_block
'''))
R("system-link-rev", SY, ('''        for i, block in enumerate(self.reader_pipeline):
            block.next_block = self.reader_pipeline[i+1] if i < len(self.reader_pipeline)-1 else terminal
''', '''        next_block = terminal
        for block in reversed(self.reader_pipeline):
            block.next_block = next_block
            next_block = block
'''))
R("system-enter", SY, ('''        if result.error_type != "":
            Solver(self.model).solve([('store', [
                ('output_type', result.error_type),
                ('output_' + result.error_type, *result.error_args)])])
        else:
            # go to the last processor
            processor = self.reader_pipeline[-1].processor
            # get the product
            product = request.get_current_product(processor)
            # return its output value
            return product.get_output()
''', '''        if result.error_type != "":
            self.store_error(result.error_type, result.error_args)
            return None

        processor = self.reader_pipeline[-1].processor
        return request.get_current_product(processor).get_output()


    def store_error(self, error_type, error_args):
        atoms = [
            ('output_type', error_type),
            ('output_' + error_type, *error_args),
        ]
        Solver(self.model).solve([('store', atoms)])
'''))
R("system-enter-tuple", SY, ('''                ('output_' + result.error_type, *result.error_args)])])
''', '''                tuple([f"output_{result.error_type}"] + list(result.error_args))])])
'''))
R("request-get", SR, ('''        if processor in self.alternative_products:
            return self.alternative_products[processor]
        else:
            return []
''', '''        return self.alternative_products.get(processor, [])
'''), ('''        if processor in self.current_products:
            return self.current_products[processor]
        else:
            return None
''', '''        return self.current_products.get(processor)
'''))
R("findone-invert", "block/FindOne.py", ('''            if next_block_result.error_type == "":
               # first successful product found: quit
               return BlockResult('')
            elif error_type == "":
                error_type = next_block_result.error_type
                error_args = next_block_result.error_args
''', '''            if next_block_result.error_type == "":
               # first successful product found: quit
               return BlockResult('')

            if error_type == "":
                error_type, error_args = next_block_result.error_type, next_block_result.error_args
'''))
R("findone-first", "block/FindOne.py", ('''        error_type = ""
        error_args = []

        for product''', '''        first_error = None

        for product'''), ('''            elif error_type == "":
                error_type = next_block_result.error_type
                error_args = next_block_result.error_args

        return BlockResult(error_type, error_args)
''', '''            if first_error is None:
                first_error = next_block_result

        if first_error is None:
            return BlockResult("", [])
        return BlockResult(first_error.error_type, first_error.error_args)
'''))
R("findall-else", "block/FindAll.py", ('''            success = success or next_block_result.error_type == ""
            if next_block_result.error_type != "" and error_type == "":
                error_type = next_block_result.error_type
                error_args = next_block_result.error_args
''', '''            if next_block_result.error_type == "":
                success = True
            elif error_type == "":
                error_type = next_block_result.error_type
                error_args = next_block_result.error_args
'''))
R("findall-helper", "block/FindAll.py", ('''        request.set_alternative_products(self.processor,
            request.get_alternative_products(self.processor) + result.products)
''', '''        earlier_products = request.get_alternative_products(self.processor)
        request.set_alternative_products(self.processor, [*earlier_products, *result.products])
'''))
R("tryfirst-if", "block/TryFirst.py", ('''        for product in result.products:

            request.set_current_product(self.processor, product)

            next_block_result = self.next_block.process(request)
            error_type = next_block_result.error_type
            error_args = next_block_result.error_args

            # first product tried: quit
            break

        return BlockResult(error_type, error_args)
''', '''        if len(result.products) > 0:

            request.set_current_product(self.processor, result.products[0])

            next_block_result = self.next_block.process(request)
            error_type = next_block_result.error_type
            error_args = next_block_result.error_args

        return BlockResult(error_type, error_args)
'''))
R("tryfirst-return", "block/TryFirst.py", ('''            next_block_result = self.next_block.process(request)
            error_type = next_block_result.error_type
            error_args = next_block_result.error_args

            # first product tried: quit
            break

        return BlockResult(error_type, error_args)
''', '''            next_block_result = self.next_block.process(request)
            return BlockResult(next_block_result.error_type, next_block_result.error_args)

        return BlockResult("", [])
'''))
R("bparser-map", BP, ('''        sorted_trees = self.tree_sorter.sort_trees(result.products)
        products = [BasicParserProduct(tree) for tree in sorted_trees]
        return ProcessResult(
            products,
            result.error_type,
            result.error_args
        )
''', '''        products = []
        for tree in self.tree_sorter.sort_trees(result.products):
            products.append(BasicParserProduct(tree))
        return ProcessResult(products=products, error_type=result.error_type, error_args=result.error_args)
'''))
R("boost-key", H + "SortByBoost.py", ('''        results = []
        for tree in trees:
            score = -self.get_boost(tree)
            results.append({'tree': tree, 'score': score})

        results.sort(key=lambda result: result['score'])

        return [result['tree'] for result in results]
''', '''        return sorted(trees, key=lambda tree: -self.get_boost(tree))
'''), ('''        boost = node.rule.boost

        for child in node.children:
            boost += self.get_boost(child)

        return boost
''', '''        return node.rule.boost + sum(self.get_boost(child) for child in node.children)
'''))
R("boost-tuples", H + "SortByBoost.py", ('''        results = []
        for tree in trees:
            score = -self.get_boost(tree)
            results.append({'tree': tree, 'score': score})

        results.sort(key=lambda result: result['score'])

        return [result['tree'] for result in results]
''', '''        scored = [(-self.get_boost(tree), tree) for tree in trees]
        scored.sort(key=lambda pair: pair[0])
        return [tree for _, tree in scored]
'''))
R("regexp-sorted", H + "SortByRegExpCount.py", ('''        results.sort(key=lambda result: result['score'])

        return [result['tree'] for result in results]
''', '''        ordered = sorted(results, key=lambda result: result['score'])
        return [result['tree'] for result in ordered]
'''), ('''        count = 0
        if node.rule.antecedent.position_type == POS_TYPE_REG_EXP:
            count = 1
''', '''        count = 1 if node.rule.antecedent.position_type == POS_TYPE_REG_EXP else 0
'''))
R("depth-comp", H + "SortByTreeDepth.py", ('''        results = []
        for tree in trees:
            score = self.get_depth(tree, 0)
            results.append({'tree': tree, 'score': score})
''', '''        results = [{'tree': tree, 'score': self.get_depth(tree, 0)} for tree in trees]
'''))
R("heur-chain", H + "BasicParseTreeSortHeuristics.py", ('''        trees = SortByTreeDepth().sort(trees)
        trees = SortByRegExpCount().sort(trees)
        trees = SortByBoost().sort(trees)
        return trees
''', '''        for heuristic in (SortByTreeDepth(), SortByRegExpCount(), SortByBoost()):
            trees = heuristic.sort(trees)
        return trees
'''))
R("heur-nest", H + "BasicParseTreeSortHeuristics.py", ('''        trees = SortByTreeDepth().sort(trees)
        trees = SortByRegExpCount().sort(trees)
        trees = SortByBoost().sort(trees)
        return trees
''', '''        by_depth = SortByTreeDepth().sort(trees)
        by_regexp = SortByRegExpCount().sort(by_depth)
        return SortByBoost().sort(by_regexp)
'''))
