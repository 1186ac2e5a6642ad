"""composer, optimizer"""
E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
SC = "processor/semantic_composer/SemanticComposer.py"; VG = "processor/semantic_composer/helper/VariableGenerator.py"
O = "processor/semantic_composer/optimizer/"; FR = O + "FrontResolveName.py"; IS = O + "IsolateIndependentParts.py"; CO = O + "SortByCost.py"; BQ = O + "BasicQueryOptimizer.py"
PR = "processor/semantic_composer/SemanticComposerProduct.py"
# ---- composer: process
R("sc-roots-loop", SC, ('''        root_variables = [self.variable_generator.next() for _ in parse_tree.rule.antecedent.arguments]
''', '''        root_variables = []
        for _ in parse_tree.rule.antecedent.arguments:
            root_variables.append(self.variable_generator.next())
'''))
R("sc-roots-helper", SC, ('''        root_variables = [self.variable_generator.next() for _ in parse_tree.rule.antecedent.arguments]
''', '''        root_variables = self.new_variables(len(parse_tree.rule.antecedent.arguments))
'''), ('''    def check_for_sem(self''', '''    def new_variables(self, count: int) -> list[str]:
        return [self.variable_generator.next() for _ in range(count)]


    def check_for_sem(self'''))
R("sc-optimize-helper", SC, ('''        if self.query_optimizer:
            if not isinstance(semantics, list):
                raise Exception("Sentence semantics is not a list of atoms: " + str(semantics))

            semantics_iterations = self.query_optimizer.optimize(semantics, root_variables)
        else:
            semantics_iterations = {"Semantics": semantics}

        product''', '''        semantics_iterations = self.optimize(semantics, root_variables)

        product'''), ('''    def check_for_sem(self''', '''    def optimize(self, semantics, root_variables):
        if self.query_optimizer is None:
            return {"Semantics": semantics}
        if not isinstance(semantics, list):
            raise Exception("Sentence semantics is not a list of atoms: " + str(semantics))
        return self.query_optimizer.optimize(semantics, root_variables)


    def check_for_sem(self'''))
R("sc-optimize-invert", SC, ('''        if self.query_optimizer:
            if not isinstance(semantics, list):
                raise Exception("Sentence semantics is not a list of atoms: " + str(semantics))

            semantics_iterations = self.query_optimizer.optimize(semantics, root_variables)
        else:
            semantics_iterations = {"Semantics": semantics}
''', '''        if not self.query_optimizer:
            semantics_iterations = {"Semantics": semantics}
        elif isinstance(semantics, list):
            semantics_iterations = self.query_optimizer.optimize(semantics, root_variables)
        else:
            raise Exception(f"Sentence semantics is not a list of atoms: {semantics}")
'''))
R("sc-check-rename", SC, (("check_for_sem",), "require_semantics"))
R("sc-check-invert", SC, ('''        if node.form == "" and node.rule.sem is None:
            raise Exception("Rule '" + str(node.rule) + "' is missing key 'sem'")

        for child in node.children:
            self.check_for_sem(child)
''', '''        for child in node.children:
            self.check_for_sem(child)

        if node.form != "" or node.rule.sem is not None:
            return
        raise Exception(f"Rule '{node.rule}' is missing key 'sem'")
'''))
R("sc-product-kw", SC, ('''        product = SemanticComposerProduct(semantics_iterations, inferences, executable, root_variables)
        return ProcessResult([product], "")
''', '''        return ProcessResult([
            SemanticComposerProduct(semantics_iterations, inferences, executable, root_variables)
        ], "")
'''))
R("sc-map-rename", SC, (("create_map",), "initial_map"))
R("sc-map-zip", SC, ('''        map = {}
        for i, arg in enumerate(node.rule.antecedent.arguments):
            map[arg] = incoming_variables[i]
''', '''        map = dict(zip(node.rule.antecedent.arguments, incoming_variables))
'''))
R("sc-map-comp", SC, ('''        map = {}
        for i, arg in enumerate(node.rule.antecedent.arguments):
            map[arg] = incoming_variables[i]
''', '''        map = {arg: variable for arg, variable in zip(node.rule.antecedent.arguments, incoming_variables)}
'''))
R("sc-map-cons", SC, ('''            for i, arg in enumerate(cons.arguments):
                    if arg not in map:
                        map[arg] = self.variable_generator.next()
''', '''            for arg in cons.arguments:
                if arg in map:
                    continue
                map[arg] = self.variable_generator.next()
'''))
R("sc-map-flat", SC, ('''        for cons in node.rule.consequents:
            for i, arg in enumerate(cons.arguments):
                    if arg not in map:
                        map[arg] = self.variable_generator.next()
''', '''        for arg in [arg for cons in node.rule.consequents for arg in cons.arguments]:
            if arg not in map:
                map[arg] = self.variable_generator.next()
'''))
R("sc-map-inline", SC, ('''        map = self.create_map(node, incoming_variables)
''', '''        map = {}
        for i, arg in enumerate(node.rule.antecedent.arguments):
            map[arg] = incoming_variables[i]
        for cons in node.rule.consequents:
            for arg in cons.arguments:
                if arg not in map:
                    map[arg] = self.variable_generator.next()
'''), ('''    def create_map(self, node: ParseTreeNode, incoming_variables: list[str]):
        # start variable map by mapping antecedent variables to incoming variables
        map = {}
        for i, arg in enumerate(node.rule.antecedent.arguments):
            map[arg] = incoming_variables[i]

        # complete map with other variables from the consequents
        for cons in node.rule.consequents:
            for i, arg in enumerate(cons.arguments):
                    if arg not in map:
                        map[arg] = self.variable_generator.next()

        return map


''', ''))
R("sc-compose-index", SC, ('''        for child, consequent in zip(node.children, node.rule.consequents):
            if not child.is_leaf_node():
''', '''        for i, child in enumerate(node.children):
            consequent = node.rule.consequents[i]
            if not child.is_leaf_node():
'''))
R("sc-compose-invert", SC, ('''            if not child.is_leaf_node():
                incoming_child_variables = [map[arg] for arg in consequent.arguments]
                semantics, child_inference, child_executable = self.compose(child, incoming_child_variables)
                inferences.extend(child_inference)
                executable.extend(child_executable)
                child_semantics.append(semantics)
            elif child.rule.sem:
                child_semantics.append(child.rule.sem())
''', '''            if child.is_leaf_node():
                if child.rule.sem:
                    child_semantics.append(child.rule.sem())
                continue

            incoming_child_variables = [map[arg] for arg in consequent.arguments]
            semantics, child_inference, child_executable = self.compose(child, incoming_child_variables)
            inferences += child_inference
            executable += child_executable
            child_semantics.append(semantics)
'''))
R("sc-compose-children-helper", SC, ('''        # collect the semantics of the child nodes
        child_semantics = []
        inferences = []
        executable = []


        for child, consequent in zip(node.children, node.rule.consequents):
            if not child.is_leaf_node():
                incoming_child_variables = [map[arg] for arg in consequent.arguments]
                semantics, child_inference, child_executable = self.compose(child, incoming_child_variables)
                inferences.extend(child_inference)
                executable.extend(child_executable)
                child_semantics.append(semantics)
            elif child.rule.sem:
                child_semantics.append(child.rule.sem())
''', '''        # collect the semantics of the child nodes
        child_semantics, inferences, executable = self.compose_children(node, map)
'''), ('''    def create_map(self''', '''    def compose_children(self, node, map):
        child_semantics = []
        inferences = []
        executable = []
        for child, consequent in zip(node.children, node.rule.consequents):
            if not child.is_leaf_node():
                incoming_child_variables = [map[arg] for arg in consequent.arguments]
                semantics, child_inference, child_executable = self.compose(child, incoming_child_variables)
                inferences.extend(child_inference)
                executable.extend(child_executable)
                child_semantics.append(semantics)
            elif child.rule.sem:
                child_semantics.append(child.rule.sem())
        return child_semantics, inferences, executable


    def create_map(self'''))
R("sc-dialog-cond", SC, ('''        if callable(node.rule.dialog):
            inferences.extend(node.rule.dialog(*child_semantics))
        else:
            inferences.extend(node.rule.dialog)
''', '''        dialog = node.rule.dialog(*child_semantics) if callable(node.rule.dialog) else node.rule.dialog
        inferences.extend(dialog)
'''))
R("sc-dialog-plus", SC, ('''        if callable(node.rule.dialog):
            inferences.extend(node.rule.dialog(*child_semantics))
        else:
            inferences.extend(node.rule.dialog)
''', '''        dialog = node.rule.dialog
        if callable(dialog):
            dialog = dialog(*child_semantics)
        inferences = inferences + list(dialog)
'''))
R("sc-exec-cond", SC, ('''        if node.rule.exec:
            executable = node.rule.exec(*child_semantics)
''', '''        own_exec = node.rule.exec
        if own_exec is not None:
            executable = own_exec(*child_semantics)
'''))
R("sc-exec-order", SC, ('''        # create the semantics of this node by executing its function, passing the values of its children as arguments
        semantics = node.rule.sem(*child_semantics)

''', ''), ('''        # extend the map with variables found in the result''', '''        semantics = node.rule.sem(*child_semantics)

        # extend the map with variables found in the result'''))
R("sc-extend-three", SC, ('''        self.extend_map_with_semantics(map, [semantics, inferences, executable])
''', '''        self.extend_map_with_semantics(map, semantics)
        self.extend_map_with_semantics(map, inferences)
        self.extend_map_with_semantics(map, executable)
'''))
R("sc-extend-loop", SC, ('''        self.extend_map_with_semantics(map, [semantics, inferences, executable])
''', '''        for part in (semantics, inferences, executable):
            self.extend_map_with_semantics(map, part)
'''))
R("sc-extend-isin", SC, ('''        if isinstance(semantics, list) or isinstance(semantics, tuple):
            for term in semantics:''', '''        if isinstance(semantics, (list, tuple)):
            for term in semantics:'''))
R("sc-extend-rename", SC, (("extend_map_with_semantics",), "extend_map"))
R("sc-extend-guard", SC, ('''            # since we're late in the game, don't replace variables that have already been replaced
            if semantics.name not in map and not self.variable_generator.isinstance(semantics):
                map[semantics.name] = self.variable_generator.next()
''', '''            # since we're late in the game, don't replace variables that have already been replaced
            name = semantics.name
            if name in map or self.variable_generator.isinstance(semantics):
                return
            map[name] = self.variable_generator.next()
'''))
R("sc-return-direct", SC, ('''        # replace the formal parameters in the semantics with the unified variables
        unified_semantics = self.unify_variables(semantics, map)

        # replace the formal parameters in the inferences with the unified variables
        unified_inferences = self.unify_variables(inferences, map)

        # replace the formal parameters in the executable with the unified variables
        unified_executable = self.unify_variables(executable, map)

        return unified_semantics, unified_inferences, unified_executable
''', '''        # replace the formal parameters with the unified variables
        return (
            self.unify_variables(semantics, map),
            self.unify_variables(inferences, map),
            self.unify_variables(executable, map),
        )
'''))
R("sc-unify-rename", SC, (("unify_variables",), "replace_variables"))
R("sc-unify-ifs", SC, ('''        if isinstance(semantics, list):
            return [self.unify_variables(atom, map) for atom in semantics]
        elif isinstance(semantics, tuple):
            return tuple([self.unify_variables(term, map) for term in semantics])
        elif isinstance(semantics, SemanticTemplate):
            return SemanticTemplate(semantics.args, self.unify_variables(semantics.body, map))
        elif isinstance(semantics, Variable) and semantics.name in map:
            return Variable(map[semantics.name])
        elif isinstance(semantics, ReifiedVariable) and semantics.name in map:
            return map[semantics.name]
        else:
            return semantics
''', '''        if isinstance(semantics, list):
            result = []
            for atom in semantics:
                result.append(self.unify_variables(atom, map))
            return result
        if isinstance(semantics, tuple):
            return tuple(self.unify_variables(term, map) for term in semantics)
        if isinstance(semantics, SemanticTemplate):
            return SemanticTemplate(semantics.args, self.unify_variables(semantics.body, map))
        if isinstance(semantics, Variable):
            if semantics.name not in map:
                return semantics
            return Variable(map[semantics.name])
        if isinstance(semantics, ReifiedVariable):
            if semantics.name in map:
                return map[semantics.name]
        return semantics
'''))
R("sc-unify-get", SC, ('''        elif isinstance(semantics, Variable) and semantics.name in map:
            return Variable(map[semantics.name])
        elif isinstance(semantics, ReifiedVariable) and semantics.name in map:
            return map[semantics.name]
''', '''        elif isinstance(semantics, Variable):
            return Variable(map.get(semantics.name, semantics.name))
        elif isinstance(semantics, ReifiedVariable):
            return map.get(semantics.name, semantics)
'''))
R("sc-unify-order", SC, ('''        if isinstance(semantics, list):
            return [self.unify_variables(atom, map) for atom in semantics]
        elif isinstance(semantics, tuple):
            return tuple([self.unify_variables(term, map) for term in semantics])
        elif isinstance(semantics, SemanticTemplate):
            return SemanticTemplate(semantics.args, self.unify_variables(semantics.body, map))
        elif isinstance(semantics, Variable) and semantics.name in map:
            return Variable(map[semantics.name])
''', '''        if isinstance(semantics, Variable) and semantics.name in map:
            return Variable(map[semantics.name])
        elif isinstance(semantics, SemanticTemplate):
            return SemanticTemplate(semantics.args, self.unify_variables(semantics.body, map))
        elif isinstance(semantics, tuple):
            return tuple([self.unify_variables(term, map) for term in semantics])
        elif isinstance(semantics, list):
            return [self.unify_variables(atom, map) for atom in semantics]
'''))
# ---- variable generator
R("vg-fstring", VG, ('''        return self.prefix + str(self.number)
''', '''        return f"{self.prefix}{self.number}"
'''))
R("vg-assign", VG, ('''        self.number += 1
        return self.prefix + str(self.number)
''', '''        number = self.number + 1
        self.number = number
        return self.prefix + str(number)
'''))
R("vg-start", VG, ('''        return variable.name.startswith(self.prefix)''', '''        return variable.name[:len(self.prefix)] == self.prefix'''))
R("vg-zero", VG, ('''        self.number += 1
        return self.prefix + str(self.number)
''', '''        name = self.prefix + str(self.number + 1)
        self.number += 1
        return name
'''))
# ---- front resolve name
R("fr-sort", FR, ('''        name_resolvers, others = self.extract_list(composition)
        return name_resolvers + others
''', '''        name_resolvers, others = self.extract_list(composition)
        return [*name_resolvers, *others]
'''))
R("fr-cont", FR, ('''            elif isinstance(atom, tuple):
                if atom[0] == RESOLVE_NAME:
                    name_resolvers.append(atom)
                else:
                    child_name_resolvers, child = self.extract_tuple(atom)
                    name_resolvers.extend(child_name_resolvers)
                    rest_composition.append(child)
''', '''            elif isinstance(atom, tuple) and atom[0] == RESOLVE_NAME:
                name_resolvers.append(atom)
            elif isinstance(atom, tuple):
                child_name_resolvers, child = self.extract_tuple(atom)
                name_resolvers.extend(child_name_resolvers)
                rest_composition.append(child)
'''))
R("fr-rename", FR, (("extract_tuple",), "split_terms"), (("extract_list",), "split_atoms"))
R("fr-helper", FR, ('''            if isinstance(term, list):
                child_name_resolvers, child = self.extract_list(term)
                name_resolvers.extend(child_name_resolvers)
                rest_composition.append(child)
            else:
                rest_composition.append(term)

        return name_resolvers, tuple(rest_composition)
''', '''            if not isinstance(term, list):
                rest_composition.append(term)
                continue
            found, child = self.extract_list(term)
            name_resolvers += found
            rest_composition.append(child)

        return (name_resolvers, tuple(rest_composition))
'''))
R("fr-is-resolver", FR, ('''                if atom[0] == RESOLVE_NAME:
''', '''                if self.is_name_resolver(atom):
'''), ('''    def extract_tuple(self''', '''    def is_name_resolver(self, atom: tuple) -> bool:
        return atom[0] == RESOLVE_NAME


    def extract_tuple(self'''))
# ---- cost
R("co-not", CO, ('''        if len(composition) == 0:
            return []

        result = self.sort_rest([], composition, model, bound_variables)

        return result
''', '''        if not composition:
            return []

        return self.sort_rest([], composition, model, bound_variables)
'''))
R("co-sorted", CO, ('''        results = []
        for atom in todo:
            cost = self.calculate_cost(atom, bound_variables, model)
            results.append({'atom': atom, 'cost': cost})

        results.sort(key=lambda result: result['cost'])
        sorted = [result['atom'] for result in results]

        sorted_first_atom = self.sort_arguments(sorted[0], model, bound_variables)
        bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))

        return self.sort_rest(done + [sorted_first_atom], sorted[1:], model, bound_variables)
''', '''        by_cost = sorted(todo, key=lambda atom: self.calculate_cost(atom, bound_variables, model))

        first = self.sort_arguments(by_cost[0], model, bound_variables)
        bound_after = bound_variables | set(get_atom_variables(first))

        return self.sort_rest(done + [first], by_cost[1:], model, bound_after)
'''))
R("co-tuples", CO, ('''            cost = self.calculate_cost(atom, bound_variables, model)
            results.append({'atom': atom, 'cost': cost})

        results.sort(key=lambda result: result['cost'])
        sorted = [result['atom'] for result in results]
''', '''            cost = self.calculate_cost(atom, bound_variables, model)
            results.append((cost, atom))

        results.sort(key=lambda result: result[0])
        sorted = [atom for cost, atom in results]
'''))
R("co-comp", CO, ('''        results = []
        for atom in todo:
            cost = self.calculate_cost(atom, bound_variables, model)
            results.append({'atom': atom, 'cost': cost})
''', '''        results = [{'atom': atom, 'cost': self.calculate_cost(atom, bound_variables, model)} for atom in todo]
'''))
R("co-loop", CO, ('''        if len(todo) == 0:
            return done

        results = []
        for atom in todo:
            cost = self.calculate_cost(atom, bound_variables, model)
            results.append({'atom': atom, 'cost': cost})

        results.sort(key=lambda result: result['cost'])
        sorted = [result['atom'] for result in results]

        sorted_first_atom = self.sort_arguments(sorted[0], model, bound_variables)
        bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))

        return self.sort_rest(done + [sorted_first_atom], sorted[1:], model, bound_variables)
''', '''        while len(todo) > 0:
            results = []
            for atom in todo:
                cost = self.calculate_cost(atom, bound_variables, model)
                results.append({'atom': atom, 'cost': cost})

            results.sort(key=lambda result: result['cost'])
            sorted = [result['atom'] for result in results]

            sorted_first_atom = self.sort_arguments(sorted[0], model, bound_variables)
            bound_variables = bound_variables | set(get_atom_variables(sorted_first_atom))
            done = done + [sorted_first_atom]
            todo = sorted[1:]

        return done
'''))
R("co-rename", CO, (("sort_arguments",), "sort_nested"), (("calculate_cost",), "estimate"))
R("co-args-comp", CO, ('''        atom_as_list = list(atom)
        replaced = False
        for i, arg in enumerate(atom):
            if isinstance(arg, list):
                if len(arg) > 0 and isinstance(arg[0], tuple):
                    atom_as_list[i] = self.sort(arg, model, bound_variables)
                    replaced = True
        if replaced:
            return tuple(atom_as_list)
        else:
            return atom
''', '''        new_atom = []
        for arg in atom:
            if isinstance(arg, list) and len(arg) > 0 and isinstance(arg[0], tuple):
                new_atom.append(self.sort(arg, model, bound_variables))
            else:
                new_atom.append(arg)
        return tuple(new_atom)
'''))
R("co-args-flag", CO, ('''        if replaced:
            return tuple(atom_as_list)
        else:
            return atom
''', '''        return tuple(atom_as_list) if replaced else atom
'''))
R("co-cost-merge", CO, ('''                    elif isinstance(argument, list):
                        pass
                    elif isinstance(argument, tuple):
                        pass
                    else:
''', '''                    elif isinstance(argument, (list, tuple)):
                        pass
                    else:
'''))
R("co-cost-continue", CO, ('''                    if argument_size == IGNORED:
                        pass
                    elif isinstance(argument, Variable):
                        if argument.name in bound_variables:
                            unbound_argument_size_product *= argument_size
                    elif isinstance(argument, list):
                        pass
                    elif isinstance(argument, tuple):
                        pass
                    else:
                        unbound_argument_size_product *= argument_size
''', '''                    if argument_size == IGNORED or isinstance(argument, (list, tuple)):
                        continue
                    if isinstance(argument, Variable) and argument.name not in bound_variables:
                        continue
                    unbound_argument_size_product *= argument_size
'''))
R("co-cost-helper", CO, ('''        costs = []
        for relation in relations:
            unbound_argument_size_product = 1
            arguments = atom[1:]

            if relation''', '''        # if the predicate occurs in multiple relations, take the maximal cost
        return max([self.relation_cost(atom, relation, bound_variables) for relation in relations])


    def relation_cost(self, atom, relation, bound_variables):
            predicate = atom[0]
            unbound_argument_size_product = 1
            arguments = atom[1:]

            if relation'''), ('''            costs.append(cost)

        # if the predicate occurs in multiple relations, take the maximal cost
        # (not the sum of the costs, because we don't want to double the cost with 2 simular relations)
        return max(costs)
''', '''            return cost
'''))
R("co-cost-running", CO, ('''        costs = []
        for relation''', '''        maximum = 0
        for relation'''), ('''            costs.append(cost)

''', '''            maximum = max(maximum, cost)

'''), ('''        return max(costs)
''', '''        return maximum
'''))
R("co-find-early", CO, ('''        if len(relations) == 0:
            return 0

        costs''', '''        if not relations:
            return 0

        costs'''))
# ---- isolate
R("is-not", IS, ('''        if len(atoms) == 0:
            return []

        head = atoms[0]
        head_variables = set(get_atom_variables(head))
        new_atoms = [head]

        batches = self.collect_batches(atoms[1:], head_variables)
''', '''        if not atoms:
            return []

        head, rest = atoms[0], atoms[1:]
        new_atoms = [head]

        batches = self.collect_batches(rest, set(get_atom_variables(head)))
'''))
R("is-roots", IS, ('''            if len(batch.variables & set(root_variables)) > 0:
''', '''            if not batch.variables.isdisjoint(root_variables):
'''))
R("is-roots-any", IS, ('''            if len(batch.variables & set(root_variables)) > 0:
''', '''            if any(variable in root_variables for variable in batch.variables):
'''))
R("is-invert", IS, ('''            if len(batch.variables & set(root_variables)) > 0:
                # make all atoms top level
                new_atoms.extend(batch.atoms)
            else:
                # do the same for the atoms in this batch
                recursed = self.isolate(batch.atoms, [])
                # isolate the batch
                new_atoms.append(('scoped', recursed))
''', '''            if len(batch.variables & set(root_variables)) == 0:
                new_atoms.append(('scoped', self.isolate(batch.atoms, [])))
            else:
                new_atoms += batch.atoms
'''))
R("is-batch-comp", IS, ('''        collection: list[AtomBatch] = []
        for atom in atoms:
            # note that the top level variables are excluded, they may occur in any batch
            variables = set(get_atom_variables(atom)) - excluded_variables
            collection.append(AtomBatch([atom], variables))
''', '''        collection: list[AtomBatch] = [
            AtomBatch([atom], set(get_atom_variables(atom)) - excluded_variables) for atom in atoms
        ]
'''))
R("is-merge-helper", IS, ('''            new_batches: list[AtomBatch] = []
            for batch in collection:
                found = None
                for i, new_batch in enumerate(new_batches):
                    if len(batch.variables & new_batch.variables) > 0:
                        found = i
                        break
                if found == None:
                    new_batches.append(batch)
                else:
                    found_batch = new_batches[found]
                    new_batches[found] = AtomBatch(found_batch.atoms + batch.atoms, found_batch.variables | batch.variables)

            if len(new_batches)''', '''            new_batches = self.combine(collection)

            if len(new_batches)'''), ('''    def restore_atom_order(self''', '''    def combine(self, collection: list[AtomBatch]) -> list[AtomBatch]:
        new_batches: list[AtomBatch] = []
        for batch in collection:
            for i, new_batch in enumerate(new_batches):
                if len(batch.variables & new_batch.variables) > 0:
                    new_batches[i] = AtomBatch(new_batch.atoms + batch.atoms, new_batch.variables | batch.variables)
                    break
            else:
                new_batches.append(batch)
        return new_batches


    def restore_atom_order(self'''))
R("is-found-none", IS, ('''                if found == None:
                    new_batches.append(batch)
                else:
                    found_batch = new_batches[found]
                    new_batches[found] = AtomBatch(found_batch.atoms + batch.atoms, found_batch.variables | batch.variables)
''', '''                if found is not None:
                    merged = new_batches[found]
                    new_batches[found] = AtomBatch(merged.atoms + batch.atoms, merged.variables.union(batch.variables))
                else:
                    new_batches.append(batch)
'''))
R("is-restored-loop", IS, ('''        restored = [self.restore_atom_order(atoms, batch) for batch in collection]

        return restored
''', '''        restored = []
        for batch in collection:
            restored.append(self.restore_atom_order(atoms, batch))
        return restored
'''))
R("is-restore-in", IS, ('''            for batch_atom in remaining_atoms:
                if batch_atom == atom:
                    ordered_atoms.append(batch_atom)
                    # an atom that occurs more than once must not be added again
                    remaining_atoms.remove(batch_atom)
                    break
''', '''            if atom in remaining_atoms:
                ordered_atoms.append(atom)
                # an atom that occurs more than once must not be added again
                remaining_atoms.remove(atom)
'''))
R("is-restore-return", IS, ('''        ordered_batch = AtomBatch(ordered_atoms, batch.variables)
        return ordered_batch''', '''        return AtomBatch(ordered_atoms, batch.variables)'''))
R("is-rename", IS, (("restore_atom_order",), "in_original_order"), (("collect_batches",), "batches_of"))
R("is-len-changed", IS, ('''            if len(new_batches) == len(collection):
                break

            collection = new_batches
''', '''            stable = len(new_batches) == len(collection)
            collection = new_batches
            if stable:
                break
'''))
# ---- basic optimizer
R("bq-steps", BQ, ('''        semantics_iterations = {}
        semantics_iterations["Semantics"] = semantics

        semantics = FrontResolveName().sort(semantics)
        semantics_iterations["Names resolved"] = semantics

        semantics = SortByCost().sort(semantics, self.model)
        semantics_iterations["Sorted by cost"] = semantics

        semantics = IsolateIndependentParts().isolate(semantics, root_variables)
        semantics_iterations["Isolated"] = semantics

        return semantics_iterations''', '''        names_resolved = FrontResolveName().sort(semantics)
        sorted_by_cost = SortByCost().sort(names_resolved, self.model)
        isolated = IsolateIndependentParts().isolate(sorted_by_cost, root_variables)

        return {
            "Semantics": semantics,
            "Names resolved": names_resolved,
            "Sorted by cost": sorted_by_cost,
            "Isolated": isolated,
        }'''))
R("bq-labels", BQ, ('''semantics_iterations["Names resolved"]''', '''semantics_iterations["Names first"]'''))
