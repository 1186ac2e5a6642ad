E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
CM = "module/CoreModule.py"; SO = "core/Solver.py"; GE = "core/BasicGenerator.py"; IM = "module/InferenceModule.py"

R("equals-flat", CM, ('''        if e1 is None:
            if e2 is None:
                raise Exception("== is called with two variables")
            else:
                return [[e2, e2]]
        else:
            if e2 is None:
                return [[e1, e1]]

        if e1 == e2:
            return [[e1, e2]]
        return []
''', '''        if e1 is None and e2 is None:
            raise Exception("== is called with two variables")
        if e1 is None:
            return [[e2, e2]]
        if e2 is None:
            return [[e1, e1]]

        return [[e1, e2]] if e1 == e2 else []
'''))
R("gt-helper", CM, ('''        e1 = values[0]
        e2 = values[1]

        if e1 is None:
            raise Exception("> first argument is unbound")
        if e2 is None:
            raise Exception("> second argument is unbound")

        if e1 > e2:
''', '''        e1, e2 = self._bound_pair(values, ">")

        if e1 > e2:
'''), ('''        e1 = values[0]
        e2 = values[1]

        if e1 is None:
            raise Exception("< first argument is unbound")
        if e2 is None:
            raise Exception("< second argument is unbound")

        if e1 < e2:
''', '''        e1, e2 = self._bound_pair(values, "<")

        if e1 < e2:
'''), ('''    # ('greater_than', E1, E2)
    # E1 and E2 must be bound
''', '''    def _bound_pair(self, values, operator):
        e1, e2 = values[0], values[1]
        if e1 is None:
            raise Exception(operator + " first argument is unbound")
        if e2 is None:
            raise Exception(operator + " second argument is unbound")
        return e1, e2


    # ('greater_than', E1, E2)
    # E1 and E2 must be bound
'''))
R("cmp-operator", CM, ('''from richard.core.atoms import bind_variables
''', '''import operator
from richard.core.atoms import bind_variables
'''), ('''        if e1 > e2:
            return [values]
        return []
''', '''        if not operator.gt(e1, e2):
            return []
        return [values]
'''))
R("multiply-inline", CM, ('''        e3 = e1 * e2

        return [
            [None, None, e3]
        ]
''', '''        return [[None, None, e1 * e2]]
'''))
R("count-helper", CM, ('''        body = values[1]

        results = context.solver.solve(body, context.binding)
        count = len(results)

        return [
            [count, None]
        ]
''', '''        return [[self.count_solutions(values[1], context), None]]
'''), ('''        body = values[0]

        results = context.solver.solve(body, context.binding)
        # print(values, context.binding, results)
        count = len(results)

        if count > 0:
            return []
        else:
            return [
                [None]
            ]
''', '''        if self.count_solutions(values[0], context) > 0:
            return []
        return [[None]]
'''), ('''        body, number = values

        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count == number:
''', '''        body, number = values

        if self.count_solutions(body, context) == number:
'''), ('''        body, number = values

        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count > number:
''', '''        body, number = values

        if self.count_solutions(body, context) > number:
'''), ('''        body, number = values

        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count < number:
''', '''        body, number = values

        if self.count_solutions(body, context) < number:
'''), ('''        body = values[0]

        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count == 0:
            return [
''', '''        body = values[0]

        count = self.count_solutions(body, context)

        if count == 0:
            return [
'''), ('''        body = values[0]

        results = context.solver.solve(body, context.binding)
        count = len(results)

        if count == 0:
            result = []
''', '''        body = values[0]

        count = self.count_solutions(body, context)

        if count == 0:
            result = []
'''), ('''    # ('equals', E1, E2)
''', '''    def count_solutions(self, body: list, context: ExecutionContext) -> int:
        return len(context.solver.solve(body, context.binding))


    # ('equals', E1, E2)
'''))
R("sum-builtin", CM, ('''        s = 0
        for result in results:
            s += result[element_var.name]

        return [
            [s, None, None]
        ]
''', '''        total = sum(result[element_var.name] for result in results)

        return [
            [total, None, None]
        ]
'''))
R("sum-rename", CM, ('''        s = 0
        for result in results:
            s += result[element_var.name]

        return [
            [s, None, None]
''', '''        name = element_var.name
        total = 0
        for solution in results:
            total = total + solution[name]

        return [
            [total, None, None]
'''))
R("argmin-builtin", CM, ('''        if len(results) == 0:
            return []

        min = None
        entity = None
        for result in results:
            if min is None or result[element_var.name] < min:
                min = result[element_var.name]
                entity = result[min_var.name]

        return [
            [entity, min, None]
        ]
''', '''        if not results:
            return []

        best = min(results, key=lambda result: result[element_var.name])

        return [
            [best[min_var.name], best[element_var.name], None]
        ]
'''))
R("argmin-first", CM, ('''        min = None
        entity = None
        for result in results:
            if min is None or result[element_var.name] < min:
                min = result[element_var.name]
                entity = result[min_var.name]

        return [
            [entity, min, None]
        ]
''', '''        best = None
        for result in results:
            if best is None or result[element_var.name] < best[element_var.name]:
                best = result

        return [
            [best[min_var.name], best[element_var.name], None]
        ]
'''))
R("argmax-continue", CM, ('''            if max is None or result[element_var.name] > max:
                max = result[element_var.name]
                entity = result[max_var.name]
''', '''            value = result[element_var.name]
            if max is not None and value <= max:
                continue
            max = value
            entity = result[max_var.name]
'''))
R("argext-shared", CM, ('''        min_var = context.arguments[0]
        element_var = context.arguments[1]
        body = values[2]

        results = context.solver.solve(body, context.binding)

        if len(results) == 0:
            return []

        min = None
        entity = None
        for result in results:
            if min is None or result[element_var.name] < min:
                min = result[element_var.name]
                entity = result[min_var.name]

        return [
            [entity, min, None]
        ]
''', '''        return self._extreme(values, context, lambda a, b: a < b)
'''), ('''        max_var = context.arguments[0]
        element_var = context.arguments[1]
        body = values[2]

        results = context.solver.solve(body, context.binding)

        if len(results) == 0:
            return []

        max = None
        entity = None
        for result in results:
            if max is None or result[element_var.name] > max:
                max = result[element_var.name]
                entity = result[max_var.name]

        return [
            [entity, max, None]
        ]
''', '''        return self._extreme(values, context, lambda a, b: a > b)


    def _extreme(self, values: list, context: ExecutionContext, better) -> list[list]:

        entity_var = context.arguments[0]
        element_var = context.arguments[1]
        results = context.solver.solve(values[2], context.binding)

        if len(results) == 0:
            return []

        best = None
        entity = None
        for result in results:
            if best is None or better(result[element_var.name], best):
                best = result[element_var.name]
                entity = result[entity_var.name]

        return [[entity, best, None]]
'''))
R("avg-len", CM, ('''        s = 0
        n = 0
        for result in results:
            s += result[element_var.name]
            n += 1

        average = s / n
''', '''        s = 0
        for result in results:
            s += result[element_var.name]

        average = s / len(results)
'''))
R("avg-enum", CM, ('''        s = 0
        n = 0
        for result in results:
            s += result[element_var.name]
            n += 1

        average = s / n

        return [
            [average, None, None]
        ]
''', '''        numbers = [result[element_var.name] for result in results]

        return [
            [sum(numbers) / len(numbers), None, None]
        ]
'''))
R("percentage-temp", CM, ('''        percentage = (len(nominator_results) / len(denominator_results)) * 100.0

        return [
            [percentage, None, None]
        ]
''', '''        total = len(denominator_results)
        fraction = len(nominator_results) / total
        return [[fraction * 100.0, None, None]]
'''), ('''        if len(denominator_results) == 0:
            return []
''', '''        if not denominator_results:
            return []
'''))
R("not-invert", CM, ('''        count = len(results)

        if count > 0:
            return []
        else:
            return [
                [None]
            ]
''', '''        if len(results) == 0:
            return [[None]]
        return []
'''))
R("all-loop", CM, ('''        entities = OrderedSet([binding[quant_var.name] for binding in context.solver.solve(range, context.binding)])
''', '''        entities = OrderedSet()
        for binding in context.solver.solve(range, context.binding):
            entities.add(binding[quant_var.name])
'''))
R("all-early", CM, ('''        range_count = len(entities)
        results = OrderedSet()
        for entity in entities:
            b = context.binding | {
                quant_var.name: entity
            }
            bindings = context.solver.solve(body, b)
            if len(bindings) > 0:
                results.add(entity)

        result_count = len(results)

        success = result_count == range_count

        if success:
            return [[result, None, None] for result in results]
        else:
            return []
''', '''        for entity in entities:
            b = dict(context.binding)
            b[quant_var.name] = entity
            if len(context.solver.solve(body, b)) == 0:
                return []

        return [[entity, None, None] for entity in entities]
'''))
R("all-invert", CM, ('''        success = result_count == range_count

        if success:
            return [[result, None, None] for result in results]
        else:
            return []
''', '''        if result_count != range_count:
            return []

        rows = []
        for result in results:
            rows.append([result, None, None])
        return rows
'''))
R("all-helper", CM, ('''            bindings = context.solver.solve(body, b)
            if len(bindings) > 0:
                results.add(entity)
''', '''            if self._has_solution(body, b, context):
                results.add(entity)
'''), ('''    # ('all', E1, [range-atoms], [body-atoms])
''', '''    def _has_solution(self, body, binding, context):
        return len(context.solver.solve(body, binding)) > 0


    # ('all', E1, [range-atoms], [body-atoms])
'''))
R("scoped-early", CM, ('''        if count == 0:
            result = []
        else:
            result = [
                [None]
            ]

        return result
''', '''        return [] if count == 0 else [[None]]
'''))
R("store-inline", CM, ('''        atoms = bind_variables(unbound_atoms, context.binding)

        for atom in atoms:
            context.solver.write_atom(atom)
''', '''        solver = context.solver
        for atom in bind_variables(unbound_atoms, context.binding):
            solver.write_atom(atom)
'''))
R("store-per-atom", CM, ('''        atoms = bind_variables(unbound_atoms, context.binding)

        for atom in atoms:
            context.solver.write_atom(atom)
''', '''        for unbound_atom in unbound_atoms:
            context.solver.write_atom(bind_variables(unbound_atom, context.binding))
'''))
R("destructure-elif", CM, ('''            if atom_term == structure_term:
                new_term = structure_term
            else:
                if isinstance(structure_term, Variable):
                    new_term = atom_term
                else:
                    return [ fail_structure ]

            result.append(new_term)
''', '''            if atom_term == structure_term:
                result.append(structure_term)
            elif isinstance(structure_term, Variable):
                result.append(atom_term)
            else:
                return [ fail_structure ]
'''))
R("findall-comp", CM, ('''                item = []
                for v in variable:
                    if v in binding:
                        item.append(binding[v])
                    else:
                        item.append(None)
''', '''                item = [binding[v] if v in binding else None for v in variable]
'''))
R("findall-get", CM, ('''                item = []
                for v in variable:
                    if v in binding:
                        item.append(binding[v])
                    else:
                        item.append(None)
''', '''                item = [binding.get(v) for v in variable]
'''))
R("findall-notin", CM, ('''                # skip duplicates
                if not item in result:
                    result.append(item)
            else:
                # skip duplicates
                if variable in binding:
                    item = binding[variable]
                    if not item in result:
                        result.append(item)
''', '''            elif variable in binding:
                item = binding[variable]
            else:
                continue

            # skip duplicates
            if item not in result:
                result.append(item)
'''))
R("findone-temp", CM, ('''        results = self.find_all(values, context)
        if len(results[0][2]) == 0:
            return []
        else:
            return [
                [None, None, results[0][2][0]]
            ]''', '''        rows = self.find_all(values, context)
        elements = rows[0][2]
        if not elements:
            return []
        return [[None, None, elements[0]]]'''))
R("relations-loop", CM, ('''        self.add_relation(Relation("equals", query_function=self.equals)),
        self.add_relation(Relation("greater_than", query_function=self.greater_than)),
        self.add_relation(Relation("less_than", query_function=self.less_than)),
''', '''        for name, function in [("equals", self.equals), ("greater_than", self.greater_than), ("less_than", self.less_than)]:
            self.add_relation(Relation(name, query_function=function))
'''))
R("relations-dict", CM, ('''        self.add_relation(Relation("equals", query_function=self.equals)),
        self.add_relation(Relation("greater_than", query_function=self.greater_than)),
        self.add_relation(Relation("less_than", query_function=self.less_than)),
''', '''        comparisons = {
            "equals": self.equals,
            "greater_than": self.greater_than,
            "less_than": self.less_than,
        }
        for name, function in comparisons.items():
            self.add_relation(Relation(name, query_function=function))
'''))
R("det-table", CM, ('''        if count == number:
            return [
                [None, None]
            ]
        else:
            return []
''', '''        return self._filter_row(count == number)
'''), ('''        if count > number:
            return [
                [None, None]
            ]
        else:
            return []
''', '''        return self._filter_row(count > number)
'''), ('''        if count < number:
            return [
                [None, None]
            ]
        else:
            return []
''', '''        return self._filter_row(count < number)
'''), ('''    # ('det_equals', [body-atoms], E2)
''', '''    @staticmethod
    def _filter_row(success):
        return [[None, None]] if success else []


    # ('det_equals', [body-atoms], E2)
'''))
# ---------------------------------------------------------------- Solver
R("solve-reorder", SO, ('''        if len(atoms) == 1:
            return self.solve_single(atoms[0], binding)
        if len(atoms) == 0:
            return [binding.copy()]
        else:
            result = []
            bindings = self.solve_single(atoms[0], binding)
            for b in bindings:
                for r in self.solve(atoms[1:], b):
                    if not r in result:
                        result.append(r)
            return result
''', '''        if not atoms:
            return [binding.copy()]

        first, rest = atoms[0], atoms[1:]
        if not rest:
            return self.solve_single(first, binding)

        result = []
        for b in self.solve_single(first, binding):
            for r in self.solve(rest, b):
                if r not in result:
                    result.append(r)
        return result
'''))
R("solve-dict", SO, ('''            return [binding.copy()]
''', '''            return [dict(binding)]
'''), ('''            result = binding.copy()
''', '''            result = dict(binding)
'''))
R("solve-helper", SO, ('''            result = []
            bindings = self.solve_single(atoms[0], binding)
            for b in bindings:
                for r in self.solve(atoms[1:], b):
                    if not r in result:
                        result.append(r)
            return result
''', '''            return self.solve_conjunction(atoms, binding)


    def solve_conjunction(self, atoms, binding):
        result = []
        for b in self.solve_single(atoms[0], binding):
            solutions = self.solve(atoms[1:], b)
            for solution in solutions:
                if solution not in result:
                    result.append(solution)
        return result
'''))
R("solve-fold", SO, ('''        if len(atoms) == 1:
            return self.solve_single(atoms[0], binding)
        if len(atoms) == 0:
            return [binding.copy()]
        else:
            result = []
            bindings = self.solve_single(atoms[0], binding)
            for b in bindings:
                for r in self.solve(atoms[1:], b):
                    if not r in result:
                        result.append(r)
            return result
''', '''        if len(atoms) == 1:
            return self.solve_single(atoms[0], binding)
        elif len(atoms) == 0:
            return [binding.copy()]

        head, *tail = atoms
        result = []
        for b in self.solve_single(head, binding):
            new = [r for r in self.solve(tail, b) if r not in result]
            for r in new:
                if r not in result:
                    result.append(r)
        return result
'''))
R("single-unpack", SO, ('''    def solve_single(self, atom: tuple, binding: dict):
        predicate = atom[0]
        arguments = atom[1:]
''', '''    def solve_single(self, atom: tuple, binding: dict):
        predicate, arguments = atom[0], atom[1:]
'''))
R("single-check-helper", SO, ('''        for row in values:
            if not isinstance(row, list):
                raise Exception("The results of '" + predicate + "' should be lists")
            if len(row) != len(arguments):
                raise Exception("The number of arguments in the results of '" + predicate + "' is " + str(len(row)) + " and should be " + str(len(arguments)))

        results = self.create_solve_single_results(values, binding, arguments)
        return results
''', '''        self.check_rows(predicate, values, arguments)

        return self.create_solve_single_results(values, binding, arguments)


    def check_rows(self, predicate, rows, arguments):
        expected = len(arguments)
        for row in rows:
            if not isinstance(row, list):
                raise Exception(f"The results of '{predicate}' should be lists")
            if len(row) != expected:
                raise Exception(f"The number of arguments in the results of '{predicate}' is {len(row)} and should be {expected}")
'''))
R("single-stats-helper", SO, ('''        # predicate stats
        if self.log_stats:
            if not predicate in self.stats:
                self.stats[predicate] = 0
            self.stats[predicate] += 1

        if predicate == DISJUNCTION:
''', '''        if self.log_stats:
            self.stats[predicate] = self.stats.get(predicate, 0) + 1

        if predicate == DISJUNCTION:
'''))
R("results-helper", SO, ('''        results = []
        for v in values:
            # extend the incoming binding
            result = binding.copy()
            # check needed for a variable that occurs twice
            conflict = False

            # go through all arguments
            for i, arg in enumerate(arguments):
                # variable?
                if isinstance(arg, Variable):
                    # if the variable was bound already, no need to assign it
                    # also no need to check for conflict, because the type may be different and that's ok
                    if arg.name not in binding:
                        # check for conflict with previous same variable
                        if arg.name in result and result[arg.name] != v[i]:
                            conflict = True
                        # extend the binding
                        result[arg.name] = v[i]
                else:
                    if v[i] is not None and arg != v[i]:
                        conflict = True

            if conflict:
                continue

            results.append(result)

        return results
''', '''        results = []
        for row in values:
            extended = self.extend_binding(row, binding, arguments)
            if extended is not None:
                results.append(extended)
        return results


    def extend_binding(self, row: list, binding: dict, arguments: list):
        result = binding.copy()
        for arg, value in zip(arguments, row):
            if isinstance(arg, Variable):
                if arg.name in binding:
                    continue
                if arg.name in result and result[arg.name] != value:
                    return None
                result[arg.name] = value
            elif value is not None and arg != value:
                return None
        return result
'''))
R("results-zip", SO, ('''            for i, arg in enumerate(arguments):
                # variable?
                if isinstance(arg, Variable):
                    # if the variable was bound already, no need to assign it
                    # also no need to check for conflict, because the type may be different and that's ok
                    if arg.name not in binding:
                        # check for conflict with previous same variable
                        if arg.name in result and result[arg.name] != v[i]:
                            conflict = True
                        # extend the binding
                        result[arg.name] = v[i]
                else:
                    if v[i] is not None and arg != v[i]:
                        conflict = True

            if conflict:
                continue

            results.append(result)
''', '''            for arg, value in zip(arguments, v):
                if isinstance(arg, Variable):
                    name = arg.name
                    if name not in binding:
                        if name in result and result[name] != value:
                            conflict = True
                            break
                        result[name] = value
                elif value is not None and arg != value:
                    conflict = True
                    break

            if not conflict:
                results.append(result)
'''))
R("disj-truthy", SO, ('''            if len(results) > 0:
                return results
        return []
''', '''            if results:
                return results
        return []
'''))
R("disj-break", SO, ('''        for disjunct in disjuncts:
            results = self.solve(disjunct, binding)
            if len(results) > 0:
                return results
        return []
''', '''        results = []
        for disjunct in disjuncts:
            results = self.solve(disjunct, binding)
            if len(results) != 0:
                break
        return results
'''))
R("rel-set", SO, ('''        stringed_values = {}

''', '''        seen = set()

'''), ('''                if stringed_value not in stringed_values:
                    stringed_values[stringed_value] = out_value
                    rows.append(out_value)
''', '''                if stringed_value in seen:
                    continue
                seen.add(stringed_value)
                rows.append(out_value)
'''))
R("rel-values", SO, ('''                if stringed_value not in stringed_values:
                    stringed_values[stringed_value] = out_value
                    rows.append(out_value)

        return rows
''', '''                stringed_values.setdefault(stringed_value, out_value)

        return list(stringed_values.values())
'''), ('''        rows = []
        stringed_values = {}
''', '''        stringed_values = {}
'''))
R("rel-collect", SO, ('''            # deduplicate results
            for out_value in out_values:
                stringed_value = str(out_value)
                if stringed_value not in stringed_values:
                    stringed_values[stringed_value] = out_value
                    rows.append(out_value)

        return rows
''', '''            rows.extend(out_values)

        return self.deduplicate(rows)


    def deduplicate(self, rows: list[list]) -> list[list]:
        unique = {}
        for row in rows:
            key = str(row)
            if key not in unique:
                unique[key] = row
        return list(unique.values())
'''), ('''        rows = []
        stringed_values = {}
''', '''        rows = []
'''))
R("rel-context-inline", SO, ('''            context = ExecutionContext(relation, arguments, binding, self)

            # call the relation's query function
            out_values = relation.query_function(db_values, context)
''', '''            query = relation.query_function
            out_values = query(db_values, ExecutionContext(relation, arguments, binding, self))
'''))
R("rel-find-helper", SO, ('''    def find_relation_values(self, predicate: str, arguments: list, binding: dict) -> list[list]:

        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")
''', '''    def find_relations(self, predicate: str):
        relations = self.model.find_relations(predicate)
        if not relations:
            raise Exception("No relation called '" + predicate + "' available in the model")
        return relations


    def find_relation_values(self, predicate: str, arguments: list, binding: dict) -> list[list]:

        relations = self.find_relations(predicate)
'''), ('''        relations = self.model.find_relations(predicate)
        if len(relations) == 0:
            raise Exception("No relation called '" + predicate + "' available in the model")

        for relation in relations:
            if relation.write_function is not None:
                context = ExecutionContext(relation, arguments, {}, self)
                relation.write_function(arguments, context)
''', '''        for relation in self.find_relations(predicate):
            if relation.write_function is None:
                continue
            relation.write_function(arguments, ExecutionContext(relation, arguments, {}, self))
'''))
R("prep-comp", SO, ('''        prepared = []
        for arg in model_values:
            # variable
            if isinstance(arg, Variable):
                # bound?
                if arg.name in binding:
                    # add variable value
                    prepared.append(binding[arg.name])
                else:
                    # add None
                    prepared.append(None)
            else:
                # just add value
                prepared.append(arg)

        return prepared
''', '''        return [binding.get(arg.name) if isinstance(arg, Variable) else arg for arg in model_values]
'''))
R("prep-helper", SO, ('''        prepared = []
        for arg in model_values:
            # variable
            if isinstance(arg, Variable):
                # bound?
                if arg.name in binding:
                    # add variable value
                    prepared.append(binding[arg.name])
                else:
                    # add None
                    prepared.append(None)
            else:
                # just add value
                prepared.append(arg)

        return prepared
''', '''        return [self.value_of(arg, binding) for arg in model_values]


    def value_of(self, arg, binding):
        if not isinstance(arg, Variable):
            return arg
        if arg.name in binding:
            return binding[arg.name]
        return None
'''))
R("prep-inline", SO, ('''        db_values = self.model_values_2_db_values(arguments, binding)

        rows = []
''', '''        db_values = []
        for arg in arguments:
            if isinstance(arg, Variable):
                db_values.append(binding[arg.name] if arg.name in binding else None)
            else:
                db_values.append(arg)

        rows = []
'''))
R("prep-gone", SO, ('''        db_values = self.model_values_2_db_values(arguments, binding)

        rows = []
''', '''        db_values = [binding.get(arg.name) if isinstance(arg, Variable) else arg for arg in arguments]

        rows = []
'''), ('''    def model_values_2_db_values(self, model_values: list, binding: dict) -> list:
        prepared = []
        for arg in model_values:
            # variable
            if isinstance(arg, Variable):
                # bound?
                if arg.name in binding:
                    # add variable value
                    prepared.append(binding[arg.name])
                else:
                    # add None
                    prepared.append(None)
            else:
                # just add value
                prepared.append(arg)

        return prepared


''', ''))
R("results-gone", SO, ('''        results = self.create_solve_single_results(values, binding, arguments)
        return results


    def create_solve_single_results(self, values: list, binding: dict, arguments: list):
        results = []
''', '''        results = []
'''))
R("disj-gone", SO, ('''            return self.solve_disjunction(atom[1], binding)
''', '''            for disjunct in atom[1]:
                results = self.solve(disjunct, binding)
                if len(results) > 0:
                    return results
            return []
'''), ('''    def solve_disjunction(self, disjuncts: list[list[tuple]], binding: dict):
        for disjunct in disjuncts:
            results = self.solve(disjunct, binding)
            if len(results) > 0:
                return results
        return []


''', ''))
R("rename-helpers", SO, ('''        results = self.create_solve_single_results(values, binding, arguments)
''', '''        results = self.rows_to_bindings(values, binding, arguments)
'''), ('''    def create_solve_single_results(self,''', '''    def rows_to_bindings(self,'''))
R("rename-frv", SO, ('''        values = self.find_relation_values(predicate, arguments, binding)
''', '''        values = self.query_relations(predicate, arguments, binding)
'''), ('''    def find_relation_values(self,''', '''    def query_relations(self,'''))
# ---------------------------------------------------------------- Model / InferenceModule
R("model-comp", "core/Model.py", ('''        result = []
        for module in self.modules:
            relations = module.get_relations()
            if relation in relations:
                result.append(relations[relation])
        return result
''', '''        return [
            module.get_relations()[relation]
            for module in self.modules
            if relation in module.get_relations()
        ]
'''))
R("model-get", "core/Model.py", ('''            relations = module.get_relations()
            if relation in relations:
                result.append(relations[relation])
''', '''            found = module.get_relations().get(relation)
            if found is not None:
                result.append(found)
'''))
R("model-plus", "core/Model.py", ('''        self.modules = [
            CoreModule(),
        ]
        self.modules.extend(modules)
''', '''        self.modules = [CoreModule()] + list(modules)
'''))
R("model-star", "core/Model.py", ('''        self.modules = [
            CoreModule(),
        ]
        self.modules.extend(modules)
''', '''        self.modules = [CoreModule(), *modules]
'''))
R("insert-setdefault", IM, ('''        if not predicate in self.rules:
            self.rules[predicate] = []
        self.rules[predicate].append(rule)
''', '''        self.rules.setdefault(predicate, []).append(rule)
'''))
R("handle-comp", IM, ('''        results = []
        for rule in self.rules[context.relation.predicate]:
            results.extend(self.solve_rule(rule, context.arguments, context.solver, context.binding))

        return results
''', '''        rules = self.rules[context.relation.predicate]
        return [
            row
            for rule in rules
            for row in self.solve_rule(rule, context.arguments, context.solver, context.binding)
        ]
'''))
R("handle-plus", IM, ('''        for rule in self.rules[context.relation.predicate]:
            results.extend(self.solve_rule(rule, context.arguments, context.solver, context.binding))
''', '''        predicate = context.relation.predicate
        for rule in self.rules[predicate]:
            rows = self.solve_rule(rule, context.arguments, context.solver, context.binding)
            results = results + rows
'''))
R("solve-rule-flat", IM, ('''            if isinstance(rule_argument, Variable):
                # bind variable
                if isinstance(bound_value, Variable):
                    # A = E1
                    pass
                else:
                    # A = 'john'
                    # check for conflicts
                    if rule_argument.name in rule_binding:
                        if rule_binding[rule_argument.name] != bound_value:
                            return []
                    rule_binding[rule_argument.name] = bound_value
            else:
                if isinstance(bound_value, Variable):
                    # 'john' = E1
                    pass
                else:
                    # 'john' = 'susan'
                    # check for conflicts
                    if bound_value != rule_argument:
                        return []
''', '''            if isinstance(bound_value, Variable):
                # unbound: nothing to match
                continue

            if isinstance(rule_argument, Variable):
                name = rule_argument.name
                if name in rule_binding and rule_binding[name] != bound_value:
                    return []
                rule_binding[name] = bound_value
            elif bound_value != rule_argument:
                return []
'''))
R("solve-rule-get", IM, ('''            if isinstance(value, Variable) and value.name in binding:
                bound_value = binding[value.name]
            else:
                bound_value = value
''', '''            bound_value = value
            if isinstance(value, Variable):
                bound_value = binding.get(value.name, value)
'''))
R("solve-rule-vars", IM, ('''        rule_binding = {key: value for (key, value) in binding.items() if key not in rule.get_all_variables()}
''', '''        rule_variables = set(rule.get_all_variables())
        rule_binding = {}
        for key, value in binding.items():
            if key not in rule_variables:
                rule_binding[key] = value
'''))
R("solve-rule-split", IM, ('''        rule_arguments = rule.head[1:]

        # a head with another number of arguments does not match
        if len(rule_arguments) != len(arguments):
            return []

''', '''        rule_arguments = rule.head[1:]

        # a head with another number of arguments does not match
        if len(rule_arguments) != len(arguments):
            return []

        rule_binding = self.match_head(rule, rule_arguments, arguments, binding)
        if rule_binding is None:
            return []

        bindings = solver.solve(rule.body, rule_binding) if rule.body else [rule_binding]

        return self.rows(bindings, rule_arguments, arguments)


    def match_head(self, rule, rule_arguments, arguments, binding):

'''), ('''                        if rule_binding[rule_argument.name] != bound_value:
                            return []
                    rule_binding''', '''                        if rule_binding[rule_argument.name] != bound_value:
                            return None
                    rule_binding'''), ('''                    if bound_value != rule_argument:
                        return []

        if len(rule.body) == 0:
            bindings = [ rule_binding ]
        else:
            bindings = solver.solve(rule.body, rule_binding)

        results = []
''', '''                    if bound_value != rule_argument:
                        return None

        return rule_binding


    def rows(self, bindings, rule_arguments, arguments):
        results = []
'''))
R("solve-rule-row", IM, ('''                if isinstance(value, Variable):
                    if isinstance(rule_argument, Variable):
                        # check if the results are not bound (completely)
                        # this happens when r(X). is matches against r(Y).
                        if not rule_argument.name in solution:
                            return []
                        result.append(solution[rule_argument.name])
                    else:
                        result.append(rule_argument)
                else:
                    result.append(value)
''', '''                if not isinstance(value, Variable):
                    result.append(value)
                elif not isinstance(rule_argument, Variable):
                    result.append(rule_argument)
                elif rule_argument.name in solution:
                    result.append(solution[rule_argument.name])
                else:
                    # the results are not bound (completely)
                    return []
'''))
R("solve-rule-nobody", IM, ('''        if len(rule.body) == 0:
            bindings = [ rule_binding ]
        else:
            bindings = solver.solve(rule.body, rule_binding)
''', '''        bindings = solver.solve(rule.body, rule_binding)
'''))
R("learn-index", IM, ('''        head, body = values

        if''', '''        head = values[0]
        body = values[1]

        if'''), ('''        bound_head = bind_variables(head, context.binding)
        bound_body = bind_variables(body, context.binding)

        self.insert_rule(InferenceRule(bound_head, bound_body))
''', '''        binding = context.binding
        rule = InferenceRule(head=bind_variables(head, binding), body=bind_variables(body, binding))
        self.insert_rule(rule)
'''))
R("import-readonly", IM, ('''        with open(path) as rule_file:
            content = rule_file.read()
            rules, pos = parser.parse(content)
            if pos is not None:
                raise Exception("Unable to parse inference on token " + str(pos) + " in file " + path)
            for rule in rules:
                self.insert_rule(rule)
''', '''        with open(path) as rule_file:
            content = rule_file.read()

        rules, pos = parser.parse(content)
        if pos is not None:
            raise Exception(f"Unable to parse inference on token {pos} in file {path}")
        for rule in rules:
            self.insert_rule(rule)
'''))
