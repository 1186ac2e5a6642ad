"""data sources, executor, modules, data types"""
E = []
def R(name, f, *pairs): E.append((name, f, list(pairs)))
AE = "processor/semantic_executor/AtomExecutor.py"; SI = "data_source/SimpleDataSource.py"; SQ = "data_source/Sqlite3DataSource.py"; MY = "data_source/MySqlDataSource.py"
P2 = "data_source/PsycoPg2DataSource.py"; P3 = "data_source/PsycoPg3DataSource.py"; SP = "data_source/SparqlDataSource.py"; CI = "data_source/CsvImporter.py"
DC = "module/BasicDialogContext.py"; SM = "module/SimpleMemoryModule.py"; OB = "module/BasicOutputBuffer.py"; GM = "module/GrammarModule.py"
LS = "processor/language_selector/LanguageSelector.py"; ML = "processor/language_selector/Multilingual.py"; AT = "core/atoms.py"; GF = "processor/parser/helper/grammar_functions.py"
RI = "entity/ResultIterator.py"; OS = "type/OrderedSet.py"; IR = "type/InferenceRule.py"; SOM = "interface/SomeModule.py"; SDS = "interface/SomeDataSource.py"; RE = "entity/Relation.py"
CP = "processor/semantic_composer/SemanticComposerProduct.py"; LO = "core/Logger.py"; DT = "core/DialogTester.py"
# executor
R("ae-helper", AE, ('''        # store the inferences in the sentence context
        for inference in incoming.inferences:
            solver.write_atom(inference)

''', '''        self.store_inferences(solver, incoming.inferences)

'''), ('''    def process(self''', '''    def store_inferences(self, solver: Solver, inferences: list[tuple]):
        # store the inferences in the sentence context
        for inference in inferences:
            solver.write_atom(inference)


    def process(self'''))
R("ae-inline", AE, ('''        bindings = solver.solve(incoming.get_semantics_last_iteration())

        product = AtomExecutorProduct(bindings, solver.stats)

        return ProcessResult([product], "")
''', '''        semantics = incoming.get_semantics_last_iteration()
        bindings = solver.solve(semantics)

        return ProcessResult([AtomExecutorProduct(bindings, solver.stats)], "")
'''))
R("ae-pos", AE, ('''solver = Solver(self.model, log_stats=request.logger.should_log_stats())''', '''log_stats = request.logger.should_log_stats()
        solver = Solver(self.model, log_stats)'''))
R("ae-exec-if", AE, ('''        solver.solve(incoming.executable)
''', '''        if len(incoming.executable) > 0:
            solver.solve(incoming.executable)
'''))
# simple data source
R("si-setdefault", SI, ('''        values = dict(zip(columns, values))

        if not table in self.store:
            self.store[table] = []

        self.store[table].append(values)
''', '''        record = dict(zip(columns, values))
        self.store.setdefault(table, []).append(record)
'''))
R("si-dict-comp", SI, ('''        values = dict(zip(columns, values))

        if not table in self.store:
            self.store[table] = []

        self.store[table].append(values)
''', '''        record = {column: value for column, value in zip(columns, values)}

        if table in self.store:
            self.store[table].append(record)
        else:
            self.store[table] = [record]
'''))
R("si-select-break", SI, ('''                if record.get(key) != value:
                    ok = False
            if ok:''', '''                if record.get(key) != value:
                    ok = False
                    break
            if ok:'''))
R("si-select-all", SI, ('''            ok = True
            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
            if ok:
                result = [record.get(column) for column in columns]
                results.append(result)
''', '''            if all(record.get(key) == value for key, value in values.items()):
                results.append([record.get(column) for column in columns])
'''))
R("si-select-any", SI, ('''            ok = True
            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
            if ok:
                result = [record.get(column) for column in columns]
                results.append(result)
''', '''            if any(record.get(key) != value for key, value in values.items()):
                continue
            result = []
            for column in columns:
                result.append(record.get(column))
            results.append(result)
'''))
R("si-select-helper", SI, ('''            ok = True
            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
            if ok:
''', '''            if self.matches(record, values):
'''), ('''    def clear(self):''', '''    def matches(self, record: dict, values: dict) -> bool:
        for key, value in values.items():
            if record.get(key) != value:
                return False
        return True


    def clear(self):'''))
R("si-select-comp", SI, ('''        results = []

        for record in self.store[table]:
            ok = True
            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
            if ok:
                result = [record.get(column) for column in columns]
                results.append(result)

        return results
''', '''        return [
            [record.get(column) for column in columns]
            for record in self.store[table]
            if all(record.get(key) == value for key, value in values.items())
        ]
'''))
R("si-select-get", SI, ('''        if not table in self.store:
            return []

        results = []

        for record in self.store[table]:
''', '''        results = []

        for record in self.store.get(table, []):
'''))
R("si-select-nodict", SI, ('''        values = self.create_dict(columns, list_values)

''', ''), ('''            for key, value in values.items():
                if record.get(key) != value:
                    ok = False
''', '''            for column, value in zip(columns, list_values):
                if value is not None and record.get(column) != value:
                    ok = False
'''))
R("si-dict-rename", SI, (("create_dict",), "as_filter"))
R("si-dict-comp2", SI, ('''        d = {}
        for key, val in zip(columns, values):
            if val is not None:
                d[key] = val
        return d''', '''        return {key: val for key, val in zip(columns, values) if val is not None}'''))
R("si-init", SI, ('''        self.clear()
''', '''        self.store = {}
'''))
# sql
R("sq-conds", SQ, ('''        where = "TRUE"
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                where += f" AND {column}=?"
                variables.append(value)
''', '''        conditions = ["TRUE"]
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                conditions.append(f"{column}=?")
                variables.append(value)
        where = " AND ".join(conditions)
'''))
R("sq-comp", SQ, ('''        where = "TRUE"
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                where += f" AND {column}=?"
                variables.append(value)
''', '''        where = " AND ".join(["TRUE"] + [f"{column}=?" for column, value in zip(columns, values) if value is not None])
        variables = [value for value in values if value is not None]
'''))
R("sq-continue", SQ, ('''            if value is not None:
                where += f" AND {column}=?"
                variables.append(value)
''', '''            if value is None:
                continue
            where = where + " AND " + column + "=?"
            variables.append(value)
'''))
R("sq-execute", SQ, ('''        cursor.execute(f"SELECT {select} FROM {table} WHERE {where}", variables)
        return [list(row) for row in (cursor.fetchall())]
''', '''        sql = "SELECT " + select + " FROM " + table + " WHERE " + where
        cursor.execute(sql, variables)
        rows = []
        for row in cursor.fetchall():
            rows.append(list(row))
        return rows
'''))
R("sq-map", SQ, ('''        return [list(row) for row in (cursor.fetchall())]
''', '''        return list(map(list, cursor.fetchall()))
'''))
R("sq-cursor-iter", SQ, ('''        cursor.execute(f"SELECT {select} FROM {table} WHERE {where}", variables)
        return [list(row) for row in (cursor.fetchall())]
''', '''        cursor.execute(f"SELECT {select} FROM {table} WHERE {where}", variables)
        return [list(row) for row in cursor]
'''))
R("sq-where-helper", SQ, ('''        where = "TRUE"
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                where += f" AND {column}=?"
                variables.append(value)

''', '''        where, variables = self.create_where(columns, values)
'''), ('''    def insert(self''', '''    def create_where(self, columns: list[str], values: list):
        where = "TRUE"
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                where += f" AND {column}=?"
                variables.append(value)
        return where, variables


    def insert(self'''))
R("sq-insert-fmt", SQ, ('''        column_string = ','.join(columns)
        place_holders = ", ".join(['?' for v in values])
        cursor.execute(f"INSERT OR IGNORE INTO {table} ({column_string}) VALUES ({place_holders})", values)
''', '''        place_holders = ",".join(["?"] * len(values))
        cursor.execute("INSERT OR IGNORE INTO {} ({}) VALUES ({})".format(table, ", ".join(columns), place_holders), values)
'''))
R("sq-delete-and", SQ, ('''        place_holders = "AND ".join([f'{c} = ? ' for c in columns])
        cursor.execute(f"DELETE FROM {table} WHERE {place_holders}", values)
''', '''        condition = " AND ".join(f"{column}=?" for column in columns)
        cursor.execute(f"DELETE FROM {table} WHERE {condition}", values)
'''))
R("sq-execute-direct", SQ, ('''        cursor = self.connection.cursor()
        select = ','.join(columns)
        cursor.execute(f"SELECT {select} FROM {table} WHERE {where}", variables)
''', '''        select = ','.join(columns)
        cursor = self.connection.execute(f"SELECT {select} FROM {table} WHERE {where}", variables)
'''))
R("my-comp", MY, ('''        where = "TRUE"
        variables = []
        for column, value in zip(columns, values):
            if value is not None:
                where += f" AND {column}=%s"
                variables.append(value)
''', '''        given = [(column, value) for column, value in zip(columns, values) if value is not None]
        where = "TRUE"
        for column, _ in given:
            where += f" AND {column}=%s"
        variables = [value for _, value in given]
'''))
R("p2-import", P2, ('''        import psycopg2

        where = "TRUE"''', '''        where = "TRUE"'''), ('''        cursor = self''', '''        import psycopg2
        cursor = self'''))
R("p3-select", P3, ('''        select = ','.join(columns)
        cursor.execute(f"SELECT {select} FROM {table} WHERE {where}", variables)
''', '''        cursor.execute("SELECT " + ','.join(columns) + " FROM " + table + " WHERE " + where, variables)
'''))
# sparql
R("sp-cache-helper", SP, ('''        if self.result_cache_path:
            input_string = table + str(columns) + str(values)
            cache_key = hashlib.sha1(input_string.encode()).hexdigest()
            file_name = self.result_cache_path + "/" + cache_key + ".pickle"
            try:''', '''        if self.result_cache_path:
            file_name = self.cache_file(table, columns, values)
            try:'''), ('''    def do_select(self''', '''    def cache_file(self, table: str, columns: list[str], values: list) -> str:
        input_string = table + str(columns) + str(values)
        cache_key = hashlib.sha1(input_string.encode()).hexdigest()
        return self.result_cache_path + "/" + cache_key + ".pickle"


    def do_select(self'''))
R("sp-cache-early", SP, ('''        # try to read from results cache
        if self.result_cache_path:
            input_string = table + str(columns) + str(values)
            cache_key = hashlib.sha1(input_string.encode()).hexdigest()
            file_name = self.result_cache_path + "/" + cache_key + ".pickle"
            try:
                with open(file_name, 'rb') as file:
                    result = pickle.load(file)
                    return result
            except OSError:
                pass

        # the actual select
        result = self.do_select(table, columns, values)

        # write to the results cache
        if self.result_cache_path:
            try:
                # other requests only see the file when it is complete
                temp_name = file_name + "." + str(os.getpid()) + ".tmp"
                with open(temp_name, 'wb') as file:
                    pickle.dump(result, file)
                os.replace(temp_name, file_name)
                return result
            except OSError:
                pass

        return result
''', '''        if not self.result_cache_path:
            return self.do_select(table, columns, values)

        # try to read from results cache
        input_string = table + str(columns) + str(values)
        cache_key = hashlib.sha1(input_string.encode()).hexdigest()
        file_name = self.result_cache_path + "/" + cache_key + ".pickle"
        try:
            with open(file_name, 'rb') as file:
                return pickle.load(file)
        except OSError:
            pass

        # the actual select
        result = self.do_select(table, columns, values)

        # write to the results cache
        try:
            # other requests only see the file when it is complete
            temp_name = f"{file_name}.{os.getpid()}.tmp"
            with open(temp_name, 'wb') as file:
                pickle.dump(result, file)
            os.replace(temp_name, file_name)
        except OSError:
            pass

        return result
'''))
R("sp-cache-read-helper", SP, ('''            try:
                with open(file_name, 'rb') as file:
                    result = pickle.load(file)
                    return result
            except OSError:
                pass

        # the actual''', '''            cached = self.read_cache(file_name)
            if cached is not None:
                return cached

        # the actual'''), ('''    def do_select(self''', '''    def read_cache(self, file_name: str):
        try:
            with open(file_name, 'rb') as file:
                return pickle.load(file)
        except OSError:
            return None


    def do_select(self'''))
R("sp-terms", SP, ('''        terms = [
            self.prepare_term(values[0], 0, columns),
            self.prepare_term(values[1], 1, columns)
        ]
''', '''        terms = [self.prepare_term(values[i], i, columns) for i in range(2)]
'''))
R("sp-terms-enum", SP, ('''        terms = [
            self.prepare_term(values[0], 0, columns),
            self.prepare_term(values[1], 1, columns)
        ]
''', '''        subject = self.prepare_term(values[0], 0, columns)
        object = self.prepare_term(values[1], 1, columns)
        terms = [subject, object]
'''))
R("sp-status", SP, ('''        if response.status_code == 403:
            raise Exception("Not allowed: " + str(response.text))
        if response.status_code == 429:
            raise Exception("Too many requests: " + str(response.text))
        if response.status_code == 400:
            raise Exception("Bad request: " + str(response.text))
        if response.status_code != 200:
            raise Exception("Unexpected response (" + str(response.status_code) + "): " + str(response.text))
''', '''        self.check_response(response)
'''), ('''    def create_query(self''', '''    def check_response(self, response):
        status = response.status_code
        if status == 200:
            return
        if status == 403:
            raise Exception("Not allowed: " + str(response.text))
        elif status == 429:
            raise Exception("Too many requests: " + str(response.text))
        elif status == 400:
            raise Exception("Bad request: " + str(response.text))
        raise Exception("Unexpected response (" + str(status) + "): " + str(response.text))


    def create_query(self'''))
R("sp-status-table", SP, ('''        if response.status_code == 403:
            raise Exception("Not allowed: " + str(response.text))
        if response.status_code == 429:
            raise Exception("Too many requests: " + str(response.text))
        if response.status_code == 400:
            raise Exception("Bad request: " + str(response.text))
        if response.status_code != 200:
            raise Exception("Unexpected response (" + str(response.status_code) + "): " + str(response.text))
''', '''        messages = {403: "Not allowed: ", 429: "Too many requests: ", 400: "Bad request: "}
        if response.status_code != 200:
            prefix = messages.get(response.status_code, "Unexpected response (" + str(response.status_code) + "): ")
            raise Exception(prefix + str(response.text))
'''))
R("sp-query-f", SP, ('''            locale_filter += """
                FILTER(LANG({}) = "{}") .
            """.format(text_variable, self.lang)
''', '''            locale_filter += f"""
                FILTER(LANG({text_variable}) = "{self.lang}") .
            """
'''))
R("sp-query-return", SP, ('''        query = """
            SELECT {} WHERE {{
                {} {} {} .
                {}
            }}
        """.format(" ".join(variables), terms[0], table, terms[1], locale_filter)

        return query
''', '''        select = " ".join(variables)
        return f"""
            SELECT {select} WHERE {{
                {terms[0]} {table} {terms[1]} .
                {locale_filter}
            }}
        """
'''))
R("sp-query-join", SP, ('''        locale_filter = ""

        for text_variable in text_variables:
            locale_filter += """
                FILTER(LANG({}) = "{}") .
            """.format(text_variable, self.lang)
''', '''        locale_filter = "".join([f'FILTER(LANG({text_variable}) = "{self.lang}") . ' for text_variable in text_variables])
'''))
R("sp-term-returns", SP, ('''        if term == None:
            prepared = "?term" + str(index)
        elif isinstance(term, str):
            if columns[index] == ID:
                prepared = "<{}>".format(self.escape_iri(term))
            elif columns[index] == CONSTANT:
                prepared = term
            else:
                # todo: locale
                prepared = "'{}'@{}".format(self.escape_literal(term), self.lang)
        else:
            prepared = str(term)
        return prepared
''', '''        if term is None:
            return f"?term{index}"
        if not isinstance(term, str):
            return str(term)
        column = columns[index]
        if column == ID:
            return f"<{self.escape_iri(term)}>"
        if column == CONSTANT:
            return term
        # todo: locale
        return f"'{self.escape_literal(term)}'@{self.lang}"
'''))
R("sp-escape-chain", SP, ('''        for char, escaped in [("\\\\", "\\\\\\\\"), ("'", "\\\\'"), ("\\n", "\\\\n"), ("\\r", "\\\\r")]:
            text = text.replace(char, escaped)
        return text
''', '''        text = text.replace("\\\\", "\\\\\\\\")
        text = text.replace("'", "\\\\'")
        text = text.replace("\\n", "\\\\n")
        return text.replace("\\r", "\\\\r")
'''))
R("sp-escape-translate", SP, ('''        for char, escaped in [("\\\\", "\\\\\\\\"), ("'", "\\\\'"), ("\\n", "\\\\n"), ("\\r", "\\\\r")]:
            text = text.replace(char, escaped)
        return text
''', '''        return text.translate(str.maketrans({"\\\\": "\\\\\\\\", "'": "\\\\'", "\\n": "\\\\n", "\\r": "\\\\r"}))
'''))
R("sp-escape-rename", SP, (("escape_literal",), "quote_text"), (("escape_iri",), "quote_iri"))
R("sp-vars-comp", SP, ('''        variables = []
        for i in range(2):
            if values[i] == None:
                variables.append(terms[i])
        if len(variables) == 0:
            variables = ["*"]
        return variables
''', '''        variables = [terms[i] for i in range(2) if values[i] is None]
        return variables or ["*"]
'''))
R("sp-vars-zip", SP, ('''        variables = []
        for i in range(2):
            if values[i] == None:
                variables.append(terms[i])
        if len(variables) == 0:''', '''        variables = []
        for value, term in zip(values, terms):
            if value is None:
                variables.append(term)
        if not variables:'''))
R("sp-text-comp", SP, ('''        variables = []
        for i in range(2):
            if values[i] == None and columns[i] == TEXT:
                variables.append(terms[i])
        return variables
''', '''        return [terms[i] for i in range(2) if values[i] is None and columns[i] == TEXT]
'''))
R("sp-results-comp", SP, ('''            result = []
            for i in range(2):
                if values[i] == None:
                    # drop the preceding '?'
                    var = terms[i][1:]
                    value = item[var]['value']
                    result.append(value)
                else:
                    result.append(values[i])

            results.append(result)
''', '''            # drop the preceding '?' of the variable
            results.append([item[terms[i][1:]]['value'] if values[i] is None else values[i] for i in range(2)])
'''))
R("sp-results-zip", SP, ('''            for i in range(2):
                if values[i] == None:
                    # drop the preceding '?'
                    var = terms[i][1:]
                    value = item[var]['value']
                    result.append(value)
                else:
                    result.append(values[i])
''', '''            for value, term in zip(values, terms):
                if value is not None:
                    result.append(value)
                    continue
                # drop the preceding '?'
                result.append(item[term[1:]]['value'])
'''))
R("sp-results-helper", SP, ('''            result = []
            for i in range(2):
                if values[i] == None:
                    # drop the preceding '?'
                    var = terms[i][1:]
                    value = item[var]['value']
                    result.append(value)
                else:
                    result.append(values[i])

            results.append(result)
        return results
''', '''            results.append(self.prepare_result(item, values, terms))
        return results


    def prepare_result(self, item: dict, values: list, terms: list):
        result = []
        for i in range(2):
            if values[i] == None:
                # drop the preceding '?'
                var = terms[i][1:]
                result.append(item[var]['value'])
            else:
                result.append(values[i])
        return result
'''))
R("sp-rename", SP, (("prepare_term",), "sparql_term"), (("prepare_variables",), "select_list"), (("prepare_results",), "rows"), (("create_query",), "sparql"), (("prepare_text_variables",), "text_vars"))
R("sp-params", SP, ('''        params = {
            'query': query,
            'format': 'json'  # Get the results in JSON format
        }

        # Send the request to the Wikidata SPARQL endpoint
        response = requests.get(self.url, params=params, headers=self.headers)
''', '''        response = requests.get(self.url, params=dict(query=query, format='json'), headers=self.headers)
'''))
# csv
R("ci-headers", CI, ('''            line = 0
            headers = []
            for row in reader:
                if len(row) == 0:
                    continue
                line += 1
                if line == 1:
                    headers = row
                    # print(headers)
                else:
''', '''            headers = None
            for row in reader:
                if not row:
                    continue
                if headers is None:
                    headers = row
                else:
'''))
R("ci-values", CI, ('''                    values = []
                    for header, element in zip(headers, row):
                        # # a | implements an array of values
                        # if "|" in element:
                        #     element = element.split("|")
                        # # integer
                        # elif element.lstrip("-+").isdigit():
                        #     element = int(element)
                        values.append(element)
''', '''                    values = [element for header, element in zip(headers, row)]
'''))
R("ci-rows", CI, ('''            reader = csv.reader(csvfile, delimiter=',')
            line = 0
            headers = []
            for row in reader:
                if len(row) == 0:
                    continue
                line += 1
                if line == 1:
                    headers = row
                    # print(headers)
                else:
''', '''            reader = csv.reader(csvfile)
            headers = []
            rows = [row for row in reader if len(row) > 0]
            for line, row in enumerate(rows):
                if line == 0:
                    headers = row
                else:
'''))
R("ci-next", CI, ('''            line = 0
            headers = []
            for row in reader:
                if len(row) == 0:
                    continue
                line += 1
                if line == 1:
                    headers = row
                    # print(headers)
                else:
''', '''            rows = [row for row in reader if row]
            if rows:
                headers = rows[0]
                for row in rows[1:]:
'''))
# dialog context
R("dc-direct", DC, ('''        name = values[0]
        body = values[1]
        self.data_source''', '''        name, body = values
        self.data_source'''))
R("dc-helpers", DC, ('''        name = values[0]
        body = values[1]
        self.data_source.insert('context', ['name'], [name])
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.data_source.delete('context', ['name'], [name])
''', '''        name = values[0]
        body = values[1]
        self.add_context(name)
        try:
            context.solver.solve(body, context.binding)
        finally:
            self.remove_context(name)
'''), ('''    def start_context(self''', '''    def add_context(self, name: str):
        self.data_source.insert('context', ['name'], [name])


    def remove_context(self, name: str):
        self.data_source.delete('context', ['name'], [name])


    def start_context(self'''))
R("dc-start-inline", DC, ('''        name = values[0]
        self.data_source.insert('context', ['name'], [name])
        return [
            [None]
        ]
''', '''        self.data_source.insert('context', ['name'], values[:1])
        return [[None]]
'''))
R("dc-clear-parent", DC, ('''        super().clear()

        cursor = self.data_source.connection.cursor()

        cursor.execute("CREATE TABLE dialog_isa (entity TEXT, type TEXT)")
        cursor.execute("CREATE TABLE context (name TEXT)")
''', '''        SimpleMemoryModule.clear(self)

        cursor = self.data_source.connection.cursor()
        for statement in ["CREATE TABLE dialog_isa (entity TEXT, type TEXT)", "CREATE TABLE context (name TEXT)"]:
            cursor.execute(statement)
'''))
R("dc-init", DC, ('''        super().__init__()

        self.clear()

''', '''        super().__init__()

'''))
R("sm-or", SM, ('''        self.relations[relation.predicate] = relation
        if not relation.query_function:
            relation.query_function = self.query
        if not relation.write_function:
            relation.write_function = self.write
''', '''        relation.query_function = relation.query_function or self.query
        relation.write_function = relation.write_function or self.write
        self.relations[relation.predicate] = relation
'''))
R("sm-super", SM, ('''        self.relations[relation.predicate] = relation
''', '''        super().add_relation(relation)
'''))
R("sm-none", SM, ('''        if not relation.query_function:
''', '''        if relation.query_function is None:
'''), ('''        if not relation.write_function:
''', '''        if relation.write_function is None:
'''))
R("sm-names", SM, ('''        return self.data_source.select(context.relation.predicate, context.relation.arguments, values)
''', '''        relation = context.relation
        return self.data_source.select(relation.predicate, relation.arguments, values)
'''))
R("sm-query-rename", SM, ("relation.query_function = self.query\n", "relation.query_function = self.read\n"), ("def query(", "def read("))
R("sm-clear", SM, ('''        connection = sqlite3.connect(':memory:')
        self.data_source = Sqlite3DataSource(connection)
''', '''        self.data_source = Sqlite3DataSource(sqlite3.connect(':memory:'))
'''))
R("ob-loop", OB, ('''        self.add_relation(Relation("output_type", arguments=["type"]))
        self.add_relation(Relation("output_value", arguments=["value"]))
        self.add_relation(Relation("output_value_with_unit", arguments=["value", "unit"]))
        self.add_relation(Relation("output_table", arguments=["results", "units"]))
        self.add_relation(Relation("output_list", arguments=["elements"]))
        self.add_relation(Relation("output_name_not_found", arguments=["name"]))
        self.add_relation(Relation("output_unknown_word", arguments=["word"]))
        self.add_relation(Relation("output_no_sentence", arguments=[]))
        self.add_relation(Relation("output_not_understood", arguments=[]))
''', '''        relations = {
            "output_type": ["type"],
            "output_value": ["value"],
            "output_value_with_unit": ["value", "unit"],
            "output_table": ["results", "units"],
            "output_list": ["elements"],
            "output_name_not_found": ["name"],
            "output_unknown_word": ["word"],
            "output_no_sentence": [],
            "output_not_understood": [],
        }
        for predicate, arguments in relations.items():
            self.add_relation(Relation(predicate, arguments=arguments))
'''))
R("gm-direct", GM, ('''        simple_rule = values[0]

        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
        self.grammar.add_rule(rule)
''', '''        parser = SimpleGrammarRulesParser()
        self.grammar.add_rule(parser.parse_simple_rule(values[0], False))
'''))
R("gm-kw", GM, ('''        rule = SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)
''', '''        rule = self.parse(simple_rule)
'''), ('''    # ('learn_grammar_rule', simple_rule)''', '''    def parse(self, simple_rule: dict) -> GrammarRule:
        return SimpleGrammarRulesParser().parse_simple_rule(simple_rule, False)


    # ('learn_grammar_rule', simple_rule)'''))
# language
R("ls-loop", LS, ('''        products = [LanguageSelectorProduct(locale) for locale in self.locales]
        return ProcessResult(products, "")
''', '''        products = []
        for locale in self.locales:
            products.append(LanguageSelectorProduct(locale))
        return ProcessResult(products, "")
'''))
R("ls-map", LS, ('''        products = [LanguageSelectorProduct(locale) for locale in self.locales]
        return ProcessResult(products, "")
''', '''        return ProcessResult(list(map(LanguageSelectorProduct, self.locales)), "")
'''))
R("ml-get", ML, ('''        if incoming.locale not in self.processors:
            raise Exception("No processor available for locale " + incoming.locale)

        return self.processors[incoming.locale].process(request)
''', '''        processor = self.processors.get(incoming.locale)
        if processor is None:
            raise Exception("No processor available for locale " + incoming.locale)

        return processor.process(request)
'''))
R("ml-if", ML, ('''        if incoming.locale not in self.processors:
            raise Exception("No processor available for locale " + incoming.locale)

        return self.processors[incoming.locale].process(request)
''', '''        locale = incoming.locale
        if locale in self.processors:
            return self.processors[locale].process(request)

        raise Exception("No processor available for locale " + locale)
'''))
# atoms
R("at-update", AT, ('''    variables = set()
    if isinstance(construct, Variable):
        variables.add(construct.name)
    elif isinstance(construct, tuple) or isinstance(construct, list):
        for arg in construct:
            for v in get_atom_variables(arg):
                variables.add(v)

    return list(variables)
''', '''    variables = set()
    if isinstance(construct, Variable):
        variables.add(construct.name)
    elif isinstance(construct, (tuple, list)):
        for arg in construct:
            variables.update(get_atom_variables(arg))

    return list(variables)
'''))
R("at-early", AT, ('''    variables = set()
    if isinstance(construct, Variable):
        variables.add(construct.name)
    elif isinstance(construct, tuple) or isinstance(construct, list):
        for arg in construct:
            for v in get_atom_variables(arg):
                variables.add(v)

    return list(variables)
''', '''    if isinstance(construct, Variable):
        return [construct.name]
    if not isinstance(construct, (tuple, list)):
        return []
    return list({v for arg in construct for v in get_atom_variables(arg)})
'''))
R("at-atoms", AT, ('''    variables = set()
    for atom in atoms:
        for v in get_atom_variables(atom):
            variables.add(v)

    return list(variables)
''', '''    return list({v for atom in atoms for v in get_atom_variables(atom)})
'''))
R("at-atoms-union", AT, ('''    variables = set()
    for atom in atoms:
        for v in get_atom_variables(atom):
            variables.add(v)

    return list(variables)
''', '''    variables = set()
    for atom in atoms:
        variables |= set(get_atom_variables(atom))

    return list(variables)
'''))
R("at-bind-get", AT, ('''        # bound?
        if construct.name in binding:
            # add variable value
            return binding[construct.name]
        else:
            # non-bound variable
            return construct
    else:
''', '''        # bound? otherwise the variable itself
        return binding.get(construct.name, construct)
    else:
'''))
R("at-bind-ifs", AT, ('''    # list
    if isinstance(construct, list):
        return [bind_variables(arg, binding) for arg in construct]
    # tuple
    elif isinstance(construct, tuple):
        return tuple([bind_variables(arg, binding) for arg in construct])
    # variable
    elif isinstance(construct, Variable):
        # bound?
        if construct.name in binding:
            # add variable value
            return binding[construct.name]
        else:
            # non-bound variable
            return construct
    else:
        # just the value
        return construct
''', '''    if isinstance(construct, Variable) and construct.name in binding:
        return binding[construct.name]
    if isinstance(construct, (list, tuple)):
        bound = [bind_variables(arg, binding) for arg in construct]
        return bound if isinstance(construct, list) else tuple(bound)
    return construct
'''))
R("at-bind-gen", AT, ('''        return tuple([bind_variables(arg, binding) for arg in construct])
''', '''        return tuple(bind_variables(arg, binding) for arg in construct)
'''))
# grammar functions
R("gf-zip", GF, ('''    replacements = {}
    for i, value in enumerate(values):
        token = template.args[i][0]
        replacements[token] = value
''', '''    replacements = {template.args[i][0]: value for i, value in enumerate(values)}
'''))
R("gf-rename", GF, ('''    return replace(template.body, replacements, True)
''', '''    return substitute(template.body, replacements, True)
'''), ("def replace(", "def substitute("), ('''            replaced.append(replace(atom, replacements, False))''', '''            replaced.append(substitute(atom, replacements, False))'''), ('''            replaced.append(replace(atom, replacements, True))''', '''            replaced.append(substitute(atom, replacements, True))'''))
R("gf-merge", GF, ('''        elif isinstance(atom, tuple):
            replaced.append(replace(atom, replacements, False))
        elif isinstance(atom, list):
            replaced.append(replace(atom, replacements, True))
        else:
            replaced.append(atom)

    return replaced if is_list else tuple(replaced)
''', '''        elif isinstance(atom, (tuple, list)):
            replaced.append(replace(atom, replacements, isinstance(atom, list)))
        else:
            replaced.append(atom)

    if is_list:
        return replaced
    return tuple(replaced)
'''))
# result iterator
R("ri-format", RI, ('''        self.index += 1
        if self.index > self.number:
            raise StopIteration
        return f"{self.single_result}{self.index}"
''', '''        if self.index >= self.number:
            raise StopIteration
        self.index += 1
        return str(self.single_result) + str(self.index)
'''))
R("ri-new", RI, ('''        iterator = copy(self)
        iterator.index = 0
        return iterator
''', '''        return ResultIterator(self.single_result, self.number)
'''))
R("ri-gen", RI, ('''        iterator = copy(self)
        iterator.index = 0
        return iterator
''', '''        for index in range(1, self.number + 1):
            yield f"{self.single_result}{index}"
'''))
# ordered set
R("os-len", OS, ('''        return self._d.__len__()
''', '''        return len(self._d)
'''), ('''        return self._d.__contains__(x)
''', '''        return x in self._d
'''), ('''        return self._d.__iter__()
''', '''        return iter(self._d)
'''))
R("os-init", OS, ('''        self._d = dict.fromkeys(iterable) if iterable else {}
''', '''        self._d = {}
        for x in iterable or []:
            self._d[x] = None
'''))
R("os-discard", OS, ('''        self._d.pop(x, None)
''', '''        if x in self._d:
            del self._d[x]
'''))
# inference rule
R("ir-str", IR, ('''        if len(self.body) == 0:
            return str(self.head) + "."
        else:
            return str(self.head) + " :- " + ", ".join([(str(atom)) for atom in self.body]) + "."
''', '''        if not self.body:
            return f"{self.head}."
        return f"{self.head} :- " + ", ".join(str(atom) for atom in self.body) + "."
'''))
R("ir-vars", IR, ('''        variables = []
        variables.extend(get_atoms_variables(self.head))
        variables.extend(get_atoms_variables(self.body))

        return variables
''', '''        return get_atoms_variables(self.head) + get_atoms_variables(self.body)
'''))
# interfaces
R("sds-loop", SDS, ('''        return [row[0] for row in self.select(table, columns, values)]
''', '''        column = []
        for row in self.select(table, columns, values):
            column.append(row[0])
        return column
'''))
R("re-order", RE, ('''        if not re.fullmatch('[\\w_]+', predicate):
            raise Exception('Predicate is not a word: ' + predicate)

        self.predicate = predicate
''', '''        self.predicate = predicate
        if re.fullmatch('[\\w_]+', predicate) is None:
            raise Exception('Predicate is not a word: ' + predicate)

'''))
R("cp-list", CP, ('''        semantics = None
        for sem in self.semantics_iterations.values():
            semantics = sem
        return semantics
''', '''        iterations = list(self.semantics_iterations.values())
        return iterations[-1] if iterations else None
'''))
R("lo-active", LO, ('''        return (self.which_tests == ALL) or (self.which_tests == LAST and self.is_last_test)
''', '''        if self.which_tests == ALL:
            return True
        return self.which_tests == LAST and self.is_last_test
'''))
R("lo-process", LO, ('''        if self.is_active() and self.show_products == ALL:
            if not self.show_products_processors or processor in self.show_products_processors:
                self.add_header(processor.get_name())
                if result.error_type != "":
                    self.add_error(result.error_type)

                for product in result.products:
                    product.log(self)
''', '''        if not self.is_active() or self.show_products != ALL:
            return
        if self.show_products_processors and processor not in self.show_products_processors:
            return
        self.add_header(processor.get_name())
        if result.error_type:
            self.add_error(result.error_type)
        for product in result.products:
            product.log(self)
'''))
R("lo-str", LO, ('''        s = ""
        for entry in self.entries:
            s += str(entry) + "\\n"
        return s
''', '''        return "".join(str(entry) + "\\n" for entry in self.entries)
'''))
