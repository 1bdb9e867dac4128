"Writes /verif/properties.jsonl (source of truth for the property texts)."
import json, pathlib

P = []


def add(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })


ALL_CONN = [f"pysqlsync/dialect/{d}/connection.py" for d in ("postgresql", "mysql", "mssql", "oracle")]

add("C01", "Schema synchronization converges for every schema history",
    "After a successful synchronization the database contains exactly the tables, columns (type, nullability, default, identity), keys, unique and foreign constraints, enumeration and composite types and descriptions that creating the same Python entity classes from scratch would give, whatever versions were synchronized before. "
    "Synchronizing the same classes again, from the same or from a fresh connection, changes nothing in the database. "
    "A change that synchronization does not support (removing a value of an enumeration type, another primary key) is refused with an error before anything is changed.",
    ["histories", "inputs", "configurations", "schedules"],
    "every sequence of schema versions (tables, columns, enums, structs, references, defaults, comments added, changed and removed), every dialect, enum/struct/array mode and namespace mapping, from same or fresh connections",
    "Synchronization tests need live database servers and are skipped here; the reachable tests compare generated SQL text for a handful of hand-written pairs of versions and never execute it.",
    ["pysqlsync/base.py", "pysqlsync/formation/mutation.py", "pysqlsync/formation/discovery.py", "pysqlsync/formation/py_to_sql.py", "pysqlsync/dialect/postgresql/discovery.py", "pysqlsync/dialect/postgresql/mutation.py", "pysqlsync/dialect/mysql/discovery.py", "pysqlsync/dialect/mysql/mutation.py", "pysqlsync/dialect/mssql/discovery.py", "pysqlsync/dialect/mssql/mutation.py", "pysqlsync/dialect/oracle/discovery.py", "pysqlsync/dialect/oracle/mutation.py"],
    [("synchronize = target model, discovery, diff, execute", "pysqlsync/base.py Explorer.synchronize"), ("model diff to SQL", "pysqlsync/formation/mutation.py Mutator"), ("catalog discovery", "pysqlsync/formation/discovery.py, pysqlsync/dialect/*/discovery.py")],
    [{"name": "database catalog", "meaning": "schemas, tables, columns, constraints, types held by the server", "where": "server"}],
    ["database catalog after each synchronize() call"])

add("C02", "Synchronization keeps the data of everything that is kept",
    "Synchronizing to a new version of the entity classes never changes or loses the rows of a retained table or the values of a retained column, including when an enumeration changes its representation from an in-place value to a reference into a lookup table (each row then refers to the entry with its former value). "
    "Adding, changing or dropping other tables, columns, constraints or descriptions leaves that data untouched, and so does a change that is refused.",
    ["histories", "inputs", "configurations"],
    "every populated database and every permitted schema change between two synchronizations, in every dialect",
    "No reachable test ever holds rows while a schema changes; the few migration tests need live servers and use one fixed table.",
    ["pysqlsync/formation/mutation.py", "pysqlsync/dialect/postgresql/mutation.py", "pysqlsync/dialect/mysql/mutation.py", "pysqlsync/formation/object_types.py"],
    [("soft drop, migrate, hard drop", "pysqlsync/formation/mutation.py mutate_table_stmt/mutate_namespace_stmt"), ("value migration", "pysqlsync/dialect/*/mutation.py migrate_column_stmt")],
    [{"name": "rows of user tables", "meaning": "data stored before the schema change", "where": "server"}],
    ["row contents after each synchronize() call"])

add("C03", "Synchronization honours drop permissions and stays in its namespaces",
    "When dropping tables, enumeration types, composite types or namespaces is not permitted by the synchronization options, no synchronization ever removes an object of that kind or its data (permission to drop a namespace includes everything in it). "
    "Objects (and their data) that live in namespaces other than the ones being synchronized, or under names that merely resemble them, are never altered or removed, and removing a namespace's objects on request removes those of that namespace only.",
    ["histories", "configurations", "inputs"],
    "every combination of drop permissions, every schema history, every content of neighbouring namespaces including look-alike names",
    "Tests check the option flags on one or two generated statements; none runs against a database with other tenants' objects in it.",
    ["pysqlsync/formation/mutation.py", "pysqlsync/formation/discovery.py", "pysqlsync/dialect/mysql/connection.py", "pysqlsync/dialect/mysql/discovery.py", "pysqlsync/dialect/oracle/connection.py", "pysqlsync/dialect/oracle/discovery.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/model/data_types.py"],
    [("MutatorOptions allow_drop_*", "pysqlsync/formation/mutation.py"), ("namespace filter in discovery", "pysqlsync/formation/discovery.py get_namespace_flat, get_namespace_qualified"), ("drop_schema", "pysqlsync/dialect/*/connection.py")],
    [], ["database catalog and rows after synchronize()/drop_schema()"])

add("C04", "Interrupted synchronization is reported, loses nothing and can be re-run",
    "If anything fails while a synchronization is in progress (a rejected or timed-out statement, a lost connection, cancellation, or the client process dying), the caller is told it failed rather than that it succeeded, and no row or value that both versions keep is lost. "
    "Once the disturbance is over, synchronizing again from a fresh connection succeeds and reaches the desired schema; on databases with transactional schema changes the failed attempt itself leaves no trace, "
    "and the connection it failed on does not take for existing what was not created: asking it to create the objects either takes effect or fails.",
    ["crash_points", "fault_sequences", "histories"],
    "every point inside the exchange with the server at which a statement can be refused, an acknowledgement lost, the connection dropped, the task cancelled or the process killed",
    "Tests never inject a failure into a synchronization, and mocks return canned values; reaching these states needs a fault at a chosen statement and a database that keeps what was durable.",
    ["pysqlsync/base.py", "pysqlsync/formation/mutation.py", "pysqlsync/formation/discovery.py"] + ALL_CONN,
    [("error wrapping", "pysqlsync/base.py BaseContext.execute/query_all"), ("re-discovery on each synchronize", "pysqlsync/base.py Explorer.synchronize"), ("single multi-statement script", "pysqlsync/dialect/postgresql/connection.py")],
    [{"name": "client's model of the database", "meaning": "what the connection believes exists", "where": "generator state"}],
    ["outcome of synchronize(), server state after the fault, second synchronize()"])

add("C05", "Row and object writes behave as a keyed map",
    "Inserting, upserting and deleting rows or data-class objects has the effect of the same operations on a map from primary key to record: every supplied value reaches the column of its own field in its proper representation, whatever the order or subset of fields given, fields that are not supplied keep their stored value (or take the column default), and other rows are unaffected. "
    "This holds for any mix of operations, key and value types, missing values, synchronous or asynchronous record sources, and in every dialect that supports writing.",
    ["histories", "inputs", "configurations", "schedules"],
    "every sequence of insert/upsert/delete calls with any field order, omitted fields, nulls, enumerations, source kind and size, in every dialect",
    "Data tests need live servers and are skipped; reachable tests look at the text of insert/upsert statements for complete records in declaration order.",
    ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/generator.py", "pysqlsync/dialect/mysql/generator.py", "pysqlsync/dialect/mssql/generator.py", "pysqlsync/dialect/oracle/generator.py"] + ALL_CONN,
    [("statement generation by field order", "pysqlsync/base.py get_table_*_stmt"), ("record generator / transformers", "pysqlsync/base.py _generate_records"), ("data-class extractors", "pysqlsync/base.py _get_dataclass_extractors")],
    [], ["table contents after each call, compared with a reference map"])

add("C06", "Record sources are streamed once, in order and in bounded batches",
    "Every record of a synchronous or asynchronous source is taken from it exactly once and in order, and is delivered to the database exactly once; at most one batch of records is taken from the source ahead of what the database has accepted. "
    "An error raised by the source, or by the conversion of a record, reaches the caller, and no later record is taken or written after it.",
    ["inputs", "schedules", "fault_sequences"],
    "every source length relative to the batch size, every pace of source and database, every position at which the source raises",
    "Tests that write data pass short in-memory lists far below one batch and cannot run without a server.",
    ["pysqlsync/base.py"] + ALL_CONN,
    [("batching data sources", "pysqlsync/base.py IterableDataSource, AsyncIterableDataSource, SelectorDataSource, TransformerDataSource"), ("batch loop", "pysqlsync/dialect/*/connection.py _execute_all")],
    [], ["pulls from the source interleaved with writes accepted by the server"])

add("C07", "Interrupted bulk writes leave a clean prefix and can be retried",
    "When a bulk insert, upsert or delete is cut short (statement error, lost connection, cancellation, process death, failing source), every batch that had been acknowledged before is durable, nothing other than records of the source is ever stored, and no record is stored with another record's values. "
    "The caller sees the failure, and repeating the bulk upsert or delete afterwards on a fresh connection yields exactly the state an uninterrupted run would have reached.",
    ["crash_points", "fault_sequences", "histories"],
    "every batch boundary and every point within a batch at which the operation can be interrupted",
    "No test interrupts a bulk write; the intermediate states exist only under a fault at a chosen batch.",
    ["pysqlsync/base.py"] + ALL_CONN,
    [("per-batch dispatch", "pysqlsync/dialect/*/connection.py _execute_all, _insert_rows"), ("autocommit / commit at cursor exit", "pysqlsync/dialect/*/connection.py open")],
    [], ["durable table contents after the fault and after the retry"])

add("C08", "Enumeration lookup tables stay one-to-one under concurrent writers",
    "Writing rows whose enumeration values live in a lookup table adds each distinct value to that table at most once, never changes or removes the identifier of an existing value, never stores a missing value there, and every written row refers to the identifier whose value is the one supplied (a missing value stays missing). "
    "This holds when several clients write overlapping sets of values at the same time, across batches, and when some of the writes fail.",
    ["schedules", "fault_sequences", "inputs"],
    "every interleaving of concurrent writers over the merge, look-up and insert steps, with any fault in between",
    "Tests drive a single client; the window between adding new values, reading identifiers and writing rows is only visible under interleaving.",
    ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/generator.py", "pysqlsync/dialect/mysql/generator.py"],
    [("merge then select then transform", "pysqlsync/base.py BaseEnumTransformer._merge_lookup_table"), ("insert-or-ignore", "pysqlsync/*/generator.py get_table_merge_stmt")],
    [{"name": "lookup table", "meaning": "value-to-identifier relation", "where": "server"}],
    ["lookup table and referencing rows at every acknowledged write"])

add("C09", "Failures surface with their statement and never advance the client's model",
    "When the database rejects a statement or query, or the connection fails, the operation raises, and for scripts, statements with records and queries the raised error identifies the statement that failed and carries the driver's error as its cause; success is reported only if every statement was accepted. "
    "A failed creation, removal or synchronization of objects leaves the connection usable for a retry that really performs the work, rather than believing it already done.",
    ["fault_sequences", "histories"],
    "every driver call of every operation failing, in every dialect, followed by every retry",
    "Tests never make a driver call fail.",
    ["pysqlsync/base.py"] + ALL_CONN,
    [("QueryException", "pysqlsync/base.py"), ("model update on create/drop", "pysqlsync/base.py BaseGenerator.create/drop, BaseContext.create_objects/drop_objects")],
    [], ["exception seen by the caller; server state after a retry"])

add("C10", "Connections follow the TLS policy and are always released",
    "With SSL disabled no TLS is attempted (unspecified means the driver's own default; Redshift and Trino connections always use TLS); with a mandatory mode a connection is never established without TLS and certificates are verified exactly as that mode demands; the two optional modes (PostgreSQL and MySQL) try their preferred way first and the other one only if the first attempt failed to connect. "
    "Leaving the connection block - normally, by an exception, or by cancellation - closes the connection exactly once and never hides the original error; a failed opening leaves nothing open behind it. "
    "Connections are made with the very account, password, port and database given, whatever characters they have and whether they come as parameters or in a connection string, and no password shows up in the log or in an error.",
    ["configurations", "fault_sequences", "schedules"],
    "every SSL mode against servers that accept only plain, only TLS, both or neither, with refusals, latency, cancellation and errors at every step of opening, using and closing",
    "The connection tests need servers; what happens on refusal, on cancellation or on errors during open/close is never exercised.",
    ["pysqlsync/connection.py", "pysqlsync/base.py"] + ALL_CONN,
    [("open with fallback", "pysqlsync/dialect/postgresql/connection.py, pysqlsync/dialect/mysql/connection.py open"), ("create_context", "pysqlsync/connection.py"), ("async context manager", "pysqlsync/base.py BaseConnection.__aenter__/__aexit__")],
    [], ["connection attempts seen by the server, open connections at the end"])

add("C11", "Blocking drivers never stall the event loop nor outlive their call",
    "With drivers that block, other tasks of the same event loop keep running at their own pace however long the driver takes, and independent connections make progress in parallel. "
    "Each call returns exactly the value, or raises exactly the error, the driver produced for it, a connection is never used by two driver calls at once, and when a call - even a cancelled one - has returned to its caller the driver is no longer working on its behalf.",
    ["schedules", "fault_sequences"],
    "every interleaving of tasks, worker threads, slow and stalled driver calls, errors and cancellations",
    "The one dispatch mechanism is only imported by reachable tests; the property is about interleavings.",
    ["pysqlsync/util/dispatch.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/dialect/oracle/connection.py", "pysqlsync/dialect/redshift/connection.py"],
    [("thread_dispatch", "pysqlsync/util/dispatch.py")],
    [], ["driver calls and event-loop progress over simulated time"])

add("C12", "Tab-separated exchange round-trips through any stream",
    "Writing objects as tab-separated values and reading them back, through a file or an asynchronous stream delivering lines at any pace, yields the same records, in the same order, under any mapping and order of field names; the synchronous and the asynchronous reader agree, whether records are taken one by one or all at once. "
    "A stream failure while reading or writing reaches the caller and is never mistaken for the end of the data, and records obtained before it are intact.",
    ["inputs", "fault_sequences", "schedules"],
    "every record content (tabs, newlines, backslashes, empty strings, missing values, Unicode), field mapping, stream pace and failure position",
    "Tests read and write one small fixed sample from memory without failures or interleaving.",
    ["pysqlsync/data/exchange.py", "pysqlsync/model/properties.py"],
    [("TextWriter/TextReader/AsyncTextReader", "pysqlsync/data/exchange.py")],
    [], ["records read back"])

add("C13", "Query results are complete and faithful, or the query fails",
    "A query returns one item per row of the result set, in order, each as the requested scalar, tuple or data-class with every value in the field or position it belongs to, or it raises; a result whose shape does not match the request is rejected rather than truncated or rearranged. "
    "This holds in every dialect, for empty and large results, and under slow, failing or interrupted transfers.",
    ["inputs", "fault_sequences", "configurations"],
    "every result shape, signature, dialect row representation and fault during the transfer",
    "Reachable tests unwrap a few hand-made lists; the per-dialect row types and failures never occur in them.",
    ["pysqlsync/resultset.py"] + ALL_CONN + ["pysqlsync/dialect/trino/connection.py", "pysqlsync/dialect/redshift/connection.py"],
    [("resultset_unwrap_*", "pysqlsync/resultset.py"), ("_query_all", "pysqlsync/dialect/*/connection.py")],
    [], ["value returned by query_one/query_all"])

add("C14", "Discovery reports exactly the database it looks at",
    "Asking whether a table or column exists, listing tables, and reading the model of a table or namespace report exactly what the database holds in the named place at that time - all columns in order with type, nullability, default, identity and description, the keys and constraints with their columns in order - and nothing from elsewhere. "
    "If the catalog cannot be read because of a failure, discovery fails; a failure is never reported as, or remembered as, the absence of objects or of catalog features.",
    ["histories", "fault_sequences", "inputs"],
    "every catalog content, including look-alike names and multi-column keys, and a failure at every catalog query",
    "Discovery tests need servers; catalogs with neighbours, look-alikes and failing queries are never seen.",
    ["pysqlsync/formation/discovery.py", "pysqlsync/formation/constraints.py", "pysqlsync/formation/data_types.py", "pysqlsync/dialect/postgresql/discovery.py", "pysqlsync/dialect/mysql/discovery.py", "pysqlsync/dialect/mssql/discovery.py", "pysqlsync/dialect/oracle/discovery.py"],
    [("Explorer queries", "pysqlsync/formation/discovery.py, pysqlsync/dialect/*/discovery.py"), ("SqlDiscovery", "pysqlsync/formation/data_types.py")],
    [], ["values returned by the explorer compared with the server's catalog"])

add("C15", "Connections in one process do not interfere with each other",
    "Operations on one connection behave the same whether or not other connections - to the same or other databases, with the same or different entity classes, options and dialects - are open and active in the same process at the same time. "
    "In particular no connection's model of the database, option, default or type representation is altered by another connection's activity.",
    ["schedules", "histories", "configurations"],
    "every interleaving of two or more connections running any mix of creation, synchronization, discovery and data operations",
    "Every test uses a single connection or generator at a time.",
    ["pysqlsync/base.py", "pysqlsync/factory.py", "pysqlsync/formation/py_to_sql.py", "pysqlsync/formation/data_types.py", "pysqlsync/formation/discovery.py"],
    [("per-connection generator and context", "pysqlsync/base.py BaseEngine.create_connection"), ("copies of substituted types", "pysqlsync/formation/data_types.py, pysqlsync/formation/py_to_sql.py")],
    [{"name": "dialect registry and shared defaults", "meaning": "process-wide objects", "where": "pysqlsync/factory.py"}],
    ["statements, results and database state of each connection, compared with running it alone"])

add("C16", "Generated sample data is valid for every random stream and clock",
    "Generating random sample objects for an entity class returns the requested number of objects for any state of the random source and any current time: primary keys and unique fields do not repeat, every value has its field's type and respects its declared limits (lists and structures come in their JSON form), references hold a value of the type of the referenced key, and the objects can be written to and read back from the exchange format and a database table of that class without foreign keys. "
    "A class that cannot be served - a type without a generator, or a unique field with too few values - is refused with an error. The public building blocks of samples (members of an enumeration, texts, decimals, dates and times between two moments) stay within the limits they are given.",
    ["inputs", "histories", "configurations"],
    "every seed of the random source, every clock reading (including leap days, midnight and clock jumps) and every supported field type",
    "Tests generate once from an unseeded source and look at the count.",
    ["pysqlsync/data/generator.py"],
    [("random_objects", "pysqlsync/data/generator.py")],
    [], ["objects returned by random_objects()"])

NA = [
    ("C17", "Connection strings parse to the parameters they encode",
     "Every well-formed connection URL yields exactly the dialect, host, port, user, password, database and SSL mode it encodes, and every malformed one is rejected.",
     ["pysqlsync/factory.py", "pysqlsync/connection.py"], "get_parameters"),
    ("C18", "SQL literals and identifiers are quoted without injection",
     "Any string, number, timestamp or name embedded into generated SQL denotes exactly that value or name when parsed by the target database.",
     ["pysqlsync/model/data_types.py", "pysqlsync/model/id_types.py"], "quote, constant, quote_id, escape_like"),
    ("C19", "Common types of unions lose no information",
     "The column type chosen for a union of types can represent every value of every member type without loss, independently of member order.",
     ["pysqlsync/model/data_types.py"], "compatible_type"),
    ("C20", "Python classes generated from a database map back to that database",
     "Generating Python classes from a database model and converting them back yields an equivalent model.",
     ["pysqlsync/formation/sql_to_py.py", "pysqlsync/python_types.py"], "SqlConverter, dataclass_to_code"),
]
for id, title, st, files, mech in NA:
    add(id, title, st, ["inputs"], "every input value",
        "Unit tests sample a few inputs; the claim is over all inputs.",
        files, [(mech, files[0])])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, p["title"]
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P), encoding="utf-8")
print(len(P))
