From 946c2b0a20d1268c0903d43ac9c36b40c6d98105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 01/74] fix: drop table constraints before the columns they
 depend on

---
 pysqlsync/formation/mutation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..c1aa443 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -200,6 +200,13 @@ class Mutator:
         # accumulate object mutation statements
         alter_stmts: list[Optional[str]] = []
 
+        # remove deleted constraints (before the columns that they depend on)
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        )
+
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
@@ -233,12 +240,6 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
         # remove outdated constraints
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
-- 
2.43.0


From 41797001bf5ab7cd2ae26e5d6245c2ac2b12572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 02/74] fix: create enumeration types with a single member

---
 pysqlsync/formation/py_to_sql.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..6730dd5 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1006,6 +1006,18 @@ class DataclassConverter:
             for ref_type in get_referenced_types(entity_type):
                 referenced_types.add(ref_type)
 
+        table_types = [obj for obj in referenced_types if is_entity_type(obj)]
+        table_types.sort(key=lambda t: t.__name__)
+
+        # discover extensible enumerations
+        extensible_enum_types: set[type[enum.Enum]] = set()
+        for entity in table_types:
+            for enum_field in dataclass_fields_as_required(
+                entity, lambda t: is_extensible_enum_type(t, entity)
+            ):
+                enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
+                extensible_enum_types.add(enum_type)
+
         # collect all enumeration types in alphabetical order
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
@@ -1013,7 +1025,7 @@ class DataclassConverter:
             enum_types.sort(key=lambda e: e.__name__)
             for enum_type in enum_types:
                 enum_values = [str(e.value) for e in enum_type]  # type: ignore
-                if len(enum_values) < 2:
+                if enum_type in extensible_enum_types and len(enum_values) < 2:
                     # enumerations with too few members expand into extensible enumeration tables
                     continue
 
@@ -1040,8 +1052,6 @@ class DataclassConverter:
 
         # create tables
         tables: dict[str, list[Table]] = {}
-        table_types = [obj for obj in referenced_types if is_entity_type(obj)]
-        table_types.sort(key=lambda t: t.__name__)
         for table_type in table_types:
             table_defs = tables.setdefault(table_type.__module__, [])
             table_defs.append(self.dataclass_to_table(table_type))
@@ -1070,14 +1080,6 @@ class DataclassConverter:
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
-        # discover extensible enumerations
-        extensible_enum_types: set[type[enum.Enum]] = set()
-        for entity in table_types:
-            for enum_field in dataclass_fields_as_required(
-                entity, lambda t: is_extensible_enum_type(t, entity)
-            ):
-                enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
-                extensible_enum_types.add(enum_type)
         for enum_type in sorted(list(extensible_enum_types), key=lambda e: e.__name__):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
-- 
2.43.0


From c0c043ec2a7ec1d97a9f74243ec9fe38d4064e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 03/74] fix: drop constraints of removed tables before the
 tables

---
 pysqlsync/formation/mutation.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index c1aa443..a3e952d 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -14,6 +14,7 @@ from .object_types import (
     Column,
     ColumnFormationError,
     EnumType,
+    ForeignConstraint,
     FormationError,
     Namespace,
     StatementList,
@@ -323,6 +324,18 @@ class Mutator:
 
         # drop old objects
         if self.options.allow_drop_table:
+            # tables to be dropped may reference one another in any order
+            table_drop_names = [table.name for table in table_drop]
+            for table in table_drop:
+                drop_references = [
+                    f"DROP CONSTRAINT {constraint.name}"
+                    for constraint in table.constraints.values()
+                    if isinstance(constraint, ForeignConstraint)
+                    and constraint.reference.table != table.name
+                    and constraint.reference.table in table_drop_names
+                ]
+                if drop_references:
+                    statements.append(table.alter_table_stmt(drop_references))
             statements.extend(table.drop_stmt() for table in table_drop)
 
         if self.options.allow_drop_struct:
-- 
2.43.0


From 36f3e107e7e67ebbb6cbd25f6a61f936abc53dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 04/74] fix: use 1 and 0 as default values of bit columns in
 SQL Server

---
 pysqlsync/dialect/mssql/mutation.py     |  3 ++-
 pysqlsync/dialect/mssql/object_types.py | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 5f49fe8..99d57c0 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -43,8 +43,9 @@ class MSSQLMutator(Mutator):
             if source_def is not None:
                 constraints.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
+                default_expr = typing.cast(MSSQLColumn, target_column).default_expr
                 constraints.append(
-                    f"ADD CONSTRAINT {name} DEFAULT {target_def} FOR {source_column.name}"
+                    f"ADD CONSTRAINT {name} DEFAULT {default_expr} FOR {source_column.name}"
                 )
 
         if constraints:
diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..929fd31 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -8,7 +8,7 @@ from pysqlsync.formation.object_types import (
     Table,
     join_or_none,
 )
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlBooleanType, quote
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -19,12 +19,28 @@ class MSSQLColumn(Column):
 
         return LocalId(f"df_{self.name.local_id}")
 
+    @property
+    def default_expr(self) -> str:
+        "The expression assigned by DEFAULT."
+
+        if self.default is None:
+            raise ValueError("default value is NULL")
+
+        if isinstance(self.data_type, SqlBooleanType):
+            # Microsoft SQL Server has no Boolean literals
+            if self.default == "TRUE":
+                return "1"
+            elif self.default == "FALSE":
+                return "0"
+
+        return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable else ""
         name = self.default_constraint_name()
         default = (
-            f" CONSTRAINT {name} DEFAULT {self.default}"
+            f" CONSTRAINT {name} DEFAULT {self.default_expr}"
             if self.default is not None
             else ""
         )
-- 
2.43.0


From bf11b1fb0a4fc7fa81db48894faba29c4ba1e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 05/74] fix: change the type of SQL Server columns that have a
 default value

---
 pysqlsync/dialect/mssql/mutation.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 99d57c0..6c05c97 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -30,26 +30,35 @@ class MSSQLMutator(Mutator):
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements = StatementList()
 
-        constraints: list[str] = []
+        # default constraints prevent changing the data type of their column
+        drop_constraints: list[str] = []
+        add_constraints: list[str] = []
         common_columns = source.columns.intersection(target.columns)
         for source_column, target_column in common_columns:
             source_def = source_column.default
             target_def = target_column.default
 
-            if source_def == target_def:
+            if (
+                source_def == target_def
+                and source_column.data_type == target_column.data_type
+            ):
                 continue
 
             name = typing.cast(MSSQLColumn, source_column).default_constraint_name()
             if source_def is not None:
-                constraints.append(f"DROP CONSTRAINT {name}")
+                drop_constraints.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
                 default_expr = typing.cast(MSSQLColumn, target_column).default_expr
-                constraints.append(
+                add_constraints.append(
                     f"ADD CONSTRAINT {name} DEFAULT {default_expr} FOR {source_column.name}"
                 )
 
-        if constraints:
-            statements.append(source.alter_table_stmt(constraints))
+        if drop_constraints:
+            statements.append(source.alter_table_stmt(drop_constraints))
 
         statements.append(super().mutate_table_stmt(source, target))
+
+        if add_constraints:
+            statements.append(source.alter_table_stmt(add_constraints))
+
         return join_or_none(statements)
-- 
2.43.0


From e300b76c2fca8b9c67721c840ed2e8256d3587f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 06/74] fix: migrate enumeration columns that are not nullable
 in tables with rows

---
 pysqlsync/formation/mutation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index a3e952d..182411e 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -1,3 +1,4 @@
+import copy
 from dataclasses import dataclass
 from typing import Optional
 
@@ -168,6 +169,7 @@ class Mutator:
         common_columns = list(source.columns.intersection(target.columns))
         drop_columns = list(source.columns.difference(target.columns))
         migrated_columns: list[tuple[Column, Column]] = []
+        mutate_columns: list[tuple[Column, Column]] = []
 
         # accumulate object creation statements
         create_stmts: list[str] = []
@@ -180,8 +182,15 @@ class Mutator:
                     statements.append(
                         source.alter_table_stmt([source_column.soft_drop_stmt()])
                     )
-                    create_stmts.append(target_column.create_stmt())
+                    # column stays empty until data has been migrated
+                    empty_column = copy.copy(target_column)
+                    if empty_column.default is None:
+                        empty_column.nullable = True
+                    create_stmts.append(empty_column.create_stmt())
                     migrated_columns.append(pair)
+                    mutate_columns.append((empty_column, target_column))
+                else:
+                    mutate_columns.append(pair)
         except ColumnFormationError as e:
             raise TableFormationError(
                 "failed to migrate columns in table", target.name
@@ -224,7 +233,7 @@ class Mutator:
 
         # mutate existing columns as necessary
         try:
-            for source_column, target_column in common_columns:
+            for source_column, target_column in mutate_columns:
                 alter_stmts.append(
                     self.mutate_column_stmt(source_column, target_column)
                 )
-- 
2.43.0


From 9ed3809cf6730c46be60d1b78507c924d41453b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 07/74] fix: migrate missing values of MySQL enumerations

---
 pysqlsync/dialect/mysql/mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..d087a82 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -29,7 +29,7 @@ class MySQLMutator(Mutator):
             )
         elif isinstance(source.data_type, SqlVariableCharacterType):
             statements.append(
-                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name}\n'
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name} WHERE {LocalId(deleted(source.name.id))} IS NOT NULL\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
             )
         statements.append(
-- 
2.43.0


From f8fc519bf673aa4f10c9e26b7ae70ad6d77dfecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 08/74] fix: unquote labels of discovered enumeration types

---
 pysqlsync/formation/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..aae34e5 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -134,7 +134,8 @@ class SqlDiscovery:
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                value.replace("''", "'")
+                for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From 9a3006d88c52f51626f3924415098eeb25c0d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 09/74] fix: keep values of columns that an upsert does not
 supply

---
 pysqlsync/dialect/mysql/generator.py      | 2 +-
 pysqlsync/dialect/postgresql/generator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..6abf193 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -107,7 +107,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..07c9325 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,7 +99,7 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         keys = ", ".join(str(key) for key in table.primary_key)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
-- 
2.43.0


From 357a5c4e295d311dfafdce7b7d349aa96202abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 10/74] fix: write objects whose fields have annotated or
 optional types

---
 pysqlsync/base.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..feeacb0 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -44,6 +44,7 @@ from .formation.object_types import (
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
 from .model.data_types import SqlJsonType, SqlVariableCharacterType
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
+from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -490,13 +491,29 @@ class BaseGenerator(abc.ABC):
         "Returns a tuple of callable function objects that extracts each field of a data-class."
 
         return tuple(
-            self.get_field_extractor(
-                table.columns[field.name], field.name, typing.cast(type, field.type)
+            self._get_nullable_extractor(
+                table.columns[field.name], field.name, field.type
             )
             for field in dataclasses.fields(entity_type)
             if not (skip_identity and table.columns[field.name].identity)
         )
 
+    def _get_nullable_extractor(
+        self, column: Column, field_name: str, field_type: Any
+    ) -> Callable[[Any], Any]:
+        "Returns a callable that extracts a field whose type may be annotated or optional."
+
+        properties = get_field_properties(field_type)
+        extractor = self.get_field_extractor(
+            column, field_name, typing.cast(type, properties.plain_type)
+        )
+        if not properties.nullable:
+            return extractor
+
+        return lambda obj: (
+            extractor(obj) if getattr(obj, field_name) is not None else None
+        )
+
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
     ) -> Callable[[Any], Any]:
-- 
2.43.0


From 58237de9f7465c21a4b8b6d8d2980be0a0ab8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 11/74] fix: leave out columns of record fields omitted by type

---
 pysqlsync/base.py                          | 31 ++++++++++++++++++++--
 pysqlsync/dialect/postgresql/connection.py | 10 +++++--
 pysqlsync/dialect/redshift/connection.py   |  3 ++-
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index feeacb0..80c7312 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -857,6 +857,33 @@ def to_data_source(records: RecordSource) -> DataSource:
         raise TypeError("expected: `Iterable` or `AsyncIterable` of records")
 
 
+def get_column_order(
+    table: Table,
+    field_types: tuple[type, ...],
+    field_names: Optional[tuple[str, ...]],
+) -> Optional[tuple[str, ...]]:
+    """
+    Returns the names of the columns that records supply values for, in the order of record fields.
+
+    :param table: The database table descriptor.
+    :param field_types: Type of each record field. Fields of type `types.NoneType` are omitted.
+    :param field_names: Label for each record field. Fields with an empty label are omitted.
+    :returns: A tuple of column names, or `None` if records supply values for all columns in the order of the table.
+    """
+
+    if not field_names:
+        if not any(field_type is type(None) for field_type in field_types):
+            return None
+        field_names = tuple(name for name in table.columns.keys())
+
+    return tuple(
+        name
+        for index, name in enumerate(field_names)
+        if name
+        and not (index < len(field_types) and field_types[index] is type(None))
+    )
+
+
 class BaseContext(abc.ABC):
     "Context object returned by a connection object."
 
@@ -1104,7 +1131,7 @@ class BaseContext(abc.ABC):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_column_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_typed(statement, record_generator, table, order)
 
@@ -1162,7 +1189,7 @@ class BaseContext(abc.ABC):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_column_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_typed(statement, record_generator, table, order)
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..100b642 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -7,7 +7,13 @@ from typing import Iterable, Optional, TypeVar
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
-from pysqlsync.base import BaseConnection, BaseContext, ClassRef, DataSource
+from pysqlsync.base import (
+    BaseConnection,
+    BaseContext,
+    ClassRef,
+    DataSource,
+    get_column_order,
+)
 from pysqlsync.connection import ConnectionSSLMode, create_context
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.properties import is_identity_type
@@ -132,7 +138,7 @@ class PostgreSQLContext(BaseContext):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_column_order(table, field_types, field_names)
         async for batch in record_generator.batches():
             result = await self.native_connection.copy_records_to_table(
                 schema_name=table.name.scope_id,
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..06124d2 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -15,6 +15,7 @@ from pysqlsync.base import (
     DataSource,
     QueryException,
     RecordType,
+    get_column_order,
 )
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
@@ -125,7 +126,7 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_column_order(table, field_types, field_names)
         columns = [col.name for col in table.get_columns(order)]
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
-- 
2.43.0


From b695aacd4dd1c4f3c549c60d73c581f7d7171d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 12/74] fix: convert keys of objects to delete

---
 pysqlsync/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 80c7312..58939d2 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1079,7 +1079,13 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_delete_stmt(table)
-        await self.execute_all(statement, ((key,) for key in keys))
+        column = self.get_table(table).get_primary_column()
+
+        def as_record(key: Any) -> RecordType:
+            transformer = generator.get_value_transformer(column, type(key))
+            return (transformer(key) if transformer is not None else key,)
+
+        await self.execute_all(statement, (as_record(key) for key in keys))
 
     async def insert_rows(
         self,
-- 
2.43.0


From 4bd2565e8ad43be489aa66e738c80bdfd502077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 13/74] fix: write collections of objects as JSON

---
 pysqlsync/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 58939d2..3ff899e 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -521,6 +521,10 @@ class BaseGenerator(abc.ABC):
 
         if is_type_enum(field_type):
             return lambda obj: getattr(obj, field_name).value
+        elif typing.get_origin(field_type) in (list, dict) and isinstance(
+            column.data_type, (SqlJsonType, SqlVariableCharacterType)
+        ):
+            return lambda obj: _JSON_ENCODER.encode(getattr(obj, field_name))
         else:
             return lambda obj: getattr(obj, field_name)
 
-- 
2.43.0


From e0e9cea7fe3602e579d04a28031187c1b5bb0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 14/74] fix: update unique columns when merging records by
 primary key

---
 pysqlsync/base.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 3ff899e..bb04855 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -350,7 +350,9 @@ class BaseGenerator(abc.ABC):
         statements.append(";")
         return "\n".join(statements)
 
-    def _get_merge_preamble(self, table: Table, columns: list[Column]) -> list[str]:
+    def _get_merge_preamble(
+        self, table: Table, columns: list[Column], match_columns: list[Column]
+    ) -> list[str]:
         "Builds the match condition of a SQL MERGE statement."
 
         statements: list[str] = []
@@ -362,7 +364,6 @@ class BaseGenerator(abc.ABC):
         )
         statements.append(f"USING (VALUES ({value_list})) source({column_list})")
 
-        match_columns = [column for column in columns if table.is_lookup_column(column)]
         if match_columns:
             match_condition = " OR ".join(
                 f"target.{column.name} = source.{column.name}"
@@ -382,7 +383,8 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order) if not column.identity]
-        statements = self._get_merge_preamble(table, columns)
+        match_columns = [column for column in columns if table.is_lookup_column(column)]
+        statements = self._get_merge_preamble(table, columns, match_columns)
 
         statements.append("WHEN NOT MATCHED THEN")
         column_list = ", ".join(str(column.name) for column in columns)
@@ -402,11 +404,15 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order)]
-        statements: list[str] = self._get_merge_preamble(table, columns)
+        # look up records by primary key (or by unique columns if no primary key is supplied)
+        match_columns = [
+            column for column in columns if table.is_primary_column(column.name)
+        ] or [column for column in columns if table.is_unique_column(column)]
+        statements: list[str] = self._get_merge_preamble(table, columns, match_columns)
 
         insert_columns = [column for column in columns if not column.identity]
         update_columns = [
-            column for column in insert_columns if not table.is_lookup_column(column)
+            column for column in insert_columns if column not in match_columns
         ]
         if update_columns:
             statements.append("WHEN MATCHED THEN")
-- 
2.43.0


From 67e0532088096a1852391473e97b339c4f8c7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 15/74] fix: write object fields to their own columns when the
 column order differs

---
 pysqlsync/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index bb04855..0b598ab 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -447,13 +447,15 @@ class BaseGenerator(abc.ABC):
         "Returns a SQL statement to insert or ignore records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_insert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_insert_stmt(table_object, order)
 
     def get_dataclass_upsert_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to insert or update records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_upsert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_upsert_stmt(table_object, order)
 
     def get_dataclass_delete_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to delete records from a database table."
-- 
2.43.0


From 70d7a3ebc323c6cbf03543608d46be355b40f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 16/74] fix: write times without a time zone in Oracle

---
 pysqlsync/dialect/oracle/generator.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 9a16b89..93e2c9c 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -33,6 +33,13 @@ MIN_DATETIME = datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)
 MIN_DATE = datetime.date.min
 
 
+def _time_to_interval(value: datetime.time) -> datetime.timedelta:
+    "Converts a time of day (with or without a time zone) into the time elapsed since midnight."
+
+    midnight = MIN_DATETIME if value.tzinfo is not None else datetime.datetime.min
+    return datetime.datetime.combine(MIN_DATE, value) - midnight
+
+
 class OracleGenerator(BaseGenerator):
     "Generator for Oracle."
 
@@ -94,12 +101,7 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda obj: getattr(obj, field_name).packed
         elif field_type is datetime.time:
-            return (
-                lambda obj: datetime.datetime.combine(
-                    MIN_DATE, getattr(obj, field_name)
-                )
-                - MIN_DATETIME
-            )
+            return lambda obj: _time_to_interval(getattr(obj, field_name))
 
         return super().get_field_extractor(column, field_name, field_type)
 
@@ -112,9 +114,6 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda field: field.packed
         elif field_type is datetime.time:
-            return (
-                lambda field: datetime.datetime.combine(datetime.date.min, field)
-                - datetime.datetime.min
-            )
+            return _time_to_interval
 
         return super().get_value_transformer(column, field_type)
-- 
2.43.0


From 580cc583b4c1d22ada76ae729e42a69716756f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 17/74] fix: roll back failed statements in SQL Server and
 Oracle

---
 pysqlsync/dialect/mssql/connection.py  | 25 ++++++++++++++++++++-----
 pysqlsync/dialect/oracle/connection.py | 25 ++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..a2db5bc 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -1,6 +1,7 @@
+import contextlib
 import logging
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Iterator, Optional, TypeVar
 
 import pyodbc
 from strong_typing.inspection import is_dataclass_type
@@ -72,10 +73,24 @@ class MSSQLContext(BaseContext):
     def native_connection(self) -> pyodbc.Connection:
         return typing.cast(MSSQLConnection, self.connection).native
 
+    @contextlib.contextmanager
+    def _cursor(self) -> Iterator[pyodbc.Cursor]:
+        "Opens a cursor whose work is committed on success, and rolled back on failure."
+
+        conn = self.native_connection
+        try:
+            with conn.cursor() as cur:
+                yield cur
+        except Exception:
+            # release locks, and discard partial work that would otherwise be committed by the next operation
+            with contextlib.suppress(pyodbc.Error):
+                conn.rollback()
+            raise
+
     @override
     @thread_dispatch
     def _execute(self, statement: str) -> None:
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             cur.execute(statement)
 
     @override
@@ -98,7 +113,7 @@ class MSSQLContext(BaseContext):
     def _internal_execute_all(
         self, statement: str, records: Iterable[RecordType]
     ) -> None:
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             cur.fast_executemany = True
             cur.executemany(statement, records)
 
@@ -110,7 +125,7 @@ class MSSQLContext(BaseContext):
         table: Table,
         order: Optional[tuple[str, ...]] = None,
     ) -> None:
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             cur.fast_executemany = True
             cur.setinputsizes(
                 [
@@ -123,7 +138,7 @@ class MSSQLContext(BaseContext):
     @override
     @thread_dispatch
     def _query_all(self, signature: type[T], statement: str) -> list[T]:
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             records = cur.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index e2032f5..82078aa 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,7 +1,8 @@
+import contextlib
 import logging
 import re
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Iterator, Optional, TypeVar
 
 import oracledb
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -66,10 +67,24 @@ class OracleContext(BaseContext):
     def native_connection(self) -> oracledb.Connection:
         return typing.cast(OracleConnection, self.connection).native
 
+    @contextlib.contextmanager
+    def _cursor(self) -> Iterator[oracledb.Cursor]:
+        "Opens a cursor whose work is committed on success, and rolled back on failure."
+
+        conn = self.native_connection
+        try:
+            with conn.cursor() as cur:
+                yield cur
+        except Exception:
+            # release locks, and discard partial work that would otherwise be committed by the next operation
+            with contextlib.suppress(oracledb.Error):
+                conn.rollback()
+            raise
+
     @override
     @thread_dispatch
     def _execute(self, statement: str) -> None:
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             if statement.startswith("BEGIN"):
                 cur.execute(statement)
             else:
@@ -101,7 +116,7 @@ class OracleContext(BaseContext):
         self, statement: str, records: Iterable[RecordType]
     ) -> None:
         statement = statement.rstrip("\r\n\t\v ;")
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             cur.executemany(statement, list(records))
 
     @thread_dispatch
@@ -113,7 +128,7 @@ class OracleContext(BaseContext):
         order: Optional[tuple[str, ...]] = None,
     ) -> None:
         statement = statement.rstrip("\r\n\t\v ;")
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             cur.setinputsizes(
                 *tuple(
                     sql_to_oracle_type(cur, column.data_type)
@@ -125,7 +140,7 @@ class OracleContext(BaseContext):
     @override
     @thread_dispatch
     def _query_all(self, signature: type[T], statement: str) -> list[T]:
-        with self.native_connection.cursor() as cur:
+        with self._cursor() as cur:
             cur.execute(statement)
             if is_dataclass_type(signature):
                 cur.rowfactory = lambda *args: signature(*args)
-- 
2.43.0


From 7849e545a29dbd1b12ec7f7b1c4bee0ba5886ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 18/74] fix: restore the model of objects when creating or
 dropping them fails

---
 pysqlsync/base.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0b598ab..5bca9c1 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1044,17 +1044,31 @@ class BaseContext(abc.ABC):
         "Creates tables, structs, enumerations, constraints, etc. corresponding to entity class definitions."
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.create(tables=tables)
-        if statement:
-            await self.execute(statement)
+        await self._execute_or_restore(statement, state)
 
     async def drop_objects(self) -> None:
         "Drops all objects currently synced with the generator. (This function is mainly for unit tests.)"
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.drop()
-        if statement:
+        await self._execute_or_restore(statement, state)
+
+    async def _execute_or_restore(
+        self, statement: Optional[str], state: Catalog
+    ) -> None:
+        "Executes SQL statements (if any), restoring the former state of the generator on failure."
+
+        if not statement:
+            return
+
+        try:
             await self.execute(statement)
+        except BaseException:
+            self.connection.generator.state = state
+            raise
 
     async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts data in the database table corresponding to the dataclass type."
-- 
2.43.0


From cee40b42ea57998bd4b41dc993f258a3cf352f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 19/74] fix: do not mistake a failure to read the catalog for a
 missing catalog feature

---
 pysqlsync/formation/discovery.py | 78 +++++++++++++++++---------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index a4b1024..628e5dd 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -68,28 +68,36 @@ class AnsiExplorer(Explorer):
         self.discovery = discovery
         self.factory = factory
 
-    async def has_constraints(self) -> bool:
-        "True if `information_schema` has tables to query for referential constraints and key/column usage."
+    async def _is_available(self, signature: type, *statements: str) -> bool:
+        "True if the database accepts all queries; raises an error if the catalog cannot be read at all."
 
-        if self._has_constraints is None:
+        for _ in range(2):
             try:
+                for statement in statements:
+                    await self.conn.query_one(signature, statement)
+                return True
+            except Exception:
+                # do not mistake a lost connection or a transient error for a missing feature
                 await self.conn.query_one(
-                    int,
-                    "SELECT COUNT(*) FROM information_schema.table_constraints",
-                )
-                await self.conn.query_one(
-                    int,
-                    "SELECT COUNT(*) FROM information_schema.referential_constraints",
-                )
-                await self.conn.query_one(
-                    int,
-                    "SELECT COUNT(*) FROM information_schema.key_column_usage",
+                    int, "SELECT COUNT(*) FROM information_schema.tables"
                 )
-                LOGGER.info("explorer: PK/FK information available")
-                self._has_constraints = True
-            except Exception:
-                LOGGER.info("explorer: PK/FK information NOT available")
-                self._has_constraints = False
+
+        return False
+
+    async def has_constraints(self) -> bool:
+        "True if `information_schema` has tables to query for referential constraints and key/column usage."
+
+        if self._has_constraints is None:
+            self._has_constraints = await self._is_available(
+                int,
+                "SELECT COUNT(*) FROM information_schema.table_constraints",
+                "SELECT COUNT(*) FROM information_schema.referential_constraints",
+                "SELECT COUNT(*) FROM information_schema.key_column_usage",
+            )
+            LOGGER.info(
+                "explorer: PK/FK information %s",
+                "available" if self._has_constraints else "NOT available",
+            )
 
         return self._has_constraints
 
@@ -97,24 +105,22 @@ class AnsiExplorer(Explorer):
         "True if extended information is available for columns in `information_schema`."
 
         if self._has_column_extended_info is None:
-            try:
-                await self.conn.query_one(
-                    tuple[int, int, int, int, int, int, int],
-                    "SELECT\n"
-                    "    COUNT(column_name),\n"
-                    "    COUNT(data_type),\n"
-                    "    COUNT(is_nullable),\n"
-                    "    COUNT(character_maximum_length),\n"
-                    "    COUNT(numeric_precision),\n"
-                    "    COUNT(numeric_scale),\n"
-                    "    COUNT(datetime_precision)\n"
-                    "FROM information_schema.columns",
-                )
-                LOGGER.info("explorer: extended column information available")
-                self._has_column_extended_info = True
-            except Exception:
-                LOGGER.info("explorer: extended column information NOT available")
-                self._has_column_extended_info = False
+            self._has_column_extended_info = await self._is_available(
+                tuple[int, int, int, int, int, int, int],
+                "SELECT\n"
+                "    COUNT(column_name),\n"
+                "    COUNT(data_type),\n"
+                "    COUNT(is_nullable),\n"
+                "    COUNT(character_maximum_length),\n"
+                "    COUNT(numeric_precision),\n"
+                "    COUNT(numeric_scale),\n"
+                "    COUNT(datetime_precision)\n"
+                "FROM information_schema.columns",
+            )
+            LOGGER.info(
+                "explorer: extended column information %s",
+                "available" if self._has_column_extended_info else "NOT available",
+            )
 
         return self._has_column_extended_info
 
-- 
2.43.0


From 8cd9f1a33872b2105357ebb910bb85b8d28f7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 20/74] fix: report errors of all statements of a script in SQL
 Server

---
 pysqlsync/dialect/mssql/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index a2db5bc..ec72382 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -93,6 +93,10 @@ class MSSQLContext(BaseContext):
         with self._cursor() as cur:
             cur.execute(statement)
 
+            # errors in statements that follow a data modification statement are reported with their result
+            while cur.nextset():
+                pass
+
     @override
     async def _execute_all(self, statement: str, source: DataSource) -> None:
         async for batch in source.batches():
-- 
2.43.0


From b450c6e6a748c47d284baecaa8ea3747acb27d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 21/74] fix: keep the comment of a column whose enumeration is
 migrated to a lookup table in PostgreSQL

---
 pysqlsync/dialect/postgresql/mutation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..28c0ad5 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -53,9 +53,13 @@ class PostgreSQLMutator(Mutator):
         for target_column in target.columns.values():
             source_column = source.columns.get(target_column.name.id)
 
-            source_desc = (
-                source_column.description if source_column is not None else None
-            )
+            if source_column is None or self.is_column_migrated(
+                source_column, target_column
+            ):
+                # comment is lost when a column is replaced
+                source_desc = None
+            else:
+                source_desc = source_column.description
             target_desc = target_column.description
 
             if target_desc is None:
-- 
2.43.0


From 09fcfeeb3dab61e8d61fb44f8b7c91fcf6fdbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 22/74] fix: keep unique constraints of columns that are
 migrated to a lookup table

---
 pysqlsync/formation/mutation.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 182411e..7a6b2df 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -22,6 +22,7 @@ from .object_types import (
     StructType,
     Table,
     TableFormationError,
+    UniqueConstraint,
     join_or_none,
 )
 
@@ -217,6 +218,21 @@ class Mutator:
             if constraint.is_alter_table()
         )
 
+        # re-create constraints that would be lost with the columns that they depend on
+        migrated_names = {target_column.name for _, target_column in migrated_columns}
+        restored_constraints = [
+            target_constraint
+            for source_constraint, target_constraint in source.constraints.intersection(
+                target.constraints
+            )
+            if isinstance(source_constraint, UniqueConstraint)
+            and source_constraint == target_constraint
+            and not migrated_names.isdisjoint(source_constraint.unique_columns)
+        ]
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}" for constraint in restored_constraints
+        )
+
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
@@ -260,6 +276,9 @@ class Mutator:
                 )
 
         # add new constraints
+        alter_stmts.extend(
+            f"ADD CONSTRAINT {constraint.spec}" for constraint in restored_constraints
+        )
         alter_stmts.extend(
             f"ADD CONSTRAINT {constraint.spec}"
             for constraint in target.constraints.difference(source.constraints)
-- 
2.43.0


From 33433ad8a630051aa945de8c157fef151259a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 23/74] fix: resume migrating data when a synchronization was
 interrupted

---
 pysqlsync/formation/mutation.py | 90 ++++++++++++++++++++++++++++++---
 1 file changed, 83 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 7a6b2df..78a27e0 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -9,11 +9,12 @@ from ..model.data_types import (
     constant,
     quote,
 )
-from ..model.id_types import SupportsName
+from ..model.id_types import LocalId, SupportsName
 from .object_types import (
     Catalog,
     Column,
     ColumnFormationError,
+    Constraint,
     EnumType,
     ForeignConstraint,
     FormationError,
@@ -23,6 +24,7 @@ from .object_types import (
     Table,
     TableFormationError,
     UniqueConstraint,
+    deleted,
     join_or_none,
 )
 
@@ -161,14 +163,55 @@ class Mutator:
         else:
             return None
 
+    def get_interrupted_columns(
+        self, source: Table, target: Table
+    ) -> list[tuple[Column, Column]]:
+        """
+        Columns whose data migration has been interrupted, as per the soft-deleted column left behind.
+
+        :returns: Pairs of the original source column (before it was soft-deleted) and the target column.
+        """
+
+        columns: list[tuple[Column, Column]] = []
+        for target_column in target.columns.values():
+            deleted_column = source.columns.get(deleted(target_column.name.local_id))
+            if deleted_column is None:
+                continue
+            source_column = copy.copy(deleted_column)
+            source_column.name = target_column.name
+            if self.is_column_migrated(source_column, target_column):
+                columns.append((source_column, target_column))
+        return columns
+
+    def is_table_migrated(self, source: Table, target: Table) -> bool:
+        "True if data in any of the columns in the table needs migration."
+
+        return bool(self.get_interrupted_columns(source, target)) or any(
+            self.is_column_migrated(source_column, target_column)
+            for source_column, target_column in source.columns.intersection(
+                target.columns
+            )
+        )
+
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         self.check_identity(source, target)
 
         statements: list[Optional[str]] = []
 
+        # identify columns soft-deleted by an earlier attempt whose data is yet to be migrated
+        interrupted_columns = self.get_interrupted_columns(source, target)
+        original_names = {
+            LocalId(deleted(column.name.local_id)): column.name
+            for column, _ in interrupted_columns
+        }
+
         create_columns = list(target.columns.difference(source.columns))
         common_columns = list(source.columns.intersection(target.columns))
-        drop_columns = list(source.columns.difference(target.columns))
+        drop_columns = [
+            column
+            for column in source.columns.difference(target.columns)
+            if column.name not in original_names
+        ]
         migrated_columns: list[tuple[Column, Column]] = []
         mutate_columns: list[tuple[Column, Column]] = []
 
@@ -197,6 +240,23 @@ class Mutator:
                 "failed to migrate columns in table", target.name
             ) from e
 
+        # resume interrupted data migration
+        try:
+            for pair in interrupted_columns:
+                source_column, target_column = pair
+                if target_column.name.local_id not in source.columns:
+                    create_columns.remove(target_column)
+                    empty_column = copy.copy(target_column)
+                    if empty_column.default is None:
+                        empty_column.nullable = True
+                    create_stmts.append(empty_column.create_stmt())
+                    mutate_columns.append((empty_column, target_column))
+                migrated_columns.append(pair)
+        except ColumnFormationError as e:
+            raise TableFormationError(
+                "failed to migrate columns in table", target.name
+            ) from e
+
         # create new columns
         try:
             create_stmts.extend(column.create_stmt() for column in create_columns)
@@ -218,13 +278,26 @@ class Mutator:
             if constraint.is_alter_table()
         )
 
+        # constraints of a soft-deleted column belong to the column that replaces it
+        common_constraints: list[tuple[Constraint, Constraint]] = []
+        for source_constraint, target_constraint in source.constraints.intersection(
+            target.constraints
+        ):
+            if isinstance(source_constraint, UniqueConstraint):
+                source_constraint = UniqueConstraint(
+                    source_constraint.name,
+                    tuple(
+                        original_names.get(name, name)
+                        for name in source_constraint.unique_columns
+                    ),
+                )
+            common_constraints.append((source_constraint, target_constraint))
+
         # re-create constraints that would be lost with the columns that they depend on
         migrated_names = {target_column.name for _, target_column in migrated_columns}
         restored_constraints = [
             target_constraint
-            for source_constraint, target_constraint in source.constraints.intersection(
-                target.constraints
-            )
+            for source_constraint, target_constraint in common_constraints
             if isinstance(source_constraint, UniqueConstraint)
             and source_constraint == target_constraint
             and not migrated_names.isdisjoint(source_constraint.unique_columns)
@@ -267,7 +340,6 @@ class Mutator:
             ) from e
 
         # remove outdated constraints
-        common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
             if source_constraint != target_constraint:
                 raise TableFormationError(
@@ -344,7 +416,11 @@ class Mutator:
             for source_struct, target_struct in struct_mutate
         )
 
-        table_mutate = list(source.tables.intersection(target.tables))
+        # complete tables (e.g. add constraints) before data is migrated into them
+        table_mutate = sorted(
+            source.tables.intersection(target.tables),
+            key=lambda pair: self.is_table_migrated(pair[0], pair[1]),
+        )
         statements.extend(
             self.mutate_table_stmt(source_table, target_table)
             for source_table, target_table in table_mutate
-- 
2.43.0


From c7526abcb77940a3bcd5ad5b0c0f53a7cde92d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 24/74] fix: qualify the unique constraint of an enumeration
 lookup table

---
 pysqlsync/formation/py_to_sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 6730dd5..77c8a16 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -960,7 +960,7 @@ class DataclassConverter:
             )
             constraints.append(
                 UniqueConstraint(
-                    LocalId(f"uq_{enum_table_name}"),
+                    LocalId(f"uq_{self.create_qualified_prefix(enum_type)}"),
                     (LocalId("value"),),
                 )
             )
-- 
2.43.0


From 50ede05da2ee0737a2959cbef35fa7dff286f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 25/74] fix: consider tables of the current schema only in
 Oracle

---
 pysqlsync/dialect/oracle/connection.py | 2 +-
 pysqlsync/dialect/oracle/discovery.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 82078aa..a8bff8e 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -164,7 +164,7 @@ class OracleContext(BaseContext):
         )
         tables = await self.query_all(
             str,
-            f"SELECT table_name FROM dba_tables WHERE {condition}",
+            f"SELECT table_name FROM dba_tables WHERE owner = SYS_CONTEXT('USERENV', 'CURRENT_SCHEMA') AND {condition}",
         )
         statement = "\n".join(
             f"DROP TABLE {LocalId(table)} CASCADE CONSTRAINTS PURGE;"
diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 3a7b8a4..633a1af 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -97,13 +97,13 @@ class OracleExplorer(Explorer):
         raise NotImplementedError()
 
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
-        condition = f"t.table_name = {quote(table_id.local_id)}"
+        condition = f"t.owner = SYS_CONTEXT('USERENV', 'CURRENT_SCHEMA') AND t.table_name = {quote(table_id.local_id)}"
 
         table_comments = await self.conn.query_all(
             str,
             "SELECT tc.comments\n"
             "FROM dba_tables t JOIN dba_tab_comments tc ON t.owner = tc.owner AND t.table_name = tc.table_name\n"
-            f"WHERE t.owner != 'SYS' AND {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
+            f"WHERE {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
             "    AND t.status = 'VALID' AND t.temporary = 'N' AND t.secondary = 'N' AND t.dropped = 'NO' AND t.read_only = 'NO'",
         )
 
@@ -222,7 +222,7 @@ class OracleExplorer(Explorer):
         table_names = await self.conn.query_all(
             str,
             "SELECT table_name FROM dba_tables\n"
-            f"WHERE owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
+            f"WHERE owner = SYS_CONTEXT('USERENV', 'CURRENT_SCHEMA') AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
             "    AND status = 'VALID' AND temporary = 'N' AND secondary = 'N' AND dropped = 'NO' AND read_only = 'NO'",
         )
 
-- 
2.43.0


From 5c1a979ebff650963cfe4153bb5287e9f22c982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 26/74] fix: keep foreign keys of a namespace that is not
 permitted to be dropped

---
 pysqlsync/formation/mutation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 78a27e0..7e9ea94 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -480,9 +480,12 @@ class Mutator:
             for source_ns, target_ns in ns_mutate
         )
 
-        # remove old constraints
-        statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
         if self.options.allow_drop_namespace:
+            # remove old constraints
+            statements.extend(
+                namespace.drop_constraints_stmt() for namespace in ns_drop
+            )
+
             # drop objects in each namespace removed
             statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
 
-- 
2.43.0


From 43b8cf7028ccf19776df69f93bcd9fc28fd28c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 27/74] fix: PostgreSQL: plain text connections avoid TLS, both
 optional SSL modes fall back when the first way is rejected

---
 pysqlsync/dialect/postgresql/connection.py | 30 +++++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 100b642..18c42ed 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -25,6 +25,14 @@ T = TypeVar("T")
 
 LOGGER = logging.getLogger("pysqlsync.postgres")
 
+# a connection attempt that fails with these errors may succeed over the other transport: the server may be unable to use
+# TLS, or may have no `pg_hba.conf` entry for a connection without (or with) encryption
+_TRANSPORT_ERRORS = (
+    ConnectionError,
+    ssl.SSLError,
+    asyncpg.InvalidAuthorizationSpecificationError,
+)
+
 
 class PostgreSQLConnection(BaseConnection):
     native: asyncpg.Connection
@@ -34,17 +42,23 @@ class PostgreSQLConnection(BaseConnection):
         LOGGER.info("connecting to %s", self.params)
 
         ssl_mode = self.params.ssl
-        if ssl_mode is None or ssl_mode is ConnectionSSLMode.disable:
+        if ssl_mode is None:
             return await self._open()
+        elif ssl_mode is ConnectionSSLMode.disable:
+            return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
-            except ConnectionError:
-                return await self._open()
+            except asyncpg.InvalidPasswordError:
+                raise
+            except _TRANSPORT_ERRORS:
+                return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
-                return await self._open()
-            except ConnectionError:
+                return await self._open(False)
+            except asyncpg.InvalidPasswordError:
+                raise
+            except _TRANSPORT_ERRORS:
                 return await self._open(create_context(ssl_mode))
         elif (
             ssl_mode is ConnectionSSLMode.require
@@ -55,7 +69,9 @@ class PostgreSQLConnection(BaseConnection):
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(
+        self, ctx: Union[ssl.SSLContext, bool, None] = None
+    ) -> BaseContext:
         conn = await asyncpg.connect(
             host=self.params.host,
             port=self.params.port,
-- 
2.43.0


From 4b9a8a95cb9a089cc95095a5915d90dda39e4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 28/74] fix: an error while closing a connection does not hide
 the error that ended the block

---
 pysqlsync/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 5bca9c1..9a64f8a 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -600,7 +600,13 @@ class BaseConnection(abc.ABC):
         exc_val: Optional[BaseException],
         exc_tb: Optional[types.TracebackType],
     ) -> None:
-        await self.close()
+        try:
+            await self.close()
+        except Exception:
+            # a failure to close must not conceal the error that has made the caller leave the block
+            if exc_val is None:
+                raise
+            LOGGER.exception("failed to close connection to %s", self.params)
 
     @abc.abstractmethod
     async def open(self) -> "BaseContext": ...
-- 
2.43.0


From 27b15ef68a60ffd46fc3269c5e30759b459cf1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 29/74] fix: cancelling a call to a blocking driver does not
 block the event loop

---
 pysqlsync/util/dispatch.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/util/dispatch.py b/pysqlsync/util/dispatch.py
index e217308..18af22f 100644
--- a/pysqlsync/util/dispatch.py
+++ b/pysqlsync/util/dispatch.py
@@ -1,4 +1,5 @@
 import asyncio
+import contextlib
 import functools
 import inspect
 from concurrent.futures import ThreadPoolExecutor
@@ -23,8 +24,16 @@ def thread_dispatch(fn: Callable[P, R]) -> Callable[P, Coroutine[None, None, R]]
     async def invoke(*args: P.args, **kwargs: P.kwargs) -> R:
         loop = asyncio.get_running_loop()
         with ThreadPoolExecutor(max_workers=1) as pool:
-            return await loop.run_in_executor(
-                pool, functools.partial(fn, *args, **kwargs)
-            )
+            future = loop.run_in_executor(pool, functools.partial(fn, *args, **kwargs))
+            try:
+                return await asyncio.shield(future)
+            except asyncio.CancelledError:
+                # the function cannot be interrupted, wait until it is done without blocking the event loop
+                while not future.done():
+                    with contextlib.suppress(asyncio.CancelledError):
+                        await asyncio.wait([future])
+                if not future.cancelled():
+                    future.exception()  # mark as retrieved
+                raise
 
     return invoke
-- 
2.43.0


From be1e0aaf82ba35909b036a70d7ccd92d77450653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 30/74] fix: a connection whose opening fails or is cancelled
 is closed

---
 pysqlsync/base.py                      | 11 ++++++++++-
 pysqlsync/dialect/mssql/connection.py  | 12 ++++++++----
 pysqlsync/dialect/oracle/connection.py | 12 +++++++++---
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 9a64f8a..17c3d58 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -8,6 +8,7 @@ schema and data.
 """
 
 import abc
+import contextlib
 import dataclasses
 import enum
 import json
@@ -592,7 +593,15 @@ class BaseConnection(abc.ABC):
         self.params = params
 
     async def __aenter__(self) -> "BaseContext":
-        return await self.open()
+        native = getattr(self, "native", None)
+        try:
+            return await self.open()
+        except BaseException:
+            # opening may be cancelled after the connection has been established
+            if getattr(self, "native", None) is not native:
+                with contextlib.suppress(Exception):
+                    await self.close()
+            raise
 
     async def __aexit__(
         self,
diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index ec72382..4b6180a 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -51,10 +51,14 @@ class MSSQLConnection(BaseConnection):
             f"{key}={value}" for key, value in params.items() if value is not None
         )
         conn = pyodbc.connect(conn_string)
-        with conn.cursor() as cur:
-            rows = cur.execute("SELECT @@VERSION").fetchall()
-            for row in rows:
-                LOGGER.info(row)
+        try:
+            with conn.cursor() as cur:
+                rows = cur.execute("SELECT @@VERSION").fetchall()
+                for row in rows:
+                    LOGGER.info(row)
+        except Exception:
+            conn.close()
+            raise
 
         self.native = conn
         return MSSQLContext(self)
diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index a8bff8e..cfa03ca 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -46,9 +46,15 @@ class OracleConnection(BaseConnection):
             password=self.params.password,
             dsn=f"{host}:{port}/{database}",
         )
-        conn.autocommit = True
-        with conn.cursor() as cur:
-            cur.execute("ALTER SESSION SET NLS_DATE_FORMAT = 'YYYY-MM-DD HH24:MI:SS'")
+        try:
+            conn.autocommit = True
+            with conn.cursor() as cur:
+                cur.execute(
+                    "ALTER SESSION SET NLS_DATE_FORMAT = 'YYYY-MM-DD HH24:MI:SS'"
+                )
+        except Exception:
+            conn.close()
+            raise
 
         self.native = conn
         return OracleContext(self)
-- 
2.43.0


From b07f86905e1022cd6a2328fed5f6cd21fb2af6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 31/74] fix: MySQL connections fail in mandatory SSL modes if
 the server does not offer TLS

---
 pysqlsync/dialect/mysql/connection.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mysql/connection.py b/pysqlsync/dialect/mysql/connection.py
index 06b59d4..706b21d 100644
--- a/pysqlsync/dialect/mysql/connection.py
+++ b/pysqlsync/dialect/mysql/connection.py
@@ -5,6 +5,7 @@ from typing import Optional, TypeVar
 
 import aiomysql
 import pymysql
+from pymysql.constants import CLIENT, CR
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource
@@ -49,11 +50,13 @@ class MySQLConnection(BaseConnection):
             or ssl_mode is ConnectionSSLMode.verify_ca
             or ssl_mode is ConnectionSSLMode.verify_full
         ):
-            return await self._open(create_context(ssl_mode))
+            return await self._open(create_context(ssl_mode), ssl_required=True)
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(
+        self, ctx: Optional[ssl.SSLContext] = None, *, ssl_required: bool = False
+    ) -> BaseContext:
         sql_mode = ",".join(
             [
                 "ANSI_QUOTES",
@@ -61,7 +64,7 @@ class MySQLConnection(BaseConnection):
                 "STRICT_ALL_TABLES",
             ]
         )
-        self.native = await aiomysql.connect(
+        native = await aiomysql.connect(
             host=self.params.host or "localhost",
             port=self.params.port or 3306,
             user=self.params.username,
@@ -72,6 +75,14 @@ class MySQLConnection(BaseConnection):
             autocommit=True,
             ssl=ctx,
         )
+        if ssl_required and not native.server_capabilities & CLIENT.SSL:
+            # the driver silently proceeds without encryption if the server does not offer it
+            native.close()
+            raise pymysql.err.OperationalError(
+                CR.CR_SSL_CONNECTION_ERROR,
+                "SSL connection error: SSL is required but the server doesn't support it",
+            )
+        self.native = native
         return MySQLContext(self)
 
     @override
-- 
2.43.0


From 8f7efc588398685f7fcb4211c7097e1935ee8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 32/74] fix: SQL Server connections obey the SSL mode

---
 pysqlsync/dialect/mssql/connection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 4b6180a..1e0eaa0 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -7,6 +7,7 @@ import pyodbc
 from strong_typing.inspection import is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource, RecordType
+from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.data_types import quote
 from pysqlsync.model.id_types import LocalId, QualifiedId
@@ -47,6 +48,15 @@ class MSSQLConnection(BaseConnection):
         }
         if self.params.database is not None:
             params["DATABASE"] = self.params.database
+        if self.params.ssl is ConnectionSSLMode.disable:
+            params["Encrypt"] = "no"
+        elif self.params.ssl is not None:
+            params["Encrypt"] = "yes"
+            if (
+                self.params.ssl is ConnectionSSLMode.verify_ca
+                or self.params.ssl is ConnectionSSLMode.verify_full
+            ):
+                params["TrustServerCertificate"] = "no"
         conn_string = ";".join(
             f"{key}={value}" for key, value in params.items() if value is not None
         )
-- 
2.43.0


From 659e6421241214f46c3b823035fc8ffe3a7d0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 33/74] fix: Redshift connections verify the host name when
 asked to

---
 pysqlsync/dialect/redshift/connection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 06124d2..656b916 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -17,6 +17,7 @@ from pysqlsync.base import (
     RecordType,
     get_column_order,
 )
+from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
@@ -39,12 +40,19 @@ class RedshiftConnection(BaseConnection):
     @thread_dispatch
     def open(self) -> BaseContext:
         LOGGER.info("connecting to %s", self.params)
+        sslmode: Optional[str] = None
+        if (
+            self.params.ssl is ConnectionSSLMode.verify_ca
+            or self.params.ssl is ConnectionSSLMode.verify_full
+        ):
+            sslmode = self.params.ssl.value
         conn = redshift_connector.connect(
             iam=True,
             host=self.params.host,
             port=self.params.port,
             database=self.params.database,
             db_user=self.params.username,
+            sslmode=sslmode,
         )
         conn.autocommit = True
 
-- 
2.43.0


From 26bab21c3ca605c46f55d0cffec68acca2349a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 34/74] fix: TSV readers do not take an empty record for the
 end of the data

---
 pysqlsync/data/exchange.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..3cdfdf2 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,26 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue  # stray blank line
+            rows.append(self.parser.parse_line(record))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue  # stray blank line
+            yield self.parser.parse_line(record)
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,9 +197,11 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue  # stray blank line
             rows.append(self.parser.parse_line(record))
         return rows
 
@@ -202,7 +210,9 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue  # stray blank line
             yield self.parser.parse_line(record)
-- 
2.43.0


From aa706d3d590a6ffcddafb6c2aa07d1ce27de6a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 35/74] fix: time zone aware timestamps are converted to UTC
 when written as TSV

---
 pysqlsync/data/exchange.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index 3cdfdf2..eb7c6c6 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -1,3 +1,4 @@
+import datetime
 from typing import (
     Any,
     AsyncIterator,
@@ -19,6 +20,15 @@ from ..model.properties import get_field_properties
 D = TypeVar("D", bound=DataclassInstance)
 
 
+def _to_utc(value: Any) -> Any:
+    "Converts a time zone aware timestamp to UTC, as TSV stores timestamps without a time zone offset."
+
+    if isinstance(value, datetime.datetime) and value.tzinfo is not None:
+        return value.astimezone(datetime.timezone.utc)
+    else:
+        return value
+
+
 def _get_extractor_fn(field_name: str) -> Callable[[Any], Any]:
     """
     Gets the value of a data-class instance attribute.
@@ -26,7 +36,7 @@ def _get_extractor_fn(field_name: str) -> Callable[[Any], Any]:
     Must be a separate function to seal context and avoid re-assignment of `field_name`.
     """
 
-    return lambda entity: getattr(entity, field_name)
+    return lambda entity: _to_utc(getattr(entity, field_name))
 
 
 class TextWriter(Generic[D]):
-- 
2.43.0


From 04048a900a53284bb037d53150976febfdf65583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 36/74] fix: assign Oracle result columns to data-class fields
 by name

---
 pysqlsync/dialect/oracle/connection.py |  8 +++---
 pysqlsync/resultset.py                 | 35 ++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index cfa03ca..156377f 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -17,7 +17,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
-from pysqlsync.resultset import resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_columns, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
 
@@ -148,13 +148,11 @@ class OracleContext(BaseContext):
     def _query_all(self, signature: type[T], statement: str) -> list[T]:
         with self._cursor() as cur:
             cur.execute(statement)
-            if is_dataclass_type(signature):
-                cur.rowfactory = lambda *args: signature(*args)
-
             records = cur.fetchall()
 
             if is_dataclass_type(signature):
-                return records
+                columns = [column[0] for column in cur.description]
+                return resultset_unwrap_columns(signature, columns, records)  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
diff --git a/pysqlsync/resultset.py b/pysqlsync/resultset.py
index d7ec262..4ca7529 100644
--- a/pysqlsync/resultset.py
+++ b/pysqlsync/resultset.py
@@ -56,6 +56,41 @@ def resultset_unwrap_object(signature: type[D], records: Iterable[Any]) -> list[
     ]
 
 
+def resultset_unwrap_columns(
+    signature: type[D], columns: Sequence[str], records: Iterable[Sequence[Any]]
+) -> list[D]:
+    """
+    Converts a result-set into a list of data-class instances.
+
+    :param signature: A data-class type.
+    :param columns: The names of the columns in the result-set, in order.
+    :param records: The result-set whose rows to convert.
+    """
+
+    if not is_dataclass_type(signature):
+        raise TypeError(
+            f"expected: data-class type as result-set signature; got: {signature}"
+        )
+
+    # database engines may convert unquoted identifiers to upper-case or lower-case
+    fields = {name.lower(): name for name in signature.__dataclass_fields__.keys()}
+    names = [
+        (
+            name
+            if name in signature.__dataclass_fields__
+            else fields.get(name.lower(), name)
+        )
+        for name in columns
+    ]
+    if len(set(names)) != len(names):
+        raise ValueError(f"ambiguous column names in result-set: {', '.join(columns)}")
+
+    return [
+        signature(**dict(zip(names, record)))  # type: ignore
+        for record in records
+    ]
+
+
 def resultset_unwrap_tuple(
     signature: type[T], records: Iterable[Sequence[Any]]
 ) -> list[T]:
-- 
2.43.0


From 11ea250bfb71445cefb8f5a77cabeaaff55168aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 37/74] fix: reject MSSQL results with extra or ambiguous
 columns

---
 pysqlsync/dialect/mssql/connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1e0eaa0..cc904fe 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -11,7 +11,7 @@ from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.data_types import quote
 from pysqlsync.model.id_types import LocalId, QualifiedId
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_columns, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
 
@@ -160,7 +160,8 @@ class MSSQLContext(BaseContext):
             records = cur.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                columns = [column[0] for column in cur.description]
+                return resultset_unwrap_columns(signature, columns, records)  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From ea143c1a413965af673c1b3fa548c2e98e1c86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 38/74] fix: read Redshift results as data-class objects

---
 pysqlsync/dialect/redshift/connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 656b916..a81b5f7 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -21,7 +21,7 @@ from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_columns, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
 
@@ -106,7 +106,8 @@ class RedshiftContext(BaseContext):
             records = cursor.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                columns = [column[0] for column in cursor.description]
+                return resultset_unwrap_columns(signature, columns, records)  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From e47cc42eef7f6770598757c2805f10e61e0c94fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 39/74] fix: reject results with repeated column names for
 data-class objects

---
 pysqlsync/resultset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/resultset.py b/pysqlsync/resultset.py
index 4ca7529..9f79339 100644
--- a/pysqlsync/resultset.py
+++ b/pysqlsync/resultset.py
@@ -31,10 +31,13 @@ def resultset_unwrap_dict(
             f"expected: data-class type as result-set signature; got: {signature}"
         )
 
-    return [
-        signature(**{name: value for name, value in record.items()})  # type: ignore
-        for record in records
-    ]
+    results: list[D] = []
+    for record in records:
+        values = {name: value for name, value in record.items()}
+        if len(values) != len(record):
+            raise ValueError("ambiguous column names in result-set")
+        results.append(signature(**values))
+    return results
 
 
 def resultset_unwrap_object(signature: type[D], records: Iterable[Any]) -> list[D]:
-- 
2.43.0


From acbf6e3aa01a61490d3f56becf2a53d89247504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 40/74] fix: do not select the type name of struct members
 twice

---
 pysqlsync/dialect/postgresql/discovery.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..2592a34 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -192,7 +192,6 @@ class PostgreSQLExplorer(Explorer):
             "SELECT\n"
             "    att.attname AS member_name,\n"
             "    typ_nsp.nspname AS type_schema,\n"
-            "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
             "    dsc.description AS description\n"
-- 
2.43.0


From 9b80539da6dd3aa1ed2d0e8379ef603696b6df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 41/74] fix: raise an error when reading an Oracle table that
 does not exist

---
 pysqlsync/dialect/oracle/discovery.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 633a1af..d3e9f9b 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -3,7 +3,7 @@ import re
 from dataclasses import dataclass
 from typing import Optional
 
-from pysqlsync.base import BaseContext, Explorer
+from pysqlsync.base import BaseContext, DiscoveryError, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
@@ -127,6 +127,9 @@ class OracleExplorer(Explorer):
             "ORDER BY column_id",
         )
 
+        if not column_records:
+            raise DiscoveryError(f"table not found: {table_id}")
+
         columns: list[Column] = []
         for col in column_records:
             char_length: Optional[int]
-- 
2.43.0


From 2fe4b73b38023c6714fe14921fba85b1aea29f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 42/74] fix: pair the columns of composite foreign keys in
 Oracle

---
 pysqlsync/dialect/oracle/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index d3e9f9b..a40ba0c 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -175,7 +175,7 @@ class OracleExplorer(Explorer):
             "FROM dba_constraints t\n"
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
-            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
+            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name AND tc.position = rc.position\n"
             f"WHERE {condition}\n"
             "ORDER BY tc.position",
         )
-- 
2.43.0


From 9a59ba81064130776b4a81fcaa9d14edf88a9ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 43/74] fix: recognize PostgreSQL timestamptz and timetz as
 time zone types

---
 pysqlsync/formation/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index aae34e5..ecee58d 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -63,7 +63,7 @@ class SqlDiscovery:
             return SqlFloatType()
         elif name in ["timestamp", "timestamp without time zone"]:
             return SqlTimestampType(None, False)
-        elif name == "timestamp with time zone":
+        elif name in ["timestamp with time zone", "timestamptz"]:
             return SqlTimestampType(None, True)
         elif name == "datetime":
             return SqlTimestampType()
@@ -71,7 +71,7 @@ class SqlDiscovery:
             return SqlDateType()
         elif name in ["time", "time without time zone"]:
             return SqlTimeType(None, False)
-        elif name == "time with time zone":
+        elif name in ["time with time zone", "timetz"]:
             return SqlTimeType(None, True)
         elif name in ["char", "character"]:
             return SqlFixedCharacterType()
-- 
2.43.0


From 2c3e83fe6c1e22c6df0323af542391be5ed72734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 44/74] fix: look up PostgreSQL tables without a schema in the
 current schema only

---
 pysqlsync/dialect/postgresql/discovery.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 2592a34..022a9f9 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -127,6 +127,8 @@ class PostgreSQLExplorer(Explorer):
         conditions.append(f"cls.relname = {quote(relation_id.local_id)}")
         if relation_id.scope_id is not None:
             conditions.append(f"nsp.nspname = {quote(relation_id.scope_id)}")
+        else:
+            conditions.append("nsp.nspname = CURRENT_SCHEMA()")
         conditions.append(
             " OR ".join(f"(cls.relkind = {quote(kind)})" for kind in kinds)
         )
@@ -156,6 +158,8 @@ class PostgreSQLExplorer(Explorer):
         conditions.append(f"cls.relname = {quote(table_id.local_id)}")
         if table_id.scope_id is not None:
             conditions.append(f"nsp.nspname = {quote(table_id.scope_id)}")
+        else:
+            conditions.append("nsp.nspname = CURRENT_SCHEMA()")
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
         condition = " AND ".join(f"({c})" for c in conditions)
@@ -175,6 +179,8 @@ class PostgreSQLExplorer(Explorer):
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
         if struct_id.scope_id is not None:
             conditions.append(f"nsp.nspname = {quote(struct_id.scope_id)}")
+        else:
+            conditions.append("nsp.nspname = CURRENT_SCHEMA()")
         condition = " AND ".join(f"({c})" for c in conditions)
 
         struct_record = await self.conn.query_one(
-- 
2.43.0


From af45548cffa85c9488a9c023400737ddce558d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 45/74] fix: keep the order of columns in composite PostgreSQL
 keys

---
 pysqlsync/dialect/postgresql/discovery.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 022a9f9..349facb 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -304,9 +304,10 @@ class PostgreSQLExplorer(Explorer):
             "    con.conrelid AS pkeyrel,\n"
             "    tgt.pkeycol,\n"
             "    con.confrelid AS fkeyrel,\n"
-            "    tgt.fkeycol\n"
+            "    tgt.fkeycol,\n"
+            "    tgt.ordinal\n"
             "FROM pg_catalog.pg_constraint AS con\n"
-            "    CROSS JOIN UNNEST(con.conkey, con.confkey) AS tgt(pkeycol, fkeycol)\n"
+            "    CROSS JOIN UNNEST(con.conkey, con.confkey) WITH ORDINALITY AS tgt(pkeycol, fkeycol, ordinal)\n"
             "    INNER JOIN pg_catalog.pg_class AS cls ON con.conrelid = cls.oid\n"
             "    INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
             f"WHERE {self._where_table(table_id)} AND con.contype IN ('p', 'u', 'f')\n"
@@ -314,7 +315,8 @@ class PostgreSQLExplorer(Explorer):
             "    INNER JOIN pg_catalog.pg_attribute AS att_s ON cons.pkeyrel = att_s.attrelid AND cons.pkeycol = att_s.attnum\n"
             "    LEFT JOIN pg_catalog.pg_class AS cls_t ON cons.fkeyrel = cls_t.oid\n"
             "    LEFT JOIN pg_catalog.pg_namespace AS nsp_t ON cls_t.relnamespace = nsp_t.oid\n"
-            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum",
+            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum\n"
+            "ORDER BY cons.conname, cons.ordinal",
         )
 
         primary: list[LocalId] = []
-- 
2.43.0


From fcd2471928f9a0c5d5dd93c7472edfe928f31939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 46/74] fix: read the precision of PostgreSQL time columns

---
 pysqlsync/formation/data_types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index ecee58d..40bc29e 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -109,6 +109,14 @@ class SqlDiscovery:
             else:
                 return SqlTimestampType(int(m.group(1)), False)
 
+        m = re.fullmatch(
+            r"^time[(](\d+)[)]\s*(with(?:out)? time zone)?$",
+            type_def,
+            re.IGNORECASE,
+        )
+        if m is not None:
+            return SqlTimeType(int(m.group(1)), m.group(2) == "with time zone")
+
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
             return SqlFixedCharacterType(int(m.group(1)))
-- 
2.43.0


From 6102a4ee88599d556e4752f685a13751ed964d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 47/74] fix: use the bytea type for binary data in PostgreSQL

---
 pysqlsync/dialect/postgresql/data_types.py | 9 ++++++++-
 pysqlsync/dialect/postgresql/discovery.py  | 3 ++-
 pysqlsync/dialect/postgresql/generator.py  | 3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/data_types.py b/pysqlsync/dialect/postgresql/data_types.py
index b2ed77e..581d1ef 100644
--- a/pysqlsync/dialect/postgresql/data_types.py
+++ b/pysqlsync/dialect/postgresql/data_types.py
@@ -1,6 +1,13 @@
-from pysqlsync.model.data_types import SqlJsonType
+from pysqlsync.model.data_types import SqlJsonType, SqlVariableBinaryType
 
 
 class PostgreSQLJsonType(SqlJsonType):
     def __str__(self) -> str:
         return "jsonb"
+
+
+class PostgreSQLBinaryType(SqlVariableBinaryType):
+    "PostgreSQL has a single binary data type, which takes no length."
+
+    def __str__(self) -> str:
+        return "bytea"
diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 349facb..1c19e42 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -19,7 +19,7 @@ from pysqlsync.formation.object_types import (
 from pysqlsync.model.data_types import SqlArrayType, SqlUserDefinedType, quote
 from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId, SupportsQualifiedId
 
-from .data_types import PostgreSQLJsonType
+from .data_types import PostgreSQLBinaryType, PostgreSQLJsonType
 from .object_types import PostgreSQLObjectFactory
 
 
@@ -105,6 +105,7 @@ class PostgreSQLExplorer(Explorer):
         self.discovery = SqlDiscovery(
             SqlDiscoveryOptions(
                 substitutions={
+                    "bytea": PostgreSQLBinaryType(),
                     "jsonb": PostgreSQLJsonType(),
                     "inet": SqlUserDefinedType(GlobalId("inet")),
                 }
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 07c9325..890449b 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -14,7 +14,7 @@ from pysqlsync.formation.py_to_sql import (
 )
 from pysqlsync.util.typing import override
 
-from .data_types import PostgreSQLJsonType
+from .data_types import PostgreSQLBinaryType, PostgreSQLJsonType
 from .mutation import PostgreSQLMutator
 from .object_types import PostgreSQLObjectFactory
 
@@ -44,6 +44,7 @@ class PostgreSQLGenerator(BaseGenerator):
                 foreign_constraints=options.foreign_constraints,
                 initialize_tables=options.initialize_tables,
                 substitutions={
+                    bytes: PostgreSQLBinaryType(),
                     JsonType: PostgreSQLJsonType(),
                 },
                 factory=self.factory,
-- 
2.43.0


From 2091bf9c670ab267bc6ce1d64af5d10a04c3d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 48/74] fix: keep the order of columns in composite MySQL
 foreign keys

---
 pysqlsync/dialect/mysql/discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 44dca53..df29b6e 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -128,7 +128,8 @@ class MySQLExplorer(AnsiExplorer):
             "        ON kcu.constraint_catalog = ref.constraint_catalog\n"
             "            AND kcu.constraint_schema = ref.constraint_schema\n"
             "            AND kcu.constraint_name = ref.constraint_name\n"
-            f"WHERE ref.table_name = {quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n",
+            f"WHERE ref.table_name = {quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n"
+            "ORDER BY kcu.ordinal_position",
         )
 
         constraints = ForeignFactory()
-- 
2.43.0


From 7b29767760ca24dd540321a6733c572388d75955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 49/74] fix: read string defaults of MySQL columns as quoted
 literals

---
 pysqlsync/dialect/mysql/discovery.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index df29b6e..f24e934 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -66,6 +66,23 @@ class MySQLExplorer(AnsiExplorer):
         else:
             return PrefixedId(None, name)
 
+    def _default_expr(self, col: MySQLColumnMeta) -> Optional[str]:
+        "Default value as an SQL expression; MySQL reports literals without quotes."
+
+        default = col.column_default
+        if default is None or "DEFAULT_GENERATED" in col.extra:
+            return default
+
+        type_name = col.data_type.lower()
+        if type_name in ("datetime", "timestamp"):
+            if default.upper().startswith("CURRENT_TIMESTAMP"):
+                return default
+            return quote(default)
+        elif type_name in ("char", "varchar", "enum", "set", "date", "time"):
+            return quote(default)
+        else:
+            return default
+
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         column_meta = await self.conn.query_all(
             MySQLColumnMeta,
@@ -100,7 +117,7 @@ class MySQLExplorer(AnsiExplorer):
                         datetime_precision=col.datetime_precision,
                     ),
                     bool(col.nullable),
-                    default=col.column_default,
+                    default=self._default_expr(col),
                     identity="auto_increment" in col.extra,
                     description=col.column_comment or None,
                 )
-- 
2.43.0


From 87cf2f9d29f01d78b14d3ec6afbbc42e79075f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 50/74] fix: look up SQL Server columns of unqualified tables
 in the current schema

---
 pysqlsync/dialect/mssql/discovery.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index f52484d..9917a6d 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -39,13 +39,18 @@ class MSSQLExplorer(AnsiExplorer):
 
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         columns = await super().get_columns(table_id)
+        schema_expr = (
+            quote(table_id.scope_id)
+            if table_id.scope_id is not None
+            else self.conn.connection.generator.get_current_schema_stmt()
+        )
         identity_columns = await self.conn.query_all(
             str,
             "SELECT c.name\n"
             "FROM sys.schemas AS s\n"
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
+            f"WHERE s.name = {schema_expr} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
         )
         default_columns = await self.conn.query_all(
             tuple[str, str],
@@ -54,7 +59,7 @@ class MSSQLExplorer(AnsiExplorer):
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
             "    INNER JOIN sys.default_constraints AS d ON d.object_id = c.default_object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
+            f"WHERE s.name = {schema_expr} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
         )
         default_values = dict(default_columns)
         for c in columns:
-- 
2.43.0


From 5a70075db3f6c342e4aebb7218ba7d46626bcdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 51/74] fix: generate random text with a minimum length over
 255

---
 pysqlsync/data/generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 8d6dec5..f8bebcc 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -262,7 +262,11 @@ class RandomGenerator:
             # use a minimum length of at least 1; Oracle treats empty string as equivalent to NULL
             min_length = min_length_tag.value if min_length_tag is not None else 1
             max_length_tag = get_annotation(field_type, MaxLength)
-            max_length = max_length_tag.value if max_length_tag is not None else 255
+            max_length = (
+                max_length_tag.value
+                if max_length_tag is not None
+                else max(min_length, 255)
+            )
             return lambda _: random_alphanumeric_str(min_length, max_length)
         elif plain_type is decimal.Decimal:
             precision = get_annotation(field_type, Precision)
-- 
2.43.0


From a678418cd00f3398ac122c4dfde610102b1ecd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 52/74] fix: generate random dates when the system clock is
 behind

---
 pysqlsync/data/generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index f8bebcc..0c0baad 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -62,6 +62,9 @@ def random_datetime(
 
     delta = end - start
     seconds = delta.days * 86400 + delta.seconds
+    if seconds <= 0:
+        # current time (as per system clock) is earlier than start of time interval
+        return start
     return start + datetime.timedelta(seconds=random.randrange(seconds))
 
 
@@ -72,6 +75,9 @@ def random_date(start: datetime.date, end: datetime.date) -> datetime.date:
 
     delta = end - start
     days = delta.days
+    if days <= 0:
+        # current date (as per system clock) is earlier than start of date interval
+        return start
     return start + datetime.timedelta(days=random.randrange(days))
 
 
-- 
2.43.0


From 17856bf9cc2439bab135e5234e5a1ec4bdcf6b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 53/74] fix: generate distinct values for unique fields

---
 pysqlsync/data/generator.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 0c0baad..ff8a02d 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -185,6 +185,28 @@ def call_repeat(generator: Callable[[P], R], arg: P, max_count: int) -> list[R]:
     return [generator(arg) for _ in range(count)]
 
 
+def unique_generator(generator: Callable[[int], Any]) -> Callable[[int], Any]:
+    """
+    Wraps a generator such that it never produces the same value twice (except for nulls).
+    """
+
+    max_attempts = 1000
+    seen: set[Any] = set()
+
+    def generate(k: int) -> Any:
+        for _ in range(max_attempts):
+            value = generator(k)
+            if value is None:
+                return value
+            if value not in seen:
+                seen.add(value)
+                return value
+
+        raise DataGeneratorError("unable to generate enough unique values")
+
+    return generate
+
+
 class RandomGenerator:
     """
     Generates a data-class instances with all their fields populated with random values recursively.
@@ -331,6 +353,10 @@ def random_objects(cls: type[D], count: int) -> list[D]:
         field.name: random_generator.create(field.type, cls)
         for field in dataclass_fields(cls)
     }
+    for field in dataclass_fields(cls):
+        field_properties = get_field_properties(field.type)
+        if field_properties.is_unique and not field_properties.is_primary:
+            generators[field.name] = unique_generator(generators[field.name])
 
     items: list[D] = []
     for k in range(0, count):
-- 
2.43.0


From bab599f8fa998bd9b3aa6a8c54a358f7f0fd2791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 54/74] fix: Oracle: map unsigned integer types to number

---
 pysqlsync/dialect/oracle/generator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 93e2c9c..087d5a4 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -3,7 +3,16 @@ import ipaddress
 import uuid
 from typing import Any, Callable, Optional
 
-from strong_typing.auxiliary import int8, int16, int32, int64
+from strong_typing.auxiliary import (
+    int8,
+    int16,
+    int32,
+    int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
+)
 from strong_typing.core import JsonType
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
@@ -72,6 +81,10 @@ class OracleGenerator(BaseGenerator):
                     int16: OracleIntegerType(),
                     int32: OracleIntegerType(),
                     int64: OracleIntegerType(),
+                    uint8: OracleIntegerType(),
+                    uint16: OracleIntegerType(),
+                    uint32: OracleIntegerType(),
+                    uint64: OracleIntegerType(),
                     str: OracleVariableCharacterType(),
                     uuid.UUID: OracleVariableBinaryType(16),
                     JsonType: OracleVariableCharacterType(),
-- 
2.43.0


From 434c2decdfb7a3c4dde79650881941a3171b8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 55/74] fix: Oracle: discover the precision of timestamp
 columns

---
 pysqlsync/dialect/oracle/discovery.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index a40ba0c..f4a6679 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -150,6 +150,11 @@ class OracleExplorer(Explorer):
                 character_maximum_length=char_length,
                 numeric_precision=col.data_precision,
                 numeric_scale=col.data_scale,
+                datetime_precision=(
+                    col.data_scale
+                    if data_type == "TIMESTAMP" and col.data_scale != 6
+                    else None
+                ),
             )
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
-- 
2.43.0


From 08ad83333653f9d199bc88c51127af8223eba050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 56/74] fix: discover objects in current database schema with
 unqualified names

---
 pysqlsync/dialect/postgresql/discovery.py | 69 ++++++++++++++++++++---
 pysqlsync/formation/discovery.py          |  8 ++-
 2 files changed, 69 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 1c19e42..3ec10a9 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -16,7 +16,12 @@ from pysqlsync.formation.object_types import (
     StructType,
     Table,
 )
-from pysqlsync.model.data_types import SqlArrayType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    quote,
+)
 from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId, SupportsQualifiedId
 
 from .data_types import PostgreSQLBinaryType, PostgreSQLJsonType
@@ -96,6 +101,21 @@ class PostgreSQLEnumMeta:
     enum_value: str
 
 
+def unqualified_type(
+    data_type: SqlDataType, implied_schema: Optional[str]
+) -> SqlDataType:
+    "Removes the schema name from the name of a user-defined type if it is the implied schema."
+
+    if (
+        implied_schema is not None
+        and isinstance(data_type, SqlUserDefinedType)
+        and data_type.ref.scope_id == implied_schema
+    ):
+        return SqlUserDefinedType(QualifiedId(None, data_type.ref.local_id))
+    else:
+        return data_type
+
+
 class PostgreSQLExplorer(Explorer):
     discovery: SqlDiscovery
     factory: PostgreSQLObjectFactory
@@ -175,6 +195,16 @@ class PostgreSQLExplorer(Explorer):
         )
         return len(rows) > 0 and rows[0] > 0
 
+    async def _get_implied_schema(
+        self, object_id: SupportsQualifiedId
+    ) -> Optional[str]:
+        "The schema whose objects are referred to without qualification in the definition of an object."
+
+        if object_id.scope_id is None:
+            return await self.conn.current_schema()
+        else:
+            return None
+
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
@@ -213,6 +243,8 @@ class PostgreSQLExplorer(Explorer):
             "ORDER BY att.attnum",
         )
 
+        implied_schema = await self._get_implied_schema(struct_id)
+
         members: list[StructMember] = []
         for mem in member_records:
             data_type = self.discovery.sql_data_type_from_spec(
@@ -220,6 +252,7 @@ class PostgreSQLExplorer(Explorer):
                 type_schema=mem.type_schema,
                 type_def=mem.type_def,
             )
+            data_type = unqualified_type(data_type, implied_schema)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
@@ -269,6 +302,8 @@ class PostgreSQLExplorer(Explorer):
             "ORDER BY att.attnum",
         )
 
+        implied_schema = await self._get_implied_schema(table_id)
+
         columns: list[Column] = []
         for col in column_records:
             data_type = self.discovery.sql_data_type_from_spec(
@@ -276,6 +311,7 @@ class PostgreSQLExplorer(Explorer):
                 type_schema=col.type_schema,
                 type_def=col.type_def,
             )
+            data_type = unqualified_type(data_type, implied_schema)
             if col.is_array:
                 data_type = SqlArrayType(data_type)
             columns.append(
@@ -332,7 +368,14 @@ class PostgreSQLExplorer(Explorer):
                 foreign.add(
                     con.constraint_name,
                     LocalId(con.source_column),
-                    QualifiedId(con.target_namespace, con.target_table),
+                    QualifiedId(
+                        (
+                            con.target_namespace
+                            if con.target_namespace != implied_schema
+                            else None
+                        ),
+                        con.target_table,
+                    ),
                     LocalId(con.target_column),
                 )
 
@@ -352,9 +395,21 @@ class PostgreSQLExplorer(Explorer):
         schema = await self.conn.current_schema()
         if schema is None:
             raise RuntimeError("unable to fetch current schema")
-        return await self.get_namespace(LocalId(schema))
+        return await self._get_namespace(LocalId(schema), None)
 
     async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self._get_namespace(namespace_id, namespace_id.id)
+
+    async def _get_namespace(
+        self, namespace_id: LocalId, scope_id: Optional[str]
+    ) -> Namespace:
+        """
+        Constructs a database object model of a namespace (database schema).
+
+        :param namespace_id: The database schema to discover.
+        :param scope_id: The schema to qualify object names with, or `None` for unqualified names.
+        """
+
         enum_records = await self.conn.query_all(
             PostgreSQLEnumMeta,
             "SELECT\n"
@@ -372,7 +427,7 @@ class PostgreSQLExplorer(Explorer):
         for enum_name, enum_groups in groupby(enum_records, key=lambda e: e.enum_name):
             enums.append(
                 EnumType(
-                    QualifiedId(namespace_id.id, enum_name),
+                    QualifiedId(scope_id, enum_name),
                     [e.enum_value for e in enum_groups],
                 )
             )
@@ -387,7 +442,7 @@ class PostgreSQLExplorer(Explorer):
 
         structs: list[StructType] = []
         for struct_name in struct_names:
-            struct = await self.get_struct(QualifiedId(namespace_id.id, struct_name))
+            struct = await self.get_struct(QualifiedId(scope_id, struct_name))
             structs.append(struct)
 
         table_names = await self.conn.query_all(
@@ -400,12 +455,12 @@ class PostgreSQLExplorer(Explorer):
 
         tables: list[Table] = []
         for table_name in table_names:
-            table = await self.get_table(QualifiedId(namespace_id.id, table_name))
+            table = await self.get_table(QualifiedId(scope_id, table_name))
             tables.append(table)
 
         if enums or structs or tables:
             return self.factory.namespace_class(
-                namespace_id, enums=enums, structs=structs, tables=tables
+                LocalId(scope_id or ""), enums=enums, structs=structs, tables=tables
             )
         else:
             return self.factory.namespace_class()
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index 628e5dd..f806efd 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -307,10 +307,16 @@ class AnsiExplorer(Explorer):
 
         constraints = ForeignFactory()
         for con in constraint_meta:
+            # an unqualified table refers to tables in the same schema with unqualified names
+            if table_id.scope_id is None and con.uq_table_schema == con.fk_table_schema:
+                uq_scope_id = None
+            else:
+                uq_scope_id = con.uq_table_schema
+
             constraints.add(
                 con.fk_constraint_name,
                 LocalId(con.fk_column_name),
-                QualifiedId(con.uq_table_schema, con.uq_table_name),
+                QualifiedId(uq_scope_id, con.uq_table_name),
                 LocalId(con.uq_column_name),
             )
         return constraints.fetch()
-- 
2.43.0


From 7c30e47275b530da0c27f05003d38e4d6a270d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 57/74] fix: include modules without tables in catalog

---
 pysqlsync/formation/py_to_sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 77c8a16..103e4f8 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1186,9 +1186,9 @@ class DataclassConverter:
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                for module_name in dict.fromkeys([*tables, *enums, *structs])
             ]
         else:
             namespaces = [
-- 
2.43.0


From 94c3ff43343dfad20d1f29d5b31a2f0b0a79d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 58/74] fix: mutate namespaces in order of reference, drop
 objects in reverse order

---
 pysqlsync/formation/mutation.py     | 60 +++++++++++++++++++++--------
 pysqlsync/formation/object_types.py |  6 ++-
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 7e9ea94..5cb78a9 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -366,6 +366,18 @@ class Mutator:
     def mutate_namespace_stmt(
         self, source: Namespace, target: Namespace
     ) -> Optional[str]:
+        return join_or_none(
+            [
+                self.mutate_objects_stmt(source, target),
+                self.drop_objects_stmt(source, target),
+            ]
+        )
+
+    def mutate_objects_stmt(
+        self, source: Namespace, target: Namespace
+    ) -> Optional[str]:
+        "Creates new objects and mutates existing objects in a namespace."
+
         self.check_identity(source, target)
 
         statements: StatementList = StatementList()
@@ -375,11 +387,8 @@ class Mutator:
         struct_create = list(target.structs.difference(source.structs))
         table_create = list(target.tables.difference(source.tables))
 
-        # identify objects to drop
+        # identify enumerations to drop
         enum_drop = list(source.enums.difference(target.enums))
-        struct_drop = list(source.structs.difference(target.structs))
-        table_drop = list(source.tables.difference(target.tables))
-        enum_soft_deleted: list[EnumType] = []
 
         # create new objects
         statements.extend(enum.create_stmt() for enum in enum_create)
@@ -390,7 +399,6 @@ class Mutator:
                 if enum_type.name != table.name:
                     continue
                 statements.append(enum_type.soft_drop_stmt())
-                enum_soft_deleted.append(enum_type)
 
         statements.extend(table.create_stmt() for table in table_create)
         statements.extend(table.add_constraints_stmt() for table in table_create)
@@ -426,6 +434,22 @@ class Mutator:
             for source_table, target_table in table_mutate
         )
 
+        return join_or_none(statements)
+
+    def drop_objects_stmt(self, source: Namespace, target: Namespace) -> Optional[str]:
+        "Drops old objects from a namespace that nothing refers to any more."
+
+        statements: StatementList = StatementList()
+
+        # identify objects to drop
+        enum_drop = list(source.enums.difference(target.enums))
+        struct_drop = list(source.structs.difference(target.structs))
+        table_drop = list(source.tables.difference(target.tables))
+
+        # identify enumerations replaced by a table
+        table_create_names = [t.name for t in target.tables.difference(source.tables)]
+        enum_soft_deleted = [e for e in enum_drop if e.name in table_create_names]
+
         # drop old objects
         if self.options.allow_drop_table:
             # tables to be dropped may reference one another in any order
@@ -468,17 +492,14 @@ class Mutator:
         # create new namespaces
         statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
 
-        # create objects in each namespace added
-        statements.extend(namespace.create_objects_stmt() for namespace in ns_create)
-
-        # add new constraints
-        statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
-
-        # mutate existing namespaces
-        statements.extend(
-            self.mutate_namespace_stmt(source_ns, target_ns)
-            for source_ns, target_ns in ns_mutate
-        )
+        # create or mutate objects in each namespace, referenced namespaces first
+        for target_ns in target.namespaces.values():
+            source_ns = source.namespaces.get(target_ns.name.local_id)
+            if source_ns is not None:
+                statements.append(self.mutate_objects_stmt(source_ns, target_ns))
+            else:
+                statements.append(target_ns.create_objects_stmt())
+                statements.append(target_ns.add_constraints_stmt())
 
         if self.options.allow_drop_namespace:
             # remove old constraints
@@ -486,6 +507,13 @@ class Mutator:
                 namespace.drop_constraints_stmt() for namespace in ns_drop
             )
 
+        # drop objects no longer needed in each namespace, referenced namespaces last
+        statements.extend(
+            self.drop_objects_stmt(source_ns, target_ns)
+            for source_ns, target_ns in reversed(ns_mutate)
+        )
+
+        if self.options.allow_drop_namespace:
             # drop objects in each namespace removed
             statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
 
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..53fcd9f 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -7,7 +7,7 @@ from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
 from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
-from ..model.id_types import LocalId, SupportsQualifiedId
+from ..model.id_types import GlobalId, LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
 
@@ -686,7 +686,9 @@ class Namespace(DatabaseObject):
         for t in self.tables.values():
             items.update(t.get_referenced_types())
             items.update(t.get_referenced_tables())
-        return set(LocalId(i.scope_id) for i in items if i.scope_id is not None)
+        return set(
+            LocalId(i.scope_id or "") for i in items if not isinstance(i, GlobalId)
+        )
 
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
-- 
2.43.0


From 7419842e6516e2c198c36afbebf1e00199cc727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 59/74] fix: use unqualified names for references into the
 default schema

---
 pysqlsync/base.py                         | 14 ++++++++++++++
 pysqlsync/dialect/postgresql/discovery.py | 14 ++------------
 pysqlsync/formation/discovery.py          | 17 ++++++++++-------
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 17c3d58..1cbeddd 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1431,6 +1431,20 @@ class Explorer(abc.ABC):
     ) -> SupportsQualifiedId:
         return QualifiedId(namespace, id)
 
+    async def get_implied_schema(self, object_id: SupportsQualifiedId) -> Optional[str]:
+        """
+        The database schema whose objects are referred to with unqualified names.
+
+        :param object_id: Identifies the object whose definition has the reference.
+        :returns: The current schema if unqualified names are in use, or `None` if all references are qualified.
+        """
+
+        namespaces = self.conn.connection.generator.converter.options.namespaces
+        if object_id.scope_id is None or None in namespaces.dictionary.values():
+            return await self.conn.current_schema()
+        else:
+            return None
+
     @abc.abstractmethod
     async def get_table_names(self) -> list[QualifiedId]: ...
 
diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 3ec10a9..2c03991 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -195,16 +195,6 @@ class PostgreSQLExplorer(Explorer):
         )
         return len(rows) > 0 and rows[0] > 0
 
-    async def _get_implied_schema(
-        self, object_id: SupportsQualifiedId
-    ) -> Optional[str]:
-        "The schema whose objects are referred to without qualification in the definition of an object."
-
-        if object_id.scope_id is None:
-            return await self.conn.current_schema()
-        else:
-            return None
-
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
@@ -243,7 +233,7 @@ class PostgreSQLExplorer(Explorer):
             "ORDER BY att.attnum",
         )
 
-        implied_schema = await self._get_implied_schema(struct_id)
+        implied_schema = await self.get_implied_schema(struct_id)
 
         members: list[StructMember] = []
         for mem in member_records:
@@ -302,7 +292,7 @@ class PostgreSQLExplorer(Explorer):
             "ORDER BY att.attnum",
         )
 
-        implied_schema = await self._get_implied_schema(table_id)
+        implied_schema = await self.get_implied_schema(table_id)
 
         columns: list[Column] = []
         for col in column_records:
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index f806efd..62ed30e 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -306,17 +306,20 @@ class AnsiExplorer(Explorer):
         )
 
         constraints = ForeignFactory()
+        if constraint_meta:
+            implied_schema = await self.get_implied_schema(table_id)
         for con in constraint_meta:
-            # an unqualified table refers to tables in the same schema with unqualified names
-            if table_id.scope_id is None and con.uq_table_schema == con.fk_table_schema:
-                uq_scope_id = None
-            else:
-                uq_scope_id = con.uq_table_schema
-
             constraints.add(
                 con.fk_constraint_name,
                 LocalId(con.fk_column_name),
-                QualifiedId(uq_scope_id, con.uq_table_name),
+                QualifiedId(
+                    (
+                        con.uq_table_schema
+                        if con.uq_table_schema != implied_schema
+                        else None
+                    ),
+                    con.uq_table_name,
+                ),
                 LocalId(con.uq_column_name),
             )
         return constraints.fetch()
-- 
2.43.0


From a3be947255e928d2bada54b1024bfae657691124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 60/74] fix: drop referring namespaces before the namespaces
 they refer to

---
 pysqlsync/formation/mutation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 5cb78a9..437cacd 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -514,8 +514,10 @@ class Mutator:
         )
 
         if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed
-            statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
+            # drop objects in each namespace removed, referenced namespaces last
+            statements.extend(
+                namespace.drop_objects_stmt() for namespace in reversed(ns_drop)
+            )
 
             # drop old namespaces
             statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
-- 
2.43.0


From 44afa9caf6cf79c663c839fc1d70291fdeb3bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 61/74] fix: random_enum_generator honours a maximum of zero
 and a minimum above four; random_time serves an interval without length

---
 pysqlsync/data/generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index ff8a02d..436ff82 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -96,7 +96,8 @@ def random_time(
     ts_start = time_today(start)
     ts_end = time_today(end)
     delta = ts_end - ts_start
-    ts = ts_start + datetime.timedelta(seconds=random.randrange(delta.seconds))
+    seconds = random.randrange(delta.seconds) if delta.seconds > 0 else 0
+    ts = ts_start + datetime.timedelta(seconds=seconds)
     return ts.timetz()
 
 
@@ -129,8 +130,8 @@ def random_enum_generator(
         else:
             return lambda: shuffled(values)[:count]
     elif min_count is not None or max_count is not None:
-        min_c = min_count or 0
-        max_c = max_count or 4
+        min_c = min_count if min_count is not None else 0
+        max_c = max_count if max_count is not None else max(min_c, 4)
         c = max_c - min_c
         return lambda: shuffled(values)[
             : min(min_c + random.randint(0, c), len(values))
-- 
2.43.0


From 6fbafbb8462aa5ce8c09e3fc1fa8dfe68813aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 62/74] fix: drop objects of retained and removed namespaces in
 one reverse dependency order

---
 pysqlsync/formation/mutation.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 437cacd..872c89a 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -487,7 +487,6 @@ class Mutator:
 
         ns_create = list(target.namespaces.difference(source.namespaces))
         ns_drop = list(source.namespaces.difference(target.namespaces))
-        ns_mutate = list(source.namespaces.intersection(target.namespaces))
 
         # create new namespaces
         statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
@@ -508,17 +507,14 @@ class Mutator:
             )
 
         # drop objects no longer needed in each namespace, referenced namespaces last
-        statements.extend(
-            self.drop_objects_stmt(source_ns, target_ns)
-            for source_ns, target_ns in reversed(ns_mutate)
-        )
+        for source_ns in reversed(list(source.namespaces.values())):
+            retained_ns = target.namespaces.get(source_ns.name.local_id)
+            if retained_ns is not None:
+                statements.append(self.drop_objects_stmt(source_ns, retained_ns))
+            elif self.options.allow_drop_namespace:
+                statements.append(source_ns.drop_objects_stmt())
 
         if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed, referenced namespaces last
-            statements.extend(
-                namespace.drop_objects_stmt() for namespace in reversed(ns_drop)
-            )
-
             # drop old namespaces
             statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
 
-- 
2.43.0


From 7565c84c610e8d10b7573993bb521252a94e7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 63/74] fix: refuse to change the primary key of a table

---
 pysqlsync/formation/mutation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 872c89a..2c92057 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -196,6 +196,11 @@ class Mutator:
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         self.check_identity(source, target)
 
+        if set(source.primary_key) != set(target.primary_key):
+            raise TableFormationError(
+                "operation not permitted; cannot change the primary key", target.name
+            )
+
         statements: list[Optional[str]] = []
 
         # identify columns soft-deleted by an earlier attempt whose data is yet to be migrated
-- 
2.43.0


From e8c3ba170720cdf2cbd1f348d780f16a233ddd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 64/74] fix: refuse to change the type of a column whose data
 cannot be migrated

---
 pysqlsync/formation/mutation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 2c92057..cbd65cc 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -109,7 +109,10 @@ class Mutator:
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
-        return None
+        raise ColumnFormationError(
+            f"operation not permitted; cannot migrate data from type {source.data_type} to {target.data_type}",
+            target.name,
+        )
 
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         """
-- 
2.43.0


From 2b079b8e0730176516e2b080df792982d0d5de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 65/74] fix: keep text values absent from the enumeration when
 a column becomes a lookup reference on PostgreSQL

---
 pysqlsync/dialect/postgresql/mutation.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 28c0ad5..c812795 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -10,7 +10,12 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlIntegerType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlIntegerType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -38,13 +43,21 @@ class PostgreSQLMutator(Mutator):
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
+        statements: list[str] = []
         ref = target_table.get_constraint(target.name)
-        return (
+        source_name = LocalId(deleted(source.name.id))
+        if isinstance(source.data_type, SqlVariableCharacterType):
+            statements.append(
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
+                'ON CONFLICT ("value") DO NOTHING;'
+            )
+        statements.append(
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
             f"FROM {ref.table} enum_table\n"
-            f'WHERE data_table.{LocalId(deleted(source.name.id))}::VARCHAR = enum_table."value";'
+            f'WHERE data_table.{source_name}::VARCHAR = enum_table."value";'
         )
+        return "\n".join(statements)
 
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements: StatementList = StatementList()
-- 
2.43.0


From a3585845526589e3440ba619246e9bc2bb3c6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:40 +0000
Subject: [PATCH 66/74] fix: list of structures stored as an array of documents

---
 pysqlsync/formation/py_to_sql.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 103e4f8..fc3f33a 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -613,13 +613,7 @@ class DataclassConverter:
                 )
             if isinstance(item_type, type):
                 if self.options.array_mode is ArrayMode.ARRAY:
-                    return SqlArrayType(
-                        SqlUserDefinedType(
-                            self.create_qualified_id(
-                                item_type.__module__, item_type.__name__
-                            )
-                        )
-                    )
+                    return SqlArrayType(self.member_to_sql_data_type(item_type, cls))
                 elif self.options.array_mode is ArrayMode.JSON:
                     return self.member_to_sql_data_type(JsonType, cls)
                 elif self.options.array_mode is ArrayMode.RELATION:
-- 
2.43.0


From 3c407b16da6177564cc4c05021c19c8f373764a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:40 +0000
Subject: [PATCH 67/74] fix: drop composite types before the types of their
 members

---
 pysqlsync/formation/mutation.py     |  3 +-
 pysqlsync/formation/object_types.py | 48 ++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index cbd65cc..610f2e6 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -475,7 +475,8 @@ class Mutator:
             statements.extend(table.drop_stmt() for table in table_drop)
 
         if self.options.allow_drop_struct:
-            statements.extend(struct.drop_stmt() for struct in struct_drop)
+            # drop composite types before the types of their members
+            statements.extend(struct.drop_stmt() for struct in reversed(struct_drop))
 
         if self.options.allow_drop_enum:
             for enum_type in enum_drop:
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 53fcd9f..4949aea 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -6,7 +6,12 @@ from typing import Any, Iterable, Optional, overload
 from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
+from ..model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    constant,
+)
 from ..model.id_types import GlobalId, LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
@@ -121,6 +126,18 @@ class EnumType(DatabaseObject, QualifiedObject):
         return self.create_stmt()
 
 
+def _referenced_types(data_types: Iterable[SqlDataType]) -> set[SupportsQualifiedId]:
+    "User-defined types that are used directly, or as the element type of an array."
+
+    items: set[SupportsQualifiedId] = set()
+    for data_type in data_types:
+        while isinstance(data_type, SqlArrayType):
+            data_type = data_type.element_type
+        if isinstance(data_type, SqlUserDefinedType):
+            items.add(data_type.ref)
+    return items
+
+
 @dataclass
 class StructMember:
     """
@@ -162,11 +179,7 @@ class StructType(DatabaseObject, QualifiedObject):
         self.description = description
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
-        )
+        return _referenced_types(m.data_type for m in self.members.values())
 
     def create_stmt(self) -> str:
         members = ",\n".join(str(m) for m in self.members.values())
@@ -522,11 +535,7 @@ class Table(DatabaseObject, QualifiedObject):
         raise KeyError(f"foreign constraint not found for column: {column_id}")
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
-        )
+        return _referenced_types(c.data_type for c in self.columns.values())
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
         items: set[SupportsQualifiedId] = set()
@@ -690,6 +699,20 @@ class Namespace(DatabaseObject):
             LocalId(i.scope_id or "") for i in items if not isinstance(i, GlobalId)
         )
 
+    def sort(self) -> None:
+        "Sorts composite types such that each type comes after the types of its members."
+
+        graph = {
+            struct.name.local_id: set(
+                ref.local_id
+                for ref in struct.get_referenced_types()
+                if ref.local_id in self.structs
+                and self.structs[ref.local_id].name == ref
+            )
+            for struct in self.structs.values()
+        }
+        self.structs.reorder(topological_sort(graph))
+
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             return f"CREATE SCHEMA {self.name};"
@@ -855,6 +878,9 @@ class Catalog(DatabaseObject):
         order = [name.local_id for name in topological_sort(graph)]
         self.namespaces.reorder(order)
 
+        for ns in self.namespaces.values():
+            ns.sort()
+
     def merge(self, op: "Catalog") -> None:
         "Merges the contents of two objects."
 
-- 
2.43.0


From 33cdbc5304e8e7f91c4785f392e875dfc3871372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:40 +0000
Subject: [PATCH 68/74] fix: discover array members of composite types

---
 pysqlsync/dialect/postgresql/discovery.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 2c03991..3d05a7c 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -64,6 +64,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -221,6 +222,7 @@ class PostgreSQLExplorer(Explorer):
             "    typ_nsp.nspname AS type_schema,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -243,6 +245,8 @@ class PostgreSQLExplorer(Explorer):
                 type_def=mem.type_def,
             )
             data_type = unqualified_type(data_type, implied_schema)
+            if mem.is_array:
+                data_type = SqlArrayType(data_type)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
-- 
2.43.0


From 52e679edd8aa5975522a96fd3d4689083f2b9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 69/74] fix: quote values in SQL Server connection strings

---
 pysqlsync/dialect/mssql/connection.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index cc904fe..a1680eb 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -22,6 +22,12 @@ T = TypeVar("T")
 LOGGER = logging.getLogger("pysqlsync.mssql")
 
 
+def quote_value(value: str) -> str:
+    "Quotes a value in a connection string such that it may comprise of any characters."
+
+    return "{" + value.replace("}", "}}") + "}"
+
+
 class MSSQLConnection(BaseConnection):
     """
     Represents a connection to a Microsoft SQL Server.
@@ -41,13 +47,15 @@ class MSSQLConnection(BaseConnection):
                 if self.params.port is not None
                 else self.params.host
             ),
-            "UID": self.params.username,
-            "PWD": self.params.password,
             "LongAsMax": "yes",
             "TrustServerCertificate": "yes",
         }
+        if self.params.username is not None:
+            params["UID"] = quote_value(self.params.username)
+        if self.params.password is not None:
+            params["PWD"] = quote_value(self.params.password)
         if self.params.database is not None:
-            params["DATABASE"] = self.params.database
+            params["DATABASE"] = quote_value(self.params.database)
         if self.params.ssl is ConnectionSSLMode.disable:
             params["Encrypt"] = "no"
         elif self.params.ssl is not None:
-- 
2.43.0


From a8e611d2ef58c3457ca9f5526dbb4cdccb00700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 70/74] fix: decode the database name of a connection string

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..ef4e3f3 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From ebd9592cbbed6f062285f33a52fa3ef878b8d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 71/74] fix: Trino connections use the default port

---
 pysqlsync/dialect/trino/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/trino/connection.py b/pysqlsync/dialect/trino/connection.py
index 78ecb0d..8402342 100644
--- a/pysqlsync/dialect/trino/connection.py
+++ b/pysqlsync/dialect/trino/connection.py
@@ -19,7 +19,7 @@ class TrinoConnection(BaseConnection):
     async def open(self) -> BaseContext:
         self.native = aiotrino.dbapi.connect(
             host=self.params.host,
-            port=self.params.port,
+            port=self.params.port or aiotrino.constants.DEFAULT_TLS_PORT,
             user=self.params.username,
             auth=aiotrino.auth.BasicAuthentication(
                 self.params.username, self.params.password
-- 
2.43.0


From 0e951ef6125b02d7b3ca3e9e7da96f7320f22ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 72/74] fix: statements of Oracle and Redshift scripts are not
 split inside string literals and comments

---
 pysqlsync/dialect/oracle/connection.py   |  4 ++--
 pysqlsync/dialect/redshift/connection.py |  4 ++--
 pysqlsync/util/script.py                 | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)
 create mode 100644 pysqlsync/util/script.py

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 156377f..d1fe194 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,6 +1,5 @@
 import contextlib
 import logging
-import re
 import typing
 from typing import Iterable, Iterator, Optional, TypeVar
 
@@ -19,6 +18,7 @@ from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_columns, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 from .data_types import sql_to_oracle_type
@@ -95,7 +95,7 @@ class OracleContext(BaseContext):
                 cur.execute(statement)
             else:
                 statement = statement.rstrip("\r\n\t\v ;")
-                for s in re.split(r";$", statement, flags=re.MULTILINE):
+                for s in split_statements(statement):
                     try:
                         cur.execute(s)
                     except Exception as e:
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index a81b5f7..76d2d81 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,6 +1,5 @@
 import dataclasses
 import logging
-import re
 import typing
 from io import BytesIO
 from typing import Iterable, Optional, TypeVar
@@ -23,6 +22,7 @@ from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_columns, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -81,7 +81,7 @@ class RedshiftContext(BaseContext):
             # the possibility to execute multiple statements in one go. We artificially split SQL scripts into
             # multiple statements to work around this limitation in the connector.
             statement = statement.rstrip("\r\n\t\v ;")
-            for s in re.split(r";$", statement, flags=re.MULTILINE):
+            for s in split_statements(statement):
                 try:
                     cursor.execute(s)
                 except Exception as e:
diff --git a/pysqlsync/util/script.py b/pysqlsync/util/script.py
new file mode 100644
index 0000000..327eac7
--- /dev/null
+++ b/pysqlsync/util/script.py
@@ -0,0 +1,20 @@
+import re
+
+# string literals, quoted identifiers and comments (which are to be skipped), or a semicolon at the end of a line
+_TOKEN = re.compile(
+    r"""'[^']*'|"[^"]*"|--[^\r\n]*|/\*.*?\*/|(?P<end>;$)""",
+    flags=re.DOTALL | re.MULTILINE,
+)
+
+
+def split_statements(script: str) -> list[str]:
+    "Splits a SQL script into statements terminated by a semicolon at the end of a line."
+
+    statements: list[str] = []
+    start = 0
+    for m in _TOKEN.finditer(script):
+        if m.group("end"):
+            statements.append(script[start : m.start()])
+            start = m.end()
+    statements.append(script[start:])
+    return statements
-- 
2.43.0


From 7fce0ca61f063267fccf7a0c909031e11bf6ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:58 +0000
Subject: [PATCH 73/74] fix: tables with keys of their own are not lookup
 tables of enumerations

---
 pysqlsync/formation/object_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 4949aea..c971edd 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -492,13 +492,15 @@ class Table(DatabaseObject, QualifiedObject):
         return self.is_primary_column(column.name) or self.is_unique_column(column)
 
     def is_lookup_table(self) -> bool:
-        "Checks whether the table maps a primary key to a unique value."
+        "Checks whether the table maps a primary key (assigned by the database) to a unique value."
 
         if len(self.columns) != 2:
             return False
 
         for column in self.columns.values():
             if self.is_primary_column(column.name):
+                if not column.identity:
+                    return False
                 continue
             if self.is_unique_column(column):
                 continue
-- 
2.43.0


From fa58b6ae35149517252706873ed73ab5311288fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:39 +0000
Subject: [PATCH 74/74] fix: sets, enumerations in collections and structures
 are written in their JSON form

---
 pysqlsync/base.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 1cbeddd..5ecd12b 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -30,9 +30,10 @@ from typing import (
 
 from strong_typing.inspection import DataclassInstance, is_dataclass_type, is_type_enum
 from strong_typing.name import python_type_to_str
+from strong_typing.serialization import object_to_json
 
 from .connection import ConnectionParameters
-from .formation.inspection import get_entity_types
+from .formation.inspection import get_entity_types, is_struct_type
 from .formation.mutation import Mutator, MutatorOptions
 from .formation.object_types import (
     Catalog,
@@ -58,6 +59,7 @@ RecordSource = Union[Iterable[RecordType], AsyncIterable[RecordType]]
 LOGGER = logging.getLogger("pysqlsync")
 
 _JSON_ENCODER = json.JSONEncoder(
+    default=object_to_json,
     ensure_ascii=False,
     check_circular=False,
     allow_nan=False,
@@ -530,10 +532,18 @@ class BaseGenerator(abc.ABC):
 
         if is_type_enum(field_type):
             return lambda obj: getattr(obj, field_name).value
-        elif typing.get_origin(field_type) in (list, dict) and isinstance(
-            column.data_type, (SqlJsonType, SqlVariableCharacterType)
-        ):
+        elif (
+            typing.get_origin(field_type) in (list, dict, set)
+            or is_struct_type(field_type)
+        ) and isinstance(column.data_type, (SqlJsonType, SqlVariableCharacterType)):
             return lambda obj: _JSON_ENCODER.encode(getattr(obj, field_name))
+        elif typing.get_origin(field_type) in (list, set) and any(
+            is_type_enum(item_type) for item_type in typing.get_args(field_type)
+        ):
+            return lambda obj: [
+                item.value if isinstance(item, enum.Enum) else item
+                for item in getattr(obj, field_name)
+            ]
         else:
             return lambda obj: getattr(obj, field_name)
 
-- 
2.43.0

