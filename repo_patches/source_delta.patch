From bd9709a8709df76ae75c939387b23993347289e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:42 +0000
Subject: [PATCH 01/84] fix: create the tables and version record of a results
 database whenever they are missing

The tables were created only by the process that found no file, so a
process killed between creating the file and its tables, or a second process
opening the same new directory meanwhile, left a database that could never be
opened again; two processes creating the output directory at once also made
one of them fail.
---
 rubin_sim/maf/db/results_db.py | 45 ++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index f991889..e0040e6 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -18,6 +18,7 @@ from sqlalchemy import Column, Float, ForeignKey, Integer, String, create_engine
 from sqlalchemy.engine import url
 from sqlalchemy.exc import DatabaseError
 from sqlalchemy.orm import backref, declarative_base, relationship, sessionmaker
+from sqlalchemy.schema import CreateTable
 from sqlalchemy.sql import text
 
 from rubin_sim import __version__
@@ -179,7 +180,7 @@ class ResultsDb:
             # Check for output directory, make if needed.
             if not os.path.isdir(out_dir):
                 try:
-                    os.makedirs(out_dir)
+                    os.makedirs(out_dir, exist_ok=True)
                 except OSError as msg:
                     raise OSError(
                         msg,
@@ -192,12 +193,8 @@ class ResultsDb:
             if out_dir is not None:
                 database = os.path.join(out_dir, database)
             self.database = database
-        # If this is a new file, then we should record date and version later.
-        needs_version = not os.path.isfile(self.database)
-
         # Connect to the specified file;
         # this will create the database if it doesn't exist.
-        already_file = os.path.isfile(self.database)
         db_address = url.URL.create(self.driver, database=self.database)
 
         engine = create_engine(
@@ -205,15 +202,20 @@ class ResultsDb:
         )
         self.Session = sessionmaker(bind=engine)
         self.open()
-        # Create the tables, if they don't already exist.
-        if not already_file:
-            try:
-                Base.metadata.create_all(engine)
-            except DatabaseError:
-                raise ValueError(
-                    "Cannot create a %s database at %s. Check directory exists."
-                    % (self.driver, self.database)
-                )
+        # Create the tables, if they don't already exist. Another process may
+        # be doing the same at this moment, or may have been killed halfway,
+        # so the existence of the file says nothing about the tables.
+        try:
+            with engine.connect() as connection:
+                for table in Base.metadata.sorted_tables:
+                    connection.execute(CreateTable(table, if_not_exists=True))
+                connection.commit()
+        except DatabaseError:
+            if os.path.isfile(self.database):
+                raise
+            raise ValueError(
+                "Cannot create a %s database at %s. Check directory exists." % (self.driver, self.database)
+            )
         self.slen = 1024
         # Check if we have a database matching this schema
         # (with metric_info_label)
@@ -222,12 +224,17 @@ class ResultsDb:
         if "sql_constraint" not in cols:
             self.update_database()
 
-        # record the version and date MAF was run with/on
-        if needs_version:
-            vers = rsVersion
+        # record the version and date MAF was run with/on, if this is new
+        # (one statement, so that only one of several creators records it).
+        if self.session.query(VersionRow).first() is None:
             run_date = datetime.datetime.now().strftime("%Y-%m-%d")
-            versioninfo = VersionRow(version=vers, run_date=run_date)
-            self.session.add(versioninfo)
+            self.session.execute(
+                text(
+                    "insert into version (version, run_date) "
+                    "select :version, :run_date where not exists (select 1 from version)"
+                ),
+                {"version": rsVersion, "run_date": run_date},
+            )
             self.session.commit()
 
         self.close()
-- 
2.43.0


From aedfa04540920ca946a6393eff1a2a4c0e96d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:13 +0000
Subject: [PATCH 02/84] fix: convert the results database schema in a single
 transaction

A process killed in the middle of update_database or downgrade_database left
a mixture of old and new column names that could not be opened by any
version, as did two processes converting the same file at once; a database
old enough to have metricMetadata could not be converted at all.
---
 rubin_sim/maf/db/results_db.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index e0040e6..1486154 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -253,20 +253,22 @@ class ResultsDb:
             "Updating database to match new schema."
             "Undo with self.downgrade_database if necessary (for older maf versions)."
         )
+        # All of the changes are made in one transaction: a process killed
+        # halfway must not leave a mixture of the two schemas.
+        self.session.rollback()
+        self.session.execute(text("begin immediate"))
         query = text("select * from metrics limit 1")
         cols = self.session.execute(query)._metadata.keys
         if "metricMetadata" in cols:
             # if it's very old
             query = text("alter table metrics rename column metricMetadata to metric_info_label")
             self.session.execute(query)
-            self.session.commit()
         # Check for metricId vs. metric_id separately,
         # as this change happened independently.
         if "metricId" in cols:
             for table in ["metrics", "summarystats", "plots", "displays"]:
                 query = text(f"alter table {table} rename column metricId to metric_id")
                 self.session.execute(query)
-            self.session.commit()
         # Update to newest schema.
         if "run_name" not in cols:
             updates = {
@@ -278,9 +280,11 @@ class ResultsDb:
                 "metricDataFile": "metric_datafile",
             }
             for old, new in updates.items():
+                if old not in cols:
+                    # metricMetadata has been renamed already, above
+                    continue
                 query = text(f"alter table metrics rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             # update summarystat table
             updates = {
                 "statId": "stat_id",
@@ -290,7 +294,6 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table summarystats rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             # update plot table
             updates = {
                 "plotId": "plot_id",
@@ -300,7 +303,6 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table plots rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             # update display table
             updates = {
                 "displayId": "display_id",
@@ -312,7 +314,6 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table displays rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
             updates = {
                 "verId": "version_id",
                 "rundate": "run_date",
@@ -320,7 +321,7 @@ class ResultsDb:
             for old, new in updates.items():
                 query = text(f"alter table version rename column {old} to {new}")
                 self.session.execute(query)
-            self.session.commit()
+        self.session.commit()
 
     def downgrade_database(self):
         """
@@ -330,6 +331,8 @@ class ResultsDb:
         """
         self.open()
         warnings.warn("Downgrading MAF resultsDb to run with MAF < v1.0")
+        # All of the changes are made in one transaction (see update_database).
+        self.session.execute(text("begin immediate"))
         updates = {
             "metricId": "metric_id",
             "metricName": "metric_name",
@@ -342,7 +345,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table metrics rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         # update summarystat table
         updates = {
             "statId": "stat_id",
@@ -353,7 +355,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table summarystats rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         # update plot table
         updates = {
             "plotId": "plot_id",
@@ -364,7 +365,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table plots rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         # update display table
         updates = {
             "displayId": "display_id",
@@ -377,7 +377,6 @@ class ResultsDb:
         for old, new in updates.items():
             query = text(f"alter table displays rename column {new} to {old}")
             self.session.execute(query)
-        self.session.commit()
         updates = {
             "verId": "version_id",
             "rundate": "run_date",
-- 
2.43.0


From e24fdfcb5cda0866f1336387f14c234c4d7f8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:54 +0000
Subject: [PATCH 03/84] fix: retry a summary statistic on a locked database,
 and raise if it stays locked

The retry caught sqlite3.OperationalError, which SQLAlchemy never raises, did
not roll the session back, was skipped for simple float statistics, and would
have dropped the value without a word once the tries were used up. All values
of a multi-valued statistic are now committed together.
---
 rubin_sim/maf/db/results_db.py | 55 ++++++++++++++++------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index 1486154..d14f354 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -11,12 +11,11 @@ import datetime
 import os
 import time
 import warnings
-from sqlite3 import OperationalError
 
 import numpy as np
 from sqlalchemy import Column, Float, ForeignKey, Integer, String, create_engine
 from sqlalchemy.engine import url
-from sqlalchemy.exc import DatabaseError
+from sqlalchemy.exc import DatabaseError, OperationalError
 from sqlalchemy.orm import backref, declarative_base, relationship, sessionmaker
 from sqlalchemy.schema import CreateTable
 from sqlalchemy.sql import text
@@ -582,8 +581,7 @@ class ResultsDb:
         """
         # Allow for special summary statistics which return data in a
         # np.ndarray with 'name' and 'value' columns.
-        self.open()
-        tries = 0
+        summarystats = []
         if isinstance(summary_value, np.ndarray) and summary_value.dtype.names is not None:
             if ("name" in summary_value.dtype.names) and ("value" in summary_value.dtype.names):
                 for value in summary_value:
@@ -592,38 +590,37 @@ class ResultsDb:
                         sSuffix = sSuffix.decode("utf-8")
                     else:
                         sSuffix = str(sSuffix)
-                    summarystat = SummaryStatRow(
-                        metric_id=metric_id,
-                        summary_name=summary_name + " " + sSuffix,
-                        summary_value=value["value"],
-                    )
-                    success = False
-                    # This can hit a locked database if running in parallel
-                    # have it try a few times before actually failing
-                    # since nothing should be writing for a long time.
-                    while (not success) & (tries < ntry):
-                        try:
-                            self.session.add(summarystat)
-                            self.session.commit()
-                            success = True
-                        except OperationalError:
-                            tries += 1
-                            time.sleep(pause_time)
+                    summarystats.append((summary_name + " " + sSuffix, float(value["value"])))
             else:
                 warnings.warn("Warning! Cannot save non-conforming summary statistic.")
         # Most summary statistics will be simple floats.
         else:
             if isinstance(summary_value, float) or isinstance(summary_value, int):
-                summarystat = SummaryStatRow(
-                    metric_id=metric_id,
-                    summary_name=summary_name,
-                    summary_value=summary_value,
-                )
-                self.session.add(summarystat)
-                self.session.commit()
+                summarystats.append((summary_name, summary_value))
             else:
                 warnings.warn("Warning! Cannot save summary statistic that is not a simple float or int")
-        self.close()
+        if len(summarystats) == 0:
+            return
+        tries = 0
+        while True:
+            # This can hit a locked database if running in parallel
+            # have it try a few times before actually failing
+            # since nothing should be writing for a long time.
+            self.open()
+            try:
+                for name, value in summarystats:
+                    self.session.add(
+                        SummaryStatRow(metric_id=metric_id, summary_name=name, summary_value=value)
+                    )
+                self.session.commit()
+                break
+            except OperationalError:
+                tries += 1
+                if tries >= ntry:
+                    raise
+            finally:
+                self.close()
+            time.sleep(pause_time)
 
     def get_metric_id(self, metric_name, slicer_name=None, metric_info_label=None, run_name=None):
         """Find metric bundle Ids from the metric table.
-- 
2.43.0


From dae91caf772295be5c87a03cae9d6deb49230d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:42 +0000
Subject: [PATCH 04/84] fix: undo a results database update when its commit
 fails

A commit that failed (for instance because a reader held the database for
longer than the timeout) left its transaction open: the database stayed locked
for every process, and the next successful update through the same object also
committed the one that had been reported as failed.
---
 rubin_sim/maf/db/results_db.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index d14f354..c358945 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -234,7 +234,7 @@ class ResultsDb:
                 ),
                 {"version": rsVersion, "run_date": run_date},
             )
-            self.session.commit()
+            self._commit()
 
         self.close()
 
@@ -399,6 +399,19 @@ class ResultsDb:
         """
         self.session.close()
 
+    def _commit(self):
+        """Commit the session; if that fails, end its transaction (and the
+        locks it holds on the database) before passing the error on.
+        Closing the session would not do: after a commit which failed, the
+        connection goes back to the pool with the transaction still open.
+        """
+        try:
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            self.session.close()
+            raise
+
     def update_metric(
         self,
         metric_name,
@@ -467,7 +480,7 @@ class ResultsDb:
                 metric_datafile=metric_datafile,
             )
             self.session.add(metricinfo)
-            self.session.commit()
+            self._commit()
         else:
             metricinfo = prev[0]
         self.close()
@@ -523,7 +536,7 @@ class ResultsDb:
             display_caption=display_caption,
         )
         self.session.add(displayinfo)
-        self.session.commit()
+        self._commit()
         self.close()
 
     def update_plot(self, metric_id, plot_type, plot_file, overwrite=False):
@@ -550,7 +563,7 @@ class ResultsDb:
                 self.session.delete(p)
         plotinfo = PlotRow(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)
         self.session.add(plotinfo)
-        self.session.commit()
+        self._commit()
         self.close()
 
     def update_summary_stat(self, metric_id, summary_name, summary_value, ntry=3, pause_time=100):
@@ -612,7 +625,7 @@ class ResultsDb:
                     self.session.add(
                         SummaryStatRow(metric_id=metric_id, summary_name=name, summary_value=value)
                     )
-                self.session.commit()
+                self._commit()
                 break
             except OperationalError:
                 tries += 1
-- 
2.43.0


From 66d22f3ad6e47dd10e281bc5134fdad24dc6cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:37 +0000
Subject: [PATCH 05/84] fix: replace the record of a tracked run in a single
 transaction

Adding a run directory again committed the deletion of the old record before
adding the new one: a process killed (or failing) in between lost the run, and
one adding another run in between was given its id.
---
 rubin_sim/maf/db/tracking_db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e8a13ee..c67166f 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -177,7 +177,8 @@ class TrackingDb:
             )
             for run in prevrun:
                 self.session.delete(run)
-            self.session.commit()
+            # The record is replaced in a single transaction.
+            self.session.flush()
             runinfo = RunRow(
                 maf_run_id=runIds[0],
                 run_group=run_group,
-- 
2.43.0


From 185a987d7b32d8161db7ad221de72125ea95912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:37 +0000
Subject: [PATCH 06/84] fix: let several processes create the tracking database
 at once

One of two processes which found no runs table failed with 'table runs already
exists', or rather with a TypeError: a DatabaseError cannot be made from a
message alone.
---
 rubin_sim/maf/db/tracking_db.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index c67166f..d01e231 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -6,6 +6,7 @@ from sqlalchemy import Column, Integer, String, create_engine
 from sqlalchemy.engine import url
 from sqlalchemy.exc import DatabaseError
 from sqlalchemy.orm import declarative_base, sessionmaker
+from sqlalchemy.schema import CreateTable
 
 from . import ResultsDb, VersionRow
 
@@ -83,10 +84,15 @@ class TrackingDb:
         self.Session = sessionmaker(bind=engine)
         self.session = self.Session()
         # Create the tables, if they don't already exist.
+        # (another process may be creating them at the same time).
         try:
-            Base.metadata.create_all(engine)
+            with engine.connect() as connection:
+                connection.execute(CreateTable(RunRow.__table__, if_not_exists=True))
+                connection.commit()
         except DatabaseError:
-            raise DatabaseError(
+            if os.path.isfile(self.database):
+                raise
+            raise ValueError(
                 "Cannot create a %s database at %s. Check directory exists." % (self.driver, self.database)
             )
 
-- 
2.43.0


From fc23d67d2be5653b8ebc69e3bd446bad13030f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:37 +0000
Subject: [PATCH 07/84] fix: undo a tracking database update when its commit
 fails

A commit that failed because the database was locked left the transaction
open: the database stayed locked, and the next successful update also made the
change that had been reported as failed.
---
 rubin_sim/maf/db/tracking_db.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index d01e231..dafce09 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -99,6 +99,17 @@ class TrackingDb:
     def close(self):
         self.session.close()
 
+    def _commit(self):
+        """Commit the session, or undo the change if that fails: otherwise
+        the transaction would stay open, with its locks, and be committed
+        together with the next one.
+        """
+        try:
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
+
     def add_run(
         self,
         run_group=None,
@@ -184,7 +195,11 @@ class TrackingDb:
             for run in prevrun:
                 self.session.delete(run)
             # The record is replaced in a single transaction.
-            self.session.flush()
+            try:
+                self.session.flush()
+            except Exception:
+                self.session.rollback()
+                raise
             runinfo = RunRow(
                 maf_run_id=runIds[0],
                 run_group=run_group,
@@ -234,7 +249,7 @@ class TrackingDb:
                     db_file=db_file,
                 )
         self.session.add(runinfo)
-        self.session.commit()
+        self._commit()
         return runinfo.maf_run_id
 
     def delRun(self, runId):
@@ -249,7 +264,7 @@ class TrackingDb:
         print("Removing run info for runId %d " % (runId))
         print(" ", runinfo)
         self.session.delete(runinfo[0])
-        self.session.commit()
+        self._commit()
 
 
 def add_run_to_database(
-- 
2.43.0


From d276e431d68db900941e4b7cb731ac9ca1e351e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:37 +0000
Subject: [PATCH 08/84] fix: add_run_to_database with a path to the tracking
 database, or an empty results database

The MAF directory was made relative to the parent of the directory of the
tracking database and then looked up from the current directory, so that any
absolute path to the tracking database failed unless it happened to be one
level below. A results database without metrics raised an IndexError.
---
 rubin_sim/maf/db/tracking_db.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index dafce09..4f5bdb8 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -304,7 +304,6 @@ def add_run_to_database(
     """
     trackingDb = TrackingDb(database=tracking_db_file)
 
-    maf_dir = os.path.relpath(maf_dir, start=os.path.dirname(trackingDb.tracking_db_dir))
     if not os.path.isdir(maf_dir):
         raise ValueError("There is no directory containing MAF outputs at %s." % (maf_dir))
 
@@ -315,8 +314,11 @@ def add_run_to_database(
             run_name = resdb.get_run_name()
             if len(run_name) > 1:
                 run_name = 0
-            else:
+            elif len(run_name) == 1:
                 run_name = run_name[0]
+            else:
+                # no metrics have been recorded (yet)
+                run_name = None
         if maf_version is None or maf_date is None:
             resdb.open()
             query = resdb.session.query(VersionRow).all()
-- 
2.43.0


From 3c0be58951f2b3dc6e0c52aba498d34f76df6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:39 +0000
Subject: [PATCH 09/84] fix: record the data file name including its suffix in
 the results database

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..312495d 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -535,7 +535,7 @@ class MetricBundle:
             summary_values=self.summary_values,
         )
         if results_db is not None:
-            self.write_db(results_db=results_db)
+            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)
 
     def output_json(self):
         """Set up and call the baseSlicer outputJSON method,
-- 
2.43.0


From 18794f12d180f881426e3c5357d4ecf6e4a10e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:52 +0000
Subject: [PATCH 10/84] fix: never leave a partially written metric data file

---
 rubin_sim/maf/slicers/base_slicer.py | 64 +++++++++++++++++++---------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 4141858..9da846e 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -2,8 +2,10 @@
 #
 __all__ = ("SlicerRegistry", "BaseSlicer")
 
+import contextlib
 import inspect
 import json
+import os
 import warnings
 from io import StringIO
 
@@ -13,6 +15,29 @@ import numpy.ma as ma
 from rubin_sim.maf.utils import get_date_version
 
 
+@contextlib.contextmanager
+def _complete_file(outfilename):
+    """Open an npz file which appears under its name only when it is complete:
+    an interrupted or failed write leaves any previous version intact.
+    A file object is used as it is.
+    """
+    if hasattr(outfilename, "write"):
+        yield outfilename
+        return
+    outfilename = os.fspath(outfilename)
+    if not outfilename.endswith(".npz"):
+        outfilename = outfilename + ".npz"
+    tmpfilename = f"{outfilename}.{os.getpid()}.tmp"
+    try:
+        with open(tmpfilename, "wb") as outfile:
+            yield outfile
+        os.replace(tmpfilename, outfilename)
+    except BaseException:
+        if os.path.exists(tmpfilename):
+            os.remove(tmpfilename)
+        raise
+
+
 class SlicerRegistry(type):
     """
     Meta class for slicers, to build a registry of slicer classes.
@@ -220,25 +245,26 @@ class BaseSlicer(metaclass=SlicerRegistry):
             fill = None
         # npz file acts like dictionary: each keyword/value pair
         # below acts as a dictionary in loaded NPZ file.
-        np.savez(
-            outfilename,
-            # header saved as dictionary
-            header=header,
-            # metric data values
-            metric_values=data,
-            # metric mask values
-            mask=mask,
-            # metric badval/fill val
-            fill=fill,
-            # dictionary of instantiation parameters
-            slicer_init=self.slicer_init,
-            # class name
-            slicer_name=self.slicer_name,
-            # slice_point metadata saved (is a dictionary)
-            slice_points=self.slice_points,
-            slicer_n_slice=self.nslice,
-            slicer_shape=self.shape,
-        )
+        with _complete_file(outfilename) as outfile:
+            np.savez(
+                outfile,
+                # header saved as dictionary
+                header=header,
+                # metric data values
+                metric_values=data,
+                # metric mask values
+                mask=mask,
+                # metric badval/fill val
+                fill=fill,
+                # dictionary of instantiation parameters
+                slicer_init=self.slicer_init,
+                # class name
+                slicer_name=self.slicer_name,
+                # slice_point metadata saved (is a dictionary)
+                slice_points=self.slice_points,
+                slicer_n_slice=self.nslice,
+                slicer_shape=self.shape,
+            )
 
     def output_json(
         self,
-- 
2.43.0


From 03ef9c49fb8d26aefd1fe8a6c3e49754657590e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:24 +0000
Subject: [PATCH 11/84] fix: run only metric bundles together which do not
 interfere with each other

---
 .../maf/metric_bundles/metric_bundle_group.py | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..be87461 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -141,6 +141,17 @@ class MetricBundleGroup:
         for bk in bundle_dict:
             self.has_run[bk] = False
 
+    @staticmethod
+    def _same_map(map1, map2):
+        """Check if two maps were set up in the same way."""
+        if type(map1) is not type(map2) or map1.keynames != map2.keynames:
+            return False
+        simple = (str, int, float, bool, type(None))
+        config1 = {k: v for k, v in vars(map1).items() if isinstance(v, simple)}
+        config2 = {k: v for k, v in vars(map2).items() if isinstance(v, simple)}
+        # Attributes only one of them has were not part of the set up.
+        return all(config1[k] == config2[k] for k in config1 if k in config2)
+
     def _check_compatible(self, metric_bundle1, metric_bundle2):
         """Check if two MetricBundles are "compatible".
 
@@ -155,23 +166,31 @@ class MetricBundleGroup:
 
         Notes
         -----
-        Compatible indicates that the sql constraints, the slicers,
-        and the maps are the same, and
-        that the stackers do not interfere with each other
-        (i.e. are not trying to set the same column in different ways).
+        Compatible indicates that the sql constraints and the slicers
+        are the same, and
+        that the maps and the stackers do not interfere with each other
+        (i.e. are not trying to set the same key or column
+        in different ways).
         Returns True if the MetricBundles are compatible, False if not.
         """
         if metric_bundle1.constraint != metric_bundle2.constraint:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
-            return False
+        for map1 in metric_bundle1.maps_list:
+            for map2 in metric_bundle2.maps_list:
+                # Maps which add different keys to the slice_points are ok,
+                # but if they add the same ones, they have to do it
+                # in the same way.
+                if set(map1.keynames).intersection(map2.keynames) and not self._same_map(map1, map2):
+                    return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
-                # If the stackers have different names, that's OK,
+                # If the stackers set different columns, that's OK,
                 # and if they are identical, that's ok.
-                if (stacker.__class__.__name__ == stacker2.__class__.__name__) & (stacker != stacker2):
+                same_class = stacker.__class__.__name__ == stacker2.__class__.__name__
+                same_cols = len(set(stacker.cols_added).intersection(stacker2.cols_added)) > 0
+                if (same_class or same_cols) and (stacker != stacker2):
                     return False
         # But if we got this far, everything matches.
         return True
@@ -200,10 +219,12 @@ class MetricBundleGroup:
                             # stop and go on to the
                             # next subset list.
                             break
+                if compatible:
                     # Otherwise, we reached the end of the subset
                     # and they were all compatible.
                     found_compatible = True
                     compatible_list.append(k)
+                    break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
-- 
2.43.0


From 91a825485dd5bc9800bc74a59b94867f6a3b8826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:24 +0000
Subject: [PATCH 12/84] fix: keep all reduced metric bundles of metrics with
 the same name

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index be87461..e55bdb1 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -605,7 +605,7 @@ class MetricBundleGroup:
                     # Add the new metricBundle to our metricBundleGroup
                     # dictionary.
                     name = newmetricbundle.metric.name
-                    if name in self.bundle_dict:
+                    if name in self.bundle_dict or name in reduce_bundle_dict:
                         name = newmetricbundle.file_root
                     reduce_bundle_dict[name] = newmetricbundle
                     if self.save_early:
-- 
2.43.0


From 79a26caf3f16811e3ce5efbf3be47c7e8572e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:24 +0000
Subject: [PATCH 13/84] fix: restore reduced metric bundles when reading a
 bundle group from disk

---
 .../maf/metric_bundles/metric_bundle_group.py | 57 +++++++++----------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index e55bdb1..afd9ddc 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -4,6 +4,7 @@ import os
 import sys
 import warnings
 from collections import OrderedDict
+from copy import deepcopy
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -800,39 +801,36 @@ class MetricBundleGroup:
             # Look to see if this is a complex metric,
             # with associated 'reduce' functions, and read those in too.
             if len(bundle.metric.reduce_funcs) > 0:
-                orig_metric_name = bundle.metric.name
-                for reduce_func in bundle.metric.reduce_funcs.values():
-                    reduce_name = orig_metric_name + "_" + reduce_func.__name__.replace("reduce", "")
-                    # Borrow the fileRoot in b (we'll reset it appropriately)
-                    bundle.metric.name = reduce_name
-                    bundle._build_file_root()
-                    filename = os.path.join(self.out_dir, bundle.file_root + ".npz")
+                for reduce_func_name in bundle.metric.reduce_funcs:
+                    newmetric = deepcopy(bundle.metric)
+                    newmetric.name = bundle.metric.name + "_" + reduce_func_name.replace("reduce_", "")
+                    newmetric.metric_dtype = "float"
+                    # This won't necessarily recreate the plot_dict and
+                    # display_dict exactly as they would have been made
+                    # if you calculated the reduce metric from scratch.
+                    newmetric_bundle = MetricBundle(
+                        metric=newmetric,
+                        slicer=bundle.slicer,
+                        constraint=bundle.constraint,
+                        stacker_list=bundle.stacker_list,
+                        run_name=bundle.run_name,
+                        info_label=bundle.info_label,
+                        plot_dict=bundle.plot_dict,
+                        display_dict=bundle.display_dict,
+                        summary_metrics=bundle.summary_metrics,
+                        maps_list=bundle.maps_list,
+                        plot_funcs=bundle.plot_funcs,
+                    )
+                    filename = os.path.join(self.out_dir, newmetric_bundle.file_root + ".npz")
                     tmp_bundle = create_empty_metric_bundle()
                     try:
                         tmp_bundle.read(filename)
-                        # This won't necessarily recreate the plot_dict and
-                        # display_dict exactly as they would have been made
-                        # if you calculated the reduce metric from scratch.
-                        newmetric_bundle = MetricBundle(
-                            metric=bundle.metric,
-                            slicer=bundle.slicer,
-                            constraint=bundle.constraint,
-                            stacker_list=bundle.stacker_list,
-                            run_name=bundle.run_name,
-                            info_label=bundle.info_label,
-                            plot_dict=bundle.plotDict,
-                            display_dict=bundle.displayDict,
-                            summary_metrics=bundle.summary_metrics,
-                            maps_list=bundle.maps_list,
-                            file_root=bundle.file_root,
-                            plot_funcs=bundle.plot_funcs,
-                        )
-                        newmetric_bundle.metric.name = reduce_name
                         newmetric_bundle.metric_values = ma.copy(tmp_bundle.metric_values)
+                        newmetric_bundle.slicer = tmp_bundle.slicer
                         newmetric_bundle.summary_values = tmp_bundle.summary_values
                         # Add the new metricBundle to metricBundleGroup dict.
                         name = newmetric_bundle.metric.name
-                        if name in self.bundle_dict:
+                        if name in self.bundle_dict or name in reduce_bundle_dict:
                             name = newmetric_bundle.file_root
                         reduce_bundle_dict[name] = newmetric_bundle
                         if self.verbose:
@@ -842,11 +840,8 @@ class MetricBundleGroup:
                             'Warning: file %s not found, bundle not restored ("reduce" metric).' % filename
                         )
 
-                    # Remove summaryMetrics from top level metricbundle.
-                    bundle.summary_metrics = []
-                    # Update parent MetricBundle name.
-                    bundle.metric.name = orig_metric_name
-                    bundle._build_file_root()
+                # Remove summaryMetrics from top level metricbundle.
+                bundle.summary_metrics = []
 
         # Add the reduce bundles into the bundleDict.
         self.bundle_dict.update(reduce_bundle_dict)
-- 
2.43.0


From 0b4e8147ffd6fee29f75bd8131768cc840ca33e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:44 +0000
Subject: [PATCH 14/84] fix: skip only the constraint which needs a missing
 column

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index afd9ddc..2a217b3 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 import matplotlib.pyplot as plt
 import numpy as np
 import numpy.ma as ma
+import pandas as pd
 import tqdm
 
 import rubin_sim.maf.db as db
@@ -342,7 +343,11 @@ class MetricBundleGroup:
                     )
                 warnings.warn(" This means skipping metrics %s" % metrics_skipped)
                 return
-            except ValueError:
+            except (ValueError, pd.errors.DatabaseError) as err:
+                # pandas reports a missing column as a DatabaseError,
+                # but also any other failure to read the database.
+                if isinstance(err, pd.errors.DatabaseError) and "no such column" not in str(err):
+                    raise
                 warnings.warn(
                     "One or more of the columns requested from the database was not available."
                     + " Skipping constraint %s" % constraint
-- 
2.43.0


From fc980c63c2e6accdea3f978518fa4fb7f17e4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:07 +0000
Subject: [PATCH 15/84] fix: compare slicers which are not set up yet

---
 rubin_sim/maf/slicers/nd_slicer.py             | 3 +++
 rubin_sim/maf/slicers/time_interval_slicers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rubin_sim/maf/slicers/nd_slicer.py b/rubin_sim/maf/slicers/nd_slicer.py
index 91c9db1..d868074 100644
--- a/rubin_sim/maf/slicers/nd_slicer.py
+++ b/rubin_sim/maf/slicers/nd_slicer.py
@@ -139,6 +139,9 @@ class NDSlicer(BaseSlicer):
         if isinstance(other_slicer, NDSlicer):
             if other_slicer.n_d != self.n_d:
                 return False
+            # Bins are not known until the slicers are set up.
+            if "bins" not in self.slice_points or "bins" not in other_slicer.slice_points:
+                return self is other_slicer
             for i in range(self.n_d):
                 if not np.array_equal(other_slicer.slice_points["bins"][i], self.slice_points["bins"][i]):
                     return False
diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..a413e8b 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -114,6 +114,9 @@ class TimeIntervalSlicer(BaseSlicer):
             return False
 
         for key in ["sid", "mjd", "duration"]:
+            # These are not known until the slicers are set up.
+            if key not in self.slice_points or key not in other_slicer.slice_points:
+                return self is other_slicer
             if not np.array_equal(other_slicer.slice_points[key], self.slice_points[key]):
                 return False
 
-- 
2.43.0


From be1113c51c27cec73146dbe0cc3f09faae43a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:59 +0000
Subject: [PATCH 16/84] fix: do not save metric bundles which were not
 calculated

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 2a217b3..a5a7c79 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -772,6 +772,10 @@ class MetricBundleGroup:
             else:
                 print("Saving metric bundles.")
         for b in self.current_bundle_dict.values():
+            # Nothing to save if the metric was not calculated
+            # (no data matching the constraint).
+            if b.metric_values is None:
+                continue
             b.write(out_dir=self.out_dir, results_db=self.results_db)
 
     def read_all(self):
-- 
2.43.0


From 90c1982e22c1d67b7f962d79ef3639bf22c31545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:45 +0000
Subject: [PATCH 17/84] fix: gather the summaries of the other runs when one
 has none

---
 .../maf/run_comparison/gather_summaries.py     | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/run_comparison/gather_summaries.py b/rubin_sim/maf/run_comparison/gather_summaries.py
index 8a38310..bc5baa7 100755
--- a/rubin_sim/maf/run_comparison/gather_summaries.py
+++ b/rubin_sim/maf/run_comparison/gather_summaries.py
@@ -33,10 +33,22 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         fname = os.path.join(rdir, dbfilename)
         if not os.path.isfile(fname):
             logger.warning(f"No resultsDb database in {rdir}")
+            continue
 
         con = sqlite3.connect(fname)
-        temp_df = pd.read_sql(sql_q, con)
-        con.close()
+        try:
+            temp_df = pd.read_sql(sql_q, con)
+        except pd.errors.DatabaseError as err:
+            # Its tables may not have been created (yet).
+            if "no such table" not in str(err):
+                raise
+            logger.warning(f"No summary statistics in {fname}")
+            continue
+        finally:
+            con.close()
+        if len(temp_df) == 0:
+            logger.warning(f"No summary statistics in {fname}")
+            continue
 
         # Make column names
         def make_summary_name(x):
@@ -54,6 +66,8 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         temp_df["summary_names"] = temp_df.apply(make_summary_name, axis=1)
         all_summaries.append(temp_df[["summary_names", "summary_value", "run_name"]])
 
+    if len(all_summaries) == 0:
+        return pd.DataFrame()
     # Make one big dataframe
     all_summaries = pd.concat(all_summaries)
     # Group by run names and drop duplicates
-- 
2.43.0


From 47c2c398abd7bea71af4fd2a2e7377b0cd357f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 18/84] fix: do not read an added run back after its commit

---
 rubin_sim/maf/db/tracking_db.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index 4f5bdb8..0ef9cec 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -2,7 +2,7 @@ __all__ = ("TrackingDb", "add_run_to_database")
 
 import os
 
-from sqlalchemy import Column, Integer, String, create_engine
+from sqlalchemy import Column, Integer, String, create_engine, inspect
 from sqlalchemy.engine import url
 from sqlalchemy.exc import DatabaseError
 from sqlalchemy.orm import declarative_base, sessionmaker
@@ -250,7 +250,9 @@ class TrackingDb:
                 )
         self.session.add(runinfo)
         self._commit()
-        return runinfo.maf_run_id
+        # Not runinfo.maf_run_id: that would read the row back from the
+        # database, which may be locked by now.
+        return inspect(runinfo).identity[0]
 
     def delRun(self, runId):
         """
-- 
2.43.0


From 11c1b17ba429c6a4a8d138cf16c34c5308072a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:22 +0000
Subject: [PATCH 19/84] fix: do not leave an incomplete download behind as the
 run's database

---
 rubin_sim/maf/run_comparison/archive.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_comparison/archive.py b/rubin_sim/maf/run_comparison/archive.py
index 30f3fa0..d09c60c 100644
--- a/rubin_sim/maf/run_comparison/archive.py
+++ b/rubin_sim/maf/run_comparison/archive.py
@@ -447,7 +447,16 @@ def download_runs(runs, dest_dir=None, runs_source=None, clobber=False):
         os.makedirs(os.path.dirname(dest_fnames[run_name]), exist_ok=True)
 
         if clobber or not os.path.exists(dest_fnames[run_name]):
-            urllib.request.urlretrieve(run.url, dest_fnames[run_name])
+            # Download under a temporary name, so that an interrupted
+            # download is never mistaken for a complete file.
+            part_fname = f"{dest_fnames[run_name]}.{os.getpid()}.part"
+            try:
+                urllib.request.urlretrieve(run.url, part_fname)
+                os.replace(part_fname, dest_fnames[run_name])
+            except BaseException:
+                if os.path.exists(part_fname):
+                    os.remove(part_fname)
+                raise
         else:
             warnings.warn(f"{dest_fnames[run_name]} already exists; not downloading")
 
-- 
2.43.0


From d8cffd4009a913d544298289a98a43d8d988c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:34 +0000
Subject: [PATCH 20/84] fix: serve the data of a metric in show_maf

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 rubin_sim/maf/show_maf.py                     | 8 ++++----
 rubin_sim/maf/web/maf_run_results.py          | 2 +-
 rubin_sim/maf/web/templates/macros.html       | 4 ++--
 rubin_sim/maf/web/templates/metricselect.html | 4 ++--
 rubin_sim/maf/web/templates/multicolor.html   | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 312495d..a070c74 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -549,7 +549,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index ca460b4..36f8208 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -72,16 +72,16 @@ class DataHandler(web.RequestHandler):
             datatype = datatype.decode("utf-8")
         else:
             datatype = "npz"
-        run = runlist.getRun(runId)
-        metric = run.metricIdsToMetrics([metricId])
+        run = runlist.get_run(runId)
+        metric = run.metric_ids_to_metrics([metricId])
         if datatype == "npz":
-            npz = run.getNpz(metric)
+            npz = run.get_npz(metric)
             if npz is None:
                 self.write("No npz file available.")
             else:
                 self.redirect(npz)
         elif datatype == "json":
-            jsn = run.getJson(metric)
+            jsn = run.get_json(metric)
             if jsn is None:
                 self.write("No JSON file available.")
             else:
diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 5198b84..02fd160 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -140,7 +140,7 @@ class MafRunResults:
         io = m_b.output_json()
         if io is None:
             return None
-        return io.get_value()
+        return io.getvalue()
 
     def get_npz(self, metric):
         """
diff --git a/rubin_sim/maf/web/templates/macros.html b/rubin_sim/maf/web/templates/macros.html
index 89e3b6e..a541ca6 100644
--- a/rubin_sim/maf/web/templates/macros.html
+++ b/rubin_sim/maf/web/templates/macros.html
@@ -27,8 +27,8 @@
  <b>
  {% for key in metricInfo %}
     {% if key == 'Data' %}
-       <a href="getData?datatype=npz&runId={{runId}}&metricId={{metric['metric_id']}}">npz</a>
-       <a href="getData?datatype=json&runId={{runId}}&metricId={{metric['metric_id']}}">JSON</a>
+       <a href="getData?datatype=npz&runId={{runId}}&metric_id={{metric['metric_id']}}">npz</a>
+       <a href="getData?datatype=json&runId={{runId}}&metric_id={{metric['metric_id']}}">JSON</a>
     {% else %}
        {{ metricInfo[key]|escape }}
     {% endif %}
diff --git a/rubin_sim/maf/web/templates/metricselect.html b/rubin_sim/maf/web/templates/metricselect.html
index 68460f2..f05ad74 100644
--- a/rubin_sim/maf/web/templates/metricselect.html
+++ b/rubin_sim/maf/web/templates/metricselect.html
@@ -68,8 +68,8 @@
 	  {% for key in metricInfo %}
            <td>
 	   {% if key == 'Data' %}
-	       <a href="getData?datatype=npz&runId={{runId}}&metricId={{metric['metric_id']}}">npz</a>
-	       <a href="getData?datatype=json&runId={{runId}}&metricId={{metric['metric_id']}}">JSON</a>
+	       <a href="getData?datatype=npz&runId={{runId}}&metric_id={{metric['metric_id']}}">npz</a>
+	       <a href="getData?datatype=json&runId={{runId}}&metric_id={{metric['metric_id']}}">JSON</a>
 	   {% else %}
             {{ metricInfo[key]|escape }}
            {% endif %}
diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 6c78637..816d9b7 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -72,10 +72,10 @@
      {% set skymaps = run.order_plots(skymaps) %}
      {% if skymaps|length > 0 %}
       <div id='metricset'>
-       {% set metricLink = 'metricResults?runId=%s&metricId=' %(runId)
+       {% set metricLink = 'metricResults?runId=%s&metric_id=' %(runId)
    %}
        {# add a link to click to the skymap group's details #}
-       {% set metricSelect = run.metrics_to_metric_ids(mskyset)|join('&metricId=') %}
+       {% set metricSelect = run.metrics_to_metric_ids(mskyset)|join('&metric_id=') %}
        {% set metricLink = metricLink ~ metricSelect %}
 	<a href={{metricLink}}>{{mname}}</a> </br>
 	<table class='blank'>
-- 
2.43.0


From 317ac79cfcf6c1a4ce718e6c189b85a6985668ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:34 +0000
Subject: [PATCH 21/84] fix: select the metrics of a group in show_maf

---
 rubin_sim/maf/show_maf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index 36f8208..2d62043 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -50,7 +50,7 @@ class MetricResultsPageHandler(web.RequestHandler):
         else:
             metricIdList = []
         if "Group_subgroup" in self.request.arguments:
-            groupList = self.request.arguments["Group_subgroup"]
+            groupList = self.get_arguments("Group_subgroup")
         else:
             groupList = []
         self.write(
-- 
2.43.0


From 82302f81e77b0ea1b69b468ff4077510409b52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:36 +0000
Subject: [PATCH 22/84] fix: keep show_maf up to date when the tracking
 database is locked or changes while it is read

---
 rubin_sim/maf/web/maf_tracking.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/web/maf_tracking.py b/rubin_sim/maf/web/maf_tracking.py
index 4058041..77a097a 100644
--- a/rubin_sim/maf/web/maf_tracking.py
+++ b/rubin_sim/maf/web/maf_tracking.py
@@ -26,7 +26,7 @@ class MafTracking:
         if database is None:
             database = os.path.join(os.getcwd(), "trackingDb_sqlite.db")
         self.tracking_db = database
-        self.stamp = os.stat(self.tracking_db).st_mtime
+        stamp = os.stat(self.tracking_db).st_mtime
 
         # Read in the tracking database.
         cols = [
@@ -42,9 +42,13 @@ class MafTracking:
             "maf_version",
             "maf_date",
         ]
-        self.runs = get_sim_data(self.tracking_db, "", cols, table_name="runs")
-        self.runs = self.sort_runs(self.runs, order=["maf_run_id", "run_name", "maf_comment"])
+        runs = get_sim_data(self.tracking_db, "", cols, table_name="runs")
+        # Only now that reading was successful (if it is not, the next request
+        # has to try again), and without looking at the database once more
+        # (which could replace these runs with newer ones in between).
+        self.runs = np.sort(runs, order=["maf_run_id", "run_name", "maf_comment"])
         self.runs_page = {}
+        self.stamp = stamp
 
     def _check_db(self):
         """Check if the database file has changed"""
-- 
2.43.0


From 0e89f1186f750aa9a54595aac3cbfb06d8d5c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 23/84] fix: hash the values of visits, not the addresses of
 strings

---
 rubin_sim/sim_archive/vseqmetadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6e4fcb0..4c1bdc9 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -47,7 +47,12 @@ psycopg2.extras.register_uuid()
 def compute_visits_sha256(visits: pd.DataFrame) -> bytes:
     recs = visits.to_records()
     visitseq_hash = hashlib.sha256(str(recs.dtype).encode())
-    visitseq_hash.update(np.ascontiguousarray(recs).data.tobytes())
+    if recs.dtype.hasobject:
+        # The buffer holds the addresses of the values (e.g. of strings),
+        # not the values themselves.
+        visitseq_hash.update(repr(recs.tolist()).encode())
+    else:
+        visitseq_hash.update(np.ascontiguousarray(recs).data.tobytes())
     visitseq_sha256 = bytes.fromhex(visitseq_hash.hexdigest())
     return visitseq_sha256
 
-- 
2.43.0


From ab3456a653fcf1ba9b66c41bafd960480a31b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 24/84] fix: record all metadata of a visit sequence in one
 transaction

---
 rubin_sim/sim_archive/vseqmetadata.py | 180 +++++++++-----------------
 1 file changed, 64 insertions(+), 116 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 4c1bdc9..52d63f3 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -439,6 +439,33 @@ class VisitSequenceArchiveMetadata:
         registered with the ``record_simulation_metadata`` and
         ``record_completed_metadata`` methods instead.
         """
+        return self._insert_visitseq(
+            table,
+            {},
+            visits,
+            label,
+            telescope=telescope,
+            url=url,
+            first_day_obs=first_day_obs,
+            last_day_obs=last_day_obs,
+            creation_time=creation_time,
+        )
+
+    def _insert_visitseq(
+        self,
+        table: str,
+        table_data: Mapping[str, Any],
+        visits: pd.DataFrame,
+        label: str,
+        telescope: str = "simonyi",
+        url: str | None = None,
+        first_day_obs: date | int | str | None = None,
+        last_day_obs: date | int | str | None = None,
+        creation_time: Time | None = None,
+    ) -> UUID:
+        # Insert a complete row, including the columns specific to the
+        # table, in one transaction, so that no incomplete record can be
+        # left behind or seen by others.
 
         sha256 = compute_visits_sha256(visits)
 
@@ -486,6 +513,11 @@ class VisitSequenceArchiveMetadata:
             data_placeholders.append(sql.Placeholder("creation_time"))
             data["creation_time"] = creation_datetime
 
+        for column in table_data:
+            columns.append(sql.Identifier(column))
+            data_placeholders.append(sql.Placeholder(column))
+            data[column] = table_data[column]
+
         query = sql.SQL("INSERT INTO {}.{} ({}) VALUES ({}) RETURNING visitseq_uuid").format(
             sql.Identifier(self.metadata_db_schema),
             sql.Identifier(table),
@@ -649,39 +681,17 @@ class VisitSequenceArchiveMetadata:
         visitseq_uuid : UUID
             The UUID of the new visit sequence.
         """
-        # I would have preferred to use kwargs here, but was not
-        # able to get type checking happy with it.
-        visitseq_uuid = self.record_visitseq_metadata(
-            visits,
-            label,
-            telescope=telescope,
-            table="simulations",
-            url=url,
-            first_day_obs=first_day_obs,
-            last_day_obs=last_day_obs,
-            creation_time=creation_time,
-        )
-
-        def make_set_clause(column: str) -> sql.Composed:
-            set_clause = sql.SQL("{} = {}").format(sql.Identifier(column), sql.Placeholder(column))
-            return set_clause
-
-        set_clauses = []
         data: Dict[str, Any] = {}
         if scheduler_version is not None:
-            set_clauses.append(make_set_clause("scheduler_version"))
             data["scheduler_version"] = scheduler_version
 
         if config_url is not None:
-            set_clauses.append(make_set_clause("config_url"))
             data["config_url"] = config_url
 
         if conda_env_sha256 is not None:
-            set_clauses.append(make_set_clause("conda_env_sha256"))
             data["conda_env_sha256"] = conda_env_sha256
 
         if parent_visitseq_uuid is not None:
-            set_clauses.append(make_set_clause("parent_visitseq_uuid"))
             data["parent_visitseq_uuid"] = str(parent_visitseq_uuid)
 
         if sim_runner_kwargs is not None:
@@ -705,37 +715,24 @@ class VisitSequenceArchiveMetadata:
                     else sim_runner_kwargs[key]
                 )
 
-            set_clauses.append(make_set_clause("sim_runner_kwargs"))
             data["sim_runner_kwargs"] = psycopg2.extras.Json(sim_runner_munged_kwargs)
 
         if parent_last_day_obs is not None:
-            set_clauses.append(make_set_clause("parent_last_day_obs"))
-            data["parent_last_day_obs"] = parent_last_day_obs
+            data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)
 
-        num_columns_to_update = len(set_clauses)
-
-        if num_columns_to_update > 0:
-            query = sql.SQL("UPDATE {}.simulations SET {} WHERE visitseq_uuid={} RETURNING *;").format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.SQL(", ").join(set_clauses),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data["visitseq_uuid"] = visitseq_uuid
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
+        # I would have preferred to use kwargs here, but was not
+        # able to get type checking happy with it.
+        visitseq_uuid = self._insert_visitseq(
+            "simulations",
+            data,
+            visits,
+            label,
+            telescope=telescope,
+            url=url,
+            first_day_obs=first_day_obs,
+            last_day_obs=last_day_obs,
+            creation_time=creation_time,
+        )
 
         return visitseq_uuid
 
@@ -808,45 +805,24 @@ class VisitSequenceArchiveMetadata:
         visitseq_uuid : `UUID`
             The UUID of the new visit sequence.
         """
+        data: Dict[str, Any] = {}
+        if query is not None:
+            data["query"] = query
 
         # I would have preferred to use kwargs here, but was not
         # able to get type checking happy with it.
-        visitseq_uuid = self.record_visitseq_metadata(
+        visitseq_uuid = self._insert_visitseq(
+            "completed",
+            data,
             visits,
             label,
             telescope=telescope,
-            table="completed",
             url=url,
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
         )
 
-        if query is not None:
-            composed_query = sql.SQL(
-                "UPDATE {}.completed SET query={} WHERE visitseq_uuid={} RETURNING *"
-            ).format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.Placeholder("query"),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data = {"query": query, "visitseq_uuid": visitseq_uuid}
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(composed_query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
-
         return visitseq_uuid
 
     def record_mixed_metadata(
@@ -897,55 +873,27 @@ class VisitSequenceArchiveMetadata:
         visitseq_uuid : `UUID`
             The UUID of the new visit sequence.
         """
-        visitseq_uuid = self.record_visitseq_metadata(
+        data = {
+            "last_early_day_obs": dayobs_to_date(last_early_day_obs),
+            "first_late_day_obs": dayobs_to_date(first_late_day_obs),
+            "early_parent_uuid": early_parent_uuid,
+            "late_parent_uuid": late_parent_uuid,
+        }
+
+        # I would have preferred to use kwargs here, but was not
+        # able to get type checking happy with it.
+        visitseq_uuid = self._insert_visitseq(
+            "mixedvisitseq",
+            data,
             visits,
             label,
             telescope=telescope,
-            table="mixedvisitseq",
             url=url,
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
         )
 
-        update_query = sql.SQL("""UPDATE {}.mixedvisitseq
-                   SET last_early_day_obs={},
-                       first_late_day_obs={},
-                       early_parent_uuid={},
-                       late_parent_uuid={}\
-                   WHERE visitseq_uuid={} RETURNING *
-                """).format(
-            sql.Identifier(self.metadata_db_schema),
-            sql.Placeholder("last_early_day_obs"),
-            sql.Placeholder("first_late_day_obs"),
-            sql.Placeholder("early_parent_uuid"),
-            sql.Placeholder("late_parent_uuid"),
-            sql.Placeholder("visitseq_uuid"),
-        )
-
-        data = {
-            "last_early_day_obs": dayobs_to_date(last_early_day_obs),
-            "first_late_day_obs": dayobs_to_date(first_late_day_obs),
-            "early_parent_uuid": early_parent_uuid,
-            "late_parent_uuid": late_parent_uuid,
-            "visitseq_uuid": visitseq_uuid,
-        }
-
-        conn = None
-        try:
-            conn = self.pg_pool.getconn()
-            cursor = conn.cursor()
-            cursor.execute(update_query, data)
-            result = cursor.fetchall()
-
-            # Be extra cautious, and check that everything looks
-            # reasonable before commiting the update.
-            assert len(result) == 1
-            cursor.execute("COMMIT;")
-        finally:
-            if conn:
-                self.pg_pool.putconn(conn)
-
         return visitseq_uuid
 
     def is_tagged(self, visitseq_uuid: UUID, tag: str) -> bool:
-- 
2.43.0


From c949a5a4388ec074d37049227c1ee02ba791e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 25/84] fix: add several tags to a visit sequence in one
 transaction

---
 rubin_sim/sim_archive/vseqmetadata.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 52d63f3..93323f8 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -929,14 +929,25 @@ class VisitSequenceArchiveMetadata:
         *tags : `str`
             One or more tags to add to the visit sequence.
         """
-        query = sql.SQL("INSERT INTO {}.tags (visitseq_uuid, tag) VALUES ({}, {})").format(
-            sql.Identifier(self.metadata_db_schema), sql.Placeholder("visitseq_uuid"), sql.Placeholder("tag")
+        if len(tags) == 0:
+            return
+
+        # Add all tags in one transaction.
+        query = sql.SQL("""
+            INSERT INTO {schema}.tags (visitseq_uuid, tag)
+            SELECT DISTINCT {visitseq_uuid}::UUID, new_tag
+            FROM UNNEST({tags}::TEXT[]) AS new_tag
+            WHERE NOT EXISTS (
+                SELECT 1 FROM {schema}.tags
+                WHERE visitseq_uuid={visitseq_uuid} AND tag=new_tag
+            )
+        """).format(
+            schema=sql.Identifier(self.metadata_db_schema),
+            visitseq_uuid=sql.Placeholder("visitseq_uuid"),
+            tags=sql.Placeholder("tags"),
         )
-        data: Dict[str, Any] = {"visitseq_uuid": visitseq_uuid}
-        for tag in tags:
-            if not self.is_tagged(visitseq_uuid, tag):
-                data["tag"] = tag
-                self.query(query, data, commit=True, return_result=False)
+        data: Dict[str, Any] = {"visitseq_uuid": visitseq_uuid, "tags": list(tags)}
+        self.query(query, data, commit=True, return_result=False)
 
     def untag(self, visitseq_uuid: UUID, tag: str) -> None:
         """Untag a visit sequence with a given tag.
-- 
2.43.0


From 1fb09cabc3db5a91198d5e2ce245e965c82a79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 26/84] fix: removing a tag raises if another client has
 already removed it

---
 rubin_sim/sim_archive/vseqmetadata.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 93323f8..1c00581 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -964,16 +964,15 @@ class VisitSequenceArchiveMetadata:
         `ValueError`
             If the visit sequence is not tagged with the given tag.
         """
-        if not self.is_tagged(visitseq_uuid, tag):
-            raise ValueError(f"Visit sequence {visitseq_uuid} is not tagged with {tag}")
-
-        query = sql.SQL("DELETE FROM {}.tags WHERE visitseq_uuid={} AND tag={}").format(
+        query = sql.SQL("DELETE FROM {}.tags WHERE visitseq_uuid={} AND tag={} RETURNING tag").format(
             sql.Identifier(self.metadata_db_schema),
             sql.Placeholder("visitseq_uuid"),
             sql.Placeholder("tag"),
         )
         data = {"visitseq_uuid": visitseq_uuid, "tag": tag}
-        self.query(query, data, commit=True, return_result=False)
+        deleted = self.query(query, data, commit=True)
+        if len(deleted) == 0:
+            raise ValueError(f"Visit sequence {visitseq_uuid} is not tagged with {tag}")
 
     def comment(self, visitseq_uuid: UUID, comment: str, author: str | None = None) -> None:
         """Attach a comment to a visit sequence in the
-- 
2.43.0


From 695ec166e302ac1c1e3aac5e6dddc9de3a83df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 27/84] fix: registering a file is not confused by a concurrent
 registration

---
 rubin_sim/sim_archive/vseqmetadata.py | 55 +++++++++++----------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 1c00581..47d2fb5 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1106,38 +1106,25 @@ class VisitSequenceArchiveMetadata:
             case _:
                 raise ValueError("Unrecognised location type")
 
-        # Check whether the file is already registered
-        already_exists = False
-        try:
-            self.get_file_url(visitseq_uuid, file_type)
-            already_exists = True
-        except ValueError:
-            already_exists = False
-
-        if already_exists:
-            if not update:
-                raise ValueError("A file of type {file_type} is already registered for {visitseq_uuid}")
-
-            query = sql.SQL(
-                "UPDATE {}.files SET file_sha256={}, file_url={} WHERE visitseq_uuid={} AND file_type={}"
-            ).format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.Placeholder("file_sha256"),
-                sql.Placeholder("file_url"),
-                sql.Placeholder("visitseq_uuid"),
-                sql.Placeholder("file_type"),
-            )
-        else:
-            query = sql.SQL(
-                "INSERT INTO {}.files (visitseq_uuid, file_type, file_sha256, file_url)"
-                + " VALUES ({}, {}, {}, {})"
-            ).format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.Placeholder("visitseq_uuid"),
-                sql.Placeholder("file_type"),
-                sql.Placeholder("file_sha256"),
-                sql.Placeholder("file_url"),
-            )
+        # Let the database decide whether the file is already registered,
+        # so that two clients cannot both find it missing.
+        conflict_action = (
+            "DO UPDATE SET file_sha256=EXCLUDED.file_sha256, file_url=EXCLUDED.file_url"
+            if update
+            else "DO NOTHING"
+        )
+        query = sql.SQL(
+            "INSERT INTO {}.files (visitseq_uuid, file_type, file_sha256, file_url)"
+            + " VALUES ({}, {}, {}, {}) ON CONFLICT (visitseq_uuid, file_type) "
+            + conflict_action
+            + " RETURNING file_type"
+        ).format(
+            sql.Identifier(self.metadata_db_schema),
+            sql.Placeholder("visitseq_uuid"),
+            sql.Placeholder("file_type"),
+            sql.Placeholder("file_sha256"),
+            sql.Placeholder("file_url"),
+        )
 
         data = {
             "visitseq_uuid": visitseq_uuid,
@@ -1146,7 +1133,9 @@ class VisitSequenceArchiveMetadata:
             "file_url": file_url,
         }
 
-        self.query(query, data, commit=True, return_result=False)
+        registered = self.query(query, data, commit=True)
+        if len(registered) == 0:
+            raise ValueError(f"A file of type {file_type} is already registered for {visitseq_uuid}")
 
     def get_file_url(self, visitseq_uuid: UUID, file_type: str) -> str:
         """Return the URL for a registered file of a given type and
-- 
2.43.0


From a67e96447a8ecef5e7dadbcffbee21bd0921a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 28/84] fix: recording a conda environment tolerates a
 concurrent recording of the same one

---
 rubin_sim/sim_archive/vseqmetadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 47d2fb5..f784cc2 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1318,7 +1318,7 @@ class VisitSequenceArchiveMetadata:
             ``None`` (the default) uses the current
             conda environment.
         """
-        if conda_env_hash is None != conda_env_json is None:
+        if (conda_env_hash is None) != (conda_env_json is None):
             raise ValueError("conda_env_hash and conda_env_json must both be set, or neither.")
 
         if conda_env_hash is None:
@@ -1331,7 +1331,10 @@ class VisitSequenceArchiveMetadata:
             warnings.warn("Conda env with hash already exists, not saving again.")
             return conda_env_hash
 
-        query = sql.SQL("INSERT INTO {}.conda_env (conda_env_hash, conda_env) VALUES ({}, {})").format(
+        query = sql.SQL(
+            "INSERT INTO {}.conda_env (conda_env_hash, conda_env) VALUES ({}, {})"
+            + " ON CONFLICT (conda_env_hash) DO NOTHING"
+        ).format(
             sql.Identifier(self.metadata_db_schema),
             sql.Placeholder("conda_env_hash"),
             sql.Placeholder("conda_env"),
-- 
2.43.0


From 42bd338afee32f4e35f35d74932d23a9775ea7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 29/84] fix: visit sequence queries without tags

---
 rubin_sim/sim_archive/vseqmetadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index f784cc2..e9a25ca 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1429,7 +1429,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)
@@ -1516,7 +1516,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
             WHERE %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (day_obs, day_obs, telescope, max_simulation_age)
-- 
2.43.0


From d8f5e9b4be4e36acfa9176d55e8bf829ea8e3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:40 +0000
Subject: [PATCH 30/84] fix: keep connections discarded by sqlalchemy from
 exhausting the psycopg2 pool

---
 rubin_sim/sim_archive/vseqmetadata.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index e9a25ca..215a27d 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -218,15 +218,17 @@ class VisitSequenceArchiveMetadata:
         # work well directly with the psycopg2
         # connection, but can work with sqlalchemy.
         # Make and alchemy engine that acts as
-        # a middle-man between pandas and psycopg2,
-        # using the same connection pool.
-        # There is a potential issue in that SA
-        # does not return connections to the
-        # psycopg pool when it is done. But, it
-        # has its own pool, and so in expected use
-        # it will just get one and keep reusing it.
+        # a middle-man between pandas and psycopg2.
+        # It has its own pool, and never returns
+        # connections to the one that made them, so it
+        # needs to make its own: were it to take them
+        # from the psycopg2 pool, each connection it
+        # discards (e.g. after the server closed it)
+        # would be lost to the psycopg2 pool.
         self.sa_engine = sqlalchemy.create_engine(
-            "postgresql+psycopg2://", creator=self.pg_pool.getconn, pool_pre_ping=True
+            "postgresql+psycopg2://",
+            creator=lambda: psycopg2.connect(**metadata_db_kwargs),
+            pool_pre_ping=True,
         )
 
         self.metadata_db_schema: str = metadata_db_schema
@@ -1248,8 +1250,7 @@ class VisitSequenceArchiveMetadata:
 
         # pandas to_sql fails with the native psycopg2, only
         # works with sqlalchemy
-        engine = sqlalchemy.create_engine("postgresql+psycopg2://", creator=self.pg_pool.getconn)
-        with engine.connect() as conn:
+        with self.sa_engine.connect() as conn:
             num_rows_added = stats_df.to_sql(
                 "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
             )
-- 
2.43.0


From 9569d7259947d80a3913f27b0a3780ae081b7e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 31/84] fix: archiving a file never replaces archived content

---
 rubin_sim/sim_archive/vseqarchive.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index 5b4c33e..2b5231b 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -5,7 +5,7 @@ import os
 from pathlib import Path
 from tempfile import TemporaryDirectory
 from typing import Sequence, Tuple
-from uuid import UUID
+from uuid import UUID, uuid4
 
 import click
 import pandas as pd
@@ -137,7 +137,16 @@ def _write_data_to_archive(content: bytes, visitseq_base_rp: ResourcePath, file_
 
     destination_rp = visitseq_base_rp.join(file_name)
     LOGGER.debug(f"Writing {destination_rp}.")
-    destination_rp.write(content)
+    try:
+        destination_rp.write(content, overwrite=False)
+    except FileExistsError:
+        # Never replace what has already been archived: there may be
+        # another registered file (or file type) with this file name, and
+        # if the registration of the new file is refused or fails the
+        # old one needs to stay as it was registered.
+        if destination_rp.read() != content:
+            destination_rp = visitseq_base_rp.join(f"{uuid4()}_{file_name}")
+            destination_rp.write(content)
     LOGGER.debug(f"Wrote {destination_rp}.")
     return destination_rp
 
-- 
2.43.0


From 5cb49eda52dc40d24b07cb585bf019b236f655c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 32/84] fix: look up simulations in a stored or empty pre-night
 index, with any form of day_obs

---
 rubin_sim/sim_archive/prenightindex.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index e81f6dc..151f5f7 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -278,20 +278,17 @@ def _get_sim_uuid_from_metadata_index(
     ValueError
         If no simulation is found matching the specified criteria.
     """
-    # Accept ISO style string for day_obs
-    if isinstance(day_obs, str):
-        day_obs = day_obs.replace("-", "")
-
-    day_obs = int(
-        f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
-    )
-    assert isinstance(day_obs, int)
+    day_obs = dayobs_to_date(day_obs)
 
     maybe_uuid: UUID | None = None
 
     for telescope in TELESCOPES:
         prenight_index = get_prenight_index(day_obs, telescope, **kwargs)
-        matching_sims = (prenight_index.sim_creation_day_obs == sim_date) & (
+        if len(prenight_index) == 0:
+            continue
+        # The index holds dates if it came from the database, and ISO strings
+        # if it came from the bucket.
+        matching_sims = (prenight_index.sim_creation_day_obs.map(str) == sim_date.isoformat()) & (
             prenight_index.daily_id == int(daily_id)
         )
         if np.any(matching_sims):
@@ -381,9 +378,7 @@ def _get_sim_metadata_from_metadata_index(
         simulations are found with the same UUID (indicating a problem in the
         metadata database).
     """
-    day_obs = int(
-        f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
-    )
+    day_obs = dayobs_to_date(day_obs)
 
     visitseq_uuid_str: str | None = None
     if isinstance(visitseq_uuid, str):
-- 
2.43.0


From 5b3c6bfddbea77d61fe455fb0be43d42c238e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 33/84] fix: a stored pre-night index keeps text that looks
 like a number

---
 rubin_sim/sim_archive/prenightindex.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index 151f5f7..a67d79f 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -133,7 +133,12 @@ def get_prenight_index_from_bucket(
         .join(f"{telescope}_prenights_for_{isodate}.json")
     )
     with prenight_index_resource_path.as_local() as local_resource_path:
-        prenights = pd.read_json(local_resource_path.ospath, orient="index")
+        prenights = pd.read_json(local_resource_path.ospath, orient="index", dtype=False)
+
+    # Convert the column that is not text explicitly, rather than having pandas
+    # guess: it takes text like labels and version numbers for numbers.
+    if "creation_time" in prenights.columns:
+        prenights["creation_time"] = pd.to_datetime(prenights["creation_time"], format="ISO8601")
 
     prenights.index.name = "visitseq_uuid"
 
-- 
2.43.0


From 6faf4d00574e46b0b073af945169ca0c590fc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 34/84] fix: select pre-night simulations when the nights'
 indexes come from different sources

---
 rubin_sim/sim_archive/sim_archive.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 9b8fc21..8a7ebf3 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -375,13 +375,15 @@ def find_latest_prenight_sim_for_nights(
     sims_for_first_night = get_prenight_index(first_day_obs, telescope, **get_prenight_index_kwargs)
     if first_day_obs != last_day_obs:
         sims_for_last_night = get_prenight_index(last_day_obs, telescope, **get_prenight_index_kwargs)
-        full_range_sims = set(sims_for_first_night.index) & set(sims_for_last_night.index)
+        # The two nights can come from different sources, one with UUIDs as
+        # UUIDs and the other as strings, so compare them as strings.
+        covers_last_night = sims_for_first_night.index.map(str).isin(sims_for_last_night.index.map(str))
+        candidate_sims = sims_for_first_night.loc[covers_last_night, :]
     else:
-        full_range_sims = set(sims_for_first_night.index)
+        candidate_sims = sims_for_first_night
 
     result: dict = {}
-    if full_range_sims:
-        candidate_sims = sims_for_first_night.loc[tuple(full_range_sims), :]
+    if len(candidate_sims) > 0:
         maybe_result = select_latest_prenight_sim(candidate_sims, tags, max_simulation_age)
         if maybe_result is not None:
             assert isinstance(maybe_result, pd.Series)
-- 
2.43.0


From 8270c3e5f6a306cc745130dcabe924913c37fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 35/84] fix: fetching visits does not modify the caller's
 stackers and arguments

---
 rubin_sim/sim_archive/sim_archive.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 8a7ebf3..c139490 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -473,7 +473,8 @@ def fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    # Make a new list, so that the one supplied by the caller is not modified.
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -482,10 +483,7 @@ def fetch_sim_for_nights(
         stackers.append(maf.DayObsISOStacker())
 
     if opsim_rp.getExtension() in (".db", ".sqlite3"):
-        if get_sim_data_kwargs is None:
-            get_sim_data_kwargs = {}
-        assert isinstance(get_sim_data_kwargs, dict)
-        get_sim_data_kwargs["stackers"] = stackers
+        get_sim_data_kwargs = {**(get_sim_data_kwargs or {}), "stackers": stackers}
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
     else:
-- 
2.43.0


From c955a2d7b199ec5ae7bddbf8f72d95c58f5a45a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 36/84] fix: night statistics survive database errors and
 nights without visits

---
 rubin_sim/sim_archive/sim_archive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index c139490..255f91c 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -28,6 +28,7 @@ import numpy as np
 import pandas as pd
 import psycopg2
 import rubin_scheduler
+import sqlalchemy.exc
 import yaml
 from astropy.time import Time
 from lsst.resources import ResourcePath
@@ -672,7 +673,7 @@ def fetch_sim_stats_for_night(
                 stats_maybe = None
             if stats_maybe is None:
                 LOGGER.info("Stats not found in metadata database.")
-        except psycopg2.OperationalError:
+        except (psycopg2.Error, sqlalchemy.exc.DBAPIError):
             LOGGER.info("Cannot connect to metadata database.")
             stats_maybe = None
 
@@ -686,7 +687,7 @@ def fetch_sim_stats_for_night(
         visits = get_visits(sim["visitseq_url"])
         columns = [c for c in visits.columns if is_numeric_dtype(visits[c])]
         stats_df = compute_nightly_stats(visits, columns=tuple(columns))
-        dayobs_stats_df = stats_df.set_index("day_obs").loc[date.fromisoformat(day_obs), :]
+        dayobs_stats_df = stats_df.loc[stats_df["day_obs"] == date.fromisoformat(day_obs), :]
         stats_maybe = dayobs_stats_df.set_index("value_name").to_dict(orient="index")
         stats = cast(dict[str, Any], stats_maybe) if isinstance(stats_maybe, dict) else {}
 
-- 
2.43.0


From 62d85acbd0c36ae3f5dc2a063a95a7c96dde1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 37/84] fix: report a missing visit sequence as ValueError

---
 rubin_sim/sim_archive/vseqmetadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 215a27d..2a5edc3 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -556,7 +556,7 @@ class VisitSequenceArchiveMetadata:
         ------
         ValueError
             If the table is not one of "visitseq", "mixedvisitseq",
-            "completed", or "simulations".
+            "completed", or "simulations", or has no such visit sequence.
         """
         if table not in {"visitseq", "mixedvisitseq", "completed", "simulations", "simulations_extra"}:
             raise ValueError()
@@ -564,8 +564,10 @@ class VisitSequenceArchiveMetadata:
         query_template = "SELECT * FROM {}.{} WHERE visitseq_uuid=%s"
         sql_params: list[sql.Composable] = [sql.Identifier(self.metadata_db_schema), sql.Identifier(table)]
         query_params = (visitseq_uuid,)
-        visitseq = self.pd_read_sql(query_template, sql_params, query_params).iloc[0, :]
-        return visitseq
+        visitseqs = self.pd_read_sql(query_template, sql_params, query_params)
+        if len(visitseqs) == 0:
+            raise ValueError(f"No visit sequence {visitseq_uuid} found in {table}")
+        return visitseqs.iloc[0, :]
 
     def set_visitseq_url(self, visitseq_uuid: UUID, visitseq_url: str) -> None:
         """Update the URL for the visits file for a visit sequence.
-- 
2.43.0


From 8f910a4b47207b8a6839eeeb5583cb0c9811eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 38/84] fix: fall back on the opsim file of a simulation whose
 stored index has no visits URL

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 255f91c..7c9d4af 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -447,7 +447,7 @@ def fetch_sim_for_nights(
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
             visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
+            if isinstance(visitseq_url, str):
                 opsim_rp = ResourcePath(visitseq_url)
             elif "opsim" in this_sim["files"]:
                 opsim_rp = ResourcePath(this_sim["files"]["opsim"])
@@ -458,7 +458,7 @@ def fetch_sim_for_nights(
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
             visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
+            if isinstance(visitseq_url, str):
                 opsim_rp = ResourcePath(visitseq_url)
             elif "opsim" in this_sim["files"]:
                 opsim_rp = ResourcePath(this_sim["files"]["opsim"])
-- 
2.43.0


From 6a71db44c32aabe734f3d8c670000878d21b6760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 39/84] fix: concurrent additions to the prototype archive get
 their own entries

---
 rubin_sim/sim_archive/prototype.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..747299e 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -72,7 +72,19 @@ def _next_sim_date_and_index(archive_base_uri: str) -> tuple:
 
     new_id = max(found_ids) + 1 if len(found_ids) > 0 else 1
     resource_rpath = insert_date_rpath.join(f"{new_id}", forceDirectory=True)
-    resource_rpath.mkdir()
+    if resource_rpath.isLocal:
+        # Another process might create a directory with this index first, in
+        # which case it must not be shared. Unlike ResourcePath.mkdir,
+        # os.mkdir raises an exception if the directory exists already.
+        while True:
+            try:
+                os.mkdir(resource_rpath.ospath)
+                break
+            except FileExistsError:
+                new_id += 1
+                resource_rpath = insert_date_rpath.join(f"{new_id}", forceDirectory=True)
+    else:
+        resource_rpath.mkdir()
     LOGGER.debug(f"Created {resource_rpath}.")
     return insert_date, new_id, resource_rpath
 
-- 
2.43.0


From 45bc76334da917fb5cb26f77423e4e56b0cc0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 40/84] fix: an interrupted addition never leaves a partial
 file in the prototype archive

---
 rubin_sim/sim_archive/prototype.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 747299e..e6b03e2 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -128,12 +128,10 @@ def transfer_archive_dir(
 
     for file_info in sim_metadata["files"].values():
         source_fname = Path(archive_dir).joinpath(file_info["name"])
-        with open(source_fname, "rb") as source_io:
-            content = source_io.read()
-            LOGGER.debug(f"Read {source_fname}.")
-
         destination_rpath = resource_rpath.join(file_info["name"])
-        destination_rpath.write(content)
+        # Unlike ResourcePath.write, transfer_from never leaves a partial
+        # file at its destination.
+        destination_rpath.transfer_from(ResourcePath(source_fname), "copy")
 
         LOGGER.info(f"Copied {source_fname} to {destination_rpath}")
 
@@ -280,7 +278,7 @@ def read_archived_sim_metadata(
             date_resource = ResourcePath(base_uri).join(iso_date, forceDirectory=True)
             if date_resource.exists():
                 for base_dir, found_dirs, found_files in date_resource.walk(
-                    file_filter=r".*sim_metadata.yaml"
+                    file_filter=r"^sim_metadata\.yaml$"
                 ):
                     for found_file in found_files:
                         found_resource = ResourcePath(base_dir).join(found_file)
-- 
2.43.0


From fbc747ff5aa396435eed827610214a29016007d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 41/84] fix: an interrupted compilation leaves the previous
 compilation

---
 rubin_sim/sim_archive/prototype.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e6b03e2..4767a91 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -497,15 +497,13 @@ def compile_sim_metadata(
         sim_runner_kwargs_df.to_hdf(local_hdf_fname, key="kwargs", format="table")
         tags_df.to_hdf(local_hdf_fname, key="tags", format="table")
 
-        with open(local_hdf_fname, "rb") as local_hdf_io:
-            hdf_bytes = local_hdf_io.read()
-
         if isinstance(compilation_resource, str):
             compilation_resource = ResourcePath(compilation_resource)
 
         assert isinstance(compilation_resource, ResourcePath)
         LOGGER.info(f"Writing metadata compilation to {compilation_resource}")
-        compilation_resource.write(hdf_bytes)
+        # Unlike ResourcePath.write, transfer_from never leaves a partial file.
+        compilation_resource.transfer_from(ResourcePath(local_hdf_fname), "copy", overwrite=True)
 
     return compilation_resource
 
-- 
2.43.0


From 2c671804894e0552460c050d92922a90a7416601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 42/84] fix: compile prototype archives without simulations,
 tags or keyword arguments

---
 rubin_sim/sim_archive/prototype.py | 35 +++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 4767a91..cf046ce 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -485,17 +485,15 @@ def compile_sim_metadata(
                     sim_row[key] = value
         sim_rows.append(sim_row)
 
-    sim_df = pd.DataFrame(sim_rows).set_index("sim_uri")
-    file_df = pd.DataFrame(file_rows).set_index("sim_uri")
-    sim_runner_kwargs_df = pd.DataFrame(sim_runner_kwargs).set_index("sim_uri")
-    tags_df = pd.DataFrame(tags).set_index("sim_uri")
+    tables = {"simulations": sim_rows, "files": file_rows, "kwargs": sim_runner_kwargs, "tags": tags}
 
     with TemporaryDirectory() as local_data_dir:
         local_hdf_fname = Path(local_data_dir).joinpath("scheduler.pickle.xz")
-        sim_df.to_hdf(local_hdf_fname, key="simulations", format="table")
-        file_df.to_hdf(local_hdf_fname, key="files", format="table")
-        sim_runner_kwargs_df.to_hdf(local_hdf_fname, key="kwargs", format="table")
-        tags_df.to_hdf(local_hdf_fname, key="tags", format="table")
+        with pd.HDFStore(str(local_hdf_fname), mode="w") as store:
+            for key, rows in tables.items():
+                # Tables without any rows cannot be stored.
+                if len(rows) > 0:
+                    store.put(key, pd.DataFrame(rows).set_index("sim_uri"), format="table")
 
         if isinstance(compilation_resource, str):
             compilation_resource = ResourcePath(compilation_resource)
@@ -535,10 +533,14 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
     with compilation_resource.as_local() as local_compilation_resource:
         compilation_fname: str = local_compilation_resource.ospath
         LOGGER.debug(f"{compilation_resource} copied to {compilation_fname}.")
-        sim_df = pd.read_hdf(compilation_fname, "simulations")
-        file_df = pd.read_hdf(compilation_fname, "files")
-        sim_runner_kwargs_df = pd.read_hdf(compilation_fname, "kwargs")
-        tags_df = pd.read_hdf(compilation_fname, "tags")
+        with pd.HDFStore(compilation_fname, mode="r") as store:
+            # A table without any rows is not stored.
+            tables = {key.lstrip("/"): store.get(key) for key in store.keys()}
+
+    if "simulations" not in tables:
+        return {}
+
+    sim_df = tables["simulations"]
 
     def make_file_dict(g: pd.Series | pd.DataFrame) -> dict:
         if isinstance(g, pd.Series):
@@ -546,7 +548,8 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
         return g.set_index("file_type").T.to_dict()
 
-    sim_df["files"] = file_df.groupby("sim_uri").apply(make_file_dict)
+    if "files" in tables:
+        sim_df["files"] = tables["files"].groupby("sim_uri").apply(make_file_dict)
 
     def make_kwargs_dict(g):
         sim_kwargs = g.to_dict(orient="records")[0]
@@ -565,9 +568,11 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
         return sim_kwargs
 
-    sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
+    if "kwargs" in tables:
+        sim_df["sim_runner_kwargs"] = tables["kwargs"].groupby("sim_uri").apply(make_kwargs_dict)
 
-    sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
+    if "tags" in tables:
+        sim_df["tags"] = tables["tags"].groupby("sim_uri").agg({"tag": list})
 
     sim_metadata = sim_df.to_dict(orient="index")
 
-- 
2.43.0


From 6cfda2cf16a2ed4f8f08e62b55c76906819828aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 43/84] fix: the latest prototype archive simulation is the one
 with the latest date

---
 rubin_sim/sim_archive/prototype.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index cf046ce..ba757e9 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -815,9 +815,7 @@ def find_latest_prenight_sim_for_nights(
         if not set(tags).issubset(sim["tags"]):
             continue
         if best_sim is not None:
-            if sim["exec_date"] < best_sim["exec_date"]:
-                continue
-            if sim["date_index"] < best_sim["date_index"]:
+            if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
                 continue
         best_sim = sim
 
-- 
2.43.0


From 04419bd8532aaf2de8c826bbe139c6804ff78190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 44/84] fix: prototype archive selection with simulations
 without tags

---
 rubin_sim/sim_archive/prototype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index ba757e9..eab12c7 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -812,7 +812,7 @@ def find_latest_prenight_sim_for_nights(
             continue
         if "telescope" in sim and sim["telescope"].lower() != telescope.lower():
             continue
-        if not set(tags).issubset(sim["tags"]):
+        if not set(tags).issubset(sim.get("tags", [])):
             continue
         if best_sim is not None:
             if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
-- 
2.43.0


From 9ebb67f1d80e62c65991b57a4e0ba2547c2304f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 45/84] fix: fetching visits from the prototype archive reports
 absence

---
 rubin_sim/sim_archive/prototype.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index eab12c7..6fdebbf 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -862,8 +862,9 @@ def fetch_sim_for_nights(
 
     Returns
     -------
-    visits : `pd.DataFrame`
-        A pandas DataFrame containing visit parameters.
+    visits : `pd.DataFrame` or `None`
+        A pandas DataFrame containing visit parameters, or ``None`` if there
+        is no matching simulation.
     """
     warnings.warn(
         "Tools for using the prototype simulation archive database are deprecated, and will be removed.",
@@ -882,11 +883,15 @@ def fetch_sim_for_nights(
         case str():
             opsim_rp = ResourcePath(which_sim)
         case dict():
-            opsim_rp = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs, **which_sim)[
-                "opsim_rp"
-            ]
+            sim_metadata = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs, **which_sim)
+            if sim_metadata is None:
+                return None
+            opsim_rp = sim_metadata["opsim_rp"]
         case None:
-            opsim_rp = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs)["opsim_rp"]
+            sim_metadata = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs)
+            if sim_metadata is None:
+                return None
+            opsim_rp = sim_metadata["opsim_rp"]
         case _:
             raise NotImplementedError()
 
-- 
2.43.0


From 9642fb958202ba3ec2a168c93921d74fb5183be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 46/84] fix: fetching visits from the prototype archive does
 not modify the caller's arguments

---
 rubin_sim/sim_archive/prototype.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 6fdebbf..3f9cd2d 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -897,13 +897,11 @@ def fetch_sim_for_nights(
 
     assert isinstance(opsim_rp, ResourcePath)
 
-    if get_sim_data_kwargs is None:
-        get_sim_data_kwargs = {}
-    assert isinstance(get_sim_data_kwargs, dict)
+    # Make copies, so that the arguments supplied by the caller are not modified.
+    get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
+    get_sim_data_kwargs["stackers"] = list(get_sim_data_kwargs.get("stackers", []))
 
     # Limit visits returned to the nights we requested
-    if "stackers" not in get_sim_data_kwargs:
-        get_sim_data_kwargs["stackers"] = []
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in get_sim_data_kwargs["stackers"]]
     if not dayobsiso_requested:
         # We want it to filter out dates that were not requested,
-- 
2.43.0


From ca2dacd4e14ce6a2d9fa795860b9b2ba2773a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:01 +0000
Subject: [PATCH 47/84] fix: archiving never shares a file that may still be
 being written

---
 rubin_sim/sim_archive/vseqarchive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index 2b5231b..0f51afb 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -143,10 +143,10 @@ def _write_data_to_archive(content: bytes, visitseq_base_rp: ResourcePath, file_
         # Never replace what has already been archived: there may be
         # another registered file (or file type) with this file name, and
         # if the registration of the new file is refused or fails the
-        # old one needs to stay as it was registered.
-        if destination_rp.read() != content:
-            destination_rp = visitseq_base_rp.join(f"{uuid4()}_{file_name}")
-            destination_rp.write(content)
+        # old one needs to stay as it was registered. Do not share it even
+        # if it looks the same: it may still be being written.
+        destination_rp = visitseq_base_rp.join(f"{uuid4()}_{file_name}")
+        destination_rp.write(content)
     LOGGER.debug(f"Wrote {destination_rp}.")
     return destination_rp
 
-- 
2.43.0


From 1dc7e4ad1c803799f9711c39aa2dc12e912ffc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:02 +0000
Subject: [PATCH 48/84] fix: creation and comment times are recorded as
 instants, not in the session's time zone

---
 rubin_sim/sim_archive/vseqmetadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 2a5edc3..f08c87a 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -513,7 +513,9 @@ class VisitSequenceArchiveMetadata:
                 creation_datetime = creation_utc.datetime
             columns.append(sql.Identifier("creation_time"))
             data_placeholders.append(sql.Placeholder("creation_time"))
-            data["creation_time"] = creation_datetime
+            # Without a time zone, the database would take it to be in the
+            # time zone of the session.
+            data["creation_time"] = creation_datetime.replace(tzinfo=timezone.utc)
 
         for column in table_data:
             columns.append(sql.Identifier(column))
@@ -996,7 +998,9 @@ class VisitSequenceArchiveMetadata:
         # mypy cannot figure out that comment_utc cannot be masked
         # so assert that it is not as a hint to it.
         assert isinstance(comment_utc, Time)
-        comment_time = comment_utc.datetime
+        # Without a time zone, the database would take it to be in the
+        # time zone of the session.
+        comment_time = comment_utc.datetime.replace(tzinfo=timezone.utc)
         query = ""
         data = {"visitseq_uuid": visitseq_uuid, "comment_time": comment_time, "comment": comment}
         if author is None:
-- 
2.43.0


From ef3ec4a6acd2740d598d25db52d7a200b6d49c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:46 +0000
Subject: [PATCH 49/84] fix: run_moving_calc and run_moving_fractions import
 the metric bundles

---
 rubin_sim/maf/run_moving_calc.py      | 2 +-
 rubin_sim/maf/run_moving_fractions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/run_moving_calc.py b/rubin_sim/maf/run_moving_calc.py
index a3c354b..00077c9 100755
--- a/rubin_sim/maf/run_moving_calc.py
+++ b/rubin_sim/maf/run_moving_calc.py
@@ -10,7 +10,7 @@ from rubin_sim.maf.slicers import MoObjSlicer
 
 from . import batches as batches
 from . import db as db
-from . import metricBundles as mmB
+from . import metric_bundles as mmB
 
 
 def run_moving_calc():
diff --git a/rubin_sim/maf/run_moving_fractions.py b/rubin_sim/maf/run_moving_fractions.py
index 79169e0..2688b87 100755
--- a/rubin_sim/maf/run_moving_fractions.py
+++ b/rubin_sim/maf/run_moving_fractions.py
@@ -9,7 +9,7 @@ from rubin_scheduler.utils import SURVEY_START_MJD
 
 from . import batches as batches
 from . import db as db
-from . import metricBundles as mmB
+from . import metric_bundles as mmB
 
 
 def run_moving_fractions():
-- 
2.43.0


From 1e6338c9467409ccebc591bef0b4fc3f4cb553dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:46 +0000
Subject: [PATCH 50/84] fix: moving object bundles are only calculated with
 their own, compatible stackers

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..532f3be 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -417,9 +417,11 @@ class MoMetricBundleGroup:
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
-                # If the stackers have different names, that's OK,
+                # If the stackers set different columns, that's OK,
                 # and if they are identical, that's ok.
-                if (stacker.__class__.__name__ == stacker2.__class__.__name__) & (stacker != stacker2):
+                same_class = stacker.__class__.__name__ == stacker2.__class__.__name__
+                same_cols = len(set(stacker.cols_added).intersection(stacker2.cols_added)) > 0
+                if (same_class or same_cols) and (stacker != stacker2):
                     return False
         # But if we got this far, everything matches.
         return True
@@ -523,7 +525,7 @@ class MoMetricBundleGroup:
         if self.verbose:
             print("Running metrics %s" % compatible_list)
 
-        b_dict = self.bundle_dict
+        b_dict = {key: self.bundle_dict[key] for key in compatible_list}
 
         # Find the unique stackers and maps.
         # These are already "compatible" (as id'd by compatible_list).
-- 
2.43.0


From 78598e815583d08f1a778672b78acf73ebaefc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:46 +0000
Subject: [PATCH 51/84] fix: joining split moving object metrics sets the
 values, mask and constraint, and refuses different slicers

---
 rubin_sim/maf/batches/moving_objects_batch.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/batches/moving_objects_batch.py b/rubin_sim/maf/batches/moving_objects_batch.py
index 26909d2..d2087ed 100644
--- a/rubin_sim/maf/batches/moving_objects_batch.py
+++ b/rubin_sim/maf/batches/moving_objects_batch.py
@@ -1565,23 +1565,26 @@ def combine_subsets(mbSubsets):
     # Check if they're the same slicer.
     slicer = deepcopy(first.slicer)
     for i in mbSubsets:
-        if np.any(slicer.slice_points["H"] != mbSubsets[i].slicer.slice_points["H"]):
-            if np.any(slicer.slice_points["orbits"] != mbSubsets[i].slicer.slice_points["orbits"]):
-                raise ValueError("Bundle %s has a different slicer than the first bundle" % (i))
+        same_h = np.array_equal(slicer.slice_points["H"], mbSubsets[i].slicer.slice_points["H"])
+        same_orbits = slicer.slice_points["orbits"].equals(mbSubsets[i].slicer.slice_points["orbits"])
+        if not (same_h and same_orbits):
+            raise ValueError("Bundle %s has a different slicer than the first bundle" % (i))
     # Join metric values.
     joint.slicer = slicer
     joint.metric = first.metric
+    joint.constraint = first.constraint
     # Don't just use the slicer shape to define the metric_values,
     # because of CompletenessBundles.
     metric_values = np.zeros(first.metric_values.shape, float)
-    metric_values_mask = np.zeros(first.metric_values.shape, bool)
+    # A joint value is only missing if it is missing from every subset.
+    metric_values_mask = np.ones(first.metric_values.shape, bool)
     for i in mbSubsets:
         metric_values += mbSubsets[i].metric_values.filled(0)
         metric_values_mask = np.where(metric_values_mask & mbSubsets[i].metric_values.mask, True, False)
-    joint.metricValues = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
+    joint.metric_values = ma.MaskedArray(data=metric_values, mask=metric_values_mask, fill_value=0)
     joint.info_label = first.info_label
     joint.run_name = first.run_name
     joint.file_root = first.file_root.replace(".npz", "")
-    joint.plotDict = first.plotDict
+    joint.plot_dict = first.plot_dict
     joint.display_dict = first.display_dict
     return joint
-- 
2.43.0


From c7f2f2964d59012fef535c71cfd43ca0fdbd8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:46 +0000
Subject: [PATCH 52/84] fix: moving objects may have string ids with any pandas
 version

---
 rubin_sim/maf/slicers/mo_slicer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index 70b367d..291bc5d 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -129,10 +129,10 @@ class MoObjSlicer(BaseSlicer):
         # Find the matching orbit.
         orb = self.orbits.iloc[idx]
         # Find the matching observations.
-        if self.obs["obj_id"].dtype == "object":
-            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
-        else:
+        if pd.api.types.is_numeric_dtype(self.obs["obj_id"]):
             obs = self.obs.query("obj_id == %d" % (orb["obj_id"]))
+        else:
+            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
         # Return the values for H to consider for metric.
         if self.Hrange is not None:
             Hvals = self.Hrange
-- 
2.43.0


From 8305eb80ca9055c9b20337b09b062a883da7f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 53/84] fix: a bundle's own stackers supply the columns they
 add

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index a070c74..2614024 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -286,6 +286,9 @@ class MetricBundle:
         """
         # Find all the columns needed by metric and slicer.
         known_cols = self.slicer.columns_needed + list(self.metric.col_name_arr)
+        # The stackers already set up supply the columns they add.
+        supplied_cols = [col for s in self.stacker_list for col in s.cols_added]
+        known_cols = [col for col in known_cols if col not in supplied_cols]
         # For the stackers already set up, find their required columns.
         for s in self.stacker_list:
             known_cols += s.cols_req
-- 
2.43.0


From 29e04273550ca20612d4c745c82d1421e9d1636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 54/84] fix: a results database which cannot be opened is not
 left locked

---
 rubin_sim/maf/db/results_db.py | 44 +++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index c358945..1be3c70 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -216,25 +216,31 @@ class ResultsDb:
                 "Cannot create a %s database at %s. Check directory exists." % (self.driver, self.database)
             )
         self.slen = 1024
-        # Check if we have a database matching this schema
-        # (with metric_info_label)
-        query = text("select * from metrics limit 1")
-        cols = self.session.execute(query)._metadata.keys
-        if "sql_constraint" not in cols:
-            self.update_database()
-
-        # record the version and date MAF was run with/on, if this is new
-        # (one statement, so that only one of several creators records it).
-        if self.session.query(VersionRow).first() is None:
-            run_date = datetime.datetime.now().strftime("%Y-%m-%d")
-            self.session.execute(
-                text(
-                    "insert into version (version, run_date) "
-                    "select :version, :run_date where not exists (select 1 from version)"
-                ),
-                {"version": rsVersion, "run_date": run_date},
-            )
-            self._commit()
+        try:
+            # Check if we have a database matching this schema
+            # (with metric_info_label)
+            query = text("select * from metrics limit 1")
+            cols = self.session.execute(query)._metadata.keys
+            if "sql_constraint" not in cols:
+                self.update_database()
+
+            # record the version and date MAF was run with/on, if this is new
+            # (one statement, so that only one of several creators records it).
+            if self.session.query(VersionRow).first() is None:
+                run_date = datetime.datetime.now().strftime("%Y-%m-%d")
+                self.session.execute(
+                    text(
+                        "insert into version (version, run_date) "
+                        "select :version, :run_date where not exists (select 1 from version)"
+                    ),
+                    {"version": rsVersion, "run_date": run_date},
+                )
+                self._commit()
+        except Exception:
+            # End the transaction (and the locks it holds on the database).
+            self.session.rollback()
+            self.session.close()
+            raise
 
         self.close()
 
-- 
2.43.0


From 7f2c0c9498e89a8097195bfa912c9a55014c389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 55/84] fix: the cache of SEDs can be read with numpy 2

---
 rubin_sim/phot_utils/sed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ca1523c..2e83ef1 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -103,6 +103,7 @@ class SedUnpickler(pickle.Unpickler):
         ("numpy", "ndarray"),
         ("numpy", "dtype"),
         ("numpy.core.multiarray", "_reconstruct"),
+        ("numpy._core.multiarray", "_reconstruct"),
     )
 
     def find_class(self, module, name):
@@ -126,8 +127,8 @@ class SedUnpickler(pickle.Unpickler):
                 return getattr(numpy, name)
             else:
                 raise RuntimeError("SedUnpickler not meant to load numpy.%s" % name)
-        elif module == "numpy.core.multiarray":
-            return getattr(numpy.core.multiarray, name)
+        elif module in ("numpy.core.multiarray", "numpy._core.multiarray"):
+            return super().find_class(module, name)
         else:
             raise RuntimeError("SedUnpickler cannot handle module %s" % module)
 
-- 
2.43.0


From fdb985d8947b31cbe8625d8fa4afb787f2cf9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 56/84] fix: a cache of SEDs which cannot be used is ignored

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 2e83ef1..e299589 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -355,12 +355,12 @@ def cache_lsst_seds(wavelen_min=None, wavelen_max=None, cache_dir=None):
         _validate_sed_cache()
         _compare_cached_versus_uncached()
     except SedCacheError as ee:
-        print(ee.message)
+        print(ee)
         print("Cannot use cache of LSST SEDs")
         _global_lsst_sed_cache = None
         pass
 
-    if wavelen_min is not None or wavelen_max is not None:
+    if _global_lsst_sed_cache is not None and (wavelen_min is not None or wavelen_max is not None):
         if wavelen_min is None:
             wavelen_min = 0.0
         if wavelen_max is None:
-- 
2.43.0


From 0a33b17c6cbf43e216d5da43bfb328feb2d09276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 57/84] fix: the cache of SEDs is complete or absent, also when
 several processes make it

---
 rubin_sim/phot_utils/sed.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index e299589..ce3b036 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -262,8 +262,17 @@ def _generate_sed_cache(cache_dir, cache_name):
 
     print("\n")
 
-    with open(os.path.join(cache_dir, cache_name), "wb") as file_handle:
-        pickle.dump(cache, file_handle)
+    # Write to a file of our own first: a process killed here must not leave
+    # an incomplete cache, and another process must not read one.
+    part_name = os.path.join(cache_dir, "%s.%d.part" % (cache_name, os.getpid()))
+    try:
+        with open(part_name, "wb") as file_handle:
+            pickle.dump(cache, file_handle)
+        os.replace(part_name, os.path.join(cache_dir, cache_name))
+    except BaseException:
+        if os.path.exists(part_name):
+            os.remove(part_name)
+        raise
 
     print("LSST SED cache saved to:\n")
     print("%s" % os.path.join(cache_dir, cache_name))
@@ -313,8 +322,7 @@ def cache_lsst_seds(wavelen_min=None, wavelen_max=None, cache_dir=None):
     if cache_dir is None:
         cache_dir = os.path.join(get_data_dir(), "sims_sed_library", "lsst_sed_cache_dir")
 
-    if not os.path.exists(cache_dir):
-        os.mkdir(cache_dir)
+    os.makedirs(cache_dir, exist_ok=True)
 
     must_generate = False
     if not os.path.exists(os.path.join(cache_dir, sed_cache_name)):
-- 
2.43.0


From 10008e9e6070f5a95fc9bc23cbbeb672898b906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:12 +0000
Subject: [PATCH 58/84] fix: read_close__kurucz reads the closest model

---
 rubin_sim/phot_utils/sed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ce3b036..b962ea2 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1736,7 +1736,7 @@ def read_close__kurucz(teff, fe_h, logg):
         read_close__kurucz.param_combos = numpy.zeros(
             len(kurucz_files),
             dtype=[
-                ("filename", ("|U200")),
+                ("filename", "|U%d" % max([len(filename) for filename in kurucz_files], default=1)),
                 ("teff", float),
                 ("fe_h", float),
                 ("logg", float),
@@ -1767,9 +1767,9 @@ def read_close__kurucz(teff, fe_h, logg):
     logg_diff = numpy.abs(read_close__kurucz.param_combos["logg"][g1][g2] - logg)
     g3 = numpy.where(logg_diff == logg_diff.min())[0]
     file_match = read_close__kurucz.param_combos["filename"][g1][g2][g3]
-    if numpy.size(file_match > 1):
+    if numpy.size(file_match) > 1:
         warnings.warn("Multiple close files")
-        file_match = file_match[0]
+    file_match = file_match[0]
 
     # Record what Parameters were actually loaded
     teff = read_close__kurucz.param_combos["teff"][g1][g2][g3][0]
-- 
2.43.0


From 58021265fc56bcf4064f76f071704b16cc2321eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 59/84] fix: make_sim_data_dir leaves the metadata of its
 caller alone

---
 rubin_sim/sim_archive/sim_archive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 7c9d4af..4ae103a 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -150,8 +150,9 @@ def make_sim_data_dir(
         assert isinstance(evening_local_iso, str)
         return evening_local_iso
 
-    if opsim_metadata is None:
-        opsim_metadata = {}
+    # Add to a copy, so that the tags, label, and files of one simulation do not
+    # end up in the metadata of the next one made from the same dictionary.
+    opsim_metadata = {} if opsim_metadata is None else dict(opsim_metadata)
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-- 
2.43.0


From 6232449665187b258ae62b8745c7858f66c4f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 60/84] fix: a simulation directory which is filled again holds
 only the last simulation

---
 rubin_sim/sim_archive/sim_archive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 4ae103a..111823b 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -110,12 +110,14 @@ def make_sim_data_dir(
     # Save the observations
     files["observations"] = {"name": "opsim.db"}
     opsim_output_fname = data_path.joinpath(files["observations"]["name"])
-    SchemaConverter().obs2opsim(observations, filename=opsim_output_fname)
+    # The default is to append to the visits already there.
+    SchemaConverter().obs2opsim(observations, filename=opsim_output_fname, delete_past=True)
 
     # Save the rewards
     if reward_df is not None and obs_rewards is not None:
         files["rewards"] = {"name": "rewards.h5"}
         rewards_fname = data_path.joinpath(files["rewards"]["name"])
+        rewards_fname.unlink(missing_ok=True)
         if reward_df is not None:
             reward_df.to_hdf(rewards_fname, key="reward_df")
         if obs_rewards is not None:
-- 
2.43.0


From afcd1d89ec6e41f461896d8dc6f2cd678ea3323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 61/84] fix: the metadata of a simulation directory is there
 only when the rest is complete

---
 rubin_sim/sim_archive/sim_archive.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 111823b..787fc8b 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -105,6 +105,12 @@ def make_sim_data_dir(
         if not isinstance(data_path, Path):
             data_path = Path(data_path)
 
+    # The presence of the metadata file tells that the others are complete,
+    # and it includes their checksums, so write it last, and begin by removing
+    # the one left by an earlier simulation in the same directory.
+    sim_metadata_fname = data_path.joinpath("sim_metadata.yaml")
+    sim_metadata_fname.unlink(missing_ok=True)
+
     files = {}
 
     # Save the observations
@@ -199,9 +205,10 @@ def make_sim_data_dir(
         assert isinstance(label, str), "The sim label must be a string."
         opsim_metadata["label"] = label
 
-    sim_metadata_fname = data_path.joinpath("sim_metadata.yaml")
-    with open(sim_metadata_fname, "w") as sim_metadata_io:
+    partial_metadata_fname = data_path.joinpath("sim_metadata.yaml.partial")
+    with open(partial_metadata_fname, "w") as sim_metadata_io:
         print(yaml.dump(opsim_metadata, indent=4), file=sim_metadata_io)
+    os.replace(partial_metadata_fname, sim_metadata_fname)
 
     files["metadata"] = {"name": sim_metadata_fname}
 
-- 
2.43.0


From 73e6570cbe1df256252bde1223c2a9dcefcbf1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 62/84] fix: files supplied to make_sim_data_dir do not
 overwrite others of the same name

---
 rubin_sim/sim_archive/sim_archive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 787fc8b..91a73b2 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -137,7 +137,11 @@ def make_sim_data_dir(
 
     # Add supplied files
     for file_type, fname in in_files.items():
-        files[file_type] = {"name": Path(fname).name}
+        name = Path(fname).name
+        used_names = ["sim_metadata.yaml"] + [f["name"] for f in files.values()]
+        while name in used_names:
+            name = f"{file_type}_{name}"
+        files[file_type] = {"name": name}
         try:
             shutil.copyfile(fname, data_path.joinpath(files[file_type]["name"]))
         except shutil.SameFileError:
-- 
2.43.0


From 23b532d47e235a5ce88f8ab1e6649df419219f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 63/84] fix: a simulation without visits, or run where USER is
 not set, can be saved

---
 rubin_sim/sim_archive/sim_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 91a73b2..a55e2e4 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -168,7 +168,7 @@ def make_sim_data_dir(
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-    opsim_metadata["username"] = os.environ["USER"]
+    opsim_metadata["username"] = os.environ.get("USER", "unknown")
 
     simulation_dates = {}
     if "sim_start_mjd" in sim_runner_kwargs:
@@ -178,7 +178,7 @@ def make_sim_data_dir(
             simulation_dates["last"] = convert_mjd_to_dayobs(
                 sim_runner_kwargs["sim_start_mjd"] + sim_runner_kwargs["sim_duration"] - 1
             )
-    else:
+    elif len(observations) > 0:
         simulation_dates["first"] = convert_mjd_to_dayobs(observations["mjd"].min())
         simulation_dates["last"] = convert_mjd_to_dayobs(observations["mjd"].max())
 
-- 
2.43.0


From e09295577de4c2aa0ab8465c168b79266f3e7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 64/84] fix: the last date of a simulation of a fraction of a
 day is not before its first

---
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index a55e2e4..ffbe2b0 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -176,7 +176,7 @@ def make_sim_data_dir(
 
         if "sim_duration" in sim_runner_kwargs:
             simulation_dates["last"] = convert_mjd_to_dayobs(
-                sim_runner_kwargs["sim_start_mjd"] + sim_runner_kwargs["sim_duration"] - 1
+                sim_runner_kwargs["sim_start_mjd"] + np.ceil(sim_runner_kwargs["sim_duration"]) - 1
             )
     elif len(observations) > 0:
         simulation_dates["first"] = convert_mjd_to_dayobs(observations["mjd"].min())
-- 
2.43.0


From e2f32f069b2541cabf752563d7f96e87b59b907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 65/84] fix: drive_sim keeps the simulation it ran

---
 rubin_sim/sim_archive/sim_archive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index ffbe2b0..f993257 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -20,7 +20,7 @@ import socket
 from datetime import date, datetime, timedelta
 from numbers import Integral, Number
 from pathlib import Path
-from tempfile import TemporaryDirectory
+from tempfile import TemporaryDirectory, mkdtemp
 from typing import Any, Optional, Sequence, cast
 from zoneinfo import ZoneInfo
 
@@ -331,9 +331,10 @@ def drive_sim(
             tags=tags,
             label=label,
             opsim_metadata=opsim_metadata,
+            data_path=mkdtemp(),
         )
 
-        resource_path = ResourcePath(data_dir.name, forceDirctory=True)  # type: ignore
+        resource_path = ResourcePath(str(data_dir), forceDirectory=True)
 
     results = sim_results + (resource_path,)
     return results
-- 
2.43.0


From d0f5aef665c0d9508252c52b5e8ccf8352927e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 66/84] fix: run_prenight_sim_cli keeps the simulation when no
 results directory is given

---
 rubin_sim/sim_archive/prenight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/prenight.py b/rubin_sim/sim_archive/prenight.py
index 0b0dbb8..12776a1 100644
--- a/rubin_sim/sim_archive/prenight.py
+++ b/rubin_sim/sim_archive/prenight.py
@@ -9,6 +9,7 @@ import warnings
 from copy import deepcopy
 from datetime import date
 from pathlib import Path
+from tempfile import mkdtemp
 from typing import Any, Callable, Mapping, Protocol
 
 import numpy as np
@@ -306,7 +307,7 @@ def run_prenight_sim_cli(cli_args: list = []) -> int:
     anom_overhead_scale = args.anom_overhead_scale
     anom_overhead_scatter = args.anom_overhead_scatter
     anom_overhead_seed = args.anom_overhead_seed
-    results_dir = args.results if len(args.results) > 0 else None
+    results_dir = args.results if len(args.results) > 0 else mkdtemp()
 
     with open(args.scheduler, "rb") as scheduler_io:
         scheduler = pickle.load(scheduler_io)
@@ -360,7 +361,7 @@ def run_prenight_sim_cli(cli_args: list = []) -> int:
     output_dirname: str = "Unknown"
     if isinstance(data_path, Path):
         assert isinstance(data_path, Path)
-        output_dirname = data_path.name
+        output_dirname = data_path.as_posix()
     else:
         assert isinstance(data_path, str)
         output_dirname = data_path
-- 
2.43.0


From 5904ef7ccd0a67c17344d5182a5625f45d0b4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:51 +0000
Subject: [PATCH 67/84] fix: scheduler and observatory snapshots are complete
 or as before, and can be read when compressed

---
 rubin_sim/sim_archive/make_snapshot.py | 64 ++++++++++++++++++++------
 rubin_sim/sim_archive/prenight.py      |  8 ++--
 2 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/rubin_sim/sim_archive/make_snapshot.py b/rubin_sim/sim_archive/make_snapshot.py
index 2630c67..5c98be7 100644
--- a/rubin_sim/sim_archive/make_snapshot.py
+++ b/rubin_sim/sim_archive/make_snapshot.py
@@ -13,6 +13,7 @@ import gzip
 import importlib.util
 import logging
 import lzma
+import os
 import pickle
 import sys
 import types
@@ -171,6 +172,51 @@ def get_scheduler(
     return scheduler
 
 
+def _snapshot_opener(file_name: str) -> typing.Callable:
+    """Get the function with which to open a snapshot, from its extension."""
+    opener: typing.Callable = open
+
+    if file_name.endswith(".bz2"):
+        opener = bz2.open
+    elif file_name.endswith(".xz"):
+        opener = lzma.open
+    elif file_name.endswith(".gz"):
+        opener = gzip.open
+
+    return opener
+
+
+def load_snapshot(file_name: str) -> typing.Any:
+    """Read an object pickled in a file compressed according to its extension.
+
+    Parameters
+    ----------
+    file_name : `str`
+        The file in which the object was saved.
+
+    Returns
+    -------
+    instance : `object`
+        The object, for example a `CoreScheduler` saved by `save_scheduler`.
+    """
+    with _snapshot_opener(file_name)(file_name, "rb") as pio:
+        return pickle.load(pio)
+
+
+def _save_snapshot(instance: object, file_name: str) -> None:
+    """Pickle an object, compressed according to the extension of the file."""
+    # Do not leave part of a snapshot, or replace one by part of another.
+    partial_name = f"{file_name}.partial.{os.getpid()}"
+    try:
+        with _snapshot_opener(file_name)(partial_name, "wb") as pio:
+            pickle.dump(instance, pio)
+        os.replace(partial_name, file_name)
+    except BaseException:
+        if os.path.exists(partial_name):
+            os.remove(partial_name)
+        raise
+
+
 def save_scheduler(scheduler: CoreScheduler, file_name: str) -> None:
     """Save an instances of the scheduler in a pickle file,
     compressed according to its extension.
@@ -182,17 +228,7 @@ def save_scheduler(scheduler: CoreScheduler, file_name: str) -> None:
     file_name : `str`
         The file in which to save the schedulers.
     """
-    opener: typing.Callable = open
-
-    if file_name.endswith(".bz2"):
-        opener = bz2.open
-    elif file_name.endswith(".xz"):
-        opener = lzma.open
-    elif file_name.endswith(".gz"):
-        opener = gzip.open
-
-    with opener(file_name, "wb") as pio:
-        pickle.dump(scheduler, pio)
+    _save_snapshot(scheduler, file_name)
 
 
 def add_make_scheduler_snapshot_args(parser: argparse.ArgumentParser) -> None:
@@ -237,8 +273,7 @@ def make_ideal_model_observatory_cli(cli_args: list = []) -> None:
     parser.add_argument("model_observatory", type=str, help="Model observatory pickle file to write.")
     args: argparse.Namespace = parser.parse_args() if len(cli_args) == 0 else parser.parse_args(cli_args)
 
-    with open(args.scheduler, "rb") as scheduler_io:
-        scheduler = pickle.load(scheduler_io)
+    scheduler = load_snapshot(args.scheduler)
 
     observatory = ModelObservatory(
         nside=scheduler.nside,
@@ -247,8 +282,7 @@ def make_ideal_model_observatory_cli(cli_args: list = []) -> None:
         downtimes="ideal",
     )
 
-    with open(args.model_observatory, "wb") as observatory_io:
-        pickle.dump(observatory, observatory_io)
+    _save_snapshot(observatory, args.model_observatory)
 
 
 if __name__ == "__main__":
diff --git a/rubin_sim/sim_archive/prenight.py b/rubin_sim/sim_archive/prenight.py
index 12776a1..d1582bc 100644
--- a/rubin_sim/sim_archive/prenight.py
+++ b/rubin_sim/sim_archive/prenight.py
@@ -4,7 +4,6 @@ __all__ = ["AnomalousOverheadFunc", "run_prenight_sim_cli"]
 
 import argparse
 import logging
-import pickle
 import warnings
 from copy import deepcopy
 from datetime import date
@@ -21,6 +20,7 @@ from rubin_scheduler.site_models import Almanac
 
 from rubin_sim.sim_archive import make_sim_data_dir
 
+from .make_snapshot import load_snapshot
 from .util import dayobs_to_date
 
 LOGGER = logging.getLogger(__name__)
@@ -309,11 +309,9 @@ def run_prenight_sim_cli(cli_args: list = []) -> int:
     anom_overhead_seed = args.anom_overhead_seed
     results_dir = args.results if len(args.results) > 0 else mkdtemp()
 
-    with open(args.scheduler, "rb") as scheduler_io:
-        scheduler = pickle.load(scheduler_io)
+    scheduler = load_snapshot(args.scheduler)
 
-    with open(args.observatory, "rb") as observatory_io:
-        observatory = pickle.load(observatory_io)
+    observatory = load_snapshot(args.observatory)
 
     anomalous_overhead_func: Callable | None = None
     anom_overhead_args = {}
-- 
2.43.0


From f27fe8c3818a7110a28504827e9c9d64040d9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:49 +0000
Subject: [PATCH 68/84] fix: a configuration with a get_scheduler function can
 be loaded

---
 rubin_sim/sim_archive/make_snapshot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/make_snapshot.py b/rubin_sim/sim_archive/make_snapshot.py
index 5c98be7..2f1229d 100644
--- a/rubin_sim/sim_archive/make_snapshot.py
+++ b/rubin_sim/sim_archive/make_snapshot.py
@@ -67,7 +67,7 @@ def get_scheduler_from_config(config_script_path: str | Path) -> typing.Tuple[in
     try:
         scheduler: CoreScheduler = config_module.scheduler
         nside: int = scheduler.nside
-    except NameError:
+    except AttributeError:
         nside, scheduler = config_module.get_scheduler()
         assert isinstance(nside, int)
         assert isinstance(scheduler, CoreScheduler)
-- 
2.43.0


From b4502be510a56d955042d9b132b9fcc65674e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:16 +0000
Subject: [PATCH 69/84] fix: make_sim_data_dir saves rewards also when given
 only one of the tables

---
 rubin_sim/sim_archive/sim_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index f993257..fa39636 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -120,7 +120,7 @@ def make_sim_data_dir(
     SchemaConverter().obs2opsim(observations, filename=opsim_output_fname, delete_past=True)
 
     # Save the rewards
-    if reward_df is not None and obs_rewards is not None:
+    if reward_df is not None or obs_rewards is not None:
         files["rewards"] = {"name": "rewards.h5"}
         rewards_fname = data_path.joinpath(files["rewards"]["name"])
         rewards_fname.unlink(missing_ok=True)
-- 
2.43.0


From a7f0245ceb7acdae461077c519245545beb51242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 70/84] fix: a recorded plot is never left partly written

---
 rubin_sim/maf/plots/plot_handler.py | 36 ++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/rubin_sim/maf/plots/plot_handler.py b/rubin_sim/maf/plots/plot_handler.py
index 0fb605b..2e153f6 100644
--- a/rubin_sim/maf/plots/plot_handler.py
+++ b/rubin_sim/maf/plots/plot_handler.py
@@ -738,23 +738,17 @@ class PlotHandler:
         if fig is None:
             warnings.warn(f"Trying to save figure to {plot_file} but" "figure is None. Skipping.")
             return
-        if self.trim_whitespace:
-            fig.savefig(
-                os.path.join(self.out_dir, plot_file),
-                dpi=self.dpi,
-                bbox_inches="tight",
-                format=self.fig_format,
-            )
-        else:
-            fig.savefig(
-                os.path.join(self.out_dir, plot_file),
-                dpi=self.dpi,
-                format=self.fig_format,
-            )
+        self._write_fig(
+            fig,
+            plot_file,
+            dpi=self.dpi,
+            bbox_inches="tight" if self.trim_whitespace else None,
+            format=self.fig_format,
+        )
         # Generate a png thumbnail.
         if self.thumbnail:
             thumb_file = "thumb." + outfile_root + "_" + plot_type + ".png"
-            fig.savefig(os.path.join(self.out_dir, thumb_file), dpi=72, bbox_inches="tight")
+            self._write_fig(fig, thumb_file, dpi=72, bbox_inches="tight", format="png")
         # Save information about the file to results_db.
         if self.results_db:
             if display_dict is None:
@@ -764,3 +758,17 @@ class PlotHandler:
             )
             self.results_db.update_display(metric_id=metric_id, display_dict=display_dict, overwrite=False)
             self.results_db.update_plot(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)
+
+    def _write_fig(self, fig, file_name, **kwargs):
+        """Write a figure in out_dir, without ever leaving part of one there,
+        or replacing one that was already recorded by part of another.
+        """
+        path = os.path.join(self.out_dir, file_name)
+        partial_path = f"{path}.partial.{os.getpid()}"
+        try:
+            fig.savefig(partial_path, **kwargs)
+            os.replace(partial_path, path)
+        except BaseException:
+            if os.path.exists(partial_path):
+                os.remove(partial_path)
+            raise
-- 
2.43.0


From 126856ae2306a543fcf2dfaca687eed5021ceb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 71/84] fix: MetricBundle.plot can be given the plotter to use

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 2614024..13ee13e 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -811,7 +811,7 @@ class MetricBundle:
         made_plots = {}
         if plot_func is not None:
             fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-            made_plots[plot_func.plotType] = fig
+            made_plots[plot_func.plot_type] = fig
         else:
             for plot_func in self.plot_funcs:
                 fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-- 
2.43.0


From a3f2bebab04db620299989bfa6de46db2b22b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 72/84] fix: combined plots have the same names in every
 process

---
 rubin_sim/maf/plots/plot_handler.py | 43 ++++++++++++-----------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/rubin_sim/maf/plots/plot_handler.py b/rubin_sim/maf/plots/plot_handler.py
index 2e153f6..91a5f44 100644
--- a/rubin_sim/maf/plots/plot_handler.py
+++ b/rubin_sim/maf/plots/plot_handler.py
@@ -214,9 +214,10 @@ class PlotHandler:
         Combine metric names.
         """
         # Find the unique metric names.
-        self.metric_names = set()
-        for m_b in self.m_bundles:
-            self.metric_names.add(m_b.metric.name)
+        # These and the other names combined below are sorted: the order of a
+        # set differs from one process to the next, and so would the names of
+        # the plots and of their files.
+        self.metric_names = sorted(set(m_b.metric.name for m_b in self.m_bundles))
         # Find a pleasing combination of the metric names.
         order = ["u", "g", "r", "i", "z", "y"]
         if len(self.metric_names) == 1:
@@ -231,10 +232,10 @@ class PlotHandler:
             if len(set(name_lengths)) == 1:
                 joint_name = []
                 for i in range(name_lengths[0]):
-                    tmp = set([x[i] for x in name_lists])
+                    tmp = list(dict.fromkeys(x[i] for x in name_lists))
                     # Try to catch special case of filters and
                     # put them in order.
-                    if tmp.intersection(order) == tmp:
+                    if set(tmp).issubset(order):
                         filterlist = ""
                         for f in order:
                             if f in tmp:
@@ -254,18 +255,14 @@ class PlotHandler:
         """
         Combine runNames.
         """
-        self.run_names = set()
-        for m_b in self.m_bundles:
-            self.run_names.add(m_b.run_name)
+        self.run_names = sorted(set(m_b.run_name for m_b in self.m_bundles))
         self.joint_run_names = " ".join(self.run_names)
 
     def _combine_metadata(self):
         """
         Combine info_label.
         """
-        info_label = set()
-        for m_b in self.m_bundles:
-            info_label.add(m_b.info_label)
+        info_label = sorted(set(m_b.info_label for m_b in self.m_bundles))
         self.info_label = info_label
         # Find a pleasing combination of the info_label.
         if len(info_label) == 1:
@@ -288,23 +285,23 @@ class PlotHandler:
                         m,
                     ]
                 # Strip white spaces from individual elements.
-                m = set([im.strip() for im in m])
+                m = list(dict.fromkeys(im.strip() for im in m))
                 splitmetas.append(m)
             # Look for common elements and
             # separate from the general info_label.
-            common = set.intersection(*splitmetas)
-            diff = [x.difference(common) for x in splitmetas]
+            common = [x for x in splitmetas[0] if all(x in m for m in splitmetas)]
+            diff = [[x for x in m if x not in common] for m in splitmetas]
             # Now look within the 'diff' elements and
             # see if there are any common words to split off.
             diffsplit = []
             for d in diff:
                 if len(d) > 0:
-                    m = set([x.split() for x in d][0])
+                    m = list(dict.fromkeys(d[0].split()))
                 else:
-                    m = set()
+                    m = []
                 diffsplit.append(m)
-            diffcommon = set.intersection(*diffsplit)
-            diffdiff = [x.difference(diffcommon) for x in diffsplit]
+            diffcommon = [x for x in diffsplit[0] if all(x in m for m in diffsplit)]
+            diffdiff = [[x for x in m if x not in diffcommon] for m in diffsplit]
             # If the length of any of the 'differences' is 0,
             # then we should stop and not try to subdivide.
             lengths = [len(x) for x in diffdiff]
@@ -349,10 +346,7 @@ class PlotHandler:
         """
         Combine the constraints.
         """
-        constraints = set()
-        for m_b in self.m_bundles:
-            if m_b.constraint is not None:
-                constraints.add(m_b.constraint)
+        constraints = sorted(set(m_b.constraint for m_b in self.m_bundles if m_b.constraint is not None))
         self.constraints = "; ".join(constraints)
 
     def _build_title(self):
@@ -392,10 +386,7 @@ class PlotHandler:
                     xlabel = m_b.slicer.slice_col_name + " \n(" + m_b.slicer.slice_col_units + ")"
                 ylabel = m_b.metric.name + " (" + m_b.metric.units + ")"
             else:
-                xlabel = set()
-                for m_b in self.m_bundles:
-                    xlabel.add(m_b.slicer.slice_col_name)
-                xlabel = ", ".join(xlabel)
+                xlabel = ", ".join(sorted(set(m_b.slicer.slice_col_name for m_b in self.m_bundles)))
                 ylabel = self.joint_metric_names
         elif plot_func.plot_type == "MetricVsH":
             if len(self.m_bundles) == 1:
-- 
2.43.0


From 1603bb4e8a56a84bbd5ffda1ed7ddc48509397ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:42 +0000
Subject: [PATCH 73/84] fix: the cache of another SED library is not taken for
 that of this one

---
 rubin_sim/phot_utils/sed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index b962ea2..079b018 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -354,6 +354,11 @@ def cache_lsst_seds(wavelen_min=None, wavelen_max=None, cache_dir=None):
         print("\nOpening cache of LSST SEDs in:\n%s" % os.path.join(cache_dir, sed_cache_name))
         with open(os.path.join(cache_dir, sed_cache_name), "rb") as input_file:
             _global_lsst_sed_cache = SedUnpickler(input_file).load()
+        # The cache and the file with its version are not replaced together, so
+        # if a process was stopped between the two, or several made caches of
+        # different libraries in one directory, the cache can be of another.
+        if any(not name.startswith(os.path.join(sed_dir, "")) for name in _global_lsst_sed_cache):
+            _global_lsst_sed_cache = _generate_sed_cache(cache_dir, sed_cache_name)
 
     # Now that we have generated/loaded the cache, we must run tests
     # to make sure that the cache is correctly constructed.  If these
-- 
2.43.0


From e99e87e2469ae2597243027667bbbbc028185f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 74/84] fix: the maximum age of a simulation is in days of 24
 hours, whatever the time zone of the session

---
 rubin_sim/sim_archive/vseqmetadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index f08c87a..e2c1c45 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1427,7 +1427,7 @@ class VisitSequenceArchiveMetadata:
                 AND %s BETWEEN first_day_obs AND last_day_obs
                 AND telescope = %s
                 AND tags @> %s::JSONB
-                AND creation_time >= NOW() - INTERVAL '%s days'
+                AND creation_time >= NOW() - %s * INTERVAL '24 hours'
             """
             query_params: Tuple = (first_day_obs, last_day_obs, telescope, tags_json, max_simulation_age)
         else:
@@ -1437,7 +1437,7 @@ class VisitSequenceArchiveMetadata:
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND %s BETWEEN first_day_obs AND last_day_obs
                 AND telescope = %s
-                AND creation_time >= NOW() - INTERVAL '%s days'
+                AND creation_time >= NOW() - %s * INTERVAL '24 hours'
             """
             query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)
 
@@ -1503,7 +1503,7 @@ class VisitSequenceArchiveMetadata:
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND telescope = %s
                 AND tags @> %s::JSONB
-                AND creation_time >= NOW() - INTERVAL '%s days'
+                AND creation_time >= NOW() - %s * INTERVAL '24 hours'
             """
             query_params: Tuple = (day_obs, day_obs, telescope, tags_json, max_simulation_age)
         else:
@@ -1524,7 +1524,7 @@ class VisitSequenceArchiveMetadata:
             LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND telescope = %s
-                AND creation_time >= NOW() - INTERVAL '%s days'
+                AND creation_time >= NOW() - %s * INTERVAL '24 hours'
             """
             query_params = (day_obs, day_obs, telescope, max_simulation_age)
 
-- 
2.43.0


From 0761fc1ed0f90951d79aa412bf261b8981a1e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 75/84] fix: the data file of a metric which was registered
 before it was written is recorded

---
 rubin_sim/maf/db/results_db.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index 1be3c70..5c1126f 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -453,7 +453,8 @@ class ResultsDb:
             The Id number of this metric in the metrics table.
 
         If same metric (same metric_name, slicer_name, run_name,
-        sql_constraint, infoLabel) already exists, it does nothing.
+        sql_constraint, infoLabel) already exists, it does nothing,
+        except to add the name of the data file if there was none.
         """
         self.open()
         if run_name is None:
@@ -489,6 +490,9 @@ class ResultsDb:
             self._commit()
         else:
             metricinfo = prev[0]
+            if metricinfo.metric_datafile == "NULL" and metric_datafile != "NULL":
+                metricinfo.metric_datafile = metric_datafile
+                self._commit()
         self.close()
 
         return metricinfo.metric_id
-- 
2.43.0


From 098a3a770b11d0fe83d73b612172d54efbbf4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 76/84] fix: exported simulation metadata have the simulated
 dates where readers look for them

---
 rubin_sim/sim_archive/vseqmetadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index e2c1c45..8896d36 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1676,11 +1676,11 @@ class VisitSequenceArchiveMetadata:
             metadata["creation_time"] = metadata_seq["creation_time"].isoformat()
 
         if metadata_seq.first_day_obs is not None or metadata_seq.last_day_obs is not None:
-            metadata["simulation_dates"] = {}
+            metadata["simulated_dates"] = {}
             if metadata_seq.first_day_obs is not None:
-                metadata["simulation_dates"]["first"] = metadata_seq.first_day_obs
+                metadata["simulated_dates"]["first"] = metadata_seq.first_day_obs.isoformat()
             if metadata_seq.last_day_obs is not None:
-                metadata["simulation_dates"]["last"] = metadata_seq.last_day_obs
+                metadata["simulated_dates"]["last"] = metadata_seq.last_day_obs.isoformat()
 
         if metadata_seq.files is not None:
             metadata["files"] = {}
-- 
2.43.0


From 616b16e389f5cada76da6e40c330b540a5254125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 77/84] fix: imported simulations keep their creation time

---
 rubin_sim/sim_archive/vseqmetadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 8896d36..2ad797c 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1564,8 +1564,13 @@ class VisitSequenceArchiveMetadata:
         label = sim_archive_metadata["label"]
         record_sim_kwargs = {"label": label}
 
+        if "creation_time" in sim_archive_metadata:
+            creation_time = sim_archive_metadata["creation_time"]
+            if not isinstance(creation_time, datetime):
+                creation_time = datetime.fromisoformat(creation_time)
+            record_sim_kwargs["creation_time"] = Time(creation_time)
         # The prenight labels usually end in the creation time.
-        if " ".join(label.split()[-3:-1]) == "run at":
+        elif " ".join(label.split()[-3:-1]) == "run at":
             maybe_date_str = label.split()[-1]
             try:
                 record_sim_kwargs["creation_time"] = Time(datetime.fromisoformat(maybe_date_str))
-- 
2.43.0


From 4c65c452cc206c533c0ca65c6cd927d2c0fb2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 78/84] fix: simulations without known dates do not break the
 search and the compiled metadata

---
 rubin_sim/sim_archive/prototype.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 3f9cd2d..fafe7b7 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -479,8 +479,8 @@ def compile_sim_metadata(
                     for tag in value:
                         tags.append({"sim_uri": uri, "tag": tag})
                 case "simulated_dates":
-                    sim_row["first_simulated_date"] = value["start"] if "start" in value else value["first"]
-                    sim_row["last_simulated_date"] = value["end"] if "end" in value else value["last"]
+                    sim_row["first_simulated_date"] = value["start"] if "start" in value else value.get("first")
+                    sim_row["last_simulated_date"] = value["end"] if "end" in value else value.get("last")
                 case _:
                     sim_row[key] = value
         sim_rows.append(sim_row)
@@ -578,12 +578,14 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
     for sim_uri in sim_metadata:
         # Return begin and end date to their nested dict format.
-        sim_metadata[sim_uri]["simulated_dates"] = {
-            "first": sim_metadata[sim_uri]["first_simulated_date"],
-            "last": sim_metadata[sim_uri]["last_simulated_date"],
-        }
-        del sim_metadata[sim_uri]["first_simulated_date"]
-        del sim_metadata[sim_uri]["last_simulated_date"]
+        # The dates need not be known.
+        simulated_dates = {}
+        for side in ("first", "last"):
+            simulated_date = sim_metadata[sim_uri].pop(f"{side}_simulated_date", None)
+            if not pd.isnull(simulated_date):
+                simulated_dates[side] = simulated_date
+        if simulated_dates:
+            sim_metadata[sim_uri]["simulated_dates"] = simulated_dates
 
         # Unset keys show up as nans.
         # Do not put them in the resultant dict.
@@ -806,9 +808,11 @@ def find_latest_prenight_sim_for_nights(
         sim["exec_date"] = uri.split("/")[-3]
         sim["date_index"] = int(uri.split("/")[-2])
 
-        if sim["simulated_dates"]["first"] > first_day_obs:
+        # The dates need not be known, but then it cannot be selected by date.
+        simulated_dates = sim.get("simulated_dates", {})
+        if "first" not in simulated_dates or simulated_dates["first"] > first_day_obs:
             continue
-        if sim["simulated_dates"]["last"] < last_day_obs:
+        if "last" not in simulated_dates or simulated_dates["last"] < last_day_obs:
             continue
         if "telescope" in sim and sim["telescope"].lower() != telescope.lower():
             continue
-- 
2.43.0


From 8ee94fd67fa893657478721acb9b87d674fec3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 79/84] fix: exported simulations are listed only when
 complete, and their files do not overwrite each other

---
 rubin_sim/sim_archive/prototype.py | 39 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index fafe7b7..1ab7564 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -1087,17 +1087,23 @@ def export_sim_to_prototype_sim_archive(
     insert_date, new_id, proto_sim_rpath = _next_sim_date_and_index(proto_sim_archive_url)
     metadata = yaml.safe_load(archive_metadata.sim_metadata_yaml(sim_uuid))
 
-    have_opsim = False
-    for file_type in metadata["files"]:
-        if file_type == "observations":
-            have_opsim = True
-
-        origin = ResourcePath(metadata["files"][file_type]["url"])
-        destination = proto_sim_rpath.join(origin.basename())
+    # The metadata file of this entry replaces that of any other entry the
+    # simulation came from, and must not be there before everything else is.
+    files = metadata.setdefault("files", {})
+    files.pop("metadata", None)
+
+    used_names = {"sim_metadata.yaml"} if "observations" in files else {"sim_metadata.yaml", "opsim.db"}
+    for file_type in files:
+        origin = ResourcePath(files[file_type]["url"])
+        name = origin.basename()
+        while name in used_names:
+            name = f"{file_type}_{name}"
+        used_names.add(name)
+        destination = proto_sim_rpath.join(name)
         destination.transfer_from(origin, "copy")
-        metadata["files"][file_type]["url"] = destination.geturl()
+        files[file_type] = {"name": name, "url": destination.geturl()}
 
-    if not have_opsim:
+    if "observations" not in files:
         visits_url = archive_metadata.get_visitseq_url(sim_uuid)
         visits_rp = ResourcePath(visits_url)
         with visits_rp.as_local() as visits_local_rp:
@@ -1106,14 +1112,15 @@ def export_sim_to_prototype_sim_archive(
                 vseqarchive.hdf5_to_opsimdb(visits_local_rp.ospath, opsimdb_fname)
                 opsimdb_rp = proto_sim_rpath.join("opsim.db")
                 opsimdb_rp.transfer_from(ResourcePath(opsimdb_fname), "copy")
-        metadata["files"]["observations"] = {"name": "opsim.db", "url": opsimdb_rp.geturl()}
+        files["observations"] = {"name": "opsim.db", "url": opsimdb_rp.geturl()}
 
-    metadata["files"]["metadata"] = {"name": "sim_metadata.yaml"}
-    metadata["files"]["metadata"]["url"] = proto_sim_rpath.join(
-        metadata["files"]["metadata"]["name"]
-    ).geturl()
+    for file_info in files.values():
+        file_info["md5"] = hashlib.md5(ResourcePath(file_info["url"]).read()).hexdigest()
 
-    metadata_yaml = yaml.dump(metadata)
-    ResourcePath(metadata["files"]["metadata"]["url"]).write(metadata_yaml.encode("utf-8"))
+    # Unlike ResourcePath.write, transfer_from never leaves a partial file.
+    with TemporaryDirectory() as temp_dir:
+        metadata_fname = Path(temp_dir) / "sim_metadata.yaml"
+        metadata_fname.write_text(yaml.dump(metadata))
+        proto_sim_rpath.join("sim_metadata.yaml").transfer_from(ResourcePath(str(metadata_fname)), "copy")
 
     return proto_sim_rpath
-- 
2.43.0


From f5d8d6fa32a22c292768224efba392474a23c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 80/84] fix: a UniSlicer is not equal to slicers derived from
 it

Bundles with a UniSlicer and a HourglassSlicer were run together, with the slicer of the first: either values that should be saved were not, or the other way round.
---
 rubin_sim/maf/slicers/uni_slicer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/uni_slicer.py b/rubin_sim/maf/slicers/uni_slicer.py
index d01d47c..119081b 100644
--- a/rubin_sim/maf/slicers/uni_slicer.py
+++ b/rubin_sim/maf/slicers/uni_slicer.py
@@ -51,7 +51,5 @@ class UniSlicer(BaseSlicer):
 
     def __eq__(self, other_slicer):
         """Evaluate if slicers are equivalent."""
-        if isinstance(other_slicer, UniSlicer):
-            return True
-        else:
-            return False
+        # Subclasses treat the data or the metric values differently.
+        return type(other_slicer) is type(self)
-- 
2.43.0


From 40763ff768276bc749f62531fcf3f20ae5f20ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 81/84] fix: imports of scimaf_dir and maf_night_report

---
 rubin_sim/maf/maf_night_report.py | 2 +-
 rubin_sim/maf/scimaf_dir.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maf_night_report.py b/rubin_sim/maf/maf_night_report.py
index 6395798..30d63d8 100755
--- a/rubin_sim/maf/maf_night_report.py
+++ b/rubin_sim/maf/maf_night_report.py
@@ -1,5 +1,5 @@
 from . import db as db
-from . import metricBundles as metricBundles
+from . import metric_bundles as metricBundles
 from . import metrics as metrics
 from . import plots as plots
 from . import slicers as slicers
diff --git a/rubin_sim/maf/scimaf_dir.py b/rubin_sim/maf/scimaf_dir.py
index 1f02a3b..f04dd60 100755
--- a/rubin_sim/maf/scimaf_dir.py
+++ b/rubin_sim/maf/scimaf_dir.py
@@ -1,6 +1,6 @@
 from . import batches as batches
 from . import db as db
-from . import metricBundles as mmB
+from . import metric_bundles as mmB
 
 __all__ = ("scimaf_dir",)
 
-- 
2.43.0


From 0ff909cd77e7729a0b8c0362d85263cbff43246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 82/84] fix: the night report selects visits by band

---
 rubin_sim/maf/maf_night_report.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/maf_night_report.py b/rubin_sim/maf/maf_night_report.py
index 30d63d8..0a107ed 100755
--- a/rubin_sim/maf/maf_night_report.py
+++ b/rubin_sim/maf/maf_night_report.py
@@ -36,7 +36,7 @@ def make_bundle_list(
     azCol = "azimuth"
     # Construct sql queries for each filter and all filters
     filters = ["u", "g", "r", "i", "z", "y"]
-    sqls = ["night=%i and filter='%s'" % (night, f) for f in filters]
+    sqls = ["night=%i and band='%s'" % (night, f) for f in filters]
     sqls.append("night=%i" % night)
 
     bundleList = []
@@ -85,7 +85,7 @@ def make_bundle_list(
 
     # Moon phase.
 
-    metric = metrics.NChangesMetric(col="filter", metric_name="Filter Changes")
+    metric = metrics.NChangesMetric(col="band", metric_name="Filter Changes")
     bundle = metricBundles.MetricBundle(metric, unislicer, "night=%i" % night)
     bundleList.append(bundle)
 
@@ -107,12 +107,12 @@ def make_bundle_list(
 
     # Make plots of the solar system pairs that were taken in the night
     metric = metrics.PairMetric(mjd_col=mjdCol)
-    sql = "night=%i and (filter ='r' or filter='g' or filter='i')" % night
+    sql = "night=%i and (band='r' or band='g' or band='i')" % night
     bundle = metricBundles.MetricBundle(metric, reg_slicer, sql)
     bundleList.append(bundle)
 
     metric = metrics.PairMetric(mjd_col=mjdCol, metric_name="z Pairs")
-    sql = "night=%i and filter='z'" % night
+    sql = "night=%i and band='z'" % night
     bundle = metricBundles.MetricBundle(metric, reg_slicer, sql)
     bundleList.append(bundle)
 
-- 
2.43.0


From 3fbe68e768a476adc2368e54b8a28f46912edc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 83/84] fix: record the path of the analysed simulation in the
 tracking database

---
 rubin_sim/maf/ddf_dir.py    | 2 +-
 rubin_sim/maf/glance_dir.py | 2 +-
 rubin_sim/maf/scimaf_dir.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/ddf_dir.py b/rubin_sim/maf/ddf_dir.py
index be0c360..e5357b9 100755
--- a/rubin_sim/maf/ddf_dir.py
+++ b/rubin_sim/maf/ddf_dir.py
@@ -50,4 +50,4 @@ def ddf_dir():
         )
         group.run_all(clear_memory=True, plot_now=True)
         results_db.close()
-        db.add_run_to_database(name + "_ddf", "trackingDb_sqlite.db", None, name, "", "", name + ".db")
+        db.add_run_to_database(name + "_ddf", "trackingDb_sqlite.db", None, name, "", "", filename)
diff --git a/rubin_sim/maf/glance_dir.py b/rubin_sim/maf/glance_dir.py
index 542942c..7f99307 100755
--- a/rubin_sim/maf/glance_dir.py
+++ b/rubin_sim/maf/glance_dir.py
@@ -54,5 +54,5 @@ def glance_dir():
             run_name=name,
             run_comment="",
             maf_comment="Glance",
-            db_file=name + ".db",
+            db_file=filename,
         )
diff --git a/rubin_sim/maf/scimaf_dir.py b/rubin_sim/maf/scimaf_dir.py
index f04dd60..4456a85 100755
--- a/rubin_sim/maf/scimaf_dir.py
+++ b/rubin_sim/maf/scimaf_dir.py
@@ -83,5 +83,5 @@ def scimaf_dir():
             run_name=name,
             run_comment=None,
             maf_comment="ScienceRadar",
-            db_file=name + ".db",
+            db_file=filename,
         )
-- 
2.43.0


From c4f22abd5491cc8d586f591458cb51b15deb4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 84/84] fix: skip empty lines in the list of
 make_fbs_tracking_db

---
 rubin_sim/maf/make_fbs_tracking_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/make_fbs_tracking_db.py b/rubin_sim/maf/make_fbs_tracking_db.py
index ae1fefe..f304445 100644
--- a/rubin_sim/maf/make_fbs_tracking_db.py
+++ b/rubin_sim/maf/make_fbs_tracking_db.py
@@ -39,7 +39,9 @@ def make_fbs_tracking_db():
 
     with open(args.opsim_list, "r") as runlist:
         for run in runlist:
-            db_file = run.replace("\n", "")
+            db_file = run.strip()
+            if db_file == "":
+                continue
             vals = db_file.split("/")
             family = vals[-2]
             db_name = vals[-1]
-- 
2.43.0

