R = "rubin_sim/maf/db/results_db.py"
T = "rubin_sim/maf/db/tracking_db.py"
B = "rubin_sim/maf/metric_bundles/metric_bundle.py"
G = "rubin_sim/maf/metric_bundles/metric_bundle_group.py"
S = "rubin_sim/maf/slicers/base_slicer.py"
C = "rubin_sim/maf/run_comparison/gather_summaries.py"
A = "rubin_sim/maf/run_comparison/archive.py"
W = "rubin_sim/maf/web/maf_run_results.py"
K = "rubin_sim/maf/web/maf_tracking.py"
H = "rubin_sim/maf/show_maf.py"
MUT = [
# C01
("c01-ver-always", "C01", [(R, "        if self.session.query(VersionRow).first() is None:\n", "        if self.session.query(VersionRow).count() < 2 and self.session.query(MetricRow).first() is None:\n"), (R, '"select :version, :run_date where not exists (select 1 from version)"', '"select :version, :run_date"')]),
("c01-ver-race", "C01", [(R, '"select :version, :run_date where not exists (select 1 from version)"', '"select :version, :run_date"')]),
("c01-exists-race", "C01", [(R, "CreateTable(table, if_not_exists=True)", "CreateTable(table, if_not_exists=os.path.getsize(self.database) > 0)")]),
("c01-tables-isfile", "C01", [(R, "        try:\n            with engine.connect() as connection:\n                for table", "        new = not os.path.isfile(self.database)\n        try:\n            with engine.connect() as connection:\n                for table"),
   (R, "in Base.metadata.sorted_tables:", "in (Base.metadata.sorted_tables if new else []):")]),
("c01-commit-each", "C01", [(R, "                    connection.execute(CreateTable(table, if_not_exists=True))\n                connection.commit()", "                    if table.name in inspect(engine).get_table_names():\n                        break\n                    connection.execute(CreateTable(table, if_not_exists=True))\n                    connection.commit()"), (R, "from sqlalchemy import ", "from sqlalchemy import inspect, ")]),
("c01-ver-norow", "C01", [(R, "        if self.session.query(VersionRow).first() is None:\n", "        if self.session.query(MetricRow).first() is None and self.session.query(VersionRow).first() is None:\n")]),
("c01-update-commit", "C01", [(R, '            query = text("alter table metrics rename column metricMetadata to metric_info_label")\n            self.session.execute(query)', '            query = text("alter table metrics rename column metricMetadata to metric_info_label")\n            self.session.execute(query)\n            self.session.commit()')]),
("c01-update-test", "C01", [(R, 'if "sql_constraint" not in cols:', 'if "metricId" in cols:')]),
("c01-update-statid", "C01", [(R, '                "statId": "stat_id",\n                "summaryName": "summary_name",\n                "summaryValue": "summary_value",\n            }\n            for old, new in updates.items():\n                query = text(f"alter table summarystats rename column {old} to {new}")', '                "statId": "stat_id",\n                "summaryName": "summary_name",\n                "summaryValue": "summary_value",\n            }\n            self.session.commit()\n            for old, new in updates.items():\n                query = text(f"alter table summarystats rename column {old} to {new}")')]),
("c01-dedup-on-open", "C01", [(R, "        self.slen = 1024\n", "        self.slen = 1024\n        self.session.execute(text('delete from metrics where metric_id not in (select metric_id from displays) and metric_id not in (select metric_id from summarystats)'))\n        self.session.commit()\n")]),
("c01-verdate", "C01", [(R, "        self.slen = 1024\n", "        self.slen = 1024\n        self.session.execute(text('update version set run_date = :d where version_id > 1'), {'d': datetime.datetime.now().strftime('%Y-%m-%d')})\n        self.session.commit()\n")]),
# C02
("c02-norun", "C02", [(R, "                run_name=run_name,\n                metric_info_label=metric_info_label,\n                sql_constraint=sql_constraint,\n            )\n            .all()", "                metric_info_label=metric_info_label,\n                sql_constraint=sql_constraint,\n            )\n            .all()")]),
("c02-noconstraint", "C02", [(R, "                metric_info_label=metric_info_label,\n                sql_constraint=sql_constraint,\n            )\n            .all()", "                metric_info_label=metric_info_label,\n            )\n            .all()")]),
("c02-prev-last", "C02", [(R, "metricinfo = prev[0]", "metricinfo = prev[-1]\n            metricinfo.metric_datafile = metric_datafile\n            self._commit()")]),
("c02-display-noover", "C02", [(R, "            if overwrite:\n                for d in displayinfo:\n                    self.session.delete(d)", "            if overwrite or displayinfo[0].display_group == 'NULL':\n                for d in displayinfo:\n                    self.session.delete(d)")]),
("c02-display-keep", "C02", [(R, "                for d in displayinfo:\n                    self.session.delete(d)\n            else:", "                for d in displayinfo[:-1] or displayinfo:\n                    self.session.delete(d)\n            else:")]),
("c02-display-order", "C02", [(R, 'if display_dict["order"] == "NULL":', 'if not display_dict["order"] or display_dict["order"] == "NULL":')]),
("c02-display-auto", "C02", [(R, 'if display_caption.endswith("(auto)"):', 'if "(auto)" in display_caption:')]),
("c02-plot-all", "C02", [(R, "self.session.query(PlotRow).filter_by(metric_id=metric_id, plot_type=plot_type).all()", "self.session.query(PlotRow).filter_by(metric_id=metric_id, plot_file=plot_file).all()")]),
("c02-plot-skip", "C02", [(R, "        if len(plotinfo) > 0 and overwrite:\n            for p in plotinfo:", "        if any(p.plot_file == plot_file for p in plotinfo) and not overwrite:\n            self.close()\n            return\n        if len(plotinfo) > 0 and overwrite:\n            for p in plotinfo:")]),
("c02-stat-int", "C02", [(R, "summarystats.append((summary_name, summary_value))", "summarystats.append((summary_name, round(summary_value, 10)))")]),
("c02-stat-zero", "C02", [(R, "        if len(summarystats) == 0:\n            return", "        summarystats = [(n, v) for n, v in summarystats if v or len(summarystats) == 1]\n        if len(summarystats) == 0:\n            return")]),
("c02-stat-replace", "C02", [(R, "                for name, value in summarystats:\n                    self.session.add(", "                for name, value in summarystats:\n                    self.session.query(SummaryStatRow).filter_by(metric_id=metric_id, summary_name=name, summary_value=value).delete()\n                    self.session.add(")]),
("c02-mid-slicer", "C02", [(R, "query = query.filter(MetricRow.slicer_name == slicer_name)", "query = query.filter(MetricRow.slicer_name.like(slicer_name))")]),
("c02-mid-run", "C02", [(R, "        if run_name is not None:\n            query = query.filter(MetricRow.run_name == run_name)\n        query = query.order_by", "        if run_name is not None and slicer_name is None:\n            query = query.filter(MetricRow.run_name == run_name)\n        query = query.order_by")]),
("c02-like-run", "C02", [(R, "            query = query.filter(MetricRow.run_name == run_name)\n        for m in query:", "            query = query.filter(MetricRow.run_name.like(f\"%{run_name}%\"))\n        for m in query:")]),
("c02-notlike-last", "C02", [(R, '                    query = query.filter(~SummaryStatRow.summary_name.like(f"%{str(s)}%"))\n            else:', '                    q2 = query.filter(~SummaryStatRow.summary_name.like(f"%{str(s)}%"))\n                query = q2 if summary_name_notlike else query\n            else:')]),
("c02-stat-mid0", "C02", [(R, "        if metric_id is not None:\n            query = query.filter(MetricRow.metric_id.in_(metric_id))", "        if metric_id:\n            query = query.filter(MetricRow.metric_id.in_(metric_id))")]),
("c02-plots-dup", "C02", [(R, "                    m.metric_id,\n                    m.metric_name,\n                    m.metric_info_label,\n                    p.plot_type,", "                    p.metric_id if p.plot_id > 1 else m.metric_id,\n                    m.metric_name,\n                    m.metric_info_label,\n                    p.plot_type.title() if p.plot_type.islower() else p.plot_type,")]),
("c02-thumb", "C02", [(R, '".".join(p.plot_file.split(".")[:-1])', 'p.plot_file.split(".")[0]')]),
("c02-display-multi", "C02", [(R, "        displayinfo = DisplayRow(\n            metric_id=metric_id,", "        self.session.query(DisplayRow).filter_by(display_caption='NULL', display_group=display_group).delete()\n        displayinfo = DisplayRow(\n            metric_id=metric_id,")]),
("c02-slen", "C02", [(R, '("display_caption", np.str_, self.slen * 10),', '("display_caption", np.str_, self.slen // 2),')]),
("c02-base-name", "C02", [(R, 'base_metric_name = m.metric_name.split("_")[0]\n                mInfo = (\n                    m.metric_id,\n                    m.metric_name,\n                    base_metric_name,\n                    m.slicer_name,\n                    m.sql_constraint,\n                    m.metric_info_label,\n                    m.metric_datafile,\n                    d.', 'base_metric_name = m.metric_name.rsplit("_", 1)[0]\n                mInfo = (\n                    m.metric_id,\n                    m.metric_name,\n                    base_metric_name,\n                    m.slicer_name,\n                    m.sql_constraint,\n                    m.metric_info_label,\n                    m.metric_datafile,\n                    d.')]),
# C03
("c03-ntry-off", "C03", [(R, "if tries >= ntry:", "if tries > ntry:")]),
("c03-ntry-swallow", "C03", [(R, "                if tries >= ntry:\n                    raise\n", "                if tries >= ntry:\n                    break\n")]),
("c03-pause-grow", "C03", [(R, "time.sleep(pause_time)", "time.sleep(pause_time * tries)")]),
("c03-dup-retry", "C03", [(R, "                for name, value in summarystats:\n                    self.session.add(\n                        SummaryStatRow(metric_id=metric_id, summary_name=name, summary_value=value)\n                    )\n                self._commit()", "                for name, value in summarystats:\n                    self.session.add(\n                        SummaryStatRow(metric_id=metric_id, summary_name=name, summary_value=value)\n                    )\n                    self._commit()")]),
("c03-norollback", "C03", [(R, "        except Exception:\n            self.session.rollback()\n            self.session.close()\n            raise", "        except Exception:\n            self.session.close()\n            raise")]),
("c03-swallow-plot", "C03", [(R, "        self.session.add(plotinfo)\n        self._commit()", "        self.session.add(plotinfo)\n        try:\n            self._commit()\n        except OperationalError:\n            warnings.warn('Could not record plot')")]),
("c03-timeout", "C03", [(R, "verbose=False, timeout=180", "verbose=False, timeout=5")]),
("c03-metric-swallow", "C03", [(R, "            self.session.add(metricinfo)\n            self._commit()\n", "            self.session.add(metricinfo)\n            try:\n                self._commit()\n            except OperationalError:\n                time.sleep(10)\n                self.session.add(metricinfo)\n                self._commit()\n")]),
("c03-display-two", "C03", [(R, "                for d in displayinfo:\n                    self.session.delete(d)\n", "                for d in displayinfo:\n                    self.session.delete(d)\n                self._commit()\n")]),
# C04
("c04-two-commits", "C04", [(T, "                self.session.flush()\n", "                self.session.commit()\n")]),
("c04-newid", "C04", [(T, "maf_run_id=runIds[0],", "maf_run_id=maf_run_id or runIds[0],")]),
("c04-lastid", "C04", [(T, "maf_run_id=runIds[0],", "maf_run_id=runIds[-1],")]),
("c04-abs", "C04", [(T, "maf_dir = os.path.relpath(maf_dir, start=self.tracking_db_dir)", "maf_dir = os.path.relpath(os.path.realpath(maf_dir), start=os.path.realpath(self.tracking_db_dir))")]),
("c04-relcwd", "C04", [(T, "maf_dir = os.path.relpath(maf_dir, start=self.tracking_db_dir)", "maf_dir = os.path.normpath(maf_dir) if not os.path.isabs(maf_dir) else os.path.relpath(maf_dir, start=self.tracking_db_dir)")]),
("c04-taken", "C04", [(T, "                if len(existing) > 0:\n                    raise ValueError(", "                if len(existing) > 0 and existing[0].run_name != run_name:\n                    raise ValueError("), (T, "        self.session.add(runinfo)\n", "        runinfo = self.session.merge(runinfo)\n")]),
("c04-merge", "C04", [(T, "        self.session.add(runinfo)\n", "        runinfo = self.session.merge(runinfo)\n")]),
("c04-like", "C04", [(T, "self.session.query(RunRow).filter_by(maf_dir=maf_dir).all()", "self.session.query(RunRow).filter(RunRow.maf_dir.like(maf_dir)).all()")]),
("c04-norollback", "C04", [(T, "            self.session.commit()\n        except Exception:\n            self.session.rollback()\n            raise", "            self.session.commit()\n        except Exception:\n            raise")]),
("c04-del-first", "C04", [(T, "        self.session.delete(runinfo[0])\n        self._commit()", "        self.session.query(RunRow).filter_by(maf_dir=runinfo[0].maf_dir, run_name=runinfo[0].run_name).delete()\n        self.session.query(RunRow).filter(RunRow.run_name == runinfo[0].run_name, RunRow.run_name == 'NULL').delete()\n        self._commit()")]),
("c04-keepcomment", "C04", [(T, "                maf_run_id=runIds[0],\n                run_group=run_group,\n                run_name=run_name,\n                run_comment=run_comment,", "                maf_run_id=runIds[0],\n                run_group=run_group,\n                run_name=run_name,\n                run_comment=run_comment if run_comment != 'NULL' else prevrun[0].run_comment,")]),
("c04-runname", "C04", [(T, "            if len(run_name) > 1:\n                run_name = 0", "            if len(run_name) > 1:\n                run_name = run_name[0]")]),
("c04-swallow", "C04", [(T, "        self.session.delete(runinfo[0])\n        self._commit()", "        self.session.delete(runinfo[0])\n        try:\n            self._commit()\n        except DatabaseError as e:\n            print(e)")]),
# C05
("c05-db-first", "C05", [(B, "        self.slicer.write_data(\n            os.path.join(out_dir, outfile),", "        if results_db is not None:\n            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)\n        self.slicer.write_data(\n            os.path.join(out_dir, outfile),")]),
("c05-fill", "C05", [(S, "            fill = metric_values.fill_value\n", "            fill = self.badval\n")]),
("c05-maskany", "C05", [(S, "            mask = metric_values.mask\n", "            mask = metric_values.mask if np.any(metric_values.mask) else None\n")]),
("c05-suffix", "C05", [(B, '        if outfile_suffix is not None:\n            outfile = self.file_root + "_" + outfile_suffix + ".npz"\n        else:\n            outfile = self.file_root + ".npz"\n        if results_db', '        if outfile_suffix:\n            outfile = self.file_root + "_" + outfile_suffix + ".npz"\n        else:\n            outfile = self.file_root + ".npz"\n        if results_db')]),
("c05-comment", "C05", [(B, "info_label=self.info_label + comment,", "info_label=(self.info_label + comment).strip(),")]),
("c05-constraint", "C05", [(B, 'if "info_label" in header:', 'if header.get("info_label"):')]),
("c05-shape", "C05", [(S, '        slicer_shape = restored["slicer_shape"]', '        slicer_shape = restored["slicer_n_slice"]')]),
("c05-nochange", "C05", [(S, "        with _complete_file(outfilename) as outfile:\n", "        if os.path.isfile(outfilename):\n            try:\n                old = np.load(outfilename, allow_pickle=True)\n                if np.array_equal(old['metric_values'], data):\n                    return\n            except Exception:\n                pass\n        with _complete_file(outfilename) as outfile:\n"), (S, "import warnings\n", "import os\nimport warnings\n")]),
# C06
("c06-stackers", "C06", [(G, "if (same_class or same_cols) and (stacker != stacker2):", "if same_class and (stacker != stacker2):")]),
("c06-slicerne", "C06", [(G, "if metric_bundle1.slicer != metric_bundle2.slicer:", "if metric_bundle1.slicer.slicer_name != metric_bundle2.slicer.slicer_name:")]),
("c06-compat-first", "C06", [(G, "                        if not compatible:\n                            # If we find", "                        if not compatible and len(compatible_list) < 3:\n                            # If we find")]),
("c06-override", "C06", [(G, "stacker.run(self.sim_data, override=True)", "stacker.run(self.sim_data, override=False)")]),
("c06-cache-drop", "C06", [(G, "del cache_dict[list(cache_dict.keys())[0]]", "cache_dict.popitem(last=False)")]),
("c06-cache-len", "C06", [(G, 'cache_key = frozenset(slice_i["idxs"])', 'cache_key = (len(slice_i["idxs"]), slice_i["idxs"][0], slice_i["idxs"][-1])')]),
("c06-mask", "C06", [(G, "b.metric_values.data == b.metric.badval, True, b.metric_values.mask", "b.metric_values.data == b.slicer.badval, True, b.metric_values.mask")]),
("c06-reduce-name", "C06", [(G, "                    if name in self.bundle_dict or name in reduce_bundle_dict:\n                        name = newmetricbundle.file_root\n", "                    if name in self.bundle_dict:\n                        name = newmetricbundle.file_root\n")]),
("c06-reduce-mask", "C06", [(B, "mask=self.metric_values.mask.copy(),", "mask=self.metric_values.mask,")]),
("c06-summary-empty", "C06", [(B, "                if np.size(rarr) == 0:\n                    summary_val = self.slicer.badval", "                if np.size(rarr) == 0:\n                    continue")]),
("c06-maskval", "C06", [(B, "arr = self.metric_values.filled(m.mask_val)", "arr = rarr_std['metricdata'] if self.metric_values.mask.all() else self.metric_values.filled(m.mask_val)")]),
("c06-rarr-share", "C06", [(B, "                    rarr = np.empty(arr.shape, dtype=[(\"metricdata\", arr.dtype)])\n                    rarr[\"metricdata\"] = arr\n                else:", "                    rarr = rarr_std = np.empty(arr.shape, dtype=[(\"metricdata\", arr.dtype)])\n                    rarr[\"metricdata\"] = arr\n                else:")]),
("c06-clear-reduced", "C06", [(G, "            for b in self.current_bundle_dict.values():\n                b.metric_values = None", "            for b in self.bundle_dict.values():\n                b.metric_values = None")]),
("c06-skip-all", "C06", [(G, '                warnings.warn("No data matching constraint %s" % constraint)', '                self.constraints = [c for c in self.constraints if c.startswith(constraint)]\n                warnings.warn("No data matching constraint %s" % constraint)')]),
("c06-read-summary", "C06", [(G, "                newmetric_bundle.summary_values = tmp_bundle.summary_values\n", "                newmetric_bundle.summary_values = bundle.summary_values\n"),] if False else [(G, "                        newmetric_bundle.summary_values = tmp_bundle.summary_values\n", "                        newmetric_bundle.summary_values = bundle.summary_values\n")]),
("c06-read-reduce", "C06", [(G, "                        newmetric_bundle.metric_values = ma.copy(tmp_bundle.metric_values)", "                        newmetric_bundle.metric_values = ma.MaskedArray(tmp_bundle.metric_values.data)")]),
("c06-skiprun", "C06", [(G, "            self._run_compatible(compatible_list)\n", "            if self.results_db is not None and all(os.path.isfile(os.path.join(self.out_dir, self.bundle_dict[k].file_root + '.npz')) for k in compatible_list):\n                for k in compatible_list:\n                    tmp = create_empty_metric_bundle()\n                    tmp.read(os.path.join(self.out_dir, self.bundle_dict[k].file_root + '.npz'))\n                    self.bundle_dict[k].metric_values, self.bundle_dict[k].slicer = tmp.metric_values, tmp.slicer\n                continue\n            self._run_compatible(compatible_list)\n")]),
("c06-maps", "C06", [(G, "if set(map1.keynames).intersection(map2.keynames) and not self._same_map(map1, map2):", "if map1.keynames == map2.keynames and not self._same_map(map1, map2):")]),
("c06-samemap", "C06", [(G, "return all(config1[k] == config2[k] for k in config1 if k in config2)", "return type(map1) is type(map2)")]),
("c06-stat-dup", "C06", [(B, "self.summary_values[summary_name] = summary_val\n", "self.summary_values.setdefault(summary_name, summary_val)\n")]),
# C07
("c07-leftjoin", "C07", [(C, "FROM summarystats INNER JOIN metrics ON metrics.metric_id=summarystats.metric_id", "FROM metrics LEFT JOIN summarystats ON metrics.metric_id=summarystats.metric_id"), (C, "x.summary_name.strip(),", "str(x.summary_name).strip(),")]),
("c07-order", "C07", [(C, '"FROM summarystats INNER JOIN metrics ON metrics.metric_id=summarystats.metric_id"', '"FROM metrics INNER JOIN summarystats ON metrics.metric_id=summarystats.metric_id ORDER BY summarystats.summary_value"')]),
("c07-mean", "C07", [(C, '{"summary_value": "last"}', '{"summary_value": "max"}')]),
("c07-dropna", "C07", [(C, '{"summary_value": "last"}', '{"summary_value": lambda x: x.iloc[-1]}')]),
("c07-listorder", "C07", [(C, "    for rdir in run_dirs:\n", "    for rdir in sorted(run_dirs):\n")]),
("c07-dedupdirs", "C07", [(C, "    for rdir in run_dirs:\n", "    for rdir in dict.fromkeys(run_dirs):\n")]),
("c07-break", "C07", [(C, '            logger.warning(f"No resultsDb database in {rdir}")\n            continue', '            logger.warning(f"No resultsDb database in {rdir}")\n            break')]),
("c07-swallow", "C07", [(C, '            if "no such table" not in str(err):\n                raise\n', '')]),
("c07-immutable", "C07", [(C, "con = sqlite3.connect(fname)", 'con = sqlite3.connect(f"file:{fname}?immutable=1", uri=True)')]),
("c07-ro", "C07", [(C, "con = sqlite3.connect(fname)", 'con = sqlite3.connect(f"file:{fname}?mode=ro", uri=True)')]),
("c07-strip", "C07", [(C, 'summary_name = summary_name.replace("  ", " ")', 'summary_name = summary_name.replace("  ", " ").lower()')]),
("c07-nolabel", "C07", [(C, "                    x.metric_info_label.strip(),\n", "                    x.metric_info_label.strip()[:20],\n")]),
("c07-vacuum", "C07", [(C, "        try:\n            temp_df = pd", "        con.execute('create index if not exists ss on summarystats (metric_id)') if os.path.getsize(fname) > 9000 else None\n        try:\n            temp_df = pd")]),
("c07-resultsdb", "C07", [(C, "        con = sqlite3.connect(fname)\n", "        from rubin_sim.maf.db import ResultsDb\n\n        ResultsDb(out_dir=rdir, database=dbfilename)\n        con = sqlite3.connect(fname)\n")]),
# C08
("c08-nopid", "C08", [(A, '{os.getpid()}.part', 'part')]),
("c08-nocleanup", "C08", [(A, "            except BaseException:\n                if os", "            except Exception:\n                if os")]),
("c08-exists-part", "C08", [(A, "                urllib.request.urlretrieve(run.url, part_fname)\n                os.replace", "                try:\n                    urllib.request.urlretrieve(run.url, part_fname)\n                except urllib.error.ContentTooShortError:\n                    warnings.warn('short')\n                os.replace")]),
("c08-copy", "C08", [(A, "os.replace(part_fname, dest_fnames[run_name])", "shutil.copyfile(part_fname, dest_fnames[run_name]); os.remove(part_fname)"), (A, "import os\nimport sys", "import os\nimport shutil\nimport sys")]),
("c08-rmfirst", "C08", [(A, '            part_fname = f"', '            if os.path.exists(dest_fnames[run_name]):\n                os.remove(dest_fnames[run_name])\n            part_fname = f"')]),
("c08-size", "C08", [(A, "if clobber or not os.path.exists(dest_fnames[run_name]):", "if (clobber and os.path.getsize(dest_fnames[run_name]) > 0 if os.path.exists(dest_fnames[run_name]) else True):")]),
("c08-stop", "C08", [(A, '            warnings.warn(f"{dest_fnames[run_name]} already exists; not downloading")', '            warnings.warn(f"{dest_fnames[run_name]} already exists; not downloading")\n            break')]),
("c08-basename", "C08", [(A, "os.path.join(dest_dir, run.filepath)\n", "os.path.join(dest_dir, os.path.basename(run.filepath))\n")]),
# C09
("c09-stamp-size", "C09", [(K, "stamp = os.stat(self.tracking_db).st_mtime\n\n", "stamp = os.stat(self.tracking_db).st_size\n\n"), (K, "new_stamp = os.stat(self.tracking_db).st_mtime", "new_stamp = os.stat(self.tracking_db).st_size")]),
("c09-stamp-int", "C09", [(K, "stamp = os.stat(self.tracking_db).st_mtime\n\n", "stamp = int(os.stat(self.tracking_db).st_mtime)\n\n"), (K, "new_stamp = os.stat(self.tracking_db).st_mtime", "new_stamp = int(os.stat(self.tracking_db).st_mtime)")]),
("c09-stamp-late", "C09", [(K, "        self.stamp = stamp\n", "        self.stamp = os.stat(self.tracking_db).st_mtime\n")]),
("c09-stamp-early", "C09", [(K, "        stamp = os.stat(self.tracking_db).st_mtime\n\n", "        stamp = self.stamp = os.stat(self.tracking_db).st_mtime\n\n")]),
("c09-keeppages", "C09", [(K, "        self.runs_page = {}\n", "        old = getattr(self, 'runs_page', {})\n        self.runs_page = {k: v for k, v in old.items() if k in self.runs['maf_run_id']}\n")]),
("c09-nocheck", "C09", [(K, "        self._check_db()\n        if not isinstance(maf_run_id, int):", "        if not isinstance(maf_run_id, int):")]),
("c09-first", "C09", [(K, 'match = self.runs["maf_run_id"] == maf_run_id', 'match = self.runs["maf_run_id"] >= maf_run_id')]),
("c09-stat-last", "C09", [(W, 'sdict[n] = match["summary_value"][0]', 'sdict[n] = match["summary_value"].max()')]),
("c09-plots", "C09", [(W, 'return self.plots[np.where(self.plots["metric_id"] == metric["metric_id"])]', 'return self.plots[np.where(self.plots["metric_name"] == metric["metric_name"])]')]),
("c09-stats-name", "C09", [(W, 'stats = self.stats[np.where(self.stats["metric_id"] == metric["metric_id"])]', 'stats = self.stats[np.where((self.stats["metric_name"] == metric["metric_name"]) & (self.stats["metric_info_label"] == metric["metric_info_label"]))]')]),
("c09-subgroup", "C09", [(W, 'subgroup = group_subgroup.split("_")[-1].replace("+", " ")', 'subgroup = group_subgroup.split("_")[1].replace("+", " ")')]),
("c09-caption", "C09", [(W, 'if caption == "NULL":', 'if caption == "NULL" or caption.isdigit():')]),
("c09-npz", "C09", [(H, "metric = run.metric_ids_to_metrics([metricId])", "metric = run.metrics[:1] if len(run.metrics) == 1 else run.metric_ids_to_metrics([metricId])")]),
("c09-relpath", "C09", [(W, 'self.out_dir = os.path.relpath(out_dir, ".")', 'self.out_dir = os.path.basename(os.path.normpath(out_dir))')]),
("c09-runid", "C09", [(H, "            runId = startRunId\n", "            runId = runlist.runs[0][\"maf_run_id\"]\n")]),
("c09-multi", "C09", [(W, 'plot_match = plot_metric_match[np.isin(plot_metric_match["plot_type"], plot_type)]', 'plot_match = plot_metric_match[plot_metric_match["plot_type"] == plot_type]')]),
("c09-json-cache", "C09", [(W, "        m_b = metricBundles.create_empty_metric_bundle()\n        m_b.read(datafile)\n        io = m_b.output_json()", "        cache = MafRunResults.__dict__.get('_cache')\n        if cache is None:\n            cache = {}\n            MafRunResults._cache = cache\n        if datafile not in cache:\n            m_b = metricBundles.create_empty_metric_bundle()\n            m_b.read(datafile)\n            cache[datafile] = m_b\n        io = cache[datafile].output_json()")]),
]
