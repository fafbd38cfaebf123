V = "rubin_sim/sim_archive/vseqmetadata.py"
U = "rubin_sim/sim_archive/util.py"
Q = "rubin_sim/sim_archive/sql/make_vseqmeta.sql"
MO = "rubin_sim/maf/metric_bundles/mo_metric_bundle.py"
MS = "rubin_sim/maf/slicers/mo_slicer.py"
MB = "rubin_sim/maf/batches/moving_objects_batch.py"
MJ = "rubin_sim/maf/run_moving_join.py"
SED = "rubin_sim/phot_utils/sed.py"
S = "rubin_sim/sim_archive/sim_archive.py"
P = "rubin_sim/sim_archive/prenight.py"
K = "rubin_sim/sim_archive/make_snapshot.py"
H = "rubin_sim/maf/plots/plot_handler.py"
B = "rubin_sim/maf/metric_bundles/metric_bundle.py"
G = "rubin_sim/maf/metric_bundles/metric_bundle_group.py"
MUT = [
("c17-naive", "C17", [(V, 'data["creation_time"] = creation_datetime.replace(tzinfo=timezone.utc)', 'data["creation_time"] = creation_datetime')]),
("c17-scale", "C17", [(V, "creation_utc = creation_time.utc\n", "creation_utc = creation_time\n"), (V, "creation_time.utc[0].datetime", "creation_time[0].datetime")]),
("c17-comment-naive", "C17", [(V, "comment_time = comment_utc.datetime.replace(tzinfo=timezone.utc)", "comment_time = comment_utc.datetime")]),
("c17-comment-tai", "C17", [(V, "comment_utc = Time.now().utc\n", "comment_utc = Time.now().tai\n")]),
("c17-night-utc", "C17", [(V, "            day_obs = datetime.now(timezone(timedelta(hours=-12))).date()\n\n        day_obs = dayobs", "            day_obs = datetime.now(timezone.utc).date()\n\n        day_obs = dayobs")]),
("c17-timenight", "C17", [(U, "dayobs.to_datetime(timezone=timezone(timedelta(hours=-12)))", "dayobs.to_datetime(timezone=timezone.utc)")]),
("c17-inttoday", "C17", [(U, "month = (dayobs // 100) % 100", "month = (dayobs // 100) % 12 or 12")]),
("c17-age-date", "C17", [(V, """                AND telescope = %s
                AND creation_time >= NOW() - INTERVAL '%s days'
            \"\"\"
            query_params = (first_day_obs""", """                AND telescope = %s
                AND creation_time >= DATE(NOW()) - INTERVAL '%s days'
            \"\"\"
            query_params = (first_day_obs""")]),
("c17-seconds", "C17", [(V, 'data["creation_time"] = creation_datetime.replace(tzinfo=timezone.utc)', 'data["creation_time"] = creation_datetime.replace(tzinfo=timezone.utc, microsecond=0)')]),
("c18-constraint-all", "C18", [(MS, "self.obs = self.all_obs.query(pandas_constraint)", "self.obs = self.obs.query(pandas_constraint)")]),
("c18-constraint-keep", "C18", [(MS, "        if pandas_constraint is None:\n            self.obs = self.all_obs\n        else:", "        if pandas_constraint is not None:")]),
("c18-sameclass", "C18", [(MO, "if (same_class or same_cols) and (stacker != stacker2):", "if same_class and (stacker != stacker2):")]),
("c18-nostackcheck", "C18", [(MO, "if (same_class or same_cols) and (stacker != stacker2):\n                    return False", "if (same_class or same_cols) and (stacker != stacker2):\n                    continue")]),
("c18-hval-accum", "C18", [(MO, "sso_obs = s.run(sso_obs, slice_point[\"orbit\"][\"H\"], Hval)", "sso_obs = s.run(sso_obs, slice_point[\"orbit\"][\"H\"], slice_point[\"Hvals\"][0])")]),
("c18-badchild", "C18", [(MO, """                        if m_val == b.metric.badval:
                            b.metric_values.mask[i][j] = True
                            for cb in b.child_bundles.values():
                                cb.metric_values.mask[i][j] = True
""", """                        if m_val == b.metric.badval:
                            b.metric_values.mask[i][j] = True
""")]),
("c18-nodata-child", "C18", [(MO, """                        b.metric_values.mask[i][j] = True
                        for cb in list(b.child_bundles.values()):
                            cb.metric_values.mask[i][j] = True
                    # Otherwise""", """                        b.metric_values.mask[i][j] = True
                    # Otherwise""")]),
("c18-childfirst", "C18", [(MO, "child_val = cb.metric.run(sso_obs, slice_point[\"orbit\"], Hval, m_val)", "child_val = cb.metric.run(sso_obs, slice_point[\"orbit\"], slice_point[\"Hvals\"][0], m_val)")]),
("c18-joinmask", "C18", [(MB, "np.where(metric_values_mask & mbSubsets[i]", "np.where(metric_values_mask | mbSubsets[i]")]),
("c18-joinfill", "C18", [(MB, "mbSubsets[i].metric_values.filled(0)", "mbSubsets[i].metric_values.data")]),
("c18-joinslicer", "C18", [(MB, "if not (same_h and same_orbits):", "if not same_h:")]),
("c18-joinh", "C18", [(MB, "if not (same_h and same_orbits):", "if not same_orbits:")]),
("c18-jointryskip", "C18", [(MB, "        subsets[i].read(os.path.join(ddir, metricfile))\n", "        try:\n            subsets[i].read(os.path.join(ddir, metricfile))\n        except OSError:\n            del subsets[i]\n")]),
("c18-nine", "C18", [(MJ, "splits = np.arange(0, 10, 1)", "splits = np.arange(0, 9, 1)")]),
("c18-joinmagic", "C18", [(MJ, """            elif "HighVelocity" in mname:
                metricNames.append(mname)
""", "")]),
("c18-idcol", "C18", [(MS, "obs = self.obs.query('obj_id == \"%s\"' % (orb[\"obj_id\"]))", "obs = self.obs[self.obs[\"obj_id\"].str.startswith(str(orb[\"obj_id\"]))]")]),
("c18-eqh", "C18", [(MS, "if np.array_equal(other_slicer.slice_points[\"H\"], self.slice_points[\"H\"]):", "if len(other_slicer.slice_points[\"H\"]) == len(self.slice_points[\"H\"]):")]),
("c18-sumchild", "C18", [(MO, "        if len(child_metrics) > 0:\n            self.summary_metrics = []", "        self.summary_metrics = []")]),
("c19-range-open", "C19", [(SED, "numpy.logical_and(wav >= wavelen_min, wav <= wavelen_max)", "numpy.logical_and(wav > wavelen_min, wav <= wavelen_max)")]),
("c19-range-lo", "C19", [(SED, "        if wavelen_min is None:\n            wavelen_min = 0.0\n", "        if wavelen_min is None:\n            wavelen_min = 300.0\n")]),
("c19-nocopy", "C19", [(SED, "sourceflambda = numpy.copy(cached_source[1])", "sourceflambda = cached_source[1]")]),
("c19-version-any", "C19", [(SED, "                elif info[0] != sed_dir:\n                    must_generate = True\n", ""), (SED, "        if any(not name.startswith(os.path.join(sed_dir, \"\")) for name in _global_lsst_sed_cache):\n            _global_lsst_sed_cache = _generate_sed_cache(cache_dir, sed_cache_name)\n", "")]),
("c19-noversion", "C19", [(SED, "                elif info[0] != sed_dir:\n                    must_generate = True\n", "")]),
("c19-raise", "C19", [(SED, "        print(ee)\n", "        raise\n")]),
("c19-basename", "C19", [(SED, "_global_misc_sed_cache[filename] = (", "_global_misc_sed_cache[unzipped_filename[:-1]] = (")]),
("c19-misc-first", "C19", [(SED, "        if cached_source is None and _global_misc_sed_cache is not None:", "        if _global_misc_sed_cache is not None:")]),
("c19-exist", "C19", [(SED, "    os.makedirs(cache_dir, exist_ok=True)", "    if not os.path.exists(cache_dir):\n        os.mkdir(cache_dir)")]),
("c19-inplace", "C19", [(SED, "        os.replace(part_name, os.path.join(cache_dir, cache_name))\n", "        import shutil\n        shutil.copyfile(part_name, os.path.join(cache_dir, cache_name))\n        os.remove(part_name)\n")]),
("c19-partname", "C19", [(SED, '"%s.%d.part" % (cache_name, os.getpid())', '"%s.part" % cache_name')]),
("c20-kw", "C20", [(S, "case bool():\n                    opsim_metadata[\"sim_runner_kwargs\"][key] = value\n                ", "")]),
("c20-append", "C20", [(S, "filename=opsim_output_fname, delete_past=True", "filename=opsim_output_fname")]),
("c20-md-first", "C20", [(S, "    sim_metadata_fname.unlink(missing_ok=True)\n", "")]),
("c20-md-direct", "C20", [(S, "    partial_metadata_fname = data_path.joinpath(\"sim_metadata.yaml.partial\")", "    partial_metadata_fname = sim_metadata_fname")]),
("c20-arg", "C20", [(S, "opsim_metadata = {} if opsim_metadata is None else dict(opsim_metadata)", "opsim_metadata = {} if opsim_metadata is None else opsim_metadata")]),
("c20-last", "C20", [(S, "np.ceil(sim_runner_kwargs[\"sim_duration\"]) - 1", "np.ceil(sim_runner_kwargs[\"sim_duration\"])")]),
("c20-last2", "C20", [(S, "simulation_dates[\"last\"] = convert_mjd_to_dayobs(observations[\"mjd\"].max())", "simulation_dates[\"last\"] = convert_mjd_to_dayobs(observations[\"mjd\"][-1])")]),
("c20-floor", "C20", [(S, "evening_local_mjd = np.floor(mjd - 0.5).astype(int)", "evening_local_mjd = np.floor(mjd - 0.6).astype(int)")]),
("c20-rewards-keep", "C20", [(S, "        rewards_fname.unlink(missing_ok=True)\n", "")]),
("c20-sched-after", "C20", [(S, """        scheduler_path = Path(local_data_dir).joinpath("scheduler.pickle.xz")
        with lzma.open(scheduler_path, "wb", format=lzma.FORMAT_XZ) as pio:
            pickle.dump(scheduler, pio)
            in_files["scheduler"] = scheduler_path.as_posix()
""", ""), (S, """        LOGGER.debug("sim_runner complete.")
""", """        LOGGER.debug("sim_runner complete.")
        scheduler_path = Path(local_data_dir).joinpath("scheduler.pickle.xz")
        with lzma.open(scheduler_path, "wb", format=lzma.FORMAT_XZ) as pio:
            pickle.dump(scheduler, pio)
            in_files["scheduler"] = scheduler_path.as_posix()
""")]),
("c20-collide", "C20", [(S, """        while name in used_names:
            name = f"{file_type}_{name}"
""", "")]),
("c20-nights", "C20", [(P, "day_obs_end_night = day_obs_start_night + sim_nights - 1", "day_obs_end_night = day_obs_start_night + max(sim_nights - 1, 0)")]),
("c20-delay", "C20", [(P, "delay / (24 * 60.0)", "delay / (24 * 3600.0)")]),
("c20-sunset", "C20", [(P, 'sim_start_mjd = sunsets["sun_n12_setting"]', 'sim_start_mjd = sunsets["sunset"]')]),
("c20-seed", "C20", [(P, 'anom_overhead_args["seed"] = anom_overhead_seed', 'anom_overhead_args["seed"] = anom_overhead_seed or None')]),
("c20-rngstate", "C20", [(P, 'self.scatter_kwargs["random_state"] = self.rng', 'self.scatter_kwargs["random_state"] = None')]),
("c20-minover", "C20", [(P, "overhead_offset = self.min_overhead - model_overhead", "overhead_offset = self.min_overhead")]),
("c20-scatterarg", "C20", [(P, "self.scatter_kwargs = deepcopy(scatter_kwargs)", "self.scatter_kwargs = scatter_kwargs")]),
("c20-noobs", "C20", [(P, "    observatory.mjd = sim_start_mjd\n", "")]),
("c20-telescope", "C20", [(P, 'opsim_metadata={"telescope": telescope}', 'opsim_metadata={"telescope": "simonyi"}')]),
("c20-rewards2", "C20", [(P, "(None, None) if len(results) < 5 else results[3:5]", "(None, None) if len(results) < 6 else results[3:5]")]),
("c20-gz", "C20", [(K, '    elif file_name.endswith(".gz"):\n        opener = gzip.open\n', "")]),
("c20-partial", "C20", [(K, 'partial_name = f"{file_name}.partial.{os.getpid()}"', "partial_name = file_name")]),
("c20-novisits", "C20", [(K, "        if len(obs) > 0:\n            scheduler.add_observations_array(obs)", "        if len(obs) > 1:\n            scheduler.add_observations_array(obs)")]),
("c20-nside", "C20", [(K, "        nside=scheduler.nside,\n", "        nside=32,\n")]),
("c21-norecord", "C21", [(H, "            self.results_db.update_plot(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)", "            if metric_id > 1:\n                self.results_db.update_plot(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)")]),
("c21-order", "C21", [(H, """        self._write_fig(
            fig,
            plot_file,
            dpi=self.dpi,
            bbox_inches="tight" if self.trim_whitespace else None,
            format=self.fig_format,
        )
""", ""), (H, """            self.results_db.update_plot(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)
""", """            self.results_db.update_plot(metric_id=metric_id, plot_type=plot_type, plot_file=plot_file)
        self._write_fig(
            fig,
            plot_file,
            dpi=self.dpi,
            bbox_inches="tight" if self.trim_whitespace else None,
            format=self.fig_format,
        )
""")]),
("c21-direct", "C21", [(H, 'partial_path = f"{path}.partial.{os.getpid()}"', "partial_path = path")]),
("c21-dictleak", "C21", [(H, "self.plot_dicts = [{} for b in self.m_bundles]", "self.plot_dicts = [{}] * len(self.m_bundles)")]),
("c21-noreset", "C21", [(H, "        self.set_plot_dicts(reset=True)\n", "        self.set_plot_dicts(reset=not hasattr(self, 'plot_dicts') or len(self.plot_dicts) != len(self.m_bundles))\n")]),
("c21-fileroot", "C21", [(H, 'outfile += "_" + self.m_bundles[0].slicer.slicer_name[:4].upper()', "pass")]),
("c21-joinruns", "C21", [(H, 'outfile = "_".join([self.joint_run_names, self.joint_metric_names, self.joint_metadata])', 'outfile = "_".join([self.joint_run_names, self.joint_metric_names])')]),
("c21-runset", "C21", [(H, "self.run_names = sorted(set(m_b.run_name for m_b in self.m_bundles))", "self.run_names = list(set(m_b.run_name for m_b in self.m_bundles))")]),
("c21-commonset", "C21", [(H, "common = [x for x in splitmetas[0] if all(x in m for m in splitmetas)]", "common = set(splitmetas[0]).intersection(*splitmetas)")]),
("c21-combotype", "C21", [(H, 'plot_type = "Combo" + plot_type', "plot_type = plot_type")]),
("c21-thumbfmt", "C21", [(H, 'thumb_file = "thumb." + outfile_root + "_" + plot_type + ".png"', 'thumb_file = "thumb." + outfile_root + ".png"')]),
("c21-constraint", "C21", [(H, 'self.constraints = "; ".join(constraints)', "self.constraints = constraints[0] if constraints else ''")]),
("c21-figreuse", "C21", [(H, "        # Make plot.\n        fig = None\n", "        # Make plot.\n        fig = plt.gcf().number if plt.get_fignums() else None\n")]),
("c21-label", "C21", [(H, 'tmp_plot_dict["label"] = auto_label_list[i]', 'tmp_plot_dict["label"] = auto_label_list[0]')]),
("c21-update", "C21", [(H, "tmp_plot_dict.update(bundle.plot_dict)", "tmp_plot_dict.update(self.m_bundles[0].plot_dict)")]),

("c22-tagslast", "C22", [(V, 'for key in ["telescope", "tags", "scheduler_version"]:', 'for key in ["telescope", "scheduler_version"]:')]),
("c22-nover", "C22", [(V, 'for key in ["telescope", "tags", "scheduler_version"]:', 'for key in ["telescope", "tags"]:')]),
("c22-impver", "C22", [(V, 'for key in ["scheduler_version", "telescope"]:', 'for key in ["telescope"]:')]),
("c22-idxsec", "C22", [(V, '+ timedelta(seconds=int(sim_index))', '+ timedelta(minutes=int(sim_index))')]),
("c22-onetable", "C22", [(U, "            for key in store.keys():\n                # Remove", "            for key in store.keys()[:1]:\n                # Remove")]),
("c22-mode", "C22", [(U, 'hdf5_mode = "a"', 'hdf5_mode = "w"')]),
("c22-index", "C22", [(U, "df.to_sql(table_name, conn, index=False)", "df.to_sql(table_name, conn, index=True)")]),
("c22-dup", "C22", [(U, 'df = pd.read_sql_query(f"SELECT * FROM {table}", conn)', 'df = pd.read_sql_query(f"SELECT DISTINCT * FROM {table}", conn)')]),
("c22-comment", "C22", [(V, '{sim_date_str}, {sim_index}")', '{sim_date_str}, {int(sim_index) + 1}")')]),
("c22-first", "C22", [(V, '        for side in ["first", "last"]:\n            try:', '        for side in ["first"]:\n            try:')]),
("c22-strtags", "C22", [(V, 'valid_tags = [t for t in sim_archive_metadata["tags"] if isinstance(t, str)]', 'valid_tags = [t for t in sim_archive_metadata["tags"] if isinstance(t, str)][:1]')]),
("c22-mark", "C22", [(V, 'self.tag(sim_uuid, "from_prototype_sim_archive")', 'self.tag(sim_uuid, "prototype_sim_archive")')]),
("c22-noobs", "C22", [(V, '            for file_type in sim_archive_metadata["files"]:\n                file_rp', '            for file_type in set(sim_archive_metadata["files"]) - {"stats"}:\n                file_rp')]),
("c22-base", "C22", [(V, 'metadata["files"][file_type]["url"] = sim_archive_rp.join(fname).geturl()', 'metadata["files"][file_type]["url"] = ResourcePath(proto_sim_archive_uri).join(fname).geturl()')]),
("c22-find-tel", "C22", [("rubin_sim/sim_archive/prototype.py", 'if "telescope" in sim and sim["telescope"].lower()', 'if "tele" in sim and sim["telescope"].lower()')]),
("c22-nextid", "C22", [("rubin_sim/sim_archive/prototype.py", "    insert_date, new_id, proto_sim_rpath = _next_sim_date_and_index(proto_sim_archive_url)\n    metadata = yaml", "    insert_date, new_id, proto_sim_rpath = _next_sim_date_and_index(proto_sim_archive_url)\n    proto_sim_rpath = ResourcePath(proto_sim_archive_url).join(str(insert_date), forceDirectory=True).join(str(max(1, int(new_id) - 1)), forceDirectory=True)\n    metadata = yaml")]),
("c22-cli-index", "C22", [("rubin_sim/sim_archive/vseqarchive.py", "        sim_date,\n        sim_index,\n        proto_sim_archive_url,", "        sim_date,\n        sim_index.split('/')[-1] if len(sim_index) > 1 else '1',\n        proto_sim_archive_url,")]),
]
