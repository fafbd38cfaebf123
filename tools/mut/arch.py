V = "rubin_sim/sim_archive/vseqmetadata.py"
A = "rubin_sim/sim_archive/vseqarchive.py"
I = "rubin_sim/sim_archive/prenightindex.py"
S = "rubin_sim/sim_archive/sim_archive.py"
P = "rubin_sim/sim_archive/prototype.py"
U = "rubin_sim/sim_archive/util.py"
MUT = [
("c10-ilike", "C10", [(V, "visitseq_uuid={} AND TAG={}", "visitseq_uuid={} AND TAG ILIKE {}")]),
("c10-like", "C10", [(V, "visitseq_uuid={} AND TAG={}", "visitseq_uuid={} AND TAG LIKE {}")]),
("c10-untag-like", "C10", [(V, "visitseq_uuid={} AND tag={} RETURNING tag", "visitseq_uuid={} AND tag ILIKE {} RETURNING tag")]),
("c10-lastnight", "C10", [(V, "query_params: Tuple = (first_day_obs, last_day_obs, telescope, tags_json, max_simulation_age)", "query_params: Tuple = (first_day_obs, first_day_obs, telescope, tags_json, max_simulation_age)")]),
("c10-lastnight2", "C10", [(V, "query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)", "query_params = (last_day_obs, last_day_obs, telescope, max_simulation_age)")]),
("c10-innerjoin", "C10", [(V, """            LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
            WHERE %s BETWEEN first_day_obs AND last_day_obs
                AND telescope = %s
                AND tags @> %s::JSONB""", """            JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
            WHERE %s BETWEEN first_day_obs AND last_day_obs
                AND telescope = %s
                AND tags @> %s::JSONB""")]),
("c10-age-date", "C10", [(V, """                AND telescope = %s
                AND tags @> %s::JSONB
                AND creation_time >= NOW() - INTERVAL '%s days'
            \"\"\"
            query_params: Tuple = (first_day_obs""", """                AND telescope = %s
                AND tags @> %s::JSONB
                AND DATE(creation_time) >= DATE(NOW()) - %s
            \"\"\"
            query_params: Tuple = (first_day_obs""")]),
("c10-anytag", "C10", [(V, """                AND tags @> %s::JSONB
                AND creation_time >= NOW() - INTERVAL '%s days'
            \"\"\"
            query_params: Tuple = (first_day_obs""", """                AND tags ?| ARRAY(SELECT JSONB_ARRAY_ELEMENTS_TEXT(%s::JSONB))
                AND creation_time >= NOW() - INTERVAL '%s days'
            \"\"\"
            query_params: Tuple = (first_day_obs""")]),
("c10-stats-allnights", "C10", [(V, """                WHERE ns.day_obs = %s
                GROUP BY ns.visitseq_uuid
            )
            SELECT s.*, ns.stats
            FROM {}.simulations_extra AS s
            LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
            WHERE %s BETWEEN first_day_obs AND last_day_obs
                AND telescope = %s
                AND tags @> %s::JSONB""", """                WHERE ns.day_obs <= %s
                GROUP BY ns.visitseq_uuid
            )
            SELECT s.*, ns.stats
            FROM {}.simulations_extra AS s
            LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
            WHERE %s BETWEEN first_day_obs AND last_day_obs
                AND telescope = %s
                AND tags @> %s::JSONB""")]),
("c10-author", "C10", [(V, "        if author is None:\n            query", "        if not author:\n            query")]),
("c10-url-cache", "C10", [(V, """        if file_type == "visits":
            # It's as easy""", """        cache = self.__dict__.setdefault("_urls", {})
        if (visitseq_uuid, file_type) in cache:
            return cache[visitseq_uuid, file_type]
        if file_type == "visits":
            # It's as easy"""), (V, "        url = result[0][0]\n        return url", "        url = result[0][0]\n        cache[visitseq_uuid, file_type] = url\n        return url")]),
("c10-jsonlimit", "C10", [(V, "json_failed = len(json_result) > JSON_DUMP_LIMIT", "json_failed = len(json_result) > JSON_DUMP_LIMIT // 64")]),
("c10-parentday", "C10", [(V, """            data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)""", """            data["parent_last_day_obs"] = dayobs_to_date(last_day_obs or parent_last_day_obs)""")]),
("c10-commentdedup", "C10", [(V, '"SELECT * FROM {}.comments WHERE visitseq_uuid = %s"', '"SELECT DISTINCT ON (comment) * FROM {}.comments WHERE visitseq_uuid = %s"')]),
("c10-simuuid-utc", "C10", [(V, "DATE(creation_time - INTERVAL '12 hours')", "DATE(creation_time)")]),
("c10-int-dayobs", "C10", [(U, "month = (dayobs // 100) % 100", "month = (dayobs // 100) % 100 or 12")]),
("c10-datetime", "C10", [(U, "dayobs.to_datetime(timezone=timezone(timedelta(hours=-12)))", "dayobs.to_datetime(timezone=timezone.utc)")]),
("c10-findtable", "C10", [(V, '("mixedvisitseq", "completed", "simulations", "visitseq")', '("visitseq", "mixedvisitseq", "completed", "simulations")')]),
("c10-hash-cols", "C10", [(V, "recs = visits.to_records()", "recs = visits.sort_index(axis=1).to_records()")]),
("c10-hash-noindex", "C10", [(V, "recs = visits.to_records()", "recs = visits.to_records(index=False)[:1000]")]),
("c10-conda", "C10", [(V, "present_packages = [p for p in packages if p in sw_versions.index]", "present_packages = [p for p in sw_versions.index if p in packages]")]),
("c11-stats-nightly", "C11", [(V, """            num_rows_added = stats_df.to_sql(
                "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
            )
            assert num_rows_added == len(stats_df)""", """            for _, night in stats_df.groupby("day_obs"):
                night.to_sql(
                    "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
                )""")]),
("c11-stats-inplace", "C11", [(V, "stats_df = nightly_stats.copy()", "stats_df = nightly_stats")]),
("c11-commit-reads", "C11", [(V, """                # in this transaction.
                connection.rollback()""", """                # in this transaction.
                connection.commit()""")]),
("c12-leak-closed", "C12", [(V, """            # the pool.
            if connection:
                self.pg_pool.putconn(connection)

        return result""", """            # the pool.
            if connection and not connection.closed:
                self.pg_pool.putconn(connection)

        return result""")]),
("c12-leak-pd", "C12", [(V, """        finally:
            if conn:
                self.pg_pool.putconn(conn)

        with""", """        except Exception:
            raise
        else:
            if not conn.closed:
                self.pg_pool.putconn(conn)

        with""")]),
("c12-leave-open", "C12", [(V, """            else:
                # If a commit was not requested, make sure
                # there were no alterations to the database
                # in this transaction.
                connection.rollback()
        except""", """        except""")]),
("c12-pool1", "C12", [(V, """            # If something went wrong, restore the
            # connection to a stable state before
            # returning it to the pool.
            if connection:
                try:
                    connection.rollback()
                except Exception:
                    pass
            LOGGER.exception("Failed to execute query: %s", e)
            raise""", """            LOGGER.exception("Failed to execute query: %s", e)
            if connection:
                connection.rollback()
                self.pg_pool.putconn(connection)
                connection = None
            raise""")]),
("c13-urlfirst", "C13", [(A, """    location, file_sha256 = _write_file_to_archive(origin, visitseq_base_rp)
    if file_type == "visits":
        vsarch.set_visitseq_url(uuid, location.geturl())""", """    if file_type == "visits":
        vsarch.set_visitseq_url(uuid, visitseq_base_rp.join(Path(origin).name).geturl())
    location, file_sha256 = _write_file_to_archive(origin, visitseq_base_rp)
    if file_type == "visits":
        vsarch.set_visitseq_url(uuid, location.geturl())""")]),
("c13-sort", "C13", [(U, 'f"SELECT * FROM {table}"', 'f"SELECT * FROM {table} ORDER BY 1 DESC"')]),
("c13-distinct", "C13", [(U, 'f"SELECT * FROM {table}"', 'f"SELECT DISTINCT * FROM {table}"')]),
("c13-query-after", "C13", [(A, """    if len(query) > 0:
        visits.query(query, inplace=True)

""", ""), (A, """        visits = pd.DataFrame(visit_records)

    return visits""", """        visits = pd.DataFrame(visit_records)

    if len(query) > 0:
        visits.query(query, inplace=True)

    return visits""")]),
("c13-reindex", "C13", [(A, "visits.query(query, inplace=True)", "visits = visits.query(query).sort_values(visits.columns[-1])")]),
("c13-nodir", "C13", [(A, '        .join(str(visitseq_uuid), forceDirectory=True)', '        .join("all", forceDirectory=True)')]),
("c13-update-ignored", "C13", [(A, "location = add_file(vsarch, uuid, new_origin, \"visits\", archive_base, update)", "location = add_file(vsarch, uuid, new_origin, \"visits\", archive_base, update)\n            Path(origin).unlink()")]),
("c14-age-ge", "C14", [(I, "if age > max_simulation_age:", "if age >= max_simulation_age:")]),
("c14-age-seconds", "C14", [(I, 'age = (pd.Timestamp.now(tz="UTC") - sim["creation_time"]).days', 'age = (pd.Timestamp.now(tz="UTC") - sim["creation_time"]) / pd.Timedelta(days=1)')]),
("c14-anytag", "C14", [(I, 'if not set(tags).issubset(sim["tags"]):', 'if not set(tags).intersection(sim["tags"]):')]),
("c14-age-before-tag", "C14", [(I, """        if best_sim is not None:
            if sim["creation_time"] < best_sim["creation_time"]:
                continue

        age =""", """        if best_sim is not None:
            if sim["sim_creation_day_obs"] < best_sim["sim_creation_day_obs"]:
                continue

        age =""")]),
("c14-fallback", "C14", [(I, "    except Exception:\n        # Fall back", "    except (OSError, ValueError):\n        # Fall back")]),
("c14-fallback-empty", "C14", [(I, "        # Fall back to the bucket\n", "        # Fall back to the bucket\n        telescope = telescope.lower() if telescope else 'simonyi'\n        telescope = 'simonyi'\n")]),
("c14-month", "C14", [(I, ".join(str(month))", ".join(f'{month:02d}')")]),
("c14-tel-break", "C14", [(I, """            maybe_sim_index_info[prenight_index.index.name] = visitseq_uuid
            break""", """            maybe_sim_index_info[prenight_index.index.name] = visitseq_uuid""")]),
("c14-telescopes", "C14", [(I, 'for telescope in TELESCOPES:\n        prenight_index = get_prenight_index(day_obs, telescope, **kwargs)\n        if len(prenight_index) == 0:', 'for telescope in TELESCOPES[:1]:\n        prenight_index = get_prenight_index(day_obs, telescope, **kwargs)\n        if len(prenight_index) == 0:')]),
("c14-nights", "C14", [(S, "    on_requested_dates = (first_day_obs <= visits", "    on_requested_dates = (first_day_obs <= visits[\"day_obs_iso8601\"]) | (first_day_obs <= visits")]),
("c14-stats-age", "C14", [(S, "stats_df.loc[stats_df[\"day_obs\"] == date.fromisoformat(day_obs), :]", "stats_df.loc[stats_df[\"day_obs\"] <= date.fromisoformat(day_obs), :]")]),
("c14-stats-tel", "C14", [(S, """                stats_maybe = sims_with_stats.loc[sim["visitseq_uuid"], "stats"]""", """                stats_maybe = sims_with_stats["stats"].iloc[-1]""")]),
("c14-lastnight", "C14", [(S, "sims_for_last_night = get_prenight_index(last_day_obs, telescope, **get_prenight_index_kwargs)", "sims_for_last_night = get_prenight_index(last_day_obs, **get_prenight_index_kwargs)")]),
("c14-maxage", "C14", [(I, "MAX_AGE = 365", "MAX_AGE = 30")]),
("c15-index-count", "C15", [(P, "new_id = max(found_ids) + 1 if len(found_ids) > 0 else 1", "new_id = len(found_ids) + 1")]),
("c15-index-str", "C15", [(P, "new_id = max(found_ids) + 1 if len(found_ids) > 0 else 1", "new_id = int(max(map(str, found_ids))) + 1 if len(found_ids) > 0 else 1")]),
("c15-meta-first", "C15", [(P, """    sim_metadata["files"]["metadata"] = {"name": "sim_metadata.yaml"}

    for""", """    sim_metadata["files"] = {"metadata": {"name": "sim_metadata.yaml"}} | sim_metadata["files"]

    for""")]),
("c15-localdate", "C15", [(P, "datetime.datetime.now(datetime.UTC).date().isoformat()", "(datetime.datetime.now(datetime.UTC) - datetime.timedelta(hours=12)).date().isoformat()")]),
("c15-range", "C15", [(P, "earliest_mjd = int(latest_mjd - (num_nights - 1))", "earliest_mjd = int(latest_mjd - num_nights)")]),
("c15-range2", "C15", [(P, "for mjd in range(earliest_mjd, latest_mjd + 1):", "for mjd in range(earliest_mjd, latest_mjd):")]),
("c15-cmp", "C15", [(P, "if verify_compilation or (iso_date >= max_compiled_date):", "if verify_compilation or (iso_date > max_compiled_date):")]),
("c15-tags", "C15", [(P, 'agg({"tag": list})', 'agg({"tag": lambda t: sorted(set(t))})')]),
("c15-md5", "C15", [(P, 'results[file_info["name"]] = file_info["md5"] == hashlib.md5(content).hexdigest()', 'results[file_info["name"]] = file_info["md5"][:4] == hashlib.md5(content).hexdigest()[:4]')]),
("c15-label", "C15", [(P, """        label = f"{label_base} {metadata['label']}\"""", """        label = f"{metadata['label']}\"""")]),
("c16-str", "C16", [(P, '(sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"])', '(sim["exec_date"], str(sim["date_index"])) < (best_sim["exec_date"], str(best_sim["date_index"]))')]),
("c16-order", "C16", [(P, """            if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
                continue
""", """            if sim["exec_date"] < best_sim["exec_date"]:
                continue
""")]),
("c16-overlap", "C16", [(P, 'if sim["simulated_dates"]["last"] < last_day_obs:', 'if sim["simulated_dates"]["last"] < first_day_obs:')]),
("c16-tel", "C16", [(P, 'if "telescope" in sim and sim["telescope"].lower() != telescope.lower():', 'if "telescope" in sim and sim["telescope"] not in telescope.lower() + "auxtel":')]),
("c16-age", "C16", [(P, "archive_uri, num_nights=max_simulation_age, compilation_resource=compilation_uri", "archive_uri, num_nights=max_simulation_age + 1, compilation_resource=compilation_uri")]),
("c16-local", "C16", [(P, """    if first_day_obs is None:
        first_day_obs = Time(Time.now().mjd - 0.5, format="mjd").iso[:10]
    if last_day_obs is None:
        last_day_obs = first_day_obs

    sim_metadata""", """    if first_day_obs is None:
        first_day_obs = Time(Time.now().mjd, format="mjd").iso[:10]
    if last_day_obs is None:
        last_day_obs = first_day_obs

    sim_metadata""")]),
]
