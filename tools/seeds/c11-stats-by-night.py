PROPERTY = "C11"
NEEDS = "a failure (lost connection, conflict) between the statistics of one night and the next"
BREAKS = "only some of the nights' statistics are recorded, and the recording cannot be repeated"
F = "rubin_sim/sim_archive/vseqmetadata.py"
EDITS = [(F, '''            num_rows_added = stats_df.to_sql(
                "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
            )
            assert num_rows_added == len(stats_df)
''', '''            for _, night_df in stats_df.groupby("day_obs"):
                num_rows_added = night_df.to_sql(
                    "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
                )
                assert num_rows_added == len(night_df)
''')]
DEMO = open("/verif/tools/seeds/pgdemo.txt").read() + '''
from rubin_sim.sim_archive.vseqarchive import compute_nightly_stats
u = vs.record_visitseq_metadata(visits, "a", table="simulations")
v = pd.DataFrame({"observationStartMJD": [60900.1, 60900.2, 60901.1, 60902.1], "airmass": [1.0, 1.1, 1.2, 1.3]})
stats = compute_nightly_stats(v, ["airmass"])
stats["count"] = stats["count"].astype(int)
bad = stats.copy()
bad.loc[bad.index[-1], "value_name"] = None
try:
    vs.insert_nightly_stats(u, bad)
    print("accepted?")
except Exception as e:
    print(type(e).__name__)
n = len(vs.query_nightly_stats(u))
print("rows after the failure:", n)
try:
    vs.insert_nightly_stats(u, stats)
    ok = n == 0 and len(vs.query_nightly_stats(u)) == 3
except Exception as e:
    print(type(e).__name__)
    ok = False
sys.exit(0 if ok else 1)
'''
