PROPERTY = "C17"
NEEDS = "a process whose time zone is not UTC, near the change of the night"
BREAKS = "the current night is taken from the local clock"
F = "rubin_sim/sim_archive/vseqmetadata.py"
EDITS = [(F, '''        if first_day_obs is None:
            first_day_obs = datetime.now(timezone(timedelta(hours=-12))).date()
''', '''        if first_day_obs is None:
            first_day_obs = (datetime.now() - timedelta(hours=12)).date()
''')]
DEMO = open("/verif/tools/seeds/pgdemo.txt").read() + '''
import time, datetime
night = datetime.datetime.now(datetime.timezone(datetime.timedelta(hours=-12))).date()
u = vs.record_visitseq_metadata(visits, "a", table="simulations", first_day_obs=night, last_day_obs=night)
ok = True
for tz in ("UTC", "Etc/GMT+12", "Etc/GMT-14"):
    os.environ["TZ"] = tz; time.tzset()
    found = [str(x) for x in vs.sims_on_nights(tags=())["visitseq_uuid"]]
    print(tz, found)
    ok = ok and found == [str(u)]
sys.exit(0 if ok else 1)
'''
