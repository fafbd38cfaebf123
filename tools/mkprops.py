import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","A results database can be opened after any crash or concurrent creation",
  "Opening the MAF results database of an output directory always succeeds and yields a complete, usable schema with its creation version recorded exactly once, no matter at which instant an earlier process that was creating or using it was killed, and no matter how several processes that open the same new directory at once are interleaved. Everything acknowledged before the crash is still there, and re-opening an existing database never alters its contents.",
  ["crash_points","schedules","histories"],"for every crash instant (any I/O call or statement boundary) of a creating/using process, every interleaving of up to 4 processes opening the same directory, every sequence of re-opens",
  "tests open one fresh database in one process and never crash it; the file-exists-but-no-tables window is never visited",
  ["rubin_sim/maf/db/results_db.py","rubin_sim/maf/run_moving_calc.py"],
  [("table creation and version record at open","rubin_sim/maf/db/results_db.py: ResultsDb.__init__")],
  [("resultsDb_sqlite.db","sqlite file with metrics, displays, plots, summarystats, version","<out_dir>")],
  ["ResultsDb(...) and every get_* call","version table"])
p("C02","Results database records match the acknowledged history of updates",
  "For every history of metric, display, plot and summary-statistic updates made by one or more processes (interleaved arbitrarily, with any of them killed at any point and restarted), what the query methods return is exactly what the acknowledged updates imply: registering the same metric again returns the same id and adds nothing but the name of its data file where none was recorded, a metric has at most one display record and the newest overwrite wins, plots and summary statistics are each recorded exactly once per acknowledged call with the value given, and filters select exactly the matching records. An update cut off by a crash is either completely there or completely absent (a multi-valued summary statistic may be a prefix), and no update touches records of other metrics.",
  ["histories","schedules","crash_points"],"every bounded operation history over 1-3 processes, every interleaving at statement/commit boundaries, every crash point; the same metric is registered or overwritten by one process at a time",
  "tests insert a handful of fixed rows in one process and read some back; no histories, interleavings, or crash points",
  ["rubin_sim/maf/db/results_db.py"],
  [("check-before-insert, delete+insert in one transaction, commit per record","rubin_sim/maf/db/results_db.py: update_metric, update_display, update_plot, update_summary_stat"),("joins and filters","rubin_sim/maf/db/results_db.py: get_*")],
  [],["ResultsDb query methods from a fresh process"])
p("C03","A results update under lock contention or I/O errors takes effect or raises",
  "When the results database is locked by another process for any length of time, or its storage reports I/O errors or a full disk, every update either takes full effect exactly once and returns, or raises and has no effect: it is never silently dropped, half-applied or duplicated by a retry. Saving a summary statistic retries a locked database for the documented number of tries with the documented pause between them before it raises, and once the fault ends the same handle serves the next request.",
  ["fault_sequences","schedules","histories"],"every placement and duration of lock holds, EIO/ENOSPC errors over histories of updates, every ntry/pause_time/timeout setting",
  "no test ever locks the database or injects a storage error; the retry branch is never executed",
  ["rubin_sim/maf/db/results_db.py"],
  [("retry loop on a locked database, session rollback","rubin_sim/maf/db/results_db.py: update_summary_stat"),("sqlite busy timeout","rubin_sim/maf/db/results_db.py: ResultsDb.__init__")],
  [],["return/raise of each update, elapsed simulated time, final table contents"])
p("C04","The MAF tracking database keeps exactly one up-to-date record per run directory",
  "After any history of adding, re-adding and deleting runs, with processes killed at any point, interleaved with each other or hitting a locked database, the tracking database holds exactly one record for every directory whose last acknowledged operation was an add, with the latest acknowledged details and the run id first assigned to it, and none for deleted ones. Re-adding a directory is atomic: a crash or concurrent add of another run never loses the run, changes its id or gives its id away; an explicitly requested id that is taken is refused without effect.",
  ["histories","crash_points","schedules"],"every bounded history of add/re-add/delete over several directories and 1-3 processes, every crash point and interleaving; one directory is registered by one process at a time",
  "tests add and delete a run once in one process",
  ["rubin_sim/maf/db/tracking_db.py"],
  [("delete + re-insert of the same id","rubin_sim/maf/db/tracking_db.py: TrackingDb.add_run"),("lookup of run name and version in the run's results database","rubin_sim/maf/db/tracking_db.py: add_run_to_database")],
  [("trackingDb_sqlite.db","runs table","given by the caller")],["runs table read by a fresh process; MafTracking.runs"])
p("C05","Saved metric results are never torn and always agree with the results database",
  "A metric result that was saved and acknowledged reads back exactly (values, mask, fill value, slicer name, shape and slice points, metric name, run, constraint and info label) in any later process, whatever happens afterwards; if a save is killed or fails at any I/O call, the file reads back as the complete previous result or the complete new one or, when there was no previous one, may be absent, never as garbage. Every data file that saving a result records in the results database exists and holds a saved result of exactly that metric record (metric, run, constraint, info label), for every suffix, name and overwrite history of metrics with different file names.",
  ["crash_points","fault_sequences","histories","inputs"],"every save/overwrite history over several metrics and slicers, every I/O call as crash, EIO, ENOSPC or short-write point",
  "the tests write one file and read it back without faults; overwrite, suffix and crash paths are not exercised",
  ["rubin_sim/maf/metric_bundles/metric_bundle.py","rubin_sim/maf/slicers/base_slicer.py","rubin_sim/maf/slicers/mo_slicer.py"],
  [("npz file written before the database row","rubin_sim/maf/metric_bundles/metric_bundle.py: MetricBundle.write"),("array, mask and header serialisation","rubin_sim/maf/slicers/base_slicer.py: write_data, read_data")],
  [],["MetricBundle.read / create_empty_metric_bundle in a fresh process; ResultsDb.get_metric_data_files"])
p("C06","A metric batch gives the same results however it is grouped, crashed or rerun",
  "Running a group of metric bundles gives each bundle the same metric values, masks, reduced values, summary statistics and saved files as running that bundle alone on the same visits, whatever the order and mix of bundles, constraints, stackers, maps and slice caching. If the batch is killed at any point and rerun, the final saved files, metric records and displays are the same as after an undisturbed run, with no metric recorded twice and every statistic recorded with the same value, and results saved before the kill stay readable throughout; reading the batch back restores every saved bundle, including reduced ones. A constraint that selects no visits or needs a missing column only drops its own bundles.",
  ["configurations","crash_points","histories","schedules"],"every generated batch (bundles x constraints x stackers x slicers x cache on/off x hash order), every kill point followed by a rerun",
  "tests run a few fixed bundles once without crashes and never compare grouped with individual runs",
  ["rubin_sim/maf/metric_bundles/metric_bundle_group.py","rubin_sim/maf/metric_bundles/metric_bundle.py","rubin_sim/maf/slicers/base_slicer.py","rubin_sim/maf/stackers/base_stacker.py"],
  [("compatible grouping","rubin_sim/maf/metric_bundles/metric_bundle_group.py: _check_compatible, _find_compatible_lists"),("save early","rubin_sim/maf/metric_bundles/metric_bundle_group.py: _run_compatible"),("read back","rubin_sim/maf/metric_bundles/metric_bundle_group.py: read_all")],
  [],["bundle.metric_values, summary_values, npz files, ResultsDb contents"])
p("C07","Gathering run summaries reports every committed statistic and disturbs nothing",
  "Gathering summary statistics over any list of run directories yields one row per run name holding the latest committed value (of the last directory in the list, when several have the same run name) of every statistic of every readable results database, including databases in use by a running process or left behind by a killed one, and no value that was not committed. A directory without a results database is skipped without failing the rest, and gathering never creates or changes anything in the run directories (beyond rolling back the unfinished transaction of a killed process).",
  ["histories","schedules","crash_points"],"every set of run directories (finished, in progress, killed at any point, empty, missing), every interleaving of the gather with a writer",
  "tests gather two finished directories only",
  ["rubin_sim/maf/run_comparison/gather_summaries.py","rubin_sim/maf/db/results_db.py"],
  [("per-directory query and pivot","rubin_sim/maf/run_comparison/gather_summaries.py: combine_result_dbs")],[],["returned table, directory listings before/after"])
p("C08","A downloaded simulation database is complete or absent",
  "After any sequence of download attempts in which transfers are cut short, stall, fail or the process is killed at any point, a destination file that exists is byte-for-byte the complete source (or the complete earlier version when overwriting), so that a later call which skips existing files never accepts a truncated one. A later undisturbed call always ends with every requested run present and complete, and runs that already exist are left untouched unless overwriting was requested.",
  ["fault_sequences","crash_points","histories"],"every history of download calls over several runs, every transfer fault (reset, truncation, wrong length, error before/after data) and kill point",
  "download is not tested at all (needs network)",
  ["rubin_sim/maf/run_comparison/archive.py"],
  [("exists check, urlretrieve","rubin_sim/maf/run_comparison/archive.py: download_runs")],[],["files in the destination directory, returned table"])
p("C09","The show_maf server always serves the current tracked runs",
  "Whatever the interleaving of page requests with processes that add, update or delete runs and write results, each response of the show_maf application reflects a state of the tracking database no older than the last change that completed before the request and never mixes runs up: the list shows every tracked run once with its current details, each page shows the metrics, statistics, captions and plots of the run it was asked for (including all results recorded when it is first asked for after the tracking database changed), and data requests return the data file recorded for the requested metric. The server keeps answering after any request, malformed or not, or update that fails, and after the tracking database was locked.",
  ["schedules","histories","fault_sequences"],"every history of requests interleaved with tracking/results updates, failed or malformed requests, and clock steps between them",
  "there are no tests of the web application or of cache invalidation",
  ["rubin_sim/maf/show_maf.py","rubin_sim/maf/web/maf_tracking.py","rubin_sim/maf/web/maf_run_results.py"],
  [("mtime stamp check and per-run page cache","rubin_sim/maf/web/maf_tracking.py: _check_db, get_run"),("request handlers","rubin_sim/maf/show_maf.py")],[],["HTTP responses, MafTracking.runs / get_run"])
p("C10","Visit sequence metadata behaves like one sequential, consistent archive",
  "For every history of recording sequences, updating fields and URLs, tagging, untagging, commenting, and registering files by several concurrent clients, every returned value and every query (metadata, URLs, tags, comments, files, hashes, simulations covering given nights with given tags, telescope and age, their statistics, daily ids) is what some sequential execution of the acknowledged operations, consistent with their real-time order, would give. Operations that must be refused (setting the URL or a field of an unknown sequence, an unknown field, registering a second file of a type without asking for an update) raise and change nothing, and the hash recorded for a sequence depends only on its visits.",
  ["histories","schedules","inputs"],"every bounded history over 1-3 clients and a few sequences, every interleaving at database statement boundaries",
  "tests call each method once against one sequence from one client",
  ["rubin_sim/sim_archive/vseqmetadata.py","sql/make_vseqmeta.sql"],
  [("one transaction per operation, primary keys, views","rubin_sim/sim_archive/vseqmetadata.py; sql/make_vseqmeta.sql")],
  [("vsmd schema","visitseq/simulations/completed/mixedvisitseq, tags, comments, files, nightly_stats, conda_env","PostgreSQL")],["public methods of VisitSequenceArchiveMetadata"])
p("C11","Recording a sequence is all-or-nothing under crashes and lost connections",
  "When a client recording a visit sequence, its statistics, tags, comments or files is killed, loses its database connection, or gets an error at any statement, afterwards the archive shows either everything that call records or nothing of it, never a sequence lacking details that were given; a call that returned is durable, and a call that raised because of its own arguments left nothing behind. Read-only queries never change the archive, even if their SQL would.",
  ["crash_points","fault_sequences","histories"],"every kill/disconnect/error point (before send, after execution, before and after commit) of every mutating call, over generated argument combinations",
  "tests never interrupt a call; partial records are not looked for",
  ["rubin_sim/sim_archive/vseqmetadata.py"],
  [("transaction boundaries and rollback","rubin_sim/sim_archive/vseqmetadata.py: query, record_*, insert_nightly_stats")],[],["archive contents read by a fresh client"])
p("C12","The archive client stays usable after any failures and never leaks connections",
  "After any sequence of successful calls, refused calls, server errors and lost connections, once faults stop every call of the same client object succeeds again after at most two failing attempts for each broken connection it held, for ever: the client never runs out of connections, never holds a transaction or lock open between calls, and no effect or session state of one call (uncommitted data, failed transaction) leaks into another.",
  ["fault_sequences","histories","schedules"],"every history of up to tens of calls of every kind with every fault placement",
  "tests use a new client for a few calls and never reach the pool limit or lose a connection",
  ["rubin_sim/sim_archive/vseqmetadata.py"],
  [("connection pool get/put, rollback on error, pre-ping","rubin_sim/sim_archive/vseqmetadata.py: __init__, query, pd_read_sql, insert_nightly_stats")],[],["call outcomes, server-side session list"])
p("C13","Archived files always match their registered hashes and read back unchanged",
  "For every history of adding, updating and refusing files and visit tables by several clients with crashes, storage errors and database errors at any point, the URL registered for a sequence and file type names a stored object whose content has exactly the registered SHA-256, and a refused or failed addition leaves previously archived content readable and unchanged. A visit table archived for a sequence reads back with the same visits in the same order, any query or stacker applied to exactly those visits, and different sequences or file types never share or overwrite each other's objects.",
  ["histories","crash_points","fault_sequences","schedules"],"every history of add/update over a few sequences, file types and file names by 1-2 clients; every fault point in storage and database calls (object puts are atomic)",
  "tests add one file once; no overwriting, refusal, or failure paths",
  ["rubin_sim/sim_archive/vseqarchive.py","rubin_sim/sim_archive/vseqmetadata.py"],
  [("content written before registration; hash registered with URL","rubin_sim/sim_archive/vseqarchive.py: add_file; vseqmetadata.py: register_file, set_visitseq_url")],[],["get_file_url/get_file_sha256 + object content; get_visits"])
p("C14","The pre-night index and selection return the newest valid simulation",
  "For every history of archived and tagged simulations, stored indexes, clock values and database outages (unreachable, refused, lost in mid-query), the pre-night index of a night holds exactly the pre-night simulations of that telescope that cover the night and are no more than the age limit old, with their metadata unchanged: taken from the database when it answers, otherwise from the index file stored for that night, and empty rather than an error when there is none. The latest simulation for a night or range of nights is the newest one in the index that covers all the nights, has every requested tag and is not older (in whole days) than the limit, or is reported as absent; its visits are exactly those of the requested nights and its statistics those of that simulation and night. A simulation looked up by creation night and number, or by UUID, is the one so identified, or reported as missing with ValueError, whichever form (string, integer, date) the night is given in and whichever source answered. No call changes its arguments.",
  ["histories","fault_sequences","inputs"],"every history of simulations with times around night, day and age boundaries; every outage of the database at any statement; every moment at which the stored index was written; every clock position",
  "tests use a couple of simulations made at the current time, with no outage and no clock control",
  ["rubin_sim/sim_archive/prenightindex.py","rubin_sim/sim_archive/sim_archive.py","rubin_sim/sim_archive/vseqarchive.py","rubin_sim/sim_archive/vseqmetadata.py"],
  [("database-first with bucket fallback","rubin_sim/sim_archive/prenightindex.py: get_prenight_index"),("latest selection","rubin_sim/sim_archive/prenightindex.py: select_latest_prenight_sim; sim_archive.py: find_latest_prenight_sim_for_nights, fetch_sim_for_nights, fetch_sim_stats_for_night"),("index file","rubin_sim/sim_archive/vseqarchive.py: make_prenight_index; prenightindex.py: get_prenight_index_from_bucket")],[],["returned tables, selections, visits and statistics"])
p("C15","Prototype archive entries are complete, unique and never overwritten",
  "However many processes add simulations to a prototype archive in a file system concurrently, and wherever any is killed or hits a storage error, every entry that the archive lists has all the files its metadata names with exactly the archived content, each successfully added simulation has its own entry (numbered after those already there on that UTC date) that later additions never change and whose file hashes check out, and an interrupted one is not listed at all. Listing a range of dates returns exactly the entries of those dates with their metadata, in whatever order the storage lists directories, with or without a metadata compilation (which, as documented, stands in for dates before the last one it includes), and a compilation that is interrupted leaves the previous one intact.",
  ["schedules","crash_points","fault_sequences","histories"],"every interleaving of 1-3 processes, every crash/error point in directory creation, file transfer and compilation, every sequence of archive/compile/list/check calls over a few days",
  "the prototype archive tests archive one simulation once, in one process, without failures",
  ["rubin_sim/sim_archive/prototype.py"],
  [("next index allocation","rubin_sim/sim_archive/prototype.py: _next_sim_date_and_index"),("files first, metadata last","rubin_sim/sim_archive/prototype.py: transfer_archive_dir"),("compiled metadata","rubin_sim/sim_archive/prototype.py: compile_sim_metadata, read_sim_metadata_from_hdf, read_archived_sim_metadata")],[],["read_archived_sim_metadata, check_opsim_archive_resource, archive tree"])
p("C16","The latest archived pre-night simulation reported is really the latest",
  "For every prototype archive history (any number of simulations per date; any mix of nights, tags or none, telescopes, labels and interrupted additions; any directory listing order; compiled or not) and every clock position, asking for the latest pre-night simulation for given nights returns the entry with the latest archiving date, and the highest number on that date, among those within the age limit (in UTC dates) that cover the nights, are for the telescope and have all the tags, with its own metadata and location; its visits are exactly those of the requested nights; and None is returned when there is no such entry. No call changes its arguments.",
  ["histories","inputs","schedules"],"every archive history and request over a few days, every listing order",
  "tests select from one or two simulations archived on the same date",
  ["rubin_sim/sim_archive/prototype.py"],
  [("selection loop","rubin_sim/sim_archive/prototype.py: find_latest_prenight_sim_for_nights, fetch_sim_for_nights")],[],["returned metadata and visits"])
p("C17","Recorded times denote the same instant in every time zone and clock setting",
  "A creation or comment time recorded in the archive denotes the same instant when read back, whatever the time zones of the client process, the database session and the server and whatever steps the clocks take between calls, and age limits follow that instant. This holds for times given in any astropy time scale, for times stamped by the clients' and server's own clocks however they differ, and at the turns of days, nights and daylight saving. Dates of observation given as string, integer, date, datetime or time mean the same night (the one of UTC minus 12 hours) everywhere they are accepted.",
  ["configurations","histories","inputs"],"every combination of client/session/server time zones, clock steps and instants around day, night and DST boundaries",
  "tests run in one fixed time zone setting chosen to make them pass",
  ["rubin_sim/sim_archive/vseqmetadata.py","rubin_sim/sim_archive/util.py","sql/make_vseqmeta.sql"],
  [("UTC conversion of times, dayobs conversion","rubin_sim/sim_archive/vseqmetadata.py: record_visitseq_metadata, comment; util.py: dayobs_to_date")],[],["get_visitseq_metadata, get_comments, sims_on_nights"])
p("C18","Moving-object results do not depend on grouping, splitting, crashes or reruns",
  "For every population of moving objects and its observations, the values, summary values and saved files of each metric bundle are those of that bundle run alone, whatever other bundles (with other metrics, stackers, constraints, child metrics) it is grouped with; splitting the population by object, calculating the parts in separate processes, killed and rerun at any point, and joining them gives the same values for every object and H magnitude as calculating it whole. A reader at any moment sees complete result files or none, and the results database lists what was calculated once.",
  ["histories","schedules","crash_points","inputs"],"every set of compatible or incompatible bundles, every split, any kill/rerun sequence and interleaving of processes",
  "tests calculate single moving-object metrics on fixed observations and never join split results",
  ["rubin_sim/maf/metric_bundles/mo_metric_bundle.py","rubin_sim/maf/batches/moving_objects_batch.py","rubin_sim/maf/run_moving_calc.py","rubin_sim/maf/run_moving_join.py","rubin_sim/maf/slicers/mo_obj_slicer.py"],
  [("grouping and combining of bundles","mo_metric_bundle.py: MoMetricBundleGroup; moving_objects_batch.py: combine_subsets"),("join of split results","moving_objects_batch.py: read_and_combine")],[],["results of run_moving_calc, run_moving_join"])
p("C19","Cached SEDs are the SEDs of the library",
  "Reading an SED of the library gives exactly the spectrum in its file, restricted to the wavelength range asked for, whether or not a cache is used, for every history of caches made and used by several processes, with processes killed and disk errors at any point, caches removed, files added to the library and libraries exchanged. Making the cache never fails because another process is making it or was killed while doing so, a cache which cannot be used is ignored, and changing an SED that was returned changes no other. The closest Kurucz model is the closest in temperature, then metallicity, then gravity.",
  ["histories","schedules","crash_points","fault_sequences","inputs"],"every history of cache builds, reads, kills, disk errors and library changes by any number of processes",
  "tests build one cache in one process and never interrupt or share it",
  ["rubin_sim/phot_utils/sed.py"],
  [("cache building and use","sed.py: cache_LSST_seds, read_sed_flambda, _load_from_cache"),("closest model","sed.py: read_close__kurucz")],[],["cached pickles","returned Sed objects"])
p("C20","What a simulation leaves behind is complete and says what it is",
  "A simulation data directory which has a sim_metadata.yaml has every file listed there with the recorded md5, and exactly the visits, rewards, input files, tags, label and dates of one simulation, however often the directory is filled again and wherever writers are killed or meet disk errors; without the metadata file it is incomplete. The arguments of the caller are never changed. drive_sim and run_prenight_sim keep their results and the scheduler as it was at the start; a pre-night simulation covers the nights asked for and its anomalous overhead is repeatable for a seed. Saved scheduler and observatory snapshots are complete or as they were before, and can be read back with every compression.",
  ["histories","crash_points","fault_sequences","inputs"],"every sequence of fills with any arguments, kills and disk errors at any write",
  "tests fill one directory once with one fixed simulation",
  ["rubin_sim/sim_archive/sim_archive.py","rubin_sim/sim_archive/prenight.py","rubin_sim/sim_archive/make_snapshot.py"],
  [("directory contents","sim_archive.py: make_sim_data_dir"),("driving simulations","sim_archive.py: drive_sim; prenight.py: run_prenight_sim, run_prenights"),("snapshots","make_snapshot.py: save_scheduler, get_scheduler, make_scheduler_snapshot_cli")],[],["simulation directories","snapshots"])
p("C21","Every recorded plot is there, complete, and of its own metric",
  "The figure and thumbnail of every plot listed in a results database exist, are complete, and show what the metric plotted on its own shows, whatever else it was grouped or combined with, however often it is plotted again, and wherever plotting is killed or meets disk errors. A plotting call which finishes has recorded all of its plots. Combined plots have the same names in every process, and different plots never share a file.",
  ["histories","schedules","crash_points","fault_sequences","inputs"],"every set of bundles, plotters and plot sets, any kill/rerun sequence and disk error at any write",
  "tests plot a few bundles in one process and look at none of the files",
  ["rubin_sim/maf/plots/plot_handler.py","rubin_sim/maf/metric_bundles/metric_bundle.py","rubin_sim/maf/metric_bundles/metric_bundle_group.py","rubin_sim/maf/db/results_db.py"],
  [("files and rows of a plot","plot_handler.py: plot, save_fig"),("plotting a group","metric_bundle_group.py: plot_all, plot_current")],[],["plot files and plot rows"])
p("C22","Simulations passed between the archives arrive complete and unchanged",
  "A simulation exported to the prototype archive is listed there only when all of its files and visits are, under distinct names, and with the label, telescope, tags, simulated dates, creation time and scheduler version of its source; the listing, the compiled metadata and the search for the latest simulation treat it like any other entry, also when its dates are not known. A simulation imported from the prototype archive has the visits, files with their hashes, tags, dates and creation time of the entry, once its import is marked finished. This holds for any mix of exporting, archiving and importing processes, wherever they are killed, lose their database session or meet disk errors; neither direction changes the source or another simulation.",
  ["histories","schedules","crash_points","fault_sequences"],"every sequence of exports, imports and archivings by 1-3 processes, any interleaving at statements and I/O, any kill, disk error or lost session",
  "tests import and export one fixed simulation in one process and compare a few columns",
  ["rubin_sim/sim_archive/prototype.py","rubin_sim/sim_archive/vseqmetadata.py","rubin_sim/sim_archive/vseqarchive.py"],
  [("export","prototype.py: export_sim_to_prototype_sim_archive; vseqmetadata.py: sim_metadata_yaml; vseqarchive.py: hdf5_to_opsimdb"),("import","vseqmetadata.py: import_sim_from_yaml, import_sim_from_prototype_sim_archive, metadata_yaml_from_prototype"),("search","prototype.py: find_latest_prenight_sim_for_nights, compile_sim_metadata, read_sim_metadata_from_hdf")],[],["prototype archive entries","visit sequence records"])
p("C23","Analysis commands leave complete, current, tracked results",
  "Running glance_dir, ddf_dir, scimaf_dir, metadata_dir or maf_night_report on a directory of simulations, or on one simulation anywhere, leaves in each simulation's own output directory the metrics, statistics and plots of that simulation as it is now, the same as if each metric had been run alone, and nothing of other simulations or of earlier runs (unless asked to keep it). Every analysed simulation is recorded exactly once in the tracking database, with its own name, database file, and analysis version and date; a directory is first recorded only when its results are complete; make_fbs_tracking_db records every listed simulation that has results, with its own versions and dates. This holds in whatever order the directory is read, wherever earlier runs were killed, and while other commands record their runs in the same database.",
  ["histories","schedules","crash_points"],"every sequence of the commands over 1-4 simulations in 1-3 processes, any kill at I/O or statements, any reruns and replaced simulations, any directory order",
  "the commands need data files and have no tests at all",
  ["rubin_sim/maf/glance_dir.py","rubin_sim/maf/ddf_dir.py","rubin_sim/maf/scimaf_dir.py","rubin_sim/maf/metadata_dir.py","rubin_sim/maf/maf_night_report.py","rubin_sim/maf/make_fbs_tracking_db.py"],
  [("clear, run, record","rubin_sim/maf/glance_dir.py, ddf_dir.py, scimaf_dir.py, metadata_dir.py"),("report of a night","rubin_sim/maf/maf_night_report.py"),("recording lists of simulations","rubin_sim/maf/make_fbs_tracking_db.py; db/tracking_db.py: add_run_to_database")],[],["results database and plots of each output directory","trackingDb_sqlite.db"])
# not applicable
na="tests sample a few inputs"
p("N01","Photometry obeys the AB magnitude and signal-to-noise definitions",
  "For every spectrum, bandpass and photometric parameter set, magnitudes, fluxes, zeropoints, SNR and limiting depths computed by the photometry tools satisfy their defining integrals and inverse relations.",
  ["inputs"],"all spectra, bandpasses and parameters",na,["rubin_sim/phot_utils/sed.py","rubin_sim/phot_utils/signaltonoise.py","rubin_sim/phot_utils/bandpass.py"],[("photometric integrals","rubin_sim/phot_utils")])
p("N02","Slicers partition the visits exactly",
  "For every visit table, each slicer assigns to each slice point exactly the visits satisfying its definition (bin, sky radius or footprint, unique value).",
  ["inputs"],"all visit tables and slicer settings",na,["rubin_sim/maf/slicers"],[("slice functions","rubin_sim/maf/slicers")])
p("N03","Metrics equal their documented statistics",
  "For every slice of visits, each metric and stacker returns its documented value, independent of the order of the visits.",
  ["inputs"],"all visit tables",na,["rubin_sim/maf/metrics","rubin_sim/maf/stackers"],[("metric run methods","rubin_sim/maf/metrics")])
p("N04","The sky brightness model interpolates its components consistently",
  "For every time and pointing, the modelled sky spectrum is the sum of its components interpolated between the stored models.",
  ["inputs"],"all times and pointings",na,["rubin_sim/skybrightness/sky_model.py","rubin_sim/skybrightness/interp_components.py"],[("interpolation","rubin_sim/skybrightness")])
p("N05","Moving-object observations are exactly the visits that saw the object",
  "For every orbit and pointing history, the generated observations are exactly the visits in which the object's position lies in the chosen footprint, with the right losses and colours, and Chebyshev fits stay within their stated tolerance.",
  ["inputs"],"all orbits and pointing histories",na,["rubin_sim/moving_objects/direct_obs.py","rubin_sim/moving_objects/base_obs.py","rubin_sim/moving_objects/cheby_fits.py"],[("rough and exact footprint tests","rubin_sim/moving_objects/direct_obs.py")])
p("N06","The self-calibration solver recovers the least-squares solution",
  "For every set of observations, the solver returns the least-squares patch and star magnitudes up to the known degeneracy.",
  ["inputs"],"all observation sets",na,["rubin_sim/selfcal/solver.py"],[("sparse lsqr","rubin_sim/selfcal/solver.py")])
p("N07","Satellite avoidance never schedules into a predicted streak",
  "For every constellation and pointing, predicted streak lengths and masked pixels follow from the propagated satellite positions.",
  ["inputs"],"all constellations and pointings",na,["rubin_sim/satellite_constellations/sat_utils.py"],[("streak computation","rubin_sim/satellite_constellations")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
