"""P26: opening, initialising and attaching databases"""
from checks import core as K
from checks import sqlrules as R
from harness import parallel

MIN = {"init": 20, "pragma": 3, "attach": 4}
EXPLAIN = ("Rule init: cee_sqlite3_init_db opens the file unless a database is given, runs the script once, between begin and commit if asked for, and hands out or closes the database; a failing call ends it. Rule pragma: the value of a pragma is its first column, 0 without a row. Rule attach: what is executed is the statement documented, on the database of the handle.")
ASSUME = ["malloc succeeds", "SQLite does what its documentation says (every documented outcome of each call is followed)", "the JSON and core functions underneath are those of P07 to P18"]


def run(ctx):
    c = K.Core(ctx, "sql")
    jobs = []
    for cls in (R.Open,):
        r = cls(ctx, c, False)
        for j in r.jobs(ctx.tier == "thorough"):
            jobs.append(lambda x, r=r, j=j: (setattr(r, "ctx", x), j()))
    parallel(ctx, jobs)
