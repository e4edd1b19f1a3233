"""P22: parameters of an SQL statement get the value meant for them, or the statement does not run"""
from checks import core as K
from checks import sqlrules as R
from harness import parallel

MIN = {"bind": 1000}
EXPLAIN = ("cee_sqlite3_bind_run_sql is analysed for statements of all kinds with up to three parameters and bindings of all types. Rule bind: each parameter has exactly the value its binding says when the statement runs (the given datum, else the value in the binding, else for a "
           "required column of an insert 0 or empty text), a parameter without any binding keeps the statement from running and is reported, and result and status are what SQLite said.")
ASSUME = ["malloc succeeds", "SQLite does what its documentation says (every documented outcome of each call is followed)", "the JSON and core functions underneath are those of P07 to P18"]


def run(ctx):
    c = K.Core(ctx, "sql")
    jobs = []
    for cls in (R.Bind,):
        r = cls(ctx, c, False)
        for j in r.jobs(ctx.tier == "thorough"):
            jobs.append(lambda x, r=r, j=j: (setattr(r, "ctx", x), j()))
    parallel(ctx, jobs)
