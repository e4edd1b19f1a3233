"""P21: every SQL statement prepared is finalized once and used only in between"""
from checks import core as K
from checks import sqlrules as R
from harness import parallel

MIN = {"statement": 1000}
EXPLAIN = ("All functions of the SQLite layer are analysed with every outcome of the calls they make to SQLite (prepare fails or not, step gives a row, the end, or an error, exec fails or not, ...). Rule statement: on every path "
           "each statement prepared is finalized once (or handed to the caller), nothing is done with it afterwards or when preparing failed, parameters are bound before the first step, columns are read only while a row is there, "
           "a database opened inside and not handed out is closed, and states made inside are deleted.")
ASSUME = ["malloc succeeds", "SQLite does what its documentation says (every documented outcome of each call is followed)", "the JSON and core functions underneath are those of P07 to P18"]


def run(ctx):
    c = K.Core(ctx, "sql")
    jobs = []
    for cls in (R.Bind, R.Select, R.Change, R.Driven, R.Open):
        r = cls(ctx, c, True)
        for j in r.jobs(ctx.tier == "thorough"):
            jobs.append(lambda x, r=r, j=j: (setattr(r, "ctx", x), j()))
    parallel(ctx, jobs)
