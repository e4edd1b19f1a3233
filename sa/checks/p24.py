"""P24: changing rows does and reports what the operation says"""
from checks import core as K
from checks import sqlrules as R
from harness import parallel

MIN = {"insert": 20, "delete": 10, "update": 200, "select1_or_insert": 30, "array": 30}
EXPLAIN = ("The functions that insert, delete and update are analysed with every outcome of every statement. Rules insert, delete, update, select1_or_insert, array: which statements run, in which order and depending on what, with which parameters, what is returned and what the status reports.")
ASSUME = ["malloc succeeds", "SQLite does what its documentation says (every documented outcome of each call is followed)", "the JSON and core functions underneath are those of P07 to P18"]


def run(ctx):
    c = K.Core(ctx, "sql")
    jobs = []
    for cls in (R.Change,):
        r = cls(ctx, c, False)
        for j in r.jobs(ctx.tier == "thorough"):
            jobs.append(lambda x, r=r, j=j: (setattr(r, "ctx", x), j()))
    parallel(ctx, jobs)
