"""P23: rows come back as JSON exactly as they are"""
from checks import core as K
from checks import sqlrules as R
from harness import parallel

MIN = {"rows": 1000, "keyed": 1000, "iterate": 50, "next": 5, "join": 200}
EXPLAIN = ("The selecting functions are analysed for results of up to three rows, with all types of columns and every flag. Rule rows: the JSON has one element per row with one member per column of the right value. Rule keyed: cee_sqlite3_select_as, "
           "cee_sqlite3_select1_as and the wrapper put it under their key. Rule iterate: every row is visited once, in order, until the function stops. Rule next: the next integer is the one after the largest. Rule join: every element gets the rows for its own key. Errors are reported in all of them.")
ASSUME = ["malloc succeeds", "SQLite does what its documentation says (every documented outcome of each call is followed)", "the JSON and core functions underneath are those of P07 to P18"]


def run(ctx):
    c = K.Core(ctx, "sql")
    jobs = []
    for cls in (R.Select,):
        r = cls(ctx, c, False)
        for j in r.jobs(ctx.tier == "thorough"):
            jobs.append(lambda x, r=r, j=j: (setattr(r, "ctx", x), j()))
    parallel(ctx, jobs)
