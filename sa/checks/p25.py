"""P25: an operation driven by JSON takes its values and its columns from the JSON"""
from checks import core as K
from checks import sqlrules as R
from harness import parallel

MIN = {"populate": 200, "opcode": 400, "info": 8, "ops": 50, "new": 3}
EXPLAIN = ("Rule populate: after cee_sqlite3_bind_data_from_json each datum is what its member of the JSON says, the others are as before, and keys used, unused and of the wrong type are reported. Rule opcode: cee_sqlite3_generic_opcode composes the insert and update texts of exactly the columns it has values for and "
           "runs the operation once with them. Rule info: cee_json_to_bind_info has one binding per member. Rule ops: the operations run the right statements with the values of the JSON. Rule new: a new operation has data of its own.")
ASSUME = ["malloc succeeds", "SQLite does what its documentation says (every documented outcome of each call is followed)", "the JSON and core functions underneath are those of P07 to P18"]


def run(ctx):
    c = K.Core(ctx, "sql")
    jobs = []
    for cls in (R.Driven,):
        r = cls(ctx, c, False)
        for j in r.jobs(ctx.tier == "thorough"):
            jobs.append(lambda x, r=r, j=j: (setattr(r, "ctx", x), j()))
    parallel(ctx, jobs)
