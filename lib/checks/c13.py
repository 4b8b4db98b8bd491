"""C13: database writes (Db.tla, DbTrace.tla)."""
from checks import dbase

LEVEL = "model_checking"


def run(ctx):
    dbase.histories(ctx, {"insert": 3, "inserts": 2, "update": 4, "set": 4, "del": .3, "rm": .3, "get": .5, "list": .5, "map": 0, "count": 0},
                    {"insert", "inserts", "update", "set"}, ["MC_DbWritesBig"] if ctx.thorough else ["MC_DbWrites"],
                    480 if ctx.thorough else 90, 4, 14)
