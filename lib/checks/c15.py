"""C15: queries of the database (Db.tla, DbTrace.tla)."""
from checks import dbase

LEVEL = "model_checking"


def run(ctx):
    dbase.histories(ctx, {"insert": 3, "inserts": 4, "update": .5, "set": .5, "del": .5, "rm": .2, "get": 3, "list": 5, "map": 3, "count": 3},
                    {"get", "list", "map", "count"}, ["MC_DbReadsBig"] if ctx.thorough else ["MC_DbReads"],
                    480 if ctx.thorough else 90, 4, 20)
