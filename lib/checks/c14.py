"""C14: deletion in the database (Db.tla, DbTrace.tla)."""
from checks import dbase

LEVEL = "model_checking"


def run(ctx):
    dbase.histories(ctx, {"insert": 4, "inserts": 3, "update": .5, "set": .5, "del": 4, "rm": 3, "get": 1, "list": 1, "map": 1, "count": 1},
                    {"del", "rm", "get", "list", "map", "count"}, ["MC_DbDels", "MC_DbDelsHard"],
                    480 if ctx.thorough else 90, 4, 16)
