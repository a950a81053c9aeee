"""Runs SQL for the checks: one JSON request per line, one JSON answer per line.

Request: {"setup": [sql...], "queries": [{"sql": ..., "args": [...], "named": bool}]}
Answer: {"results": [{"rows": [[...]], "cols": n} or {"error": ...}]}
Floats are {"f": repr}, everything else is itself.
"""
import json, sqlite3, sys


def dec(v):
    if isinstance(v, dict):
        return float(v["f"])
    return v


def enc(v):
    if isinstance(v, float):
        return {"f": repr(v)}
    if isinstance(v, bytes):
        return {"b": v.hex()}
    return v


def run(con, q):
    args = [dec(a) for a in q.get("args") or []]
    if q.get("named"):
        args = {str(i + 1): a for i, a in enumerate(args)}
    try:
        cur = con.execute(q["sql"], args)
        rows = [[enc(v) for v in r] for r in cur.fetchall()]
        return {"rows": rows, "cols": len(cur.description or ())}
    except (sqlite3.Error, sqlite3.Warning, OverflowError, ValueError) as e:
        return {"error": "%s: %s" % (type(e).__name__, e)}


def main():
    print(json.dumps({"version": list(sqlite3.sqlite_version_info)}), flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        con = sqlite3.connect(":memory:")
        for s in req.get("setup") or []:
            con.execute(s)
        out = [run(con, q) for q in req["queries"]]
        con.close()
        print(json.dumps({"results": out}), flush=True)


main()
