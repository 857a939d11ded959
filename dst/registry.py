"""Which engine runs which property, and the known-findings filter."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(os.path.dirname(HERE), "known_findings.json")

def load(prop_id):
    import engine
    if prop_id in ("P12", "P13", "P14", "P26"):
        import lab, labprops
        lab.load()
        return labprops.ALL[prop_id], lab.run_session
    import ops, props
    engine.load_repo(more=getattr(props.ALL[prop_id], "modules", ()))
    return props.ALL[prop_id], ops.run_session

_kf = None
def known_findings():
    global _kf
    if _kf is None:
        try: _kf = json.load(open(KNOWN))
        except FileNotFoundError: _kf = {"open": [], "fixed": []}
    return _kf

def matches(entry, v, scn):
    """exactly the listed history (set-up and operations) failing in exactly the listed way"""
    e = entry["scenario"]
    return all(v.get(k) == x for k, x in entry["match"].items()) and scn.get("setup") == e["setup"] and scn.get("threads") == e["threads"]

def split_known(prop_id, bad, scn):
    out, kn = [], []
    for v in bad:
        for e in known_findings()["open"]:
            if e["property"] == prop_id and matches(e, v, scn):
                kn.append(e["id"]); break
        else: out.append(v)
    return out, kn
