"""Engine for type recognition (C11) and contexts (C19): both families of derives, one after the other."""
import eng_meta, eng_tree


def merge(parts):
    """One coverage record for several runs."""
    out = {"exhaustive": False, "samples": []}
    for name, cov in parts:
        for k, v in cov.items():
            if k == "samples":
                out["samples"] += v
            elif isinstance(v, bool):
                pass
            elif isinstance(v, int):
                out[k] = out.get(k, 0) + v
            else:
                out["%s_%s" % (k, name)] = v
    return out


def check(prop):
    level, c1, e1 = eng_meta.check(prop)
    _, c2, e2 = eng_tree.check(prop, prop + "T")
    return level, merge([("structmeta", c1), ("tree", c2)]), {"assumptions": e1["assumptions"] + e2["assumptions"]}
