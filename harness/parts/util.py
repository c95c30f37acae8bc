"""Merging the recorded events of several ranks."""


def merge_by(coll):
    """rank after rank between collective operations"""
    def merge(p, ranks):
        n = p["cfg"]["n"]
        segs = []
        for ev in ranks[:n]:
            cur, out = [], []
            for e in ev:
                if e["k"] in coll:
                    out.append((cur, e))
                    cur = []
                else:
                    cur.append(e)
            out.append((cur, None))
            segs.append(out)
        res = []
        for j in range(max(len(s) for s in segs)):
            co = None
            for s in segs:
                if j < len(s):
                    res += s[j][0]
                    co = s[j][1] or co
            if not (co and all(j < len(s) and s[j][1] for s in segs)):
                break       # the last segment, or a rank did not get that far
            res.append(co)
        return res
    return merge


def agent_ids(rng, ty, born):
    """id components for agents: their numbers; shared by agents that differ in type or rank; or large"""
    k = rng.choice("nssb")
    if k == "n":
        return list(range(1, len(ty) + 1))
    pool = list(range(len(ty) + 1)) if k == "s" else [(1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 53] + [(1 << 53) + 1 + i for i in range(len(ty))]
    seen, out = set(), []
    for t, b in zip(ty, born):
        i = next(i for i in pool if (i, t, b) not in seen)
        seen.add((i, t, b))
        out.append(i)
    return out
