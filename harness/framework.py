"""A check run: model checking, driving, validation, verdict, evidence."""
import json, os, random, sys, time
from . import build as B, launch, tlc

EVID = os.path.join(B.VERIF, "evidence")


def plain(x):
    """What a specification can speak of: TLC's integers have 32 bits, and there are neither floats nor null."""
    if isinstance(x, dict):
        return all(plain(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return all(map(plain, x))
    return isinstance(x, (str, bool)) or isinstance(x, int) and -2 ** 31 < x < 2 ** 31


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.src = B.build()
        self.mc = []
        self.nhist = self.nev = 0
        self.vstates = self.vtrans = 0
        self.bad = []          # (clauses, replay dict, text)
        self.other = {}        # clauses of other properties seen
        self.fam = {}
        self.samples = []
        self.distinct = set()
        self.log = []
        os.makedirs(EVID, exist_ok=True)

    def rng(self, name):
        return random.Random("%s/%d" % (name, self.seed))

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return (3000 if self.thorough else 600) - (time.time() - self.t0)

    def say(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)

    # ---- design level
    def model(self, module, constants, **kw):
        r = tlc.check(module, constants, **kw)
        self.mc.append(r)
        self.say("model %s {%s}: %d states, %d transitions, %.1fs" % (module, " ".join(constants.split()), r["states"], r["transitions"], r["wall"]))
        return r

    def generate(self, module, constants, num, depth, **kw):
        keep = kw.pop("keep", None)
        r = tlc.generate(module, constants, num, depth, self.seed, **kw)
        if keep and len(r) > keep:      # TLC prints every successor of the last step of a behaviour
            r = self.rng("gen").sample(r, keep)
        self.say("generated %d programs from %s" % (len(r), module))
        return r

    # ---- conformance
    def conform(self, family, driver, progs, trace, init, step, n=1, merge=None, stall=60, consts="", extra_env=None, max_fail=3,
                post=None, any_rc=False, twins=None):
        """Run programs, build histories, validate.  twins: environments; every program runs in each."""
        if not progs:
            return []
        t = time.time()
        kw = dict(n=n, stall=stall, max_fail=max_fail, any_rc=any_rc)
        if twins:
            rs = launch.twins(driver, progs, self.src, twins, **kw)
        else:
            rs = launch.run(driver, progs, self.src, extra_env=extra_env, **kw)
        td = time.time() - t
        hists, back = [], []
        skipped = 0
        for p, r in zip(progs, rs):
            have = [x for x in r["ranks"] if x is not None]
            if not have and not r["fail"]:
                skipped += 1
                continue
            ranks = [(x["ev"] if x else []) for x in r["ranks"]]
            try:
                ev = merge(p, ranks) if merge else list(ranks[0])
            except Exception as e:
                ev = []
                if not r["fail"]:
                    r = dict(r, fail="what the ranks did does not fit together (%s: %s)" % (type(e).__name__, str(e)[:80]))
            if r["fail"]:
                ev = ev + [{"k": "crash", "what": r["fail"]}]
            odd = next((k for k, x in enumerate(ev) if not plain(x)), None)
            if odd is not None:
                ev = ev[:odd] + [{"k": "crash", "what": "an observation that is no number or text: " + json.dumps(ev[odd])[:200]}]
            hists.append({"id": len(hists), "cfg": p.get("cfg", {}), "ev": ev})
            back.append((p, r, ranks))
        if skipped and not any(r["fail"] for r in rs):
            raise RuntimeError("%d histories missing without a failure" % skipped)
        if post:
            hists, back = post(hists, back)
        bads, st = tlc.validate(trace, init, step, hists, consts=consts)
        self.vstates += st["states"]
        self.vtrans += st["transitions"]
        self.nhist += len(hists)
        ne = sum(len(h["ev"]) for h in hists)
        self.nev += ne
        kinds = {}
        for h in hists:
            for e in h["ev"]:
                kinds[e["k"]] = kinds.get(e["k"], 0) + 1
            self.distinct.add(hash(json.dumps(h["ev"], sort_keys=True)))
        f = self.fam.setdefault(family, dict(histories=0, events=0, ranks=[], kinds={}))
        f["histories"] += len(hists)
        f["events"] += ne
        if st["left"]:
            f["left_domain"] = f.get("left_domain", 0) + st["left"]
        if n not in f["ranks"]:
            f["ranks"].append(n)
        for k, v in kinds.items():
            f["kinds"][k] = f["kinds"].get(k, 0) + v
        if hists and sum(1 for s in self.samples if s["family"] == family) < 1:
            hh = min(hists, key=lambda h: abs(len(h["ev"]) - 12))
            self.samples.append(dict(family=family, ranks=n, history=hh["ev"][:12]))
        for k, i, cl in bads:
            self._bad(family, driver, n, cl, back[k], hists[k], i, trace, dict(steps=[init, step], consts=consts, env=extra_env, twins=twins, merged=bool(merge)))
        self.say("%s: %d histories on %d rank(s), %d events (drive %.1fs, validate %.1fs), %d rejected%s"
                 % (family, len(hists), n, ne, td, st["wall"], len(bads),
                    ", %d leave the domain" % st["left"] if st["left"] else ""))
        return hists

    def credit(self, clauses):
        mine = []
        for c in clauses:
            tags, _, name = c.partition(":")
            if tags == "*" or self.prop in tags.split(","):
                mine.append(name)
            else:
                self.other[c] = self.other.get(c, 0) + 1
        return mine

    def _bad(self, family, driver, n, clauses, back, hist, i, trace, how):
        mine = self.credit(clauses)
        if not mine:
            return
        p, r, ranks = back
        rep = dict(property=self.prop, family=family, driver=driver, ranks=n, trace=trace, clauses=clauses,
                   event_no=i, event=hist["ev"][i - 1] if 0 < i <= len(hist["ev"]) else None,
                   before=hist["ev"][max(0, i - 6):i - 1], program=p, stderr=r.get("err", "")[-1500:], seed=self.seed, history=hist, **how)
        self.bad.append((mine, rep))

    # ---- verdict
    def finish(self):
        known = self._known()
        rdir = os.path.join(EVID, "replay")
        viol = 0
        shown = {}
        for mine, rep in self.bad:
            kf = next((k for k in known if self._matches(k, mine, rep)), None)
            if kf:
                shown[kf["id"]] = kf
                continue
            viol += 1
            if viol <= 5:
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-%d.json" % (self.prop, viol))
                with open(path, "w") as f:
                    json.dump(rep, f, indent=1)
                print("  %s: %s  [%s]" % (rep["family"], "; ".join(mine), json.dumps(rep["event"])[:300]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        for k in self._listed():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self._evidence(viol)
        if self.other:
            print("  clauses of other properties: ", json.dumps(self.other)[:600])
        self.say("%s %s: %d model states, %d histories, %d events, %d violations" %
                 (self.prop, self.tier, sum(m["states"] for m in self.mc), self.nhist, self.nev, viol))
        return 1 if viol else 0

    def _listed(self):
        try:
            with open(os.path.join(B.VERIF, "known_findings.json")) as f:
                return [k for k in json.load(f)["findings"] if self.prop in k["property"].split(",")]
        except OSError:
            return []

    def _known(self):
        return self._listed()

    @staticmethod
    def _matches(k, mine, rep):
        m = k.get("match", {})
        return (m.get("family") in (None, rep["family"]) and bool(m.get("clauses"))
                and all(any(x in c for x in m["clauses"]) for c in mine)
                and all(rep["program"].get(a) == b for a, b in m.get("program", {}).items()))

    def _evidence(self, viol):
        st = sum(m["states"] for m in self.mc)
        tr = sum(m["transitions"] for m in self.mc)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=st, transitions=tr,
                                traces_validated_against_impl=self.nhist,
                                evaluations=self.nev, distinct_nontrivial=len(self.distinct),
                                rule="evaluations = recorded events of the real code checked against the specification; "
                                     "distinct_nontrivial = recorded histories that differ from each other in some event",
                                trace_states=self.vstates, models=self.mc, families=self.fam,
                                samples=self.samples[:6]),
                  assumptions=["TLC and its JSON reader are trusted", "the harness logs arguments and results of public calls faithfully"],
                  wall_s=round(time.time() - self.t0, 1), violations=viol)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
