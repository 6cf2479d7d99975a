"""What every check shares: confirming rejections, known findings, replay files, evidence."""
import collections, json, os, random, sys, time
import vlib
from vlib import CheckError

KNOWN = os.path.join(vlib.HERE, "known_findings.txt")


def known_findings():
    """{(property, key): text} of the lines `known: property=<id> key=<key> <what fails>`."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.strip().split(" ", 3)
            if w and w[0] == "known:" and len(w) == 4:
                out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3]
    return out


class Ctx:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.level = "model_checking"
        self.states = self.trans = self.traces = self.evals = 0
        self.nontrivial = set()
        self.rule = ""
        self.samples, self.assumptions, self.violations = [], [], []
        self.counts = collections.Counter()
        self.known = {k[1]: v for k, v in known_findings().items() if k[0] == prop}
        self.exhaustive = None
        self.thorough = vlib.TIER == "thorough"

    def rng(self, *name):
        return random.Random("/".join([str(vlib.SEED), self.prop] + [str(n) for n in name]))

    def elapsed(self):
        return time.time() - self.t0

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """A confirmed violation; replay is a JSON value written to a file."""
        if key is not None and key in self.known:
            self.counts["known finding"] += 1
            return
        os.makedirs(vlib.REPLAY, exist_ok=True)
        path = os.path.join(vlib.REPLAY, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, replay=replay), f, indent=1)
        self.violations.append((what, path))
        print("  %s" % str(what)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def report(self):
        return len(self.violations) > 0

    # --- trace validation ------------------------------------------------------------------------
    def traces_of(self, progs, specs=None, variants=(("", []),), module="TiroTrace", expect_ok=True, limit=600, part="programs", timeout=600, keyof=None, alternatives=None):
        """Runs programs (lang.Program) on the real code and validates the logs against the specification.
        variants: list of (name, commands inserted after the vm was created)."""
        sessions, where = [], {}
        for p in progs:
            for vn, pre in variants:
                h = p.host(pre)
                h["id"] = p.id + vn
                sessions.append(h)
                where[h["id"]] = (p, pre)
        logs = vlib.run_host(sessions, name=self.prop)
        specs = []
        for sid, (p, pre) in where.items():
            log = logs[sid]
            if log[-1][0] == "toomany" or (len(log) > limit and log[-1][0] == "end"):
                self.counts["log too long"] += 1
                continue
            sp = p.spec(log)
            sp["id"] = sid
            specs.append(sp)
        # identical logs of variants are validated once
        uniq, alias = {}, {}
        for sp in specs:
            p = where[sp["id"]][0]
            k = (p.id, json.dumps(sp["log"]))
            if k in uniq:
                alias[sp["id"]] = uniq[k]["id"]
            else:
                uniq[k] = sp
        v, st, tr = vlib.validate(list(uniq.values()), module=module, name=self.prop, timeout=timeout)
        self.states += st
        self.trans += tr
        rejected = []
        for sp in specs:
            r = v[alias.get(sp["id"], sp["id"])]
            self.counts[part + " " + r[0]] += 1
            if r[0] == "ok":
                self.traces += 1
            elif r[0] == "abandon":
                self.counts["abandoned: " + str(r[2])] += 1
            elif r[0] == "reject":
                rejected.append((sp["id"], r))
            if len(sp["log"]) > 6:
                self.nontrivial.add(json.dumps(sp["log"][3:]))
        self.evals += len(specs)
        for sid, (p, pre) in list(where.items())[:2]:
            self.sample(dict(program=p.modules_text(), commands=p.cmds[-6:], log=logs[sid][:30]))
        bad = self.counts[part + " abandon"] + self.counts[part + " long"]
        if rejected and alternatives:
            rejected = self.retry(rejected, where, logs, module, alternatives)
        if rejected:
            self.confirm(rejected, where, module, part, keyof)
        elif bad > 0.35 * max(1, len(specs)):
            raise CheckError("%d of %d sessions of %s could not be decided: %s" % (bad, len(specs), part, dict(self.counts)))
        return logs

    def retry(self, rejected, where, logs, module, alternatives):
        """The specification leaves a choice: a log is rejected when no alternative program text of it accepts the log."""
        rest = []
        for sid, r in rejected[:12]:
            sps = alternatives(where[sid][0], logs[sid])
            v, _, _ = vlib.validate(sps, module=module, name=self.prop)
            if any(v[s["id"]][0] == "ok" for s in sps):
                self.counts["accepted with another order"] += 1
            else:
                rest.append((sid, r))
        return rest

    def confirm(self, rejected, where, module, part, keyof=None):
        """A rejection counts when it repeats."""
        todo = rejected[:12]
        hit = {}
        for attempt in range(4):
            rest = [x for x in todo if x[0] not in hit]
            if not rest:
                break
            sess = []
            for sid, r in rest:
                p, pre = where[sid]
                h = p.host(pre)
                h["id"] = sid
                sess.append(h)
            logs = vlib.run_host(sess, name=self.prop, jobs=4 if attempt < 2 else 1)
            sp = []
            for sid, r in rest:
                s = where[sid][0].spec(logs[sid])
                s["id"] = sid
                sp.append(s)
            v, _, _ = vlib.validate(sp, module=module, name=self.prop)
            for s in sp:
                if v[s["id"]][0] == "reject":
                    hit[s["id"]] = (v[s["id"]], s["log"])
        for sid, (r, log) in hit.items():
            p, pre = where[sid]
            key = keyof(p, r) if keyof else sid
            if len(self.violations) < 5 or key in self.known:
                what = "%s %s: specification expects %s, implementation did %s (event %s)" % (part, sid, r[2], r[3], r[1])
                self.violation(what, dict(kind="trace", module=module, id=sid, host=dict(p.host(pre), id=sid), spec=dict(p.spec([]), id=sid), source=p.modules_text(), log=log, verdict=r), key)
        miss = len(todo) - len(hit)
        if miss and not hit:
            raise CheckError("%d rejections did not repeat: %s" % (miss, [x for x in rejected[:3]]))

    # --- case specifications ----------------------------------------------------------------------
    def cases(self, cases, module, again, part="cases", describe=None, timeout=600):
        """cases: [dict(id, ...)] evaluated by a case specification; again(ids) -> cases of these ids, observed once more.
        describe(case, info) -> (text, replay)."""
        bad, st, tr = vlib.check_cases(cases, module, name=self.prop, timeout=timeout)
        self.states += st
        self.trans += tr
        self.evals += len(cases)
        self.traces += len(cases) - len(bad)
        self.counts[part] += len(cases)
        if not bad:
            return
        ids = [b[0] for b in bad[:30]]
        c2 = again(ids)
        bad2, _, _ = vlib.check_cases(c2, module, name=self.prop)
        byid = {c["id"]: c for c in c2}
        for cid, info in bad2:
            if len(self.violations) < 4:
                text, rep = describe(byid[cid], info) if describe else (json.dumps(byid[cid]), byid[cid])
                self.violation("%s %s: %s" % (part, cid, text), dict(kind="case", module=module, case=byid[cid], info=info, replay=rep))
        if not bad2:
            raise CheckError("%d failed cases did not repeat" % len(bad))

    # --- end ---------------------------------------------------------------------------------------
    def finish(self):
        for k, text in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        cov = dict(self.counts)
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, samples=self.samples)
            if self.evals:
                cov.update(evaluations=self.evals, distinct_nontrivial=len(self.nontrivial), rule=self.rule)
        else:
            cov.update(evaluations=self.evals, distinct_nontrivial=len(self.nontrivial), rule=self.rule, samples=self.samples,
                       states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = dict(property=self.prop, tier=vlib.TIER, seed=vlib.SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(self.elapsed(), 2), violations=len(self.violations))
        d = os.path.join(vlib.HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s in %.1f s: %s" % (self.prop, "%d violation(s)" % len(self.violations) if self.violations else "held", self.elapsed(),
                                        {k: v for k, v in cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0


def replay(path):
    d = json.load(open(path))
    r = d["replay"]
    print(d["what"])
    if isinstance(r, dict) and r.get("kind") == "trace":
        print(r["source"])
        log = vlib.run_host([r["host"]])[r["id"]]
        for e in log:
            print("  ", json.dumps(e))
        sp = dict(r["spec"], log=log)
        v, _, _ = vlib.validate([sp], module=r["module"])
        print(v)
        bad = v[r["id"]][0] == "reject"
        if bad:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
        vlib.cleanup()
        return 1 if bad else 0
    print(json.dumps(r, indent=1)[:20000])
    return 0
