#!/usr/bin/env python3
"""Writes harness/scopes_gen.hpp: random programs that build scopes and routes as
values, with the route table each value must have according to a plain model."""
import random
import sys

VERBS = ["get", "post", "put", "patch", "delete_", "any"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.mw = 0
        self.st = 0
        self.n = 0

    def path(self, route):
        r = self.r
        segs = []
        k = r.choice([0, 1, 1, 2]) if not route else r.choice([1, 1, 2])
        for _ in range(k):
            x = r.random()
            if x < 0.3:
                self.n += 1
                segs.append("/{p%d}" % self.n)
            else:
                segs.append("/" + r.choice(["a", "b", "api", "v1", "x-y"]))
        if route:
            self.n += 1
            segs.append("/r%d" % self.n)
            if r.random() < 0.15:
                self.n += 1
                segs.append("/#w%d" % self.n)
            if r.random() < 0.1:
                segs[-1] += "" if segs[-1].startswith("/#") else "/"
        return "".join(segs)

    def program(self, pid):
        r = self.r
        lines, routes, scopes = [], [], []
        # values: name -> dict(kind, path, method, mws, states, routes, rid)
        vals = {}
        cnt = 0

        def new(expr, v):
            nonlocal cnt
            name = "v%d" % cnt
            cnt += 1
            lines.append("  auto %s = %s;" % (name, expr))
            vals[name] = v
            (routes if v["kind"] == "route" else scopes).append(name)
            return name

        def decl(name):
            """random use / use_state steps on a value without routes"""
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                v = vals[name]
                w = dict(v)
                if r.random() < 0.5:
                    self.mw += 1
                    w["mws"] = v["mws"] + [self.mw]
                    expr = "%s.use(mw<%d>(%d))" % (name, r.randrange(2), self.mw)
                else:
                    t = r.randrange(3)
                    if t in [x for x, _ in v["states"]]:
                        continue
                    self.st += 1
                    w["states"] = [(t, self.st)] + v["states"]
                    expr = "%s.use_state(state<%d>(%d))" % (name, t, self.st)
                # sometimes keep deriving from the old value: siblings
                derived = new(expr, w)
                if r.random() < 0.75:
                    name = derived
            return name

        for _ in range(5):
            p, m = self.path(True), r.choice(VERBS)
            self.n += 1
            v = dict(kind="route", path=p, method=m, mws=[], states=[], rid=self.n)
            decl(new('web::route::%s<"%s">(handler(%d))' % (m, p, self.n), v))
        for _ in range(6):
            p = self.path(False)
            v = dict(kind="scope", path=p, mws=[], states=[], routes=[])
            name = decl(new('web::scope<"%s">()' % p, v))
            for _ in range(r.choice([1, 2, 2, 3])):
                v = vals[name]
                full = [s for s in scopes if vals[s]["routes"] and len(vals[s]["routes"]) <= 4 and s != name]
                child = r.choice(full) if full and r.random() < 0.5 else r.choice(routes)
                c = vals[child]
                add = c["routes"] if c["kind"] == "scope" else [c]
                w = dict(v)
                w["routes"] = v["routes"] + [
                    dict(x, path=v["path"] + x["path"], mws=v["mws"] + x["mws"], states=x["states"] + v["states"]) for x in add
                ]
                if len(w["routes"]) > 7:
                    continue
                # a parameter name may appear only once in a pattern
                names = [[t for t in x["path"].split("/") if t[:1] in ("{", "#")] for x in w["routes"]]
                if any(len(set(n)) != len(n) for n in names):
                    continue
                name = new("%s.serve(%s)" % (name, child), w)
        # what is registered: values whose routes do not collide
        taken = set()

        def norm(x):
            return ("/".join("{}" if s.startswith("{") else "#" if s.startswith("#") else s for s in x["path"].split("/")), x["method"])

        picks = []
        order = scopes + routes
        r.shuffle(order)
        for name in order:
            v = vals[name]
            rs = v["routes"] if v["kind"] == "scope" else [v]
            ks = [norm(x) for x in rs]
            if not rs or len(set(ks)) != len(ks) or taken & set(ks):
                continue
            if any("//" in x["path"] for x in rs):
                continue
            taken |= set(ks)
            picks.append((name, rs))
            if sum(len(p[1]) for p in picks) >= 12:
                break
        out = ["inline void program%d(web::http_server::builder& b, std::vector<expected_route>& e)" % pid, "{"] + lines
        for name, rs in picks:
            out.append("  b.serve(%s);" % name)
            for x in rs:
                out.append(
                    '  e.push_back({ "%s", "%s", %d, { %s }, { %s } });'
                    % (x["path"], x["method"], x["rid"], ", ".join(map(str, x["mws"])), ", ".join("{ %d, %d }" % s for s in x["states"]))
                )
        used = {n for n, _ in picks}
        out.append("  (void)0;")
        for n in vals:
            out.append("  (void)%s;" % n)
        out.append("}")
        return "\n".join(out)


def main():
    seed, n, path = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    g = Gen(seed)
    txt = "// Generated by gen/scopes.py %d %d\n#pragma once\n" % (seed, n)
    for i in range(n):
        txt += g.program(i) + "\n"
    txt += "using program = void (*)(web::http_server::builder&, std::vector<expected_route>&);\n"
    txt += "inline const program programs[] = { " + ", ".join("program%d" % i for i in range(n)) + " };\n"
    open(path, "w").write(txt)


main()
