"""Programs for sequential unbuffered histories."""

from .. import boot, gen, ops


def make(rng, fams=boot.ALL_FAMS, mut=0.85, outside=0.03, newobj=0.04, restart=0.02, hold=0.08,
         faulty=0.4, nres=1, lens=(3, 6, 10, 16, 24), objs=None, d=None, l=None, objarg=0.0,
         max_fault=0.25, swarm_kw=None):
    c = gen.cfg(rng, fams, nres=nres)
    if objs:
        c["objs"] = [rng.randrange(nres) for _ in range(rng.choice(objs))]
        if 0 not in c["objs"]:
            c["objs"][0] = 0
    sw = gen.Swarm(rng, c["fam"], d, l)
    pf = rng.choice([0.1, max_fault]) if rng.random() < faulty else 0
    steps = []
    for _ in range(rng.choice(lens)):
        r = rng.random()
        if r < hold:
            steps.append({"s": "hold", "t": rng.randrange(64), "nav": sw.nav() + [0],
                          **({"tmp": 1} if rng.random() < sw.p_tmp * 2 else {})})
            continue
        r -= hold
        if r < newobj:
            steps.append({"s": "newobj", "r": rng.randrange(8)})
            continue
        r -= newobj
        if r < restart:
            steps.append({"s": "restart"})
            continue
        r -= restart
        if r < outside:
            steps.append(sw.outside_step())
            continue
        m = rng.random() < mut
        dd = [x for x in sw.d if ops.D_OPS[x][0] == m] or [
            x for x in (d or ops.D_OPS) if ops.D_OPS[x][0] == m] or sw.d
        ll = [x for x in sw.l if ops.L_OPS[x][0] == m] or [
            x for x in (l or ops.L_OPS) if ops.L_OPS[x][0] == m] or sw.l
        s = sw.op_step(dd, ll)
        if rng.random() < pf:
            s["f"] = gen.gen_fault(rng, c["fam"])
        if rng.random() < objarg:
            for q in ("d", "l"):
                op, a = s[q]
                if op in ("eq", "ne", "req", "lt", "le", "gt", "ge", "rlt", "rge", "contains",
                          "count", "index", "reset") and a and not (q == "d" and op == "contains"):
                    a[0] = {"$obj": [rng.randrange(64), sw.nav()]}
                elif op in ("setitem", "setattr", "insert", "setdefault") and len(a) > 1:
                    a[1] = {"$obj": [rng.randrange(64), sw.nav()]}
                elif op in ("append", "extend", "iadd") and a:
                    a[0] = {"$obj": [rng.randrange(64), sw.nav()]}
        steps.append(s)
    return {"cfg": c, "init": [sw.init(k) for k in c["kinds"]], "steps": steps}
