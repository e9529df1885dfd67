"""Programs for histories with buffered contexts."""

from .. import boot, gen, ops


def make(rng, fams=boot.BUF_FAMS, nres=1, kinds=None, objs=None, ctx=("obj", "cls"), mut=0.6,
         penter=0.15, pexit=0.12, caps=(None,), setcap=None, faulty=0.2, hold=0.06, restart=0.02,
         newobj=0.0, lens=(5, 9, 14, 22), outside=0.0, child=0.1, d=None, l=None, thr=0.8):
    c = gen.cfg(rng, fams, nres=nres, kinds=kinds, thr=thr)
    if objs:
        c["objs"] = objs
    sw = gen.Swarm(rng, c["fam"], d, l)
    pf = rng.choice([0.08, 0.2]) if rng.random() < faulty else 0
    steps = []

    def enter():
        k = rng.choice(ctx)
        s = {"s": "enter", "k": k, "t": rng.randrange(64), "perm": rng.randrange(100)}
        if k == "cls":
            s["cap"] = rng.choice(caps)
        if k == "obj" and rng.random() < child:
            s["nav"] = [rng.randrange(7)]
        return s

    if rng.random() < 0.6:
        steps.append(enter())
    for _ in range(rng.choice(lens)):
        r = rng.random()
        if r < penter:
            steps.append(enter())
            continue
        r -= penter
        if r < pexit:
            s = {"s": "exit", "perm": rng.randrange(100)}
            if rng.random() < 0.2:
                s["exc"] = 1
            if rng.random() < pf * 2:
                s["f"] = gen.gen_fault(rng, c["fam"], reads=rng.random() < 0.3)
            steps.append(s)
            continue
        r -= pexit
        if r < hold:
            steps.append({"s": "hold", "t": rng.randrange(64), "nav": sw.nav() + [0],
                          **({"tmp": 1} if rng.random() < sw.p_tmp * 2 else {})})
            continue
        r -= hold
        if r < restart:
            steps.append({"s": "restart"})
            continue
        r -= restart
        if r < newobj:
            steps.append({"s": "newobj", "r": rng.randrange(8)})
            continue
        r -= newobj
        if setcap and r < 0.06:
            steps.append({"s": "setcap", "t": rng.randrange(64), "cap": rng.choice(setcap)})
            continue
        m = rng.random() < mut
        dd = [x for x in sw.d if ops.D_OPS[x][0] == m] or (ops.D_MUTS if m else ops.D_READS)
        ll = [x for x in sw.l if ops.L_OPS[x][0] == m] or (ops.L_MUTS if m else ops.L_READS)
        s = sw.op_step(dd, ll)
        if rng.random() < pf:
            s["f"] = gen.gen_fault(rng, c["fam"])
        steps.append(s)
    return {"cfg": c, "init": [sw.init(k) for k in c["kinds"]], "steps": steps}
