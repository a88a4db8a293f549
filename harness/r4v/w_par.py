"""Parameters files, overrides, seeds and dumps."""
import datetime
import json
import os
import random as pr

import numpy as np
import torch
import yaml
from repast4py import parameters as r4p
from repast4py import random as r4r

KEYS = ["a", "b", "count", "stop.at", "random.seed.x", "world width", "1", "é", "true", "nested", "list", "UPPER", "x_y-z", "params", "~"]
STR = ["", "x", "yes", "no", "null", "1", "1.0", "1e5", "0x10", "2020-01-01", "a: b", "# c", "[1]", "{}", "line\nbreak", "tr ail ", "é日本", "'", '"', "\t", "%", "&a", "*a", "!t", "|", ">", "- x", "12:30"]


def val(rng, depth=0, js=False):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, 1, -3, 2 ** 40, rng.randint(-999, 999)])
    if k < 0.45:
        return rng.choice([0.5, 1e5, 1e-7, -2.25, 0.1, rng.random(), 1e300])
    if k < 0.7:
        return rng.choice(STR)
    if k < 0.8 or depth > 2:
        return rng.choice([True, False, None] + ([] if js else [datetime.date(2020, 1, 2)]))
    if k < 0.9:
        return [val(rng, depth + 1, js) for _ in range(rng.randint(0, 3))]
    return {rng.choice(KEYS): val(rng, depth + 1, js) for _ in range(rng.randint(0, 3))}


def same(a, b):
    return type(a) is type(b) and (len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items()) if isinstance(a, dict)
                                   else len(a) == len(b) and all(map(same, a, b)) if isinstance(a, list) else a == b)


def streams(cx, seed, what):
    want = np.random.default_rng(seed)
    k = cx.rng.randint(1, 20)
    cx.check(r4r.seed == seed, "the seed reported is not the seed of the run " + what, r4r.seed, seed)
    got = [r4r.default_rng.random() for _ in range(k)] + [int(r4r.default_rng.integers(0, 10 ** 9)) for _ in range(3)] + list(r4r.default_rng.permutation(10)) + [r4r.default_rng.normal()]
    exp = [want.random() for _ in range(k)] + [int(want.integers(0, 10 ** 9)) for _ in range(3)] + list(want.permutation(10)) + [want.normal()]
    cx.check(got == exp, "the random stream is not that of the seed " + what, seed, lambda: (got[:3], exp[:3]))
    a = torch.rand(4).tolist() + torch.randint(0, 1000, (3,)).tolist()
    st = torch.get_rng_state()
    gen = torch.Generator()
    gen.manual_seed(seed)
    b = torch.rand(4, generator=gen).tolist() + torch.randint(0, 1000, (3,), generator=gen).tolist()
    torch.set_rng_state(st)
    cx.check(a == b, "the tensor library's random stream is not that of the seed " + what, seed)
    cx.stats["obs_streams"] += 1


def case(cx):
    rng = cx.rng
    base = os.path.join(cx.workdir, f"p{cx.size}-{cx.case_seed:x}")
    shared = rng.random() < 0.7                    # one file for all ranks, as a model would
    cx.config(n=cx.size)
    earlier = []
    fpath = base + ".yaml"
    for run in range(rng.randint(1, 4)):
        fv = {rng.choice(KEYS): val(rng) for _ in range(rng.choice([0, 1, 3, 6]))}
        ov = {(rng.choice(list(fv)) if fv and rng.random() < 0.6 else rng.choice(KEYS)): val(rng, 0, True) for _ in range(rng.choice([0, 0, 1, 3]))}
        seed = None
        for d in (fv, ov):
            if rng.random() < 0.5:
                d["random.seed"] = rng.choice([0, 1, 42, 12345, 2 ** 31 - 1, 2 ** 32, 2 ** 62, rng.randint(0, 10 ** 9)])
        want = dict(fv)
        want.update(ov)
        seed = want.get("random.seed")
        cx.op("run", sorted(fv), sorted(ov), seed)
        if cx.rank == 0:
            with open(fpath, "w") as f:
                if not fv:
                    f.write(["", "# nothing\n", "{}\n", "---\n"][run % 4])
                elif run % 2:
                    yaml.safe_dump(fv, f, allow_unicode=True, default_flow_style=True)
                else:
                    yaml.safe_dump(fv, f, sort_keys=False)
        cx.ctl.Barrier()
        if ov:
            js = json.dumps(ov, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)
        else:
            js = rng.choice(["", "{}", None])
        ref = (str(r4r.seed), r4r.default_rng)
        dump = base + f".dump{run}.yaml" if rng.random() < 0.5 else None
        kw = {"dump_file": dump} if dump and cx.rank == 0 else {}
        if rng.random() < 0.5:
            argv = [fpath] + ([js] if js is not None else [])
            args = r4p.create_args_parser().parse_args(argv)
            cx.check(args.parameters_file == fpath, "the parser loses the file name", args)
            got = r4p.init_params(args.parameters_file, args.parameters, **kw)
            cx.stats["obs_parsed"] += 1
        else:
            got = r4p.init_params(fpath, js or "", **kw)
        cx.check(same(got, want), "the resolved parameters are not the file's overridden by the string's", got, want)
        cx.check(same(r4p.params, want), "the parameters published are not those resolved", r4p.params, want)
        for e, w in earlier:
            cx.check(same(e, w), "resolving parameters changes those of an earlier run", e, w)
        earlier.append((got, dict(want)))
        allp = cx.ctl.allgather(repr(sorted(got.items(), key=repr)))
        cx.check(len(set(allp)) == 1, "the ranks resolve different parameters", allp[:2])
        if seed is not None:
            streams(cx, seed, "in the parameters")
            cx.stats["obs_seeded"] += 1
            if "random.seed" in fv and "random.seed" in ov:
                cx.stats["obs_seed_overridden"] += 1
        if kw:
            with open(dump) as f:
                back = yaml.safe_load(f)
            cx.check(same(back, want), "the dump does not hold the resolved parameters", back, want)
            cx.stats["obs_dumps"] += 1
            os.remove(dump)
        if set(fv) & set(ov):
            cx.stats["obs_overridden"] += 1
            cx.nontrivial = True
        cx.stats["obs_runs"] += 1
        if rng.random() < 0.3:
            s = rng.choice([None, 7, rng.randint(0, 2 ** 40)])
            if s is None:
                r4r.init()
                streams(cx, r4r.seed, "of the clock")
            else:
                r4r.init(s)
                streams(cx, s, "given to init")
        cx.ctl.Barrier()
    if cx.rank == 0:
        os.remove(fpath)

