"""C13: operation sequences of spec/Buffer.tla on both buffers."""
import itertools
import json
from concurrent.futures import ThreadPoolExecutor

ASSUME = ["attributes and subclasses of the buffer types are not part of the operations, nor is their representation (repr)"]


def obj(k, s="", e=None, b=0):
    return dict(k=k, s=s, e=s if e is None else e, b=b)


A, AMP, EMPTY = obj("str", "a"), obj("str", "<&>", "&lt;&amp;&gt;"), obj("str", "")
SUB, SUBQ = obj("sub", "sub"), obj("sub", "\"'", "&#34;&#39;")
INT, OBJ, OBJ2 = obj("obj", "7"), obj("obj", "<o>", "&lt;o&gt;"), obj("obj", "0")
NONE, TRUE, FALSE = obj("none", "None"), obj("true", "True"), obj("false", "False")
MK, HTML = obj("markup", "<i>", "<i>"), obj("html", "h&", "<h>")
FAIL, FAILHTML, COUNT = obj("fail", "E1"), obj("failhtml", "FH"), obj("count", "c")
RE1, RE2, REFAIL = obj("re", "R", b=1), obj("re", "Q", b=2), obj("refail", "E2", b=1)
BUF = {b: obj("buf", b=b) for b in (1, 2, 3)}
ALL = [A, AMP, EMPTY, SUB, SUBQ, INT, OBJ, OBJ2, NONE, TRUE, FALSE, MK, HTML, FAIL, FAILHTML, COUNT, RE1, RE2, REFAIL, BUF[1], BUF[2]]


def op(o, b, items=(), names=()):
    return dict(o=o, b=b, items=list(items), names=list(names))


def call(b, *items):
    return op("call", b, items)


READS = ["join", "str", "format", "escape", "html"]
WRONG = ["kwargs", "attr1", "attr3", "join1"]


def families():
    f = {}
    small = [A, INT, FAIL, RE1, BUF[1], BUF[2]]
    f["calls"] = [call(b, *x) for b in (1, 2) for n in (0, 1, 2) for x in itertools.product(small, repeat=n) if not (b == 2 and n == 2)], 2, 3
    f["objects"] = [call(1, x) for x in ALL] + [call(2, A, x, EMPTY) for x in ALL] + [call(1, BUF[2]), call(2, BUF[1])], 2, 3
    f["attributes"] = ([op("attr", 1, [x], [A]) for x in ALL] + [op("attr", 2, [x], [n]) for x in (A, TRUE, FALSE, RE1, FAIL) for n in (SUB, INT, FAIL, COUNT, BUF[1], RE2, AMP)] +
                       [call(1, BUF[2]), call(2, A)]), 2, 3
    f["reads"] = [op(r, 1) for r in READS + WRONG] + [call(1, A), call(1, BUF[1]), call(1, SUB, FAIL), op("new", 1), call(2, BUF[1]), call(1, BUF[2], BUF[2])], 4, 5
    pairs = [(A, AMP), (SUB, TRUE), (AMP, NONE), (INT, INT), (FAIL, A), (A, FAIL), (A, FAILHTML), (COUNT, COUNT), (A, RE1), (A, BUF[1]), (BUF[2], FALSE)]
    f["pairs"] = ([op("attrs", 1, [x[1] for x in q], [x[0] for x in q]) for n in (0, 1, 2) for q in itertools.product(pairs, repeat=n) if n < 2 or q[0] != q[1]] +
                  [call(1, A), call(2, AMP)]), 2, 2
    f["selves"] = [call(1, BUF[1]), call(1, BUF[1], BUF[1]), call(1, BUF[2], BUF[1]), call(2, BUF[1], A), call(1, A, BUF[1], RE1), call(2, BUF[1], BUF[2], FAIL), op("attr", 1, [BUF[1]], [A]),
                   op("attr", 1, [TRUE], [BUF[1]]), op("new", 2)], 4, 5
    return f


def tlc(run, name, given, alphabet, bound):
    p = dict(alphabet=alphabet or [op("join", 1)], given=given, bound=bound, buffers=3 if name == "random" else 2)
    r = run.tlc("Buffer", env={"BU_PARAMS": "params.json"}, files={"params.json": json.dumps(p)}, workers=1, mem="3g", timeout=run.pick(250, 800))
    res = []
    for line in r["text"].split("\n"):
        if line.startswith('"BU '):
            res.append(json.loads(json.loads(line)[3:]))
    return res, r


def random_ops(R):
    ops, size = [], [0, 0, 0]
    for _ in range(R.randint(3, 40)):
        x = R.random()
        b = R.randint(1, 3)
        pool = ALL + [BUF[3]]
        if R.random() < .5:
            pool = [q for q in pool if q["k"] not in ("fail", "refail", "failhtml")]
        if x < .6:
            items = [R.choice(pool) for _ in range(R.choice([0, 1, 1, 2, 3, 5, 8, 20]))]
            ops.append(call(b, *items))
        elif x < .75:
            ops.append(op("attr", b, [R.choice(pool)], [R.choice([A, A, SUB, R.choice(pool)])]))
        elif x < .82:
            q = [(R.choice([A, SUB, AMP]), R.choice(pool)) for _ in range(R.randint(0, 4))]
            ops.append(op("attrs", b, [y[1] for y in q], [y[0] for y in q]))
        elif x < .93:
            ops.append(op(R.choice(READS + WRONG), b))
        else:
            ops.append(op("new", b))
        # keep the contents small: every buffer item may double it
        n = sum(q["k"] == "buf" for q in ops[-1]["items"] + ops[-1]["names"])
        size[b - 1] = 1 if ops[-1]["o"] == "new" else size[b - 1] + 1 + n * max(size)
        if max(size) > 400:
            break
    return ops


def c13(run):
    R = run.rng
    jobs = [(n, [[]], a, q[1 if run.thorough else 0]) for n, (a, *q) in families().items()]
    for _ in range(run.pick(6, 40)):
        jobs.append(("random", [random_ops(R) for _ in range(200)], [], 0))
    # a buffer output to itself again and again, and long calls
    jobs.append(("large", [[call(1, A)] + [call(1, BUF[1])] * k for k in (2, 6, 10)] +
                 [[call(1, *([A, AMP, SUB, INT] * k)), call(2, *[BUF[1]] * 3), call(2, BUF[2], BUF[1], A)] for k in (1, 10, 60)], [], 0))
    states = trans = 0
    seqs, fams = [], {}
    with ThreadPoolExecutor(8) as ex:
        for (n, *_), (s, r) in zip(jobs, ex.map(lambda j: tlc(run, *j), jobs)):
            if not s:
                raise RuntimeError("nothing generated: " + n)
            seqs += s
            fams[n] = fams.get(n, 0) + len(s)
            states += r["distinct"]
            trans += r["generated"]
    R.shuffle(seqs)
    tasks = [dict(seed=R.randrange(10 ** 9), seqs=seqs[j:j + 500]) for j in range(0, len(seqs), 500)]
    n = 0
    for how, env in (("accelerated", {}), ("pure Python", {"TK_PURE": "1"})):
        res = run.worker("tkbuffer", tasks, timeout=400, extra_env=env)
        run.cov[how] = res[0]["type"]
        n += sum(r["n"] for r in res)
        for r in res:
            for b in sorted(r["bad"], key=lambda b: len(b["ops"])):
                run.violation("buffer", "%s buffer: %s: %s" % (how, b["what"], b["ops"]), b)
    run.cov.update(sequences=len(seqs), states=states, transitions=trans, traces_validated_against_impl=n)
    run.cov["families"] = fams
    for d in seqs[:3]:
        run.sample(d)


CHECKS = dict(C13=c13)
