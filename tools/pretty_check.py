#!/usr/bin/env python3
"""C16: runs the real pretty.py on generated JSON files in a scratch directory
and compares what the file means before and after."""
import concurrent.futures, glob, hashlib, json, os, random, shutil, subprocess, sys, threading, time

args = dict(zip([a.lstrip("-") for a in sys.argv[2::2]], sys.argv[3::2]))
REPO, WORK, REPLAY, SEED = args["repo"], args["work"], args["replay"], int(args["seed"])
BUDGET, THOROUGH = float(args["budget"]), args["tier"] == "thorough"
PRETTY = os.path.join(REPO, "pretty.py")
os.makedirs(WORK, exist_ok=True)
T0 = time.time()
sys.setrecursionlimit(20000)
threading.stack_size(256 << 20)

ALPHA = ["a", "b", "Z", "0", " ", "  ", '"', "\\", "/", ",", ", ", ": ", "[", "]", "{", "}", "\n", "\t", "\r", "\b", "\f",
         "\x00", "\x1f", "\x7f", "\x80", "\x85", "\u00a0", "\u00e9", "\u0301", "\u2028", "\u2029", "\ufeff", "\u4e2d", "\U0001f600",
         "\U0010ffff", "\ue000", "\\u0041", "\\n", "'", "<", "&", "\u200b", "\u200d", "\u2060", "\u00ad",
         "\u3000", "\u202e", "\ufffe", "\uffff", "\u0130", "\u00df", "\ufb01", "A\u030a", "\u212b", "%s", "{}", "\x1b", "$", "`", "\x0b", "\x1c"]


def string(r, n=None):
    if n is None:
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60, 70, 75, 78, 79, 80, 81, 90, 200])
        n = max(0, n + r.randint(-2, 2))
    style = r.random()
    if style < 0.5:
        return "".join(r.choice(ALPHA) for _ in range(n))
    if style < 0.9:
        return "x" * n
    return "".join(chr(r.choice([r.randint(0, 0x2ff), r.randint(0x2000, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff)]))
                   for _ in range(n))


def scalar(r):
    k = r.random()
    if k < 0.45:
        return string(r)
    if k < 0.7:
        return r.choice([0, 1, -1, 255, 2 ** 53, 2 ** 64, -10 ** 40, r.randint(-10 ** 6, 10 ** 6), 10 ** r.randint(60, 90)])
    if k < 0.8:
        return r.choice([0.5, -0.0, 1.0, 1e-7, 1e22, 1.7976931348623157e308, 5e-324, r.random(), r.random() * 10 ** r.randint(-300, 300)])
    return r.choice([True, False, None])


def doc(r, depth, left=None):
    left = left if left is not None else [r.choice([5, 30, 150])]
    left[0] -= 1
    k = r.random()
    if depth <= 0 or left[0] <= 0 or (k < 0.2 and left[0] < 140):
        return scalar(r)
    n = r.choice([0, 1, 1, 2, 3, 4, 7, 12, 25])
    if k < 0.55:
        if r.random() < 0.3:
            # a row that ends close to the width limit
            row, want = [], 80 + r.randint(-12, 6)
            while len(json.dumps(row, ensure_ascii=False)) < want - 2:
                row.append(r.randint(0, 9) if r.random() < 0.5 else string(r, 2))
            return row
        return [doc(r, depth - 1, left) for _ in range(n) if left[0] > 0]
    d = {}
    for _ in range(n):
        if left[0] <= 0:
            break
        d[string(r, r.choice([None, 0, 1, 3, 10]))] = doc(r, depth - 1, left)
    return d


def edge(r):
    """A container of one string that ends near the width limit, wrapped some times."""
    wrap = r.randint(0, 6)
    n = max(0, 80 + r.randint(-8, 8) - 2 * wrap - r.randint(0, 8))
    v = r.choice([lambda: [string(r, n)], lambda: {"k": string(r, n)}, lambda: "y" * n,
                  lambda: [1, "z" * n], lambda: {"p": {}, "q": "z" * n}, lambda: {"p": [], "z" * n: [[]]}, lambda: {"w" * n: 1}])()
    for _ in range(wrap):
        v = r.choice([lambda: [v], lambda: {"k": v}, lambda: [v, 1], lambda: [[], v], lambda: {"a": 0, "b": v, "c": {}}])()
    return v


def token_set(r):
    toks = []
    for _ in range(r.choice([3, 20, 80])):
        k = r.random()
        toks.append(r.randint(0, 64) if k < 0.3 else [r.randint(0, 255) for _ in range(r.randint(1, 12))] if k < 0.4 else string(r, r.randint(1, 12)))
    return {"config": {"token_type": r.choice(["bits1", "bytes_huff"]), "processing": "raw", "split_paragraphs": r.random() < 0.5,
                       "initial_size": None}, "tokens": toks,
            "sequences": [{"string": string(r, 2), "sequence": [r.randint(0, 20) for _ in range(r.randint(1, 40))]} for _ in range(r.choice([0, 2, 30]))],
            "stats": {"scanned_bytes": 10, "total_tokens": 20, "bytes_per_token": r.random()}}


def same(a, b):
    """Equal including types and the order of keys and items."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


BROKEN = object()  # the value of a file that need not be reformatted


def loads(raw):
    """The value of a JSON text of whatever depth."""
    return json.loads(raw.decode("utf-8"))


def nested(r, depth):
    """A document nested this deep."""
    v = scalar(r)
    for i in range(depth):
        v = r.choice([lambda: [v], lambda: {"k": v}, lambda: [v, i], lambda: {"a": [], "b": v}])() if r.random() < 0.5 else [v]
    return v


def broken(r):
    """A file that pretty.py may refuse."""
    good = json.dumps(r.choice([lambda: doc(r, 4), lambda: token_set(r), lambda: edge(r)])(), ensure_ascii=r.random() < 0.5)
    k = r.randint(0, 6)
    if k == 0:
        cut = r.randint(0, max(0, len(good) - 1))
        return good[:cut].encode("utf-8")
    if k == 1:
        bad = r.choice(["\\ud800", "\\udfff", "\\udc00\\ud800", "ab\\ud83d", "\\ude00"])
        rows = ['[%d, "%s"]' % (i, string(r, 3).translate({34: 46, 92: 46, **{c: 46 for c in range(32)}})) for i in range(r.choice([0, 3, 40, 400]))]
        rows.insert(r.randint(0, len(rows)), '{"k": "%s"}' % bad if r.random() < 0.5 else '{"%s": 1}' % bad)
        return ("[" + ", ".join(rows) + "]").encode("utf-8")
    if k == 2:
        n = r.randint(900, 3000)
        o, c = r.choice([("[", "]"), ('{"k":', "}"), ("[1,", "]"), ('[{"a":0,"b":', "}]")])
        return ((o * n) + "7" + (c * n)).encode("utf-8")
    if k == 3:
        raw = good.encode("utf-8")
        at = r.randint(0, len(raw))
        return raw[:at] + r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80"]) + raw[at:]
    if k == 4:
        return (good + r.choice(["]", "}", ",", " x", "\n{}", '"'])).encode("utf-8")
    if k == 5:
        return r.choice([b"", b"\n", b"{", b"[1,]", b"{'a': 1}", b'["\t', b"nul", b"[1 2]", b"\xef\xbb\xbf[1]"])
    # what Python's reader takes and other readers do not
    return r.choice([b"[NaN]", b"[Infinity, -Infinity]", b'{"a": 1, "a": 2}', b"[1e999]", b"[" + b"9" * 5000 + b"]"])


def depth_of(v):
    if isinstance(v, dict):
        return 1 + max([depth_of(x) for x in v.values()] or [0])
    if isinstance(v, list):
        return 1 + max([depth_of(x) for x in v] or [0])
    return 0


lock = threading.Lock()
state = {"evals": 0, "distinct": set(), "samples": [], "violations": [], "inconclusive": [], "obs": {}}


def count(k, n=1):
    state["obs"][k] = state["obs"].get(k, 0) + n


def violation(kind, detail, before, after):
    with lock:
        if len(state["violations"]) >= 4:
            return
        d = os.path.join(REPLAY, "%s-%d" % (kind, len(state["violations"])))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "before.json"), "wb").write(before)
        if after is not None:
            open(os.path.join(d, "after.json"), "wb").write(after)
        open(os.path.join(d, "violation.txt"), "w").write("property C16\nkind %s\n%s\nrun: python3 pretty.py before.json\n" % (kind, detail))
        state["violations"].append({"kind": kind, "detail": detail, "replay": d})


def run_pretty(path):
    return subprocess.run([sys.executable, PRETTY, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), cwd=os.path.dirname(path))


def one(idx, value, raw):
    d = os.path.join(WORK, "d%d" % idx)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "doc.json")
    try:
        open(path, "wb").write(raw)
        try:
            p = run_pretty(path)
        except subprocess.TimeoutExpired:
            with lock:
                state["inconclusive"].append("timeout on document %d" % idx)
            return
        after = open(path, "rb").read() if os.path.exists(path) else None
        if sorted(os.listdir(d)) != ["doc.json"]:
            return violation("leftovers", "other files were left: %s" % os.listdir(d), raw, after)
        if value is BROKEN and p.returncode != 0:
            # refused: then the file must be what it was
            if after != raw:
                return violation("destroyed", "pretty.py gave up (%s) but the file changed from %d to %d bytes"
                                 % (p.stderr.decode("utf-8", "replace").strip()[-200:], len(raw), len(after or b"")), raw, after)
            with lock:
                state["evals"] += 1
                count("files refused and left as they were")
            return
        if value is BROKEN:
            try:
                value = loads(raw)
            except Exception as e:
                return violation("accepted", "pretty.py accepted a file that is not JSON text: %s" % e, raw, after)
        if p.returncode != 0:
            return violation("failed", "pretty.py failed on a valid document: " + p.stderr.decode("utf-8", "replace")[-600:], raw, after)
        try:
            back = loads(after)
        except Exception as e:
            return violation("not-json", "the rewritten file is not a JSON document: %s" % e, raw, after)
        if not same(value, back):
            return violation("meaning", "the rewritten file has another value", raw, after)
        p = run_pretty(path)
        again = open(path, "rb").read()
        if p.returncode != 0 or again != after:
            return violation("again", "a second run changed the file or failed", raw, after)
        lines = after.decode("utf-8").split("\n")
        with lock:
            state["evals"] += 1
            count("documents judged")
            count("lines written", len(lines))
            count("lines of 70 to 90 characters", sum(70 <= len(x) <= 90 for x in lines))
            count("deepest nesting seen", 0)
            state["obs"]["deepest nesting seen"] = max(state["obs"]["deepest nesting seen"], depth_of(value))
            if len(lines) > 2:
                h = hashlib.sha256(raw).digest()[:8]
                if h not in state["distinct"] and len(state["samples"]) < 5 and len(raw) < 400:
                    state["samples"].append(raw.decode("utf-8"))
                state["distinct"].add(h)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(idx):
    files = sorted(glob.glob(os.path.join(REPO, "tokens", "*.json")))
    if idx < len(files) and (THOROUGH or idx % 6 == SEED % 6):
        raw = open(files[idx], "rb").read()
        return json.loads(raw.decode("utf-8")), raw
    r = random.Random("%d/C16/%d" % (SEED, idx))
    if idx % 9 == 8:
        return BROKEN, broken(r)
    if idx % 40 == 7:
        value = nested(r, r.choice([60, 120, 200]))
        return value, json.dumps(value, ensure_ascii=r.random() < 0.5).encode("utf-8")
    k = idx % 4
    value = [lambda: doc(r, 4), lambda: edge(r), lambda: token_set(r), lambda: doc(r, 7)][k]()
    style = r.randint(0, 4)
    text = json.dumps(value, ensure_ascii=style in (0, 3), indent=[None, 2, None, 7, 0][style],
                      separators=(",", ":") if style == 2 else None)
    if r.random() < 0.2:
        text = " \n" + text + "\r\n\t"
    return value, text.encode("utf-8")


idx_lock = threading.Lock()
nxt = [0]


def worker():
    while time.time() - T0 < BUDGET and len(state["violations"]) < 4 and len(state["inconclusive"]) < 6:
        with idx_lock:
            i = nxt[0]
            nxt[0] += 1
        value, raw = make(i)
        if len(raw) > 8 << 20:
            continue
        one(i, value, raw)


if not os.path.exists(PRETTY):
    state["inconclusive"].append("no pretty.py in the tree")
else:
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(worker) for _ in range(8)]:
            f.result()
json.dump({"evaluations": state["evals"], "distinct_nontrivial": len(state["distinct"]),
           "rule": "one case = one generated JSON file (or published token set) rewritten twice by pretty.py, or one broken file given to it; non-trivial if the result has several lines; distinct by file contents",
           "samples": state["samples"], "observed": state["obs"], "violations": state["violations"],
           "inconclusive": state["inconclusive"]}, open(args["out"], "w"))
