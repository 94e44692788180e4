"""mutate.py WORKER NWORKERS COUNT SEED [file ...]: plant small random changes one after another in a scratch copy of the repository and
tell which check notices each; used to look for blind spots (never by a check)."""
import ast, os, random, shutil, subprocess, sys, json, time
WORKER, N, COUNT, SEED = map(int, sys.argv[1:5])
ONLY = sys.argv[5:]
SRC = "/repo"
R, V = "/tmp/mut%d/repo" % WORKER, "/tmp/mut%d/verif" % WORKER
REL = {
 "base.py": "P05 P28 P02 P03 P04 P01 P16", "baselines/cc.py": "P02 P05", "baselines/ac.py": "P03 P08 P01 P05", "binary/debias.py": "P12 P01", "binary/emd.py": "P12 P08 P01", "binary/quantiles.py": "P12 P08 P01 P28",
 "multiclass/em.py": "P09 P01", "multiclass/df.py": "P07 P08 P05 P01", "multiclass/energy.py": "P10 P08 P05 P01", "multiclass/friedman.py": "P11 P08 P06 P05", "multiclass/knn.py": "P27 P08 P05", "multiclass/regression.py": "P26 P14 P05 P01 P28",
 "ordinal/ac_ordinal.py": "P23 P08 P05", "ordinal/pdf.py": "P23 P08 P05 P01", "ordinal/trees.py": "P21 P05", "decomposition/multiclass.py": "P18 P05 P04 P28 P01", "decomposition/ordinal.py": "P19 P05 P04 P28 P01",
 "ensembles/eoq.py": "P16 P17 P14 P28 P05 P01 P04", "bag_generator.py": "P13 P14", "search.py": "P25 P07 P12", "optimization.py": "P25 P07 P10 P03 P11 P01", "metrics/binary.py": "P24", "metrics/multiclass.py": "P24 P17 P07", "metrics/ordinal.py": "P24 P23",
 "estimators/cross_validation.py": "P15", "estimators/ensembles.py": "P16", "estimators/frank_and_hall.py": "P20 P21 P28", "estimators/ordinal_ddag.py": "P22", "estimators/weighted_knn.py": "P27"}
CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}


def sites(src):
    """(start, end, replacement, what) of possible changes"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    b = src.encode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "verbose" in ast.unparse(n.test):
            skip |= set(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip |= set(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= set(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Call) and "super" in ast.unparse(n.func)[:6] or isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
        if isinstance(n, (ast.FunctionDef,)) and n.name == "is_pd":
            pass
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, z = pos(n.left)[1], pos(n.comparators[0])[0]
            o, r = CMP[type(n.ops[0])]
            seg = b[a:z].decode()
            if seg.count(o) == 1:
                out.append((a, z, seg.replace(o, r), "cmp"))
        elif isinstance(n, ast.BinOp):
            a, z = pos(n.left)[1], pos(n.right)[0]
            seg = b[a:z].decode()
            for o, r in (("**", "*"), ("//", "/"), ("+", "-"), ("-", "+"), ("*", "/"), ("/", "*")):
                if seg.count(o) == 1 and "#" not in seg:
                    out.append((a, z, seg.replace(o, r), "op"))
                    break
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            a, z = pos(n)
            if n.value is True or n.value is False:
                out.append((a, z, str(not n.value), "bool"))
            elif isinstance(n.value, int):
                out.append((a, z, str(n.value + 1), "const"))
                out.append((a, z, "(%d)" % (n.value - 1), "const"))
            elif isinstance(n.value, float):
                out.append((a, z, repr(n.value * 1.5), "const"))
        elif isinstance(n, ast.BoolOp):
            a, z = pos(n.values[0])[1], pos(n.values[1])[0]
            seg = b[a:z].decode()
            o, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if seg.count(o) == 1:
                out.append((a, z, seg.replace(o, r), "bool"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, z = pos(n)[0], pos(n.operand)[0]
            out.append((a, z, " ", "unary"))
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.split(".")[-1] in ("deepcopy", "copy", "clone", "squeeze", "ravel", "sqrt", "abs", "array", "cumsum", "sort", "asarray") and len(n.args) >= 1:
                out.append(pos(n) + (b[pos(n.args[0])[0]:pos(n.args[0])[1]].decode(), "call"))
            if len(n.args) >= 2:
                p, q = n.args[0], n.args[1]
                seg = b[pos(p)[1]:pos(q)[0]].decode()
                out.append((pos(p)[0], pos(q)[1], b[pos(q)[0]:pos(q)[1]].decode() + seg + b[pos(p)[0]:pos(p)[1]].decode(), "swap"))
            if n.keywords and n.keywords[-1].arg and f.split(".")[0] != "super()":
                k = n.keywords[-1]
                if len(n.args) + len(n.keywords) > 1:
                    start = pos(n.args[-1])[1] if len(n.keywords) == 1 else pos(n.keywords[-2].value)[1]
                    out.append((start, pos(k.value)[1], "", "keyword"))
        elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append(pos(n) + ("pass", "drop"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
            out.append(pos(n) + ("pass", "drop"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            out.append(pos(n) + ("pass", "drop"))
        elif isinstance(n, ast.If):
            a, z = pos(n.test)
            t = b[a:z].decode()
            out.append((a, z, "(%s) and False" % t, "iffalse"))
            out.append((a, z, "(%s) or True" % t, "iftrue"))
    return [s for s in out if "verbose" not in src.encode()[s[0]:s[1]].decode()]


def main():
    shutil.rmtree("/tmp/mut%d" % WORKER, ignore_errors=True)
    os.makedirs("/tmp/mut%d" % WORKER)
    shutil.copytree(SRC, R, symlinks=True)
    os.makedirs(V)
    subprocess.run("git -C /verif archive HEAD | tar -x -C %s; cp -a /verif/build %s/ 2>/dev/null" % (V, V), shell=True, check=True)
    allm = []
    for f in sorted(REL):
        if ONLY and f not in ONLY:
            continue
        src = open("%s/quantificationlib/%s" % (R, f)).read()
        allm += [(f,) + s for s in sites(src)]
    rnd = random.Random(SEED)
    rnd.shuffle(allm)
    done = 0
    for k, (f, a, z, rep, what) in enumerate(allm):
        if k % N != WORKER:
            continue
        if done >= COUNT:
            break
        p = "%s/quantificationlib/%s" % (R, f)
        b = open(p, "rb").read()
        m = b[:a] + rep.encode() + b[z:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        open(p, "wb").write(m)
        line = b[:a].count(b"\n") + 1
        got, t0 = None, time.time()
        for c in REL[f].split():
            try:
                r = subprocess.run(["./check.sh", c], cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 124
            if rc:
                got = "%s:%d" % (c, rc)
                break
        open(p, "wb").write(b)
        done += 1
        print(json.dumps(dict(file=f, line=line, what=what, old=b[a:z].decode()[:120], new=rep[:120], got=got, sec=int(time.time() - t0))), flush=True)
    shutil.rmtree("/tmp/mut%d" % WORKER)


main()
