"""Tries mechanical mutants of modbus_tk against the checks (a development tool: no check uses it).

    python3 tools/mutants.py OUT.jsonl [--only REGEX on file:line] [--part I/N] [--scale 0.3]
Works on a copy of /verif and scratch copies of /repo in /tmp/w/mutants; one line of JSON by mutant in OUT.
"""
import argparse, ast, json, os, re, shutil, subprocess, sys, time

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    "modbus.py:Master": "C12 C24 C17 C15 C11 C16 C27 C20 C21 C28 C32 C33 C30",
    "modbus.py:Slave": "C01 C02 C03 C05 C04 C06 C08 C26 C20 C21 C24 C22 C35 C34",
    "modbus.py:ModbusBlock": "C01 C02 C05 C04 C03 C20 C06",
    "modbus.py:Databank": "C07 C08 C04 C25 C26 C20 C06 C21 C34",
    "modbus.py:Server": "C25 C14 C09 C19 C20 C08 C21 C04 C32 C34",
    "modbus.py:": "C12 C03 C09 C14 C19 C21",
    "modbus_tcp.py:TcpServer": "C09 C10 C19 C25 C20 C21 C34",
    "modbus_tcp.py:TcpMaster": "C11 C12 C27 C17 C28 C20 C21 C16 C30 C34",
    "modbus_tcp.py:": "C09 C11 C18 C12 C07 C20 C21 C16 C10",
    "modbus_rtu.py:RtuServer": "C14 C19 C25 C20 C21 C08 C31 C36",
    "modbus_rtu.py:RtuMaster": "C15 C12 C17 C20 C21 C24 C30 C31 C36",
    "modbus_rtu.py:": "C13 C15 C14 C08 C07 C21 C37",
    "modbus_rtu_over_tcp.py:": "C16 C12 C20 C17 C21 C30",
    "utils.py:WorkerThread": "C23 C19", "utils.py:": "C13 C15 C14 C17 C21 C23 C09 C11 C31 C32 C37",
    "hooks.py:": "C20 C26 C21", "exceptions.py:": "C03 C12 C04", "pymodbusclient.py:": "C28",
    "simulator.py:": "C22", "simulator_rpc_client.py:": "C22",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&",
       ast.LShift: ">>", ast.RShift: "<<", ast.BitXor: "|"}


def mutants(path):
    src = open(path, newline="").read()
    text = src.replace("\r\n", "\n")
    lines = text.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    data = text.encode()
    tree = ast.parse(text)
    out = []

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return data[a:b].decode()

    def sub(n, new, what):
        a, b = pos(n)
        out.append((n.lineno, what, scope[:], (data[:a] + new.encode() + data[b:]).decode()))
    scope = []

    def logs(n):
        return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or re.match(r"(LOGGER|logger|print)\b", seg(n)))

    def visit(n):
        named = isinstance(n, (ast.ClassDef, ast.FunctionDef))
        if isinstance(n, ast.If) and "PY2" in seg(n.test):
            return
        if named:
            scope.append(n.name)
        if isinstance(n, ast.stmt) and logs(n):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), ()):
                sub(n, "%s %s %s" % (seg(n.left), op, seg(n.comparators[0])), "%s -> %s" % (seg(n), op))
        elif isinstance(n, ast.Compare):
            for k in range(len(n.ops)):
                for op in CMP.get(type(n.ops[k]), ()):
                    parts = [seg(n.left)]
                    for j, comp in enumerate(n.comparators):
                        parts += [op if j == k else {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}.get(type(n.ops[j]), "=="),
                                  seg(comp)]
                    sub(n, " ".join(parts), "%s -> %s" % (seg(n), op))
        elif isinstance(n, ast.BoolOp):
            new = " or " if isinstance(n.op, ast.And) else " and "
            sub(n, "(" + new.join(seg(v) for v in n.values) + ")", "boolop -> %s: %s" % (new, seg(n)))
            for k in range(len(n.values)):
                rest = [seg(v) for j, v in enumerate(n.values) if j != k]
                old = " and " if isinstance(n.op, ast.And) else " or "
                sub(n, "(" + old.join(rest) + ")", "drop operand %s of %s" % (seg(n.values[k]), seg(n)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, "(" + seg(n.operand) + ")", "drop not: " + seg(n))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value not in (None, Ellipsis):
            if n.value is True or n.value is False:
                sub(n, str(not n.value), "const %s" % n.value)
            elif isinstance(n.value, int):
                sub(n, str(n.value + 1), "const %d + 1" % n.value)
                if n.value > 0:
                    sub(n, str(n.value - 1), "const %d - 1" % n.value)
            elif isinstance(n.value, float):
                sub(n, str(n.value * 10), "const %s * 10" % n.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r"^[<>]\w*$", n.value):
            s = seg(n)
            sub(n, s.replace(">", "?").replace("<", ">").replace("?", "<"), "endian " + s)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or \
                isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left.value, int):
            sub(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "%s -> %s" % (seg(n), BIN[type(n.op)]))
        elif isinstance(n, ast.If):
            sub(n.test, "(not (%s))" % seg(n.test), "negate if " + seg(n.test))
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, ast.With):
            a, b = pos(n.items[0].context_expr)
            if n.items[0].optional_vars is None:
                s0 = starts[n.lineno - 1] + n.col_offset
                out.append((n.lineno, "drop with " + seg(n.items[0].context_expr), scope[:],
                            (data[:s0] + b"if True" + data[b:]).decode()))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            if seg(n.args[0]) != seg(n.args[1]) and not isinstance(n.args[0], ast.Constant):
                args = [seg(a) for a in n.args]
                args[0], args[1] = args[1], args[0]
                sub(n, "%s(%s)" % (seg(n.func), ", ".join(args)), "swap args " + seg(n)[:80])
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and len(scope) and "\n" not in seg(n):
            sub(n, "pass", "delete " + seg(n)[:100])
        if isinstance(n, ast.Return) and n.value is not None and seg(n) != "return None":
            sub(n, "return None", "no return " + seg(n)[:80])
        if isinstance(n, ast.Break):
            sub(n, "continue", "break -> continue")
        if isinstance(n, ast.Continue):
            sub(n, "break", "continue -> break")
        if isinstance(n, ast.Try) and n.finalbody and len(n.finalbody) == 1:
            sub(n.finalbody[0], "pass", "drop finally " + seg(n.finalbody[0])[:60])
        for child in ast.iter_child_nodes(n):
            visit(child)
        if named:
            scope.pop()
    visit(tree)
    seen, res = set(), []
    for line, what, where, new in out:
        if new in seen or new == text:
            continue
        seen.add(new)
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        res.append((line, what, ".".join(where), new.replace("\n", "\r\n") if "\r\n" in src else new))
    return res


def main():
    par = argparse.ArgumentParser()
    par.add_argument("out"), par.add_argument("--only", default=""), par.add_argument("--part", default="0/1")
    par.add_argument("--scale", type=float, default=0.3), par.add_argument("--list", action="store_true")
    par.add_argument("--files", default="")
    par.add_argument("--checks", default="")
    par.add_argument("--again", default="", help="an OUT of before: only the mutants which no check has found")
    opt = par.parse_args()
    me, parts = map(int, opt.part.split("/"))
    base = "/tmp/w/mutants/%d" % me
    if not opt.list:
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays", "__pycache__"))
        core = base + "/verif/vp/core.py"
        src = open(core).read()
        assert 'budget = shard.get("budget", 60)' in src
        open(core, "w").write(src.replace('budget = shard.get("budget", 60)', 'budget = shard.get("budget", 60) * %r' % opt.scale))
        for name in ("modbus_tk", "tests"):
            shutil.copytree(REPO + "/" + name, base + "/repo/" + name)
    todo = []
    for name in sorted(os.listdir(REPO + "/modbus_tk")):
        if name.endswith(".py") and name not in ("__init__.py", "defines.py") and re.search(opt.files, name):
            for line, what, where, new in mutants(REPO + "/modbus_tk/" + name):
                todo.append((name, line, what, where, new))
    done = set()
    if os.path.exists(opt.out):
        for l in open(opt.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    if opt.again:
        before = [json.loads(l) for l in open(opt.again)]
        before = set((d["file"], d["where"], d["what"]) for d in before if not d["killer"])
        todo = [t for t in todo if (t[0], t[3], t[2]) in before]
    for k, (name, line, what, where, new) in enumerate(todo):
        if k % parts != me or (opt.only and not re.search(opt.only, "%s:%d %s" % (name, line, what))):
            continue
        if opt.list:
            print("%s:%d %s | %s" % (name, line, where, what))
            continue
        if (name, line, what) in done:
            continue
        checks = opt.checks or next((ORDER[key] for key in sorted(ORDER, key=len, reverse=True)
                      if key.split(":")[0] == name and (where + ".").startswith(key.split(":")[1])), "C12")
        target = "%s/repo/modbus_tk/%s" % (base, name)
        open(target, "w", newline="").write(new)
        killer, msg, took = None, "", time.time()
        for check in checks.split():
            env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_TIER="quick", VERIF_SEED="1")
            try:
                res = subprocess.run(["bash", base + "/verif/check.sh", check], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     timeout=400)
                text = res.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                text = "VIOLATION? the check does not end"
            if "VIOLATION" in text:
                killer, msg = check, text[:200]
                break
            if res.returncode == 2:
                killer, msg = check + "?", text[:200]
        shutil.copyfile(REPO + "/modbus_tk/" + name, target)
        with open(opt.out, "a") as fil:
            fil.write(json.dumps(dict(file=name, line=line, what=what, where=where, killer=killer, msg=msg,
                                      took=round(time.time() - took, 1))) + "\n")


main()
