"""Assembles DESIGN.md from tools/design_head.md, the harnesses and tools/design_tail.md."""
import ast
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(tree, name, env):
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return eval(compile(ast.Expression(n.value), "x", "eval"), dict(env))
    return None


def scenarios(tree, src):
    for n in tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if getattr(t, "id", "") == "SCENARIOS":
                out = []
                for x in ast.walk(n.value):
                    if (isinstance(x, ast.Constant) and isinstance(x.value, str)
                            and x.value not in out):
                        out.append(x.value)
                return out
    return []


def main():
    out = [open(f"{V}/tools/design_head.md").read().rstrip(), "",
           "## 2. The properties", ""]
    ray = const(ast.parse(open(f"{V}/harness/rayh.py").read()), "RAY_ASSUMPTIONS", {})
    big = const(ast.parse(open(f"{V}/harness/large.py").read()), "BOUND", {})
    import importlib.util
    spec = importlib.util.spec_from_file_location("plans", f"{V}/tools/plans.py")
    plans = importlib.util.module_from_spec(spec); spec.loader.exec_module(plans)
    out += ["Assumptions of the checks that use the Ray stub (\"Ray stub\" below):"]
    out += [f"* {a}" for a in ray] + [""]
    for line in open(f"{V}/properties.jsonl"):
        p = json.loads(line)
        i = p["id"]
        src = open(f"{V}/harness/{i.lower()}.py").read()
        tree = ast.parse(src)
        b = const(tree, "BOUNDS", {})
        a = const(tree, "ASSUMPTIONS", {"RAY_ASSUMPTIONS": ["Ray stub"]}) or []
        if "BOUNDS += " in src:
            b += big
        out += [f"### {i} {p['title']}", "", plans.PLANS[i].strip(), "",
                f"*Bounds:* {b}.", ""]
        if a:
            out += ["*Assumptions:* " + "; ".join(a) + ".", ""]
    out += [open(f"{V}/tools/design_tail.md").read().rstrip(), ""]
    caught = json.load(open(f"{V}/tools/caught.json"))
    out += ["", "| planted bug | what it breaks | needs | caught by |",
            "|---|---|---|---|"]
    for n in sorted(os.listdir(f"{V}/seeded")):
        m = json.load(open(f"{V}/seeded/{n}/meta.json"))
        c = caught.get(n, [m["property"]])
        out += [f"| {n} | {m['what_it_breaks']} | {m['needs']} |"
                f" {', '.join(c) or 'none'} |"]
    out += [""]
    open(f"{V}/DESIGN.md", "w").write("\n".join(out))


if __name__ == "__main__":
    main()
