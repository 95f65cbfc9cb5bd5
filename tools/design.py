"""Write DESIGN.md from the hand written parts, the registered scenarios, the seeds and their catches."""
import ast, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT]
HOW = json.load(open(f"{ROOT}/tools/design_how.json"))
TIMES = json.load(open(f"{ROOT}/tools/design_times.json"))
out = [open(f"{ROOT}/tools/design_head.md").read()]


def facts(src):
    """-> (bounds of the scenarios, assumptions)"""
    b, a = [], []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "scenario":
            b += [(n.lineno, k.value.value) for k in n.keywords if k.arg == "bounds" and isinstance(k.value, ast.Constant)]
        elif isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            a = ast.literal_eval(n.value)
    return [x for _, x in sorted(b)], a


for line in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    out.append(f"### {i}: {p['title']}\n\n{p['statement']}\n\n")
    f = f"{ROOT}/props/{i}.py"
    if not os.path.exists(f):
        continue
    src = open(f).read()
    out.append(f"*How.* {HOW[i]}\n\n*Why beyond tests.* {p['why_tests_cant']}\n\n*Bounds.*\n")
    b, a = facts(src)
    out += [f"- {x}\n" for x in b]
    out.append("\n*Assumptions / outside.* " + "; ".join(a) + ".\n")
    t = TIMES.get(i)
    if t:
        out.append(f"\n*Cost.* {t}\n")
    out.append("\n")
k = json.load(open(f"{ROOT}/known_findings.json"))["findings"]
out.append("## 3. Defects found and repaired, planted bugs\n\nEach was found as a counterexample, replayed, and repaired in its own `fix:` commit; the unedited test suite passes.\n\n| property | commit | what failed |\n|---|---|---|\n")
for e in k:
    out.append(f"| {e['property']} | {e.get('commit', e['status'])} | {re.sub(r'^fixed: \S+ \S+ ', '', e.get('what', ''))} |\n")
out.append("\nPlanted bugs (`seeded/`), written from the property text and the code, each confirmed to pass the stable tests and to fail its demo. \"Caught by\" lists the quick checks that were run on it and reported it.\n\n| bug | needs | caught by |\n|---|---|---|\n")
C = json.load(open(f"{ROOT}/tools/design_catches.json"))
for s in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['needs']} | {C.get(s, '(not yet run)')} |\n")
out.append(open(f"{ROOT}/tools/design_tail.md").read())
open(f"{ROOT}/DESIGN.md", "w").write("".join(out))
