"""Writes properties.jsonl and MANIFEST.json from one description (run after editing it)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAIN = "Commandline/vegamain.cpp"
CL = "Commandline/VegaCommandLine.cpp"
RD = ["Nastran/NastranParser.cpp", "Nastran/NastranTokenizer.cpp", "Optistruct/OptistructParser.cpp", "ResultReaders/ResultReaders.cpp"]
WRT = ["Aster/AsterWriter.cpp", "Aster/MedWriter.cpp", "Systus/SystusWriter.cpp", "Nastran/NastranWriter.cpp"]
RUN = ["Aster/AsterRunner.cpp", "Systus/SystusRunner.cpp", "Nastran/NastranRunner.cpp", "Abstract/SolverInterfaces.cpp"]
P = []      # claimed
N = []      # not applicable


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
              technique, note))


def na(id, title, statement, files, mech, why, reason):
    assert len(title) <= 80, title
    N.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text="every input study and option set"),
                   why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), reason))


exec(open(os.path.join(V, "tools", "spec_props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in [p[0] for p in P] + [n[0] for n in N]:
        f.write(json.dumps(d) + "\n")
man = dict(
    version=1, setup_cmd="python3 check.py setup",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                 thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=t, level="exploration", level_note=n) for p, t, n in P],
    not_applicable=[dict(property=p["id"], reason=r) for p, r in N],
    notes="No hooks in /repo: the simulator interposes the C library functions, operator new and the heap of the unchanged sources "
          "(see DESIGN.md). Commits in /repo are repairs ('fix:') of defects these checks found; known_findings.txt lists them.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
