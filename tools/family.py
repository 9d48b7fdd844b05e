"""Write specs/family/*.diff: the ways the fixpoint of Grammar::terminates can be written (authoring aid).

Each is the same least fixpoint: grown from the rules with a purely terminal alternative or from nothing, left early or
not when the start is reached, repeated while a flag, a length or a batch shows progress; and the test of one alternative in two ways.
sa.alt derives the accepted tables from them."""
import os, subprocess, itertools, tempfile, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, X = "/repo/src/grammar.rs", "/repo/src/expression.rs"
g, x = open(G).read(), open(X).read()
i = g.index("        // collect 'every non-terminal that produces a sequences of terminals'")
j = g.index("        terminating_rules.contains(&starting_term)\n", i)
SEED = """        for p in self.productions.iter() {
            if p.has_terminating_expression(None) {
                terminating_rules.push(&p.lhs);
            }
        }

"""
GATE = """        if terminating_rules.is_empty() {
            return false;
        }

"""


def step(early, mark):
    e = """                    if &prod.lhs == starting_term {
                        return true;
                    }
""" if early else ""
    return """            for prod in self.productions_iter() {
                if terminating_rules.contains(&&prod.lhs) {
                    continue;
                }
                if prod.has_terminating_expression(Some(&terminating_rules)) {
""" + e + "                    terminating_rules.push(&prod.lhs);\n" + mark + "                }\n            }\n"


SET = "                    is_progress = true;\n"
STYLES = {
    "flag": lambda e: "        let mut is_progress = true;\n        while is_progress {\n            is_progress = false;\n" + step(e, SET) + "        }\n",
    "loop": lambda e: "        loop {\n            let mut is_progress = false;\n" + step(e, SET) + "            if !is_progress {\n                break;\n            }\n        }\n",
    "value": lambda e: "        loop {\n            let mut is_progress = false;\n" + step(e, SET) + "            if !is_progress {\n                return terminating_rules.contains(&starting_term);\n            }\n        }\n",
    "len": lambda e: "        loop {\n            let known = terminating_rules.len();\n" + step(e, "") + "            if terminating_rules.len() == known {\n                break;\n            }\n        }\n",
    "vlen": lambda e: "        loop {\n            let known = terminating_rules.len();\n" + step(e, "") + "            if terminating_rules.len() == known {\n                return terminating_rules.contains(&starting_term);\n            }\n        }\n",
    "batch": lambda e: """        loop {
            let newly: Vec<&Term> = self
                .productions_iter()
                .filter(|p| !terminating_rules.contains(&&p.lhs))
                .filter(|p| p.has_terminating_expression(Some(&terminating_rules)))
                .map(|p| &p.lhs)
                .collect();
            if newly.is_empty() {
                break;
            }
            terminating_rules.extend(newly);
        }
""",
}
a = x.index("        if !self.terms.iter().any(|t| matches!(t, Term::Nonterminal(_))) {")
b = x.index("        true\n    }\n", a) + len("        true\n")
EXPR = {"each": None, "all": """        self.terms.iter().all(|term| match term {
            Term::Terminal(_) => true,
            Term::Nonterminal(_) => terminating_rules.is_some_and(|rules| rules.contains(&term)),
        })
"""}
out = V + "/specs/family"
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
tmp = tempfile.mkdtemp()
try:
    for (s, gt), (n, st), e, (xn, xt) in itertools.product([(1, 1), (1, 0), (0, 0)], STYLES.items(), (1, 0), EXPR.items()):
        if n == "batch" and e:
            continue
        body = (SEED if s else "") + (GATE if gt else "") + st(e)
        end = j if n not in ("value", "vlen") else j + len("        terminating_rules.contains(&starting_term)\n")
        g2 = g[:i] + body + g[end:]
        x2 = x if xt is None else x[:a] + xt + x[b:]
        name = "terminates_%s%s%s_%s_%s" % ("s" if s else "", "g" if gt else "", "e" if e else "", n, xn)
        diff = ""
        for p, old, new in (("src/grammar.rs", g, g2), ("src/expression.rs", x, x2)):
            if old == new:
                continue
            for d, t in (("a", old), ("b", new)):
                os.makedirs(os.path.join(tmp, d, os.path.dirname(p)), exist_ok=True)
                open(os.path.join(tmp, d, p), "w").write(t)
            diff += subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + p, "b/" + p], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, name + ".diff"), "w").write(diff)
finally:
    shutil.rmtree(tmp)
print(len(os.listdir(out)))
