"""Write the per-property part of DESIGN.md from properties.jsonl, the harnesses and the last evidence."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
MARK = "<!-- generated by tools/gen_design.py from here on -->\n"

ORACLE = {
 "P01": "Edge bits against the definitions; degree sums as solver terms.",
 "P02": "Reachability as a fixed-point formula over the edge bits; events are compared with a parenthesis structure.",
 "P03": "Distance layers unrolled over the edge bits.",
 "P04": "Mutual reachability formula for each pair; internal edges and condensation edges from the edge bits.",
 "P05": "Reachability formula; a topological order is wanted exactly if no vertex reaches itself.",
 "P06": "Free witness: a smaller decomposition (successor bits) or a larger antichain, searched by the solver.",
 "P07": "Free witness colouring when rejected, the colouring returned when accepted; the odd core as a formula over the edge bits (edges of the blocks that have an odd cycle).",
 "P08": "Connectivity formula of the graph minus one vertex, for every vertex; two edges share a component exactly if no cut vertex separates them.",
 "P09": "Source, sink and acyclicity formulas over the returned orientation; rejection against the biconnectivity formula.",
 "P10": "Free witness matching, larger than the one returned; the certificate is checked as an independent set; an edge is imperfect exactly if no witness perfect matching uses it.",
 "P11": "Free witness matching, larger than the one returned.",
 "P12": "Chordality as a formula over the edge bits (no chordless cycle); elimination order and lexicographic label rule by formula.",
 "P13": "Symbolic integer weights; free witness spanning forest that is lighter.",
 "P14": "Free witness vertex subset with larger minimum degree, or a core vertex left out; triangles from the edge bits.",
 "P15": "Every cyclic arrangement of the vertices is a Hamiltonian cycle exactly if its edge bits are set; the list of cycles must contain each such one once.",
 "P16": "The edge bits are those of one of the graphs of the class (the class is generated by the harness from its definition: plane trees plus leaf cycle, inverse reductions); leaf set and Hamiltonian cycle by formula.",
 "P17": "Bit vectors as set members; Hamming distance is the specified token distance.",
 "P18": "Distance formula over the edge bits and the Djokovic relation, whose transitivity characterises partial cubes.",
 "P19": "Free assignment of the edges to three matchings; placement by bicoloured paths as a formula.",
 "P20": "Free truth assignment for each direction (satisfiable, forced, free).",
 "P21": "Labels are opaque symbolic values; walks over label-disequality terms, unrolled to the number of edges.",
 "P22": "The expression is a term tree; matching of a free word is encoded by positions and compared with the automaton built from the text.",
 "P23": "Free transition tables and a free word; acceptance by unrolled simulation.",
 "P24": "Free transition tables; words up to the length that tells two automata of these sizes apart.",
 "P25": "Symbolic objects whose equality is decided by the solver; the model is the equivalence closure of the unions.",
 "P26": "Symbolic priorities; the model is a list of item and priority pairs.",
 "P27": "Symbolic stored integers; the model is membership by the last operation on an equal value.",
 "P28": "A Python list edited in the same way, items being symbolic.",
 "P29": "A Python list edited in the same way; the tag range is reduced in some configurations so that renumbering happens within a few operations.",
 "P30": "Symbolic ordered values; strictly increasing and the same members.",
 "P31": "Symbolic membership of each element in each refining set; the model is a bit vector per element.",
 "P32": "Symbolic stream; counts are sums over equality terms; the accuracy is one of a few fixed fractions.",
 "P33": "Symbolic ordered values with ties; the minimum is below all and equal to one.",
 "P34": "The harness settles the parent of each node before calling (a choice by the solver for each), so the tree shapes are enumerated; node names stay symbolic (which names are equal, where they hash). The deepest common ancestor by walking the parent links.",
 "P35": "Symbolic letters; free witness embedding of a longer common subsequence.",
 "P36": "Symbolic ordered values; free witness selection that is longer, or as long and ending lower.",
 "P37": "Symbolic entries assumed totally monotone (online: concave); column minimum by formula.",
 "P38": "Symbolic word widths and target (bit vectors); every other choice of breaks is compared as a term, for all widths at once.",
 "P39": "One run per size for the generators (they take no other input), a free word being listed exactly if it is Lyndon; the factorisation functions take symbolic sequences.",
 "P40": "One run per size for the generators, a free word being listed exactly if of the kind; the plain changes also act on symbolic items.",
 "P41": "One run per number, a free part list being listed exactly if it is such a partition; conjugation takes symbolic parts.",
 "P42": "One run of the stream, a free integer being listed exactly if it satisfies the divisibility formula.",
 "P43": "One run of the stream, a free point being listed exactly if it lies within the radius.",
 "P44": "The encoder is part of the harness: edge bits or sparse6 code words become character codes; what is read back is compared with them.",
 "P45": "Texts with symbolic names, endpoints and lines; the reader's result is compared with what was written.",
 "P46": "A free grid satisfying the sudoku rules and the given cells: it must be among the completions reported.",
 "P47": "A free grid satisfying the rules and lying within the candidates before the rule must lie within them afterwards.",
 "P48": "Symbolic coordinates; the text written is read as decimal terms and compared with what was requested, up to the rounding of the number format.",
 "P49": "Symbolic parameters and jumps; adjacency by congruence formulas; for named graphs a free closed walk shorter than the girth.",
 "P51": "Real arithmetic (z3's nonlinear solver); tangency and similarity equations.",
}


def main():
    out = []
    w = out.append
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    notes = {}
    for x in man["checks"]:
        notes[x["property"]] = x["technique"]
    w("## Properties\n")
    w("Cost is that of the last quick run on 8 cores. *VCs* are queries with the negated claim; *merged* is the number of")
    w("configurations decided by one merged run, of all configurations; *pinned* is the number of sampled paths left with a single")
    w("input, of the sampled paths (0/0: no path was explored, everything was merged).\n")
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        w("### %s  %s\n" % (pid, p["title"]))
        if pid in na:
            w("Not applicable. %s\n" % na[pid])
            continue
        m = importlib.import_module("props." + pid.lower())
        w("- Decided by: %s." % ("merged execution" if hasattr(m, "merged") else "path-by-path symbolic execution"))
        w("- Oracle: %s" % ORACLE[pid])
        w("- Bounds: %s." % m.BOUNDS.rstrip("."))
        w("- Outside: %s." % m.OUTSIDE.rstrip("."))
        for a in getattr(m, "ASSUMPTIONS", []):
            w("- Assumption: %s." % a.rstrip("."))
        f = os.path.join(HERE, "evidence", pid + ".json")
        if os.path.exists(f):
            e = json.load(open(f))
            c = e["coverage"]
            s = c.get("sampled_paths") or {}
            w("- Cost: %d s wall, %.0f s solver, %d VCs; merged %d of %d; pinned %d/%d." % (
                e["wall_s"], c["solver_s"], c["vc_queries"], c.get("merged_configurations") or 0, len(c.get("configurations") or []) or
                len([x for x in m.CONFIGS if "quick" in x.get("tiers", ["quick"])]),
                s.get("with_a_single_possible_input", 0), s.get("measured", 0)))
        w("- Beyond tests: %s\n" % p["why_tests_cant"])
    path = os.path.join(HERE, "DESIGN.md")
    head = open(path).read().split(MARK)[0]
    with open(path, "w") as f:
        f.write(head + MARK + "\n" + "\n".join(out))


main()
