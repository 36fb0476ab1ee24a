"""Write MANIFEST.json from the table below: python3 driver/manifest.py."""
import json, os

TECH = "TLA+ specification checked with TLC; conformance in both directions"
NOTES = {
    "C01": "The grammar and the scoping rules are specified (Syntax.tla) and model-checked against printing, renaming of binders and completeness on every token sequence and program up to a bound; the same sequences and thousands of longer random programs are run through the real parser and resolver and each outcome is judged by the specification.",
    "C03": "Expansion is specified as capture-avoiding substitution and model-checked as a rewriting machine against a named-variable semantics on all small terms; every small term and thousands of random ones (to size 30) are expanded by the real code and judged. Programs whose expansion diverges are not tried.",
    "C04": "The typing rules are specified as least fixed points; every small grammar and thousands of larger ones (accepted ones, near misses, arbitrary terms) go through the real checker, and acceptance, the first violation and every subterm's type are judged.",
    "C02": "Every short token sequence and small program of the common syntax, and thousands of larger random ones in random layouts and escapes, go through both real front ends; both outcomes are judged by the specification of the language, so common mistakes show too.",
    "C05": "The typing rules are model-checked against the language semantics on every small grammar; for every small grammar and thousands of larger ones the real checker's nullability, first and follow sets are compared with the strings the specification's semantics generates, up to a length.",
    "C09": "The stream is specified as a machine over every interleaving of next, peek and position queries; all short sources with all short histories and thousands of random ones are run on the real stream (with the pulls on the source counted) and judged.",
    "C10": "Generated code for every small accepted grammar and over a thousand larger ones is compiled by rustc and compared across repetition, relocation and processes; the specification says which must compile.",
    "C11": "Name propagation is specified through all stages, including the Rust identifiers derived from names; generated types are read back with syn and compared exactly.",
    "C12": "The tools are specified as processes with faulty input and output around the specified compiler; over a thousand programs (valid and wrong in every way) and odd byte strings are run through both real binaries, also with a full or closed output, and hundreds through the macro under rustc, comparing diagnostics and the resulting parsers' runs.",
    "C13": "The primitives are specified on top of the stream and model-checked against their contracts; all short call histories and thousands of random ones are run on the real library and judged.",
    "C14": "Arithmetic is specified over integers of any size and model-checked against a shift-reduce machine on every short token sequence; every short text, every short token sequence and thousands of longer texts are run through the three real parsers and judged.",
    "C15": "Reading JSON is specified and model-checked against a stack machine on every short token sequence and against printing; all small documents, thousands of random ones and the printed form of thousands of values are run through the three real parsers and judged.",
    "C16": "The specification carries token places through reading, expansion and typing; the place in the real diagnostic is compared on every small program and thousands of larger ones, when both agree what is wrong.",
    "C17": "Equality, hashing and names are compared on thousands of pairs against the specification's notion of equal; rendering is specified and checked by reading the real output back, on all short sequences and thousands of programs.",
    "C06": "A deterministic one-character-lookahead machine is specified and model-checked against the language semantics on every accepted grammar up to a size; every small grammar with every short word and hundreds of larger ones with words of their language, damaged ones and look-alikes are compiled to real parsers, and acceptance, the consumed prefix, agreement of the string, iterator, boxed and trait-object entry points, and termination are judged by the specification.",
    "C07": "As C06, judging the tree: its text, its shape against the specification's tree, and conversions to characters.",
    "C08": "As C06, judging the failure: kind, position, what was found and expected, and the rendered message.",
    "C18": "What every diagnostic has to say is specified on top of the rejection the compiler specification gives (rule, identifier, counts); the texts of every rejection of every small program, of thousands of larger ones and of thousands of arbitrary terms are read back and judged.",
}
TODO = []


def main():
    m = {
        "version": 1,
        "setup_cmd": "python3 driver/setup.py",
        "hooks": {"guard": "none: no hooks are needed", "enable": "nothing to enable", "source_commits": []},
        "checks": [
            {"property": p, "quick_cmd": "python3 check.py " + p,
             "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
             "evidence_file": "evidence/%s.json" % p,
             "technique": TECH, "level": "model_checking", "level_note": n}
            for p, n in sorted(NOTES.items())],
        "not_applicable": [{"property": p, "reason": "check under construction"} for p in TODO if p not in NOTES],
        "notes": "See DESIGN.md.",
    }
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
