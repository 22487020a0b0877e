"""Prints DESIGN.md's table of planted bugs. Which checks catch what was found by running them."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ALSO = {
    "backshift-unpadded": "C17", "cstr-without-nul": "C01 C03 C04 C14 C16 C17 C18", "from-iter-index-wraps": "C16 C17",
    "grow-with-new-align": "C05 C08 C09 C11 C13 C14 C16 C17 C18", "insert-with-wants-padding": "C09 C11 C18",
    "last-align-only": "C06 C09 C11 C14 C18",
}
print("| bug | property: caught by its check | and by | what it needs |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    print(f"| {d} | {m['property']} | {ALSO.get(d, '')} | {m['needs']} |")
