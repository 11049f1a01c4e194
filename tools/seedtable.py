"""Write the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
mark = "## Which check catches which planted bug"
text = (V / "DESIGN.md").read_text().split(mark)[0].rstrip() + "\n\n"
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| `{d.name}` | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
text += (
    f"{mark}\n\n{len(rows)} bugs; each is caught by the quick tier of the check of its own property (second column;\n"
    "confirmed with `tools/seedcheck.py`). Those which a check missed when they were planted led to the extension of its drivers.\n\n"
    "| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
)
(V / "DESIGN.md").write_text(text)
print(len(rows))
