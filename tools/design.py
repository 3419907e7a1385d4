"""Fill the generated lists of DESIGN.md: repaired defects (known_findings.json) and planted bugs (seeded/*/meta.json)."""
import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
STATUS = ROOT / "tools" / "seeds_status.json"


def block(text, tag, body):
    return re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + body + m.group(2), text, flags=re.S)


def main():
    known = json.loads((ROOT / "known_findings.json").read_text())
    fixed = "".join(f"* {e}\n" if isinstance(e, str) else f"* {json.dumps(e)}\n" for e in known["fixed"])
    status = json.loads(STATUS.read_text()) if STATUS.exists() else {}
    rows = "| planted bug | property | needs | result |\n|---|---|---|---|\n"
    for meta in sorted((ROOT / "seeded").glob("*/meta.json")):
        m = json.loads(meta.read_text())
        name = meta.parent.name
        rows += f"| {name} | {m['property']} | {m['needs']} | {status.get(name, '?')} |\n"
    path = ROOT / "DESIGN.md"
    text = path.read_text()
    text = block(text, "fixed", fixed)
    text = block(text, "seeds", rows)
    path.write_text(text)


main()
