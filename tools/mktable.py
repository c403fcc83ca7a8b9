"""Fill the table of planted bugs in DESIGN.md from tools/seeds and tools/seeds/caught.json."""
import importlib.util, json, re
from pathlib import Path
root = Path(__file__).resolve().parent
caught = json.loads((root / 'seeds/caught.json').read_text()) if (root / 'seeds/caught.json').exists() else {}
rows = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted((root / 'seeds').glob('*.py')):
    spec = importlib.util.spec_from_file_location('s', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    rows.append(f'| {f.stem} | {m.PROPERTY} | {" ".join(m.BREAKS.split())} | {caught.get(f.stem, "not run")} |'.replace('||', '\\|\\|'))
p = root.parent / 'DESIGN.md'
t = p.read_text()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), t, flags=re.S)
p.write_text(t)
