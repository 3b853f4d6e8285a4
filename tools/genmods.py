#!/usr/bin/env python3
"""Writes harness/src/mods.rs from the c*.rs files present."""
import glob,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/src')
ids=sorted(os.path.basename(f)[:-3] for f in glob.glob(d+'/c[0-9][0-9].rs'))
o='// generated by tools/genmods.py\n#[path = "../../harness/src/xml.rs"]\npub mod xml;\n#[path = "../../harness/src/pkg.rs"]\npub mod pkg;\n#[path = \"../../harness/src/deck.rs\"]\npub mod deck;\n#[path = "../../harness/src/schema.rs"]\npub mod schema;\n'
for i in ids: o+=f'#[cfg(feature = "{i}")]\n#[path = "{d and "../../harness/src/"+i+".rs"}"]\npub mod {i};\n'
o+='#[allow(dead_code)]\npub fn tables() -> Vec<&\'static [(&\'static str, extern "C-unwind" fn())]> {\n    #[allow(unused_mut)]\n    let mut t: Vec<&\'static [(&\'static str, extern "C-unwind" fn())]> = vec![];\n'
for i in ids: o+=f'    #[cfg(feature = "{i}")]\n    t.push({i}::TABLE);\n'
o+='    t\n}\n'
open(d+'/mods.rs','w').write(o)
