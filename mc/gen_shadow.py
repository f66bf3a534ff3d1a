#!/usr/bin/env python3
"""Regenerates shadow/<package>/Cargo.toml: same dependencies as the repository crate, but with the
library root pointing straight at /repo's source and dependencies resolved to shims/."""
import tomllib, pathlib
R = pathlib.Path('/repo')
OUT = pathlib.Path(__file__).parent / 'shadow'
CR = {'trin-metrics':'crates/metrics','trin-utils':'crates/utils','trin-storage':'crates/storage','trin-validation':'crates/validation',
      'portalnet':'crates/portalnet','light-client':'crates/light-client','trin-beacon':'crates/subnetworks/beacon',
      'trin-legacy-history':'crates/subnetworks/legacy-history','trin-state':'crates/subnetworks/state','e2store':'crates/e2store'}
for name, path in CR.items():
    t = tomllib.load(open(R/path/'Cargo.toml','rb'))
    d = OUT/name
    d.mkdir(parents=True, exist_ok=True)
    lib = t.get('lib',{}).get('name', t['package']['name'].replace('-','_'))
    s = f'[package]\nname = "{t["package"]["name"]}"\nversion = "0.1.0"\nedition = "2021"\nautotests = false\nautobenches = false\nautobins = false\n'
    if name == 'trin-validation': s += 'build = "build.rs"\n'
    s += f'\n[lib]\nname = "{lib}"\npath = "/repo/{path}/src/lib.rs"\ndoctest = false\n'
    deps = dict(t.get('dependencies',{}))
    deps.update(t.get('target',{}).get('cfg(not(windows))',{}).get('dependencies',{}))
    for sec, ds in (('dependencies', deps), ('dev-dependencies', t.get('dev-dependencies',{}))):
        s += f'\n[{sec}]\n'
        for k, v in sorted(ds.items()):
            f = v.get('features') if isinstance(v, dict) else None
            opt = ', optional = true' if isinstance(v, dict) and v.get('optional') else ''
            s += f'{k} = {{ workspace = true{opt} }}\n'
    if t.get('features'):
        s += '\n[features]\n' + ''.join(f'{k} = {v}\n'.replace("'", '"') for k,v in t['features'].items())
    (d/'Cargo.toml').write_text(s)
