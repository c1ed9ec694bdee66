"""Writes rules/spec/ri.json, the frozen description of the request interface
(ValidScope, Range, Length, IClassLengths of each request).  Run once; the
result was reviewed and is committed, the rules never read ri.xml."""
import json, xml.etree.ElementTree as ET
root = ET.parse('/repo/libs/riutil/ri.xml').getroot()
out = {}
for p in root.findall('Procedures/Procedure'):
    name = p.findtext('Name')
    args, cargs = [], []
    for a in p.findall('Arguments/Argument'):
        d = {'n': a.findtext('Name'), 't': a.findtext('Type')}
        if a.find('Length') is not None: d['len'] = a.findtext('Length')
        if a.find('RiLength') is not None: d['rilen'] = a.findtext('RiLength')
        r = a.find('Range')
        if r is not None: d['range'] = [[c.tag, c.text.strip()] for c in r]
        if a.find('RibValue') is not None: d['rib'] = a.findtext('RibValue') or ''
        if a.find('AltTypeInt') is not None: d['alt'] = 1
        cargs.append(d)
        if a.find('RibValue') is None: args.append(d)
    e = {'args': args, 'cargs': cargs, 'ret': p.findtext('ReturnType'),
         'plist': p.find('Arguments/ParamList') is not None,
         'required': [x.text for x in p.findall('Arguments/ParamList/Param')],
         'arr': p.find('Arguments/RibArgsCanBeArray') is not None,
         'rib': p.find('Rib') is not None,
         'scopes': sorted(s.tag for s in p.findall('ValidScope/*') if s.tag not in ('Outside', 'If', 'Resource'))}
    ic = p.find('IClassLengths')
    if ic is not None:
        e['iclass'] = {c.tag: (c.text or '').strip() for c in ic}
    out[name] = e
out['NuPatch']['iclass']['Uniform'] = '(1+nu-uorder)*(1+nv-vorder)'
json.dump(out, open('rules/spec/ri.json', 'w'), indent=0, sort_keys=True)
print(len(out), sum(e['rib'] for e in out.values()))
print({k: v['iclass'] for k, v in out.items() if 'iclass' in v})
print({k: (a['n'], a['range']) for k, v in out.items() for a in v['args'] if 'range' in a})
