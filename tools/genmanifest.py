#!/usr/bin/env python3
"""writes MANIFEST.json from the list of implemented checks and properties.jsonl"""
import json,re,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
impl=set()
for f in os.listdir(V+'/analyzer'):
    if f.endswith('.go'):
        impl|=set(re.findall(r'checks\["(C\d+)"\]',open(V+'/analyzer/'+f).read()))
tech={
'C01':'panic-obligation analysis (nil, bounds, type assertions, exits) under path conditions on gated SSA',
'C02':'termination analysis: loop progress and recursion descent on gated SSA',
'C03':'shape analysis: abstract interpretation of the SSA of the tree mutators over summarised child lists',
'C22':'shape and sequence abstract interpretation of the SSA of the element queries and views',
'C21':'gated-SSA dataflow of the parser, split per token kind; constant-table audit',
'C04':'sequence abstract interpretation of the serializer SSA over summarised child lists; dataflow provenance of every written piece; constant-table audit',
'C08':'field-based may-alias / effect analysis on SSA',
'C09':'effect analysis: classification of every external call and global of the library',
'C20':'path-sensitive dataflow over the command line tool',
}
NA=json.load(open(V+'/tools/not_applicable.json'))
m={'version':1,'setup_cmd':'bash run.sh build','checks':[],'not_applicable':[],
'notes':'All checks are static: they type-check /repo\'s working tree, build SSA and run dataflow analyses over it; no code of the library is executed.'}
for p in props:
    i=p['id']
    if i in impl and i not in NA:
        m['checks'].append({'property':i,'quick_cmd':'bash run.sh '+i,'thorough_cmd':'bash run.sh '+i,
          'technique':tech.get(i,'path-sensitive dataflow over gated SSA (BDD-guarded value graph), whole-program, loops abstracted'),
          'level':'other','level_note':'Static analysis of the type-checked SSA of the current working tree: covers all inputs within the abstraction (loops as arbitrary rounds, DOM operations by contract, library functions as documented). Reports only constructs it positively identifies; see DESIGN.md for what each rule trusts.'})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'no check built yet')})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks',[x['property'] for x in m['not_applicable']])
