#!/usr/bin/env python3
# Writes DESIGN.md from design_head.md, the properties, notes.py, the specs, the findings and the planted changes.
import json,glob,os
from notes import N
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O={
'C01':'a set of edges kept by the harness beside the machine; every answer of Transition/Allowable/State is compared with it',
'C02':'as C01, plus the list of all nonces seen: an attempt succeeds iff the bytes given equal the current nonce, and no value returns',
'C03':'the sum of the adds; concurrent runs also bracket each read between the sum of adds that had returned and those that had begun',
'C04':'a reference window kept with the clock readings taken before and after each call (a bracket, so how often the code reads the clock is free)',
'C05':'the list of windows that were closed, filtered by the two limits; a deep copy of each returned history compared again at the end',
'C06':'the list of everything recorded; its tail padded with zeros',
'C07':'the transform notes what it was given; the concatenation over all ticks must be the recorded observations, each once, in per-goroutine order',
'C08':'sum/mean/min/max computed by the harness',
'C09':'the documented shape built from the sorted keys; injectivity as an assertion over two symbolic names',
'C10':'mean, variance and limit recomputed from the harness’s own list of observations',
'C11':'first crossing computed from the harness’s own smoothed value',
'C12':'a twin detector that never sees the undefined observation',
'C13':'stand-alone statistics fed the same observations',
'C14':'the linear relation between log(rate) and k, monotonicity, finiteness',
'C15':'multiset of deliveries expected from the topics of each subscriber at dispatch',
'C16':'completion of every call (deadlock and panic detection), closed channels, silence afterwards',
'C17':'channel closed, result nil iff all acknowledged, error only once the context is done',
'C18':'the tail of the list of added strings',
'C19':'the lines of the bytes produced (split at \\n, trailing \\r removed as Go’s line scanner does) against each sink, the events and the history',
'C20':'number of events ≤ ticks, none after shutdown; no live goroutine, no active timer',
'C21':'an independent decimal parser over the symbolic text; for combinations the number of invalid options',
'C22':'the configuration (observed through monny.New and its fields) obtained from the other form',
'C23':'for literals a naive substring search over symbolic bytes; for other patterns the places the regexp package finds when called by the harness on the text the JSON document is known to have',
'C24':'the lines of the bytes produced; monny’s own streams byte for byte',
'C25':'the status, files, limits and signals the harness chose',
'C26':'the reasons expected from switches, limits and match times',
'C27':'every expected report was acknowledged when Wait returns (or when os.Exit is called in main)',
'C28':'the fields of the transmitted report against the Command and the harness’s own record of the run',
'C29':'credentials and target recorded at every dial',
'C30':'the protobuf name tables',
'C31':'Knuth’s algorithm over the same draws',
'C32':'a deep copy of the value taken before publishing',
'C33':'every string of user data contains a marker; no reported error contains it',
'C34':'the recorded process: program, arguments, bytes on its stdin, number of starts',
}
W={
'C01':'tests walk one three-edge graph','C02':'tests use one right and one wrong nonce','C03':'tests cannot enumerate interleavings','C04':'tests sleep for real','C05':'aliasing shows only after later calls','C06':'index arithmetic over all counts','C07':'tick/record/stop races','C08':'NaN, infinities, sign patterns','C09':'map order; pairs of names','C10':'all observations, all parameters','C11':'exact crossing, histories','C12':'any position of a bad value','C13':'combinations of states','C14':'all rates','C15':'delivery under every schedule','C16':'races between subscribe, dispatch, unsubscribe, shutdown','C17':'acknowledgement at any moment','C18':'aliasing, capacities 0 and 1','C19':'chunking, sink failures, option orders','C20':'shutdown at any moment','C21':'all texts','C22':'all settings, forms, map orders','C23':'all lines','C24':'all bytes and chunkings','C25':'timing of end, limit and signal','C26':'combinations of switches, histories of matches','C27':'failure sequences × schedules','C28':'values at the time of sending','C29':'option combinations, retries','C30':'all 2³² values','C31':'all draws','C32':'aliasing after publishing','C33':'every failing place','C34':'all arguments and inputs',
}
ps=[json.loads(l) for l in open(root+'/properties.jsonl')]
times=json.load(open(root+'/tools/times.json'))
out=[open(root+'/tools/design_head.md').read()]
out.append('## The properties\n\nFor each: harnesses with their quick arguments (thorough in brackets), what is symbolic within which bound, the oracle, what tests cannot reach, what lies outside, and the wall time of the quick check here.\n')
for p in ps:
    i=p['id']; s=json.load(open(f'{root}/specs/{i}.json')); b,o,a=N[i]
    out.append(f"### {i} {p['title']}\n")
    hs=[]
    for h in s['harnesses']:
        hs.append(f"{h['pkg']}.{h['func']} {json.dumps(h['quick']).replace(' ','')}"+(f" [{json.dumps(h['thorough']).replace(' ','')}]" if 'thorough' in h else '')+(' native' if h.get('native') else ''))
    out.append('- harnesses: '+'; '.join(hs))
    out.append(f'- bound: {b}')
    out.append(f'- oracle: {O[i]}')
    out.append(f'- beyond tests: {W[i]}')
    if o: out.append(f'- outside: {o}')
    rest=[x for x in a if not x.startswith('the encoding of Go')]
    if rest: out.append('- assumes: '+'; '.join(rest))
    if i in times: out.append(f'- quick: {times[i]} s')
    out.append('')
out.append(open(root+'/tools/design_tail.md').read())
F=json.load(open(root+'/known_findings.json'))['findings']
out.append('\n## Defects of BTBurke/monny\n\nFound by the checks (the counterexample was shown against the real code) and repaired by one commit each:\n')
seen=set()
for f in F:
    if f['fixed']:
        c=f['fixed'].split()[2]
        if c in seen: continue
        seen.add(c)
        q=' '.join(g['property'] for g in F if c in g['fixed'])
        out.append(f"- {q} `{c}`: {f['what']}")
op=[f for f in F if not f['fixed']]
out.append('\nOpen findings: '+('none.' if not op else ''))
for f in op: out.append(f"- {f['property']}: {f['what']} ({f['where']})")
M=json.load(open(root+'/tools/missed.json'))
out.append('\n## Planted changes\n\nEach compiles, passes the stable tests and has a demonstration. All are caught by the quick check of their property now; the last column tells what had to be strengthened when a check missed it at first.\n\n| change | what it breaks | needs | missed at first: what was added |\n|---|---|---|---|')
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    e=lambda t: t.replace('|','/').replace('\n',' ')
    out.append(f"| {n} | {e(m['what_it_breaks'])} | {e(m['needs'])} | {M.get(n,'')} |")
open(root+'/DESIGN.md','w').write('\n'.join(out)+'\n')
