import json,os,re,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv=['x','none']
src=open(os.path.join(root,'check.py')).read()
ns={}
exec(src[src.index('TECH = {'):src.index('def main')],ns)
TRUST=' Trusts the compiler front end and the library models; forms outside the models are reported as undecided, never as violations.'
def note(i):
    n=int(i[1:])
    if n in (17,18): return 'Decided for all texts: automata built from the grammar in the source are compared with those of the specification grammar. Trusts the reading of the grammar and the parser library.'
    if n==19: return 'Decided for all texts: captures followed through derived actions, marked languages compared by automata. Trusts the parser library.'+TRUST
    if n<10: return 'The output template is derived for all resolved schemas and judged as TypeScript syntax trees on 446 shapes (field kinds, pairs, nesting to depth 4, names and lengths the template mentions); a difference that shows only on other shapes is missed.'+TRUST
    if n in (10,11,12,13,14,25): return 'Outcome conditions are derived for all schemas and compared with the rules on schema schemes (about 2350, including names and lengths taken from the conditions).'+TRUST
    if n==15: return 'Panicking paths and endless recursion in the derived outcomes, judged on the schemes, shapes and texts of the other checks and larger ones. Stack exhaustion, borrow conflicts and loops of unrecognised form are not decided.'+TRUST
    if n==16: return 'Nondeterministic sources are terms in the derived outcomes, judged in five assignments on shapes and schemes.'+TRUST
    if n==20: return 'Outcomes of compile and of the display of errors, judged on 534 pairs of text and failing position, including numbers and strings taken from the code.'+TRUST
    return 'Outcomes and ordered file effects of main over an abstract file system, judged on file trees and failing operations; no symbolic links, Unix paths.'+TRUST
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
na=json.load(open(os.path.join(root,'tools','na.json'))) if os.path.exists(os.path.join(root,'tools','na.json')) else {}
checks=[];nal=[]
for p in props:
    i=p['id']
    if i in ns['TECH']:
        mod,tech=ns['TECH'][i]
        checks.append({'property':i,'quick_cmd':'python3 check.py '+i,'technique':'static analysis: '+tech,'level':'other',
          'level_note':note(i)})
    else:
        nal.append({'property':i,'reason':na.get(i,'check not built yet')})
m={'version':1,'setup_cmd':'bash tools/setup.sh','checks':checks,'not_applicable':nal,
 'notes':'All checks are static: they read /repo (source tokens, or MIR dumped by the compiler driver in driver/) on every run and execute nothing of it. See DESIGN.md.'}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
