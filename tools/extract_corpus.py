import re,sys,json,pathlib,warnings
warnings.simplefilter('ignore')
sys.path.insert(0,'/repo')
import ast
from triples.utils import preprocess_text
import sympy as sp
cands=[]
for p in sorted(pathlib.Path('/repo/triples').rglob('*.py')):
    src=p.read_text()
    tree=ast.parse(src)
    for node in ast.walk(tree):
        if isinstance(node,(ast.FunctionDef,ast.ClassDef,ast.Module)):
            d=ast.get_docstring(node)
            if not d: continue
            for line in d.split('\n'):
                line=line.strip()
                line=re.split(r'\s{2,}\(|\s+\(real|\s+\(HINT',line)[0].strip()
                line=line.split('=>')[0].strip()
                if not line or not re.search(r'[sp]\(',line) and not re.match(r'^[0-9a-z()^+\-*/ ]+$',line): continue
                if re.search(r'[A-Z_=:,"\'>]|\b(the|is|for|when|from|and|of|by)\b',line): continue
                if len(line)<4: continue
                cands.append((str(p.relative_to('/repo')),node.name if hasattr(node,'name') else '',line))
out=[];seen=set()
for f,name,line in cands:
    try:
        P=preprocess_text(line,return_type='poly') 
    except Exception as e:
        print('skip',f,name,line,repr(e)[:80]); continue
    if P is None or P.is_zero or P.total_degree()<2: print('skip2',f,name,line); continue
    gens=P.gens
    terms=[[str(c),list(m)] for m,c in P.terms()]
    k=json.dumps(terms)
    if k in seen: continue
    seen.add(k)
    out.append({'src':f.replace('triples/core/',''),'fn':name,'text':line,'gens':[str(g) for g in gens],'terms':terms})
json.dump(out,open('/verif/corpus/doc_inequalities.json','w'),indent=0)
print(len(out))
