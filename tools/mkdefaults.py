"""Records the default values of all parameters in /repo/src/dga (part of the interface): engine/defaults.json.
Concrete evaluations leave out arguments that equal the recorded default, so a changed default is seen by the contract itself."""
import ast, json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob('/repo/src/dga/*.py')):
    m = os.path.basename(f)[:-3]

    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, pre + n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                a = n.args
                if a.vararg or a.posonlyargs:
                    continue
                d = {}
                for p, v in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(p, v) for p, v in zip(a.kwonlyargs, a.kw_defaults) if v]:
                    try:
                        ast.literal_eval(v)
                    except ValueError:
                        continue
                    d[p.arg] = ast.unparse(v)
                if d:
                    out[f'{m}.{pre}{n.name}'] = d
    walk(ast.parse(open(f).read()).body, '')
json.dump(out, open(H + '/engine/defaults.json', 'w'), indent=0, sort_keys=True)
print(len(out))
