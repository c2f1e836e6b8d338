import ast,glob,os,textwrap,json
out=[]
for f in sorted(glob.glob('/repo/tests/test_*.py')+glob.glob('/repo/tests/torchvision_tests/*.py')+glob.glob('/repo/tests/flash_attn_tests/*.py')+glob.glob('/repo/tests/transformers/*.py')):
    src=open(f).read()
    try: t=ast.parse(src)
    except Exception as e: print(f,e); continue
    for fn in ast.walk(t):
        if isinstance(fn,ast.FunctionDef):
            for n in ast.walk(fn):
                if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name) and 'torch' in n.targets[0].id:
                    for c in ast.walk(n.value):
                        if isinstance(c,ast.Constant) and isinstance(c.value,str) and len(c.value)>20:
                            code=textwrap.dedent(c.value).strip()+'\n'
                            try: ast.parse(code)
                            except SyntaxError: continue
                            out.append((os.path.basename(f)[:-3]+'.'+fn.name,code))
print(len(out),sum(len(c) for _,c in out))
json.dump(out,open('/tmp/x/all.json','w'))
