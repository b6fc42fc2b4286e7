import sys,json
d=json.load(sys.stdin)
if 'error' in d: print("ERROR",d['error']); sys.exit(3)
for e in d['entries']:
    if e.get('missing'): print("MISSING",e['entry']); continue
    print(f"== {e['entry']} runs={e['runs']} ends={e['ends']} steps={e['steps']} ms={e['ms']} fns={len(e['fns'])} models={e['models']}")
    if "-c" in sys.argv: print("   checks:",e["checks"])
    for f in e['fails']: print("   FAIL",f)
    for v in e['events']:
        print("   EVENT",v['kind'],v['id'],v['detail'],'parts',v['parts'])
        st=v['stack']
        st=[s.replace('/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/src/rust/library/','~').replace('jpeg_encoder::','') for s in st]
        print("        ", " > ".join(st[-6:]))
