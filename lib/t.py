import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, props
def main():
    pid = sys.argv[1]; only = sys.argv[2:] or None
    os.makedirs('/tmp/vw', exist_ok=True)
    for u in props.PROPS[pid]['units']:
        t = time.time()
        if only and not (set(only) & set(u.names())): continue
        for r in driver.verify_unit(u, '/tmp/vw', only=only):
            if not r['ok']: print('ERR', r['h'], r['err'], r.get('tb', '')); continue
            bad = [o for o in r['obls'] if o['status'] != 'proved']
            print(f"{r['h']}: paths {r['paths']}+{r['ended']} obligations {len(r['obls'])} bad {len(bad)} exec {r['t_exec']:.1f}s total {r['t']:.1f}s cover {r['covers']} cuts {r['cuts']}")
            seen = set()
            for o in bad:
                if o['name'] in seen: continue
                seen.add(o['name'])
                print('   ', o['status'], o['name'], o['goal'][:300], o.get('info'), o['model'], o['t'])
                if os.environ.get('PC'): print('\n'.join('        ' + x for x in o['pc']))
        if u.native and not os.environ.get('NONAT'):
            b = f'/tmp/vw/{u.src}.bin'
            rc, o, e = driver.compile_native(u, b)
            if rc: print(e[:2000]); continue
            for h in u.names():
                if only and h not in only: continue
                print('  native', h, *driver.native(b, h, 'search', 1, u.native_n[0]))
        print('unit', u.src, f'{time.time()-t:.1f}s')
main()
