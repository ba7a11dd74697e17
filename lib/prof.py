import sys, os, cProfile, pstats
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, props
pid, h = sys.argv[1:3]
os.makedirs('/tmp/vw', exist_ok=True)
for u in props.PROPS[pid]['units']:
    if h in u.names():
        driver.compile_ir(u, '/tmp/vw/p.ll'); m = driver.load_ir(u, '/tmp/vw/p.ll')
        import signal; signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(KeyboardInterrupt())); signal.alarm(int(os.environ.get("LIM","300")))
        pr = cProfile.Profile(); pr.enable()
        try: ex = driver.execute(u, m, h); print(len(ex.obls), ex.nret)
        except BaseException as e: print(repr(e))
        pr.disable(); pstats.Stats(pr).sort_stats('tottime').print_stats(22)
