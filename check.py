import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, 'analysis')); sys.path.insert(0, os.path.join(here, 'meta'))
import rt, engine
CH, INFO = {}, {}
for f in sorted(os.listdir(os.path.join(here, 'analysis'))):
    if f.startswith('p_') and f.endswith('.py'):
        m = importlib.import_module(f[:-3])
        CH.update(m.CHECKS); INFO.update(m.INFO)
if __name__ == '__main__':
    sys.exit(rt.main(sys.argv[1:], CH, INFO))
