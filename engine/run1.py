import sys, subprocess, time, os
sys.path.insert(0, os.path.dirname(__file__))
import irprep, llparse, interp, solver, terms
def build(src, out, inc=()):
    subprocess.run(['clang++-18','-std=c++20','-I/repo',*['-I'+i for i in inc],'-DVP_ENGINE','-DSTRICT_ERROR_EXCEPTIONS','-DSTRICT_REMOVE_NODISCARD','-ffp-contract=off','-O1','-Xclang','-disable-llvm-passes','-S','-emit-llvm','-w',src,'-o',out+'.0'],check=True)
    open(out+'.1','w').write(irprep.strip_strings(open(out+'.0').read()))
def one(out, h, budget=200):
    irprep.opt(out+'.1', out+'.'+h+'.ll',[h])
    m=llparse.parse(open(out+'.'+h+'.ll').read())
    terms.reset(); solver.reset()
    e=interp.Interp(m,budget)
    t0=time.time(); err=None
    try: e.run_harness(h)
    except (llparse.Unsupported, interp.Budget) as x:
        err=x
        if os.environ.get('TB'): import traceback; traceback.print_exc()
    bad=[o for o in e.obls if not o.ok]
    print(h,'ERR %s'%err if err else 'complete','obls',len(e.obls),'bad',len(bad),'%.1fs'%(time.time()-t0),'loops',e.loops_proved,'q',solver.STATS['queries'],'%.1f'%solver.STATS['time'])
    for o in bad[:6]: print('   BAD',o.kind,o.label,o.status,o.why[:300],o.inputs)
    return e,err
if __name__=='__main__':
    src=sys.argv[1]; out='/tmp/w/'+os.path.basename(src)[:-4]
    if 1: build(src,out,[os.path.dirname(os.path.abspath(src))])
    for h in sys.argv[2:]: one(out,h)
