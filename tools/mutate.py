"""auto.py WORKER SEED N CLASS -> random mutants of files, relevant checks until one kills"""
import sys,os,random,re,subprocess,shutil,hashlib,time
W,seed,N,cls=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
R='/tmp/mut'+W; 
CPP={'src/module/markov/markov.cpp':(10,'M02 M01 M03 M05 M04 M22 M20 M14'),
'src/module/markov/gamma3_updates.cpp':(3,'M02 M01 M03 M05 M04 M06 M14'),
'src/module/markov/markov_monitor.cpp':(3,'M06 M07 M15 M14 M17 M18'),
'src/module/markov/markov_diag_counter.cpp':(1,'M06 M07 M15 M17'),
'src/module/diagram/diagram.cpp':(2,'M02 M01 M05 M20 M14 M04'),
'src/module/diagram/diagram_check.cpp':(2,'M20 M01'),
'src/module/diagram/diagram_IO.cpp':(3,'M14 M02 M15'),
'src/module/diagram/component.cpp':(2,'M02 M01 M03 M14 M20'),
'src/module/diagram/component_bundle.cpp':(1,'M13 M01'),
'src/module/weight/gamma3.cpp':(4,'M21 M15 M18 M06 M08'),
'src/module/weight/component.cpp':(2,'M08 M06 M15 M18 M07'),
'src/module/weight/component_MC.cpp':(2,'M02 M08 M06 M21'),
'src/module/weight/index_map.cpp':(2,'M09 M08 M06'),
'src/module/weight/weight.cpp':(2,'M15 M18 M07 M14 M21'),
'src/module/weight/weight_array.cpp':(1,'M08 M15 M07'),
'src/module/weight/weight_array.h':(1,'M08 M15 M07'),
'src/module/weight/weight_estimator.cpp':(2,'M07 M15 M06 M18'),
'src/estimator/estimator.cpp':(3,'M07 M15 M17'),
'src/module/parameter/parameter.cpp':(2,'M15 M14 M18 M10'),
'src/environment/envMonteCarlo.cpp':(3,'M14 M18 M16 M15'),
'src/lattice/lattice.cpp':(1,'M09 M12 M08'),
'src/utility/complex.cpp':(2,'M11'),'src/utility/complex.h':(1,'M11'),
'src/utility/momentum.cpp':(2,'M12 M05'),'src/utility/momentum.h':(1,'M12'),
'src/utility/vector.h':(1,'M12'),'src/utility/vector.cpp':(1,'M12'),
'src/utility/rng.cpp':(1,'M10'),'src/utility/rng.h':(1,'M10'),
'src/utility/abort.cpp':(1,'M16'),'src/utility/abort.h':(1,'M16'),
'src/utility/dictionary.cpp':(1,'M19 M15'),'src/utility/dictionary.h':(1,'M19 M15'),
'src/utility/pyglue/type_cast.cpp':(2,'M19 M15'),'src/utility/pyglue/object.cpp':(2,'M19 M15'),
'src/utility/pyglue/pyarraywrapper.cpp':(1,'M19 M15'),'src/utility/pyglue/pywrapper.cpp':(1,'M19 M15'),
}
PY={'dyson/collect.py':(4,'D07 D14'),'dyson/calculator.py':(5,'D03 D04 D14 D16'),'dyson/weight.py':(5,'D02 D08 D01 D14 D12'),
'dyson/lattice.py':(6,'D05 D06'),'dyson/model.py':(6,'D06 D14 D05'),'dyson/main.py':(5,'D14 D13'),'dyson/measure.py':(2,'D16 D14'),
'dyson/gamma3_calc.py':(6,'D15 D12 D14 D10'),'dyson/parameter.py':(2,'D14 D11'),'dyson/logger.py':(1,'D13'),'IO.py':(1,'D09'),
'job_manager.py':(2,'D11'),'job_class.py':(2,'D11'),'basis.py':(1,'D10'),'dyson/r_index.py':(1,'D05 D06'),'dyson/solver/lu_slow.py':(1,'D01'),'dyson/solver/lu_fast.pyx':(1,'D01')}
T=CPP if cls=='cpp' else PY
T={f:v for f,v in T.items() if os.path.exists('/repo/'+f)}
if len(sys.argv)>5: T={f:v for f,v in T.items() if any(x in f for x in sys.argv[5].split(','))}
rnd=random.Random(seed)
def fresh():
    os.makedirs(R,exist_ok=True)
    subprocess.run("rsync -a --delete --exclude _build --exclude .git /repo/ %s/ 2>/dev/null || (rm -rf %s; mkdir %s; cp -a /repo/. %s/; rm -rf %s/_build %s/.git)"%(R,R,R,R,R,R),shell=True)
OPS=[(r'(?<![+\-e(,=<>*/])\+(?![+=])','-'),(r'(?<=[\w\])]) ?-(?![-=>])','+'),(r'(?<![*])\*(?![*=/])','/'),(r'(?<=[\w)]) ?< ?(?=[\w(])','<='),(r'(?<=[\w)]) ?> ?(?=[\w(])','>='),(r'<=','<'),(r'>=','>'),(r'==','!='),(r'!=','=='),
 (r'&&','||'),(r'\|\|','&&'),(r'\band\b','or'),(r'\bor\b','and'),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b2\b','1'),(r'\b1\.0\b','2.0'),(r'\b0\.5\b','1.0'),(r'\b2\.0\b','1.0'),
 (r'\bTrue\b','False'),(r'\bFalse\b','True'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bUP\b','DOWN'),(r'\bDOWN\b','UP'),(r'\bIN\b','OUT'),(r'\bOUT\b','IN'),(r'\+=','-='),(r'-=','+='),(r'\*=','/='),
 (r'\bi\b','j'),(r'\bj\b','i'),(r'\bt1\b','t2'),(r'\bt2\b','t1'),(r'\br1\b','r2'),(r'\br2\b','r1'),(r'\b(\w+)(\.conjugate\(\))',r'\1'),(r'\bnot ',''),(r'!(?=[\w(])',''),(r'\bA\b','B'),(r'\bB\b','A'),(r'\b(\w*)In\b',r'\1Out'),(r'"R"','"K"'),(r'"T"','"W"'),(r'np\.conj\(','('),(r'\bvinL\b','vinR'),(r'\bmin\(','max('),(r'\bfloor\(','ceil('),(r'\b_Beta\b','(2*_Beta)')]
def mutate(txt,f):
    lines=txt.split('\n'); inc=False; cand=[]
    for i,l in enumerate(lines):
        s=l.strip()
        if f.endswith('.py') or f.endswith('.pyx'):
            if s.startswith('#') or s.startswith(('import','from','print','log.','"""',"'''",'plot.')) or not s: continue
            if '__main__' in l and not f.startswith('dyson/main'): break
        else:
            if s.startswith(('//','#','/*','*','LOG_','ASSERT','ERRORCODE','template','using','namespace','class','struct','cout','std::cout','printf')) or not s or s in '{};' : continue
        cand.append(i)
    for _ in range(200):
        i=rnd.choice(cand); l=lines[i]
        if rnd.random()<0.12:
            s=l.strip(); ind=l[:len(l)-len(l.lstrip())]
            if f.endswith('.py'):
                if re.match(r'(return|if|else|elif|for|while|def|class|try|except|with|finally|raise|global|break|continue)\b',s) or s.endswith((',','(','\\',':')) or s.startswith(('"',"'",')','}')) or s.count('(')!=s.count(')'): continue
                new=ind+'pass'
            else:
                if not s.endswith(';') or re.match(r'(return|break|case|real|int|uint|bool|auto|Complex|vertex|gLine|wLine|const|public|private|friend|spin|Site|Momentum|string|Dictionary|double)\b',s) or s.count('(')!=s.count(')'): continue
                new=ind+';'
        else:
            code=l.split('//')[0] if not f.endswith('.py') else l.split('#')[0]
            ms=[(m,rep) for rx,rep in OPS for m in re.finditer(rx,code)]
            if not ms: continue
            m,rep=rnd.choice(ms); new=l[:m.start()]+m.expand(rep)+l[m.end():]
        if new==l: continue
        lines[i]=new
        return i+1,l.strip(),new.strip(),'\n'.join(lines)
fresh()
env=dict(os.environ,VERIF_REPO=R,VERIF_BUILD='/tmp/mutbuild'+W,VERIF_SEED='1',VERIF_TIER='quick')
fs=[f for f,v in T.items() for _ in range(v[0])]
done=set()
for n in range(N):
    f=rnd.choice(fs); txt=open('/repo/'+f).read(); r=mutate(txt,f)
    if not r: continue
    ln,old,new,t=r
    if (f,ln,new) in done: continue
    done.add((f,ln,new))
    open(R+'/'+f,'w').write(t); res='SURVIVED'; t0=time.time()
    for p in T[f][1].split():
        try: q=subprocess.run(['nice','-n','15','python3','/verif/tools/check.py',p,'--secs','14' if cls=='py' else '12','--jobs','4'],env=env,capture_output=True,text=True,timeout=500)
        except subprocess.TimeoutExpired: res='TIMEOUT '+p; break
        if q.returncode==1: res='killed '+p; break
        if q.returncode!=0: res='noanswer '+p+' '+(q.stdout+q.stderr)[-90:].replace('\n',' '); break
    open(R+'/'+f,'w').write(txt)
    with open('/tmp/auto.log','a') as o: o.write('%s | %s:%d | %s  ==>  %s | %ds\n'%(res,f,ln,old[:110],new[:110],time.time()-t0))
    subprocess.run('rm -rf /tmp/mutbuild%s/run-* ; find /tmp/mutbuild%s -name "*.o" -amin +90 -delete'%(W,W),shell=True)
