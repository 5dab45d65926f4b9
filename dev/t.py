import sys,os; sys.path.insert(0,'/verif')
import lib,time
os.makedirs('/tmp/bc',exist_ok=True)
t=time.time(); print(lib.bitcode('/tmp/bc')); print(time.time()-t)
