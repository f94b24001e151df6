import sys; sys.path.insert(0,'/verif/tools')
import vbuild,os
w=sys.argv[1]; os.makedirs(w,exist_ok=True)
print(vbuild.build(w,sys.argv[2:])[1])
