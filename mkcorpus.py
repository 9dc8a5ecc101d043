# Regenerates corpus/corpus.bin (done once; the file is committed).
import vbuild,subprocess
b=vbuild.build_harness("mkcorpus","fast",[vbuild.build_lib("fast")])
subprocess.check_call([b,vbuild.VERIF+"/corpus/corpus.bin"])
