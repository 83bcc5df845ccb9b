"""Lambda property: the call sites are generated before the harness is compiled"""
import os, shutil, subprocess, sys
import build as B
import pbt

GEN = os.path.join(pbt.VERIF, "lib", "gen_lambda.py")


class LambdaProp(pbt.JavaProp):
    def setup(self):
        out = os.path.join(B.WORK, "lambda-" + pbt.files_hash([GEN]))
        with B.Lock("lambda"):
            if not os.path.exists(out + "/.ok"):
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                subprocess.run([sys.executable, GEN, out], check=True)
                open(out + "/.ok", "w").close()
        self.files = ["java/vp/LambdaProp.java", out + "/LambdaSites.java"]
        pbt.JavaProp.setup(self)
