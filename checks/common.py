import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"lib"))
sys.setrecursionlimit(20000)
from nsq import *
from flow import *
from ev import *
TIER="thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER","quick")
def main(prop,rule,body,level="other"):
    R=Report(prop,rule)
    try: body(R)
    except AnalysisError as e:
        if str(e).startswith("anchor"): print("error: "+str(e)); sys.exit(2)
        R.und("analysis stopped: %s"%e)
    except ToolError as e: print("error: "+str(e)); sys.exit(2)
    except Unknown as e: R.und("analysis stopped: %s"%e)
    except Exception as e:
        import traceback
        if os.environ.get("NSQ_DEBUG"): raise
        tb=traceback.extract_tb(e.__traceback__)[-1]
        R.und("analysis stopped: %s: %s (%s:%d)"%(type(e).__name__,e,os.path.basename(tb.filename),tb.lineno))
    sys.exit(R.finish(level,TIER))
