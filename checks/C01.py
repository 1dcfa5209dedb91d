import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, errors
framework.main("C01", errors.check, explain="each call that reports an error is forced to fail in an abstract interpretation of the function around it; no exit that may report success may be reachable afterwards")
