import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, numrange
framework.main("C13", numrange.check, explain="each integer of the document in turn is assumed larger than every bound it is not compared with; no path of the abstract interpretation may use it as an index, in a computed size, in a memory function or as an enumerator")
