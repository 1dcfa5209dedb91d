import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, jsonout
framework.main("C06", jsonout.check06, explain="writeJson and every write function are interpreted abstractly over all assets; each appended text drives a JSON push-down automaton (commas, brackets, member names, duplicate keys); prettyPrintJson is interpreted as a transducer: it may only add whitespace next to structural characters")
